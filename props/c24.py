import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from symtorch.driver import Suite
from symtorch.h import *
from .kin import REVS, PRIS, SERIAL
from .iks import robot, Stub

SUITE = Suite('C24', ['ik.InverseKinematics.__init__', 'ik.InverseKinematics.clear', 'ik.InverseKinematics.sample_configs',
                      'ik.PseudoInverseIK.solve', 'ik.IKSolution.update', 'ik.IKSolution.update_remaining_with_keep_mask',
                      'ik.gaussian_around_config'],
    'All histories of end effector positions (hence of pose errors) over up to 3 (thorough: 5) iterations, 1-2 problems with '
    '1-2 attempts (thorough: 3), every early-stopping mode and patience 0-2; initial configurations given per attempt or '
    'drawn, all draws; two solves in a row. The robot\'s pose and Jacobian computation is replaced by arbitrary values.')


def target_of(c, N, tag=''):
    tp = c.real('tp' + tag, (N, 3))
    return tp, pk.Transform3d(matrix=make44(torch.eye(3, dtype=D64).repeat(N, 1, 1), tp))


def simulate(c, stub, tp, N, M, limit, tol, any_converged, mode, patience):
    """the documented stopping rules on the recorded poses"""
    left = torch.ones(N, dtype=torch.bool)
    best, count = None, None
    it = 0
    while it < limit and bool(left.any()):
        c.true('not stopped before a rule applies', it < len(stub.calls))
        p = stub.calls[it][2][:, :3, 3].reshape(N, M, 3)
        d = tp[:, None] - p
        e = torch.sqrt((d * d).sum(-1))
        it += 1
        if any_converged:
            left = left & ~(e < tol).any(1)
        if mode is not None:
            if best is None:
                best, count = e, torch.zeros(N, M, dtype=D64)
            else:
                better = e < best
                best = torch.where(better, e, best)
                count = torch.where(better, torch.zeros_like(count), count + 1)
                could = count <= patience
                if mode == 'all':
                    left = left & could.all(1)
                elif mode == 'any':
                    left = left & could.any(1)
                else:
                    left = left & (could.to(D64).sum(1) > mode * M)
    return it


def stopping(N, M, limit, any_converged=False, mode=None, patience=2, twice=False, cls=K.PseudoInverseIK):
    def body(c):
        chain = robot(c, PRIS)
        stub = Stub(c, N * M, 2, rot=False)
        chain.jacobian_tensor = stub
        q0 = c.real('q', (M, 2))
        keep = q0.clone()
        tol = 0.5
        s = cls(chain, retry_configs=q0, max_iterations=limit, pos_tolerance=tol, rot_tolerance=0.25,
                enforce_joint_limits=False, early_stopping_any_converged=any_converged, early_stopping_no_improvement=mode,
                early_stopping_no_improvement_patience=patience)
        tp, target = target_of(c, N)
        for turn in range(2 if twice else 1):
            if turn:
                stub.calls = []
                stub.tag = 'again'
            sol = s.solve(target)
            it = simulate(c, stub, tp, N, M, limit, tol, any_converged, mode, patience)
            c.true('iterations', sol.iterations == it and it <= limit)
            c.eq('starts at the given configurations', stub.calls[0][0], keep.repeat(N, 1))
            c.eq('given configurations unchanged', q0, keep)
            # one new set of joint values per iteration
            seen = []
            for q, _, _ in stub.calls:
                ids = str(ids_list(q))
                if not seen or seen[-1] != ids:
                    seen.append(ids)
            c.true('steps taken', len(seen) <= it + 1)
    return body


def ids_list(t):
    return t.ids.flatten().tolist() if hasattr(t, 'ids') else t.flatten().tolist()


SUITE.add('limit_only', stopping(2, 2, 2), defined=False)
SUITE.add('none_converging', stopping(1, 1, 3, mode=None), defined=False)
SUITE.add('any_converged_2_1', stopping(2, 1, 2, True), defined=False)
SUITE.add('any_converged_1_2', stopping(1, 2, 3, True), defined=False)
SUITE.add('patience_0', stopping(1, 1, 3, mode='any', patience=0), defined=False)
SUITE.add('patience_1_all', stopping(1, 2, 4, mode='all', patience=1), defined=False)
SUITE.add('patience_1_any', stopping(1, 2, 4, mode='any', patience=1), defined=False)
SUITE.add('patience_ratio', stopping(1, 2, 3, mode=0.75, patience=0), defined=False)
SUITE.add('patience_low_ratio', stopping(1, 2, 3, mode=0.25, patience=0), defined=False)
SUITE.add('patience_2_problems', stopping(2, 1, 3, mode='any', patience=0), defined=False)
SUITE.add('both_rules', stopping(2, 1, 3, True, mode='all', patience=0), defined=False)
SUITE.add('patience_2', stopping(1, 1, 5, mode='any', patience=2), defined=False)
SUITE.add('consecutive', stopping(1, 1, 5, mode='all', patience=1), defined=False)
SUITE.add('patience_2_2', stopping(2, 2, 3, mode='any', patience=0), defined=False, tier='thorough', max_paths=300)
SUITE.add('ratio_3', stopping(1, 3, 3, mode=0.5, patience=0), defined=False, tier='thorough', max_paths=300)
SUITE.add('patience_2_long', stopping(1, 2, 5, mode='all', patience=2), defined=False, tier='thorough', max_paths=300)


class Function(Stub):
    """the same joint values reach the same pose: the k-th evaluation of every solve meets the same joint values"""
    def __call__(self, q, ret=False):
        i = len(self.calls)
        if i >= len(self.known):
            J, m = Stub.__call__(self, q, ret)
            self.known.append((J, m))
        else:
            J, m = self.known[i]
            self.calls.append((q.clone(), J, m))
        return J, m


def again(N, M, limit, **kw):
    """solving the same problem again on the same solver, another problem in between"""
    def body(c):
        chain = robot(c, PRIS)
        stub = Function(c, N * M, 2, rot=False)
        stub.known = []
        chain.jacobian_tensor = stub
        q0 = c.real('q', (M, 2))
        s = K.PseudoInverseIK(chain, retry_configs=q0.clone(), max_iterations=limit, pos_tolerance=0.5, rot_tolerance=0.25,
                              enforce_joint_limits=False, **kw)
        tp, target = target_of(c, N)
        first = s.solve(target)
        n, old = first.iterations, [x.clone() for x in (first.solutions, first.err_pos, first.err_rot, first.converged, first.converged_any)]
        a, stub.calls = [x[0] for x in stub.calls], []
        second = s.solve(target)
        b = [x[0] for x in stub.calls]
        c.true('as many iterations', second.iterations == n and len(a) == len(b))
        for x, y in zip(a, b):
            c.eq('same joint values', y, x)
        for x, y in zip(old, (second.solutions, second.err_pos, second.err_rot, second.converged, second.converged_any)):
            c.eq('same answer', y, x)
        for x, y in zip(old, (first.solutions, first.err_pos, first.err_rot, first.converged, first.converged_any)):
            c.eq('earlier answer untouched', y, x)
    return body


SUITE.add('again', again(1, 2, 2), defined=False)
SUITE.add('again_patience', again(2, 1, 3, early_stopping_no_improvement_patience=0), defined=False)
SUITE.add('again_any', again(1, 2, 2, early_stopping_any_converged=True), defined=False)


def configs(kind, M=2, lim_dtype=D64):
    """where the initial configurations come from"""
    def body(c):
        chain = robot(c, SERIAL)
        dof, N = 3, 2
        stub = Stub(c, N * M, dof, rot=False, jac=False)
        chain.jacobian_tensor = stub
        kw, draws = {}, []

        def drawn(v):
            draws.append(v)
        if kind == 'uniform':
            lim = c.real('lim', (dof, 2))
            for j in range(dof):
                c.assume(lim[j, 0] <= lim[j, 1])
            kw = dict(num_retries=M, joint_limits=lim.to(lim_dtype, copy=True))
        elif kind == 'gaussian':
            kw = dict(num_retries=M, config_sampling_method='gaussian')
        elif kind == 'function':
            own = c.real('own', (M, dof))
            asked = []
            kw = dict(num_retries=M, config_sampling_method=lambda n: (asked.append(n), own.clone())[1])
        elif kind == 'around':
            base, std = c.real('base', (dof,)), c.scalar('std', 0, 2)
            kw = dict(num_retries=M, config_sampling_method=K.gaussian_around_config(base.clone(), std))
        elif kind == 'per_problem':
            own = c.real('own', (N * M, dof))
            kw = dict(retry_configs=own.reshape(N, M, dof).clone())
        s = K.PseudoInverseIK(chain, max_iterations=1, enforce_joint_limits=False, **kw)
        tp, target = target_of(c, N)
        s.solve(target)
        q = stub.calls[0][0]
        c.true('shape', q.shape == (N * M, dof))
        c.true('in the precision of the robot', q.dtype == chain.dtype)
        if kind != 'per_problem':
            c.eq('the same for each problem', q[:M], q[M:])
        if kind == 'uniform':
            for j in range(dof):
                c.holds('drawn within the limits', (q[:, j] >= lim[j, 0]) & (q[:, j] <= lim[j, 1]))
        if kind in ('function', 'per_problem'):
            c.eq('as given', q, own if kind == 'per_problem' else own.repeat(N, 1))
        if kind == 'function':
            c.true('asked for the number of attempts', asked == [M])
    return body


for _k in ('uniform', 'gaussian', 'function', 'around', 'per_problem'):
    SUITE.add('configs_' + _k, configs(_k), defined=False)
SUITE.add('configs_uniform_single', configs('uniform', lim_dtype=torch.float32), defined=False)


@SUITE.config('refusals')
def refusals(c):
    chain = robot(c, PRIS)
    c.raises('neither configurations nor a number of attempts', lambda: K.PseudoInverseIK(chain), ValueError)
    c.raises('no limits to draw from', lambda: K.PseudoInverseIK(chain, num_retries=2), ValueError)
    c.raises('unknown method', lambda: K.PseudoInverseIK(chain, num_retries=2, config_sampling_method='x'), ValueError)
    c.raises('wrong number of joints', lambda: K.PseudoInverseIK(chain, retry_configs=c.real('q', (2, 3))), ValueError)
