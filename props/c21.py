import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from symtorch.driver import Suite
from symtorch.h import *
from .kin import REVS, PRIS, SERIAL
from .iks import robot, Stub

SUITE = Suite('C21', ['ik.IKSolution.__init__', 'ik.IKSolution.update', 'ik.IKSolution.update_remaining_with_keep_mask',
                      'ik.PseudoInverseIK.solve', 'ik.PseudoInverseIK._enforce_limits', 'ik.delta_pose'],
    'Recording: all sequences of up to 3 (thorough: 4) updates with arbitrary joint values, pose errors, tolerances and keep '
    'masks, 1-3 problems with 1-3 attempts. Whole solves: all poses the iterations may produce (the robot\'s own pose and '
    'Jacobian computation is replaced by arbitrary values, see C02, C03), 1-3 iterations, 1-2 problems with 1-2 attempts, '
    'with and without limit enforcement; rotation errors are those of delta_pose (C23).')


def norms(e):
    e = e.reshape(-1, 6)
    return torch.sqrt((e[:, :3] ** 2).sum(-1)), torch.sqrt((e[:, 3:] ** 2).sum(-1))


def expected(c, sol, hist, pt, rt, N, M):
    """hist: (joint values (N*M, dof), errors (N*M, 6)) in order.  An attempt keeps its first iterate within both tolerances,
    the latest one when none is"""
    got = torch.zeros(N * M, dtype=torch.bool)
    for k, (q, e) in enumerate(hist):
        ep, er = norms(e)
        ok = (ep < pt) & (er < rt)
        if k == 0:
            sq, sp, sr, got = q, ep, er, ok
        else:
            sq = torch.where(got[:, None], sq, q)
            sp, sr = torch.where(got, sp, ep), torch.where(got, sr, er)
            got = got | ok
    got = got.reshape(N, M)
    c.eq('converged attempts', sol.converged, got)
    c.eq('problems with a converged attempt', sol.converged_any, got.any(1))
    c.eq('joint values', sol.solutions, sq.reshape(N, M, -1))
    c.eq('position errors', sol.err_pos, sp.reshape(N, M))
    c.eq('rotation errors', sol.err_rot, sr.reshape(N, M))
    # stated again without reference to the history: reported errors of a converged attempt meet the tolerances
    c.holds('within tolerance', ~sol.converged | ((sol.err_pos < pt) & (sol.err_rot < rt)))


def record(N, M, steps, dof=2, keep='sometimes'):
    def body(c):
        pt, rt = c.scalar('pt', 1e-9, 1), c.scalar('rt', 1e-9, 1)
        s = K.IKSolution(dof, N, M, pt, rt, dtype=D64)
        hist, left = [], torch.ones(N, dtype=torch.bool)
        for k in range(steps):
            q, e = c.real('q%d' % k, (N * M, dof)), c.real('e%d' % k, (N * M, 6))
            kw = {}
            if keep == 'given':
                kw['keep_mask'] = c.bools('keep%d' % k, (N,))
            if keep == 'never':
                kw['use_keep_mask'] = False
            q1, e1 = q.clone(), e.clone()
            if k % 2 == 1:
                e1 = e1.reshape(N * M, 6, 1) if k == 1 else e1
            now = s.update(q1, e1, **kw)
            ep, er = norms(e)
            ok = ((ep < pt) & (er < rt)).reshape(N, M).any(1)
            c.eq('reported as converged now', now, ok)
            if keep == 'given':
                left = left & kw['keep_mask']
            elif keep != 'never':
                left = left & ~ok
            c.eq('problems left', s.remaining, left)
            c.eq('joint values unchanged', q1, q)
            hist.append((q, e))
        expected(c, s, hist, pt, rt, N, M)
    return body


SUITE.add('record_1_1_3', record(1, 1, 3))
SUITE.add('record_2_2_3', record(2, 2, 3))
SUITE.add('record_1_3_2', record(1, 3, 2))
SUITE.add('record_3_1_2', record(3, 1, 2, keep='given'))
SUITE.add('record_2_2_2_all', record(2, 2, 2, keep='never'))
SUITE.add('record_2_2_4', record(2, 2, 4), tier='thorough')
SUITE.add('record_3_3_3', record(3, 3, 3, keep='given'), tier='thorough')


def solve(spec, N, M, steps, rot=False, limits=None, refine=0, cls=K.PseudoInverseIK, **kw):
    def body(c):
        lim = {n: (-1., 1.) for n, _, t, _, _ in spec if t != 'fixed'} if limits else None
        chain = robot(c, spec, lim)
        dof = len(chain.get_joint_parameter_names())
        stub = Stub(c, N * M, dof, rot=rot)
        chain.jacobian_tensor = stub
        q0 = c.real('q', (M, dof))
        pt, rt = (0.5, 0.25)
        s = cls(chain, retry_configs=q0.clone(), max_iterations=steps, pos_tolerance=pt, rot_tolerance=rt,
                enforce_joint_limits=bool(limits), num_limit_refinement_iterations=refine, **kw)
        t = c.unit('tq', (N,)) if rot else torch.tensor([[1., 0, 0, 0]], dtype=D64).repeat(N, 1)
        tp = c.real('tp', (N, 3))
        target = pk.Transform3d(matrix=make44(quat_to_mat(c, t), tp))
        sol = s.solve(target)
        c.true('result', isinstance(sol, K.IKSolution) and sol.solutions.shape == (N, M, dof))
        w = pk.matrix_to_quaternion(target.get_matrix()[:, :3, :3])
        hist = []
        calls = stub.calls[-1:] if limits else stub.calls
        for q, J, m in calls:
            hist.append((q, K.delta_pose(m.reshape(N, M, 4, 4), tp, w)[0][..., 0]))
        expected(c, sol, hist, pt, rt, N, M)
        if limits:
            c.eq('limits: what is returned was checked', sol.solutions.reshape(N * M, dof), stub.calls[-1][0])
    return body


SUITE.add('solve_1', solve(REVS, 2, 2, 1), defined=False)
SUITE.add('solve_2', solve(REVS, 1, 2, 2), defined=False)
SUITE.add('solve_2_any', solve(REVS, 2, 1, 2, early_stopping_any_converged=True), defined=False)
SUITE.add('solve_3', solve(PRIS, 1, 1, 3, early_stopping_no_improvement=None), defined=False)
SUITE.add('solve_svd', solve(REVS, 1, 2, 1, cls=K.PseudoInverseIKWithSVD), defined=False)
SUITE.add('solve_rotation', solve(REVS, 1, 1, 1, rot=True), defined=False)
SUITE.add('solve_limits', solve(REVS, 1, 2, 1, limits=True), defined=False)
SUITE.add('solve_limits_refined', solve(PRIS, 2, 1, 1, limits=True, refine=1, early_stopping_any_converged=True), defined=False)
SUITE.add('solve_clamped', solve(PRIS, 1, 1, 2, clamp_to_limits=True), defined=False)
SUITE.add('solve_3_patience', solve(PRIS, 2, 1, 3, early_stopping_no_improvement_patience=0), defined=False, tier='thorough')
SUITE.add('solve_4', solve(PRIS, 1, 2, 4), defined=False, tier='thorough')
SUITE.add('solve_rotation_2', solve(REVS, 1, 2, 2, rot=True), defined=False, tier='thorough')


def real(spec, M, steps):
    """the robot's own pose computation: the poses judged are those of the joint values"""
    def body(c):
        chain = robot(c, spec)
        dof = len(chain.get_joint_parameter_names())
        q0 = c.real('q', (M, dof))
        calls, own = [], chain.jacobian_tensor

        def jacobian_tensor(q, *a, **k):
            out = own(q, *a, **k)
            calls.append((q.clone(), out[1].clone()))
            return out
        chain.jacobian_tensor = jacobian_tensor
        s = K.PseudoInverseIK(chain, retry_configs=q0.clone(), max_iterations=steps, pos_tolerance=0.5, rot_tolerance=0.25,
                              enforce_joint_limits=False)
        home = chain.forward_kinematics(q0[:1]).get_matrix()
        tp = c.real('tp', (1, 3))
        target = pk.Transform3d(matrix=make44(home[:, :3, :3], tp))
        sol = s.solve(target)
        w = pk.matrix_to_quaternion(target.get_matrix()[:, :3, :3])
        hist = []
        for q, m in calls:
            c.eq('pose of the joint values', m, chain.forward_kinematics(q).get_matrix())
            hist.append((q, K.delta_pose(m.reshape(1, M, 4, 4), tp, w)[0][..., 0]))
        expected(c, sol, hist, 0.5, 0.25, 1, M)
    return body


SUITE.add('real_robot', real(PRIS, 1, 1), defined=False)
SUITE.add('real_robot_2', real(PRIS, 2, 1), defined=False)
SUITE.add('real_robot_turning', real(REVS, 1, 1), defined=False, tier='thorough')
