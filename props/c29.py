import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from symtorch.driver import Suite
from symtorch.h import *
from .kin import REVS, PRIS
from .iks import robot

SUITE = Suite('C29', ['ik.BacktrackingLineSearch.__init__', 'ik.BacktrackingLineSearch.do_line_search', 'ik.delta_pose',
                      'ik.PseudoInverseIK.solve'],
    'All pose errors at the start and at every step size of the sequence (the pose as an arbitrary function of the step size '
    'per attempt), all thresholds of sufficient decrease and initial step sizes, reduction factors 0.5 and 0.25, up to 3 '
    '(thorough: 4) backtracking steps, 1-3 problems with 1-3 attempts, any subset of problems already finished; pose '
    'evaluated through the robot and through a given function. Errors: positions and rotations for one step, positions beyond.')
START = torch.tensor([[1., 0, 0, 0]], dtype=D64)


def search(N, M, steps, done=None, factor=0.5, via='fk', lr0=1.0, order=1):
    """the pose reached from attempt k with the i-th step size of the sequence is the arbitrary position P[k][i]"""
    def body(c):
        NM = N * M
        thr = c.scalar('thr', 0, 1)
        ls = K.BacktrackingLineSearch(max_lr=lr0, decrease_factor=factor, max_iterations=steps, sufficient_decrease=thr)
        P = [[c.real('P%d_%d' % (k, i), (3,)) for i in range(steps + 1)] for k in range(NM)]
        q = torch.zeros(NM, 2, dtype=D64)
        dq = torch.stack((torch.ones(NM), 2 * torch.ones(NM)), 1).to(D64)
        tp, e0 = c.real('tp', (N, 3)), c.real('e', (NM, 6, 1))
        left = c.bools('left', (N,)) if done == 'any' else torch.tensor(done) if done else None
        rates = [lr0 * factor ** i for i in range(steps + 1)]
        tried = []

        def pose(v):
            tried.append(v)
            rows = []
            for k in range(NM):
                x = P[k][steps]
                for i in range(steps):
                    x = torch.where(v[k, 0] == rates[i], P[k][i], x)
                rows.append(x)
            return make44(torch.eye(3, dtype=D64).repeat(NM, 1, 1), torch.stack(rows))

        class Chain:
            def forward_kinematics(self, v, **k):
                return pk.Transform3d(matrix=pose(v), dtype=D64)
        kw = {}
        if via == 'fn':
            kw = {'fk_fn': lambda v: {7: pose(v)}, 'eef_frame_idx': 7}
        keep = [x.clone() for x in (q, dq, tp, e0)]
        if left is not None:
            kw['problem_remaining'] = left
        lr, imp = ls.do_line_search(Chain(), q, dq, tp, START.repeat(N, 1), e0, **kw)
        c.true('shape', lr.shape == (NM,))
        for v in tried:
            c.eq('along the given direction', v[:, 1], 2 * v[:, 0])
        err0 = torch.sqrt((e0[..., 0] ** 2).sum(-1))
        for k in range(NM):
            want = torch.full((), rates[steps], dtype=D64)
            for i in reversed(range(steps)):
                d = tp[k // M] - P[k][i]
                want = torch.where(err0[k] - torch.sqrt((d * d).sum()) > thr, rates[i], want)
            if left is None:
                c.eq('first sufficiently improving step', lr[k].to(D64), want)
            else:
                c.holds('first sufficiently improving step', ~left[k // M] | (lr[k].to(D64) == want))
        for a, b in zip((q, dq, tp, e0), keep):
            c.eq('argument unchanged', a, b)
        # no try is made for the sake of a finished problem alone
        for i in range(min(len(tried), 2)):     # the first two tries
            waiting = torch.zeros((), dtype=torch.bool)
            for k in range(NM):
                w = torch.ones((), dtype=torch.bool)
                for j in range(i):
                    d = tp[k // M] - P[k][j]
                    w = w & ~(err0[k] - torch.sqrt((d * d).sum()) > thr)
                waiting = waiting | (w if left is None else w & left[k // M])
            c.holds('a try only while some attempt waits', waiting)
    return body


SUITE.add('search_2_1', search(2, 1, 2), defined=False)
SUITE.add('search_1_2', search(1, 2, 2, via='fn'), defined=False)
SUITE.add('search_2_2', search(2, 2, 1, factor=0.25), defined=False)
SUITE.add('search_2_1_deep', search(2, 1, 3, lr0=0.5), defined=False)
SUITE.add('search_2_2_2', search(2, 2, 2, factor=0.25), defined=False, tier='thorough', max_paths=300)
SUITE.add('search_3_1_deep', search(3, 1, 3, lr0=0.5), defined=False, tier='thorough', max_paths=300)
SUITE.add('search_one', search(1, 1, 2), defined=False)
SUITE.add('finished_2_1', search(2, 1, 2, done='any'), defined=False)
SUITE.add('finished_2_2', search(2, 2, 1, done='any', via='fn'), defined=False)
SUITE.add('finished_2_2_2', search(2, 2, 2, done='any', via='fn'), defined=False, tier='thorough', max_paths=300)
for _d in ((False, True), (True, False)):
    SUITE.add('finished_2_2_%s' % ('first' if _d[1] else 'second'), search(2, 2, 2, done=_d, via='fn'), defined=False, max_paths=150)
SUITE.add('finished_3_1', search(3, 1, 2, done='any'), defined=False)
SUITE.add('search_1_3_deep', search(1, 2, 4), defined=False, tier='thorough', max_paths=300)
SUITE.add('finished_3_2', search(3, 2, 1, done='any'), defined=False, tier='thorough', max_paths=300)


def general(N, M):
    """one try: general start, direction, initial step and pose (rotations too)"""
    def body(c):
        NM = N * M
        thr, lr0 = c.scalar('thr', 0, 1), c.scalar('lr', 1e-3, 4)
        ls = K.BacktrackingLineSearch(max_lr=lr0, decrease_factor=0.5, max_iterations=1, sufficient_decrease=thr)
        q, dq = c.real('q', (NM, 2)), c.real('dq', (NM, 2))
        m = make44(quat_to_mat(c, c.unit('r', (NM,))), c.real('p', (NM, 3)))
        t, tp, e0 = c.unit('t', (N,)), c.real('tp', (N, 3)), c.real('e', (NM, 6, 1))
        seen = []

        class Chain:
            def forward_kinematics(self, v, **k):
                seen.append(v)
                return pk.Transform3d(matrix=m, dtype=D64)
        lr, imp = ls.do_line_search(Chain(), q, dq, tp, t, e0)
        c.true('one try', len(seen) == 1)
        c.eq('tried', seen[0], q + lr0 * dq)
        err0 = torch.sqrt((e0[..., 0] ** 2).sum(-1))
        e = K.delta_pose(m.reshape(N, M, 4, 4), tp, t)[0][..., 0]
        ok = err0 - torch.sqrt((e * e).sum(-1)) > thr
        c.eq('step', lr, torch.where(ok, lr0, lr0 * 0.5), cut=[e])
    return body


SUITE.add('general_2_1', general(2, 1), defined=False)
SUITE.add('general_1_2', general(1, 2), defined=False)


def in_solver(N, M):
    """the solver moves each attempt by the step size found for it"""
    def body(c):
        chain = robot(c, PRIS)
        rates = c.real('rate', (N * M,), lo=0, hi=2)
        args = []

        class Search(K.LineSearch):
            def do_line_search(self, chain, q, dq, *a, **k):
                args.append((q.clone(), dq.clone()))
                return rates.clone(), None
        from .iks import Stub
        stub = Stub(c, N * M, 2, rot=False)
        chain.jacobian_tensor = stub
        q0 = c.real('q', (M, 2))
        s = K.PseudoInverseIK(chain, retry_configs=q0.clone(), max_iterations=1, line_search=Search(), enforce_joint_limits=False)
        s.solve(pk.Transform3d(matrix=make44(torch.eye(3, dtype=D64).repeat(N, 1, 1), c.real('tp', (N, 3)))))
        q, dq = args[0]
        c.eq('searches from the current values', q, q0.repeat(N, 1))
        c.eq('moves by the step found', stub.calls[-1][0], q + rates[:, None] * dq)
    return body


SUITE.add('in_solver', in_solver(2, 2), defined=False)


def in_solver_robot(spec, N, M, tries=2):
    """inside the solver each try is judged by the pose the robot itself would reach: its end, not any other frame"""
    def body(c):
        chain = robot(c, spec)
        dof = len(chain.get_joint_parameter_names())
        thr = c.scalar('thr', 0, 1)
        step = c.real('step', (N * M, dof), lo=-1, hi=1)
        seen = []

        class Search(K.BacktrackingLineSearch):
            def do_line_search(self, ch, q, dq, tp, tq, e, **k):
                lr, imp = super().do_line_search(ch, q, step, tp, tq, e, **k)
                seen.append((q.clone(), e.clone(), lr))
                return lr, imp
        q0 = c.real('q', (M, dof))
        own = chain.jacobian_tensor
        chain.jacobian_tensor = lambda q, *a, **k: (torch.zeros(N * M, 6, dof, dtype=D64), own(q, *a, **k)[1])
        s = K.PseudoInverseIK(chain, retry_configs=q0.clone(), max_iterations=1, enforce_joint_limits=False,
                              pos_tolerance=1e-9, rot_tolerance=1e-9,
                              line_search=Search(max_lr=1.0, decrease_factor=0.5, max_iterations=tries, sufficient_decrease=thr))
        home = chain.forward_kinematics(q0[:1]).get_matrix()
        tp = c.real('tp', (N, 3))
        target = pk.Transform3d(matrix=make44(home[:, :3, :3].repeat(N, 1, 1), tp))
        s.solve(target)
        w = pk.matrix_to_quaternion(target.get_matrix()[:, :3, :3])
        if not seen:        # everything had converged at the start
            return
        q, e, lr = seen[0]

        def err(v):
            d = K.delta_pose(chain.forward_kinematics(v).get_matrix().reshape(N, M, 4, 4), tp, w)[0][..., 0]
            return torch.sqrt((d * d).sum(-1))
        e0 = err(q)
        for k in range(N * M):
            want = torch.full((), 0.5 ** tries, dtype=D64)
            for i in reversed(range(tries)):
                want = torch.where(e0[k] - err(q + 0.5 ** i * step)[k] > thr, 0.5 ** i, want)
            c.holds('first sufficiently improving step of the robot', lr[k].to(D64) == want)
    return body


SLIDES = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'prismatic', 0, 0), ('l2', 'l1', 'prismatic', 0, 0)]
SUITE.add('in_solver_robot', in_solver_robot(SLIDES, 1, 1), defined=False)
SUITE.add('in_solver_robot_2', in_solver_robot(SLIDES, 1, 2, 1), defined=False)
SUITE.add('in_solver_robot_offsets', in_solver_robot(PRIS, 1, 1), defined=False, tier='thorough')
SUITE.add('in_solver_robot_turning', in_solver_robot(REVS, 1, 1, 1), defined=False, tier='thorough')
