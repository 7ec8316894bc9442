import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from pytorch_kinematics.transforms import matrix_to_quaternion
from symtorch.driver import Suite
from symtorch.h import *
from .kin import REVS, PRIS, SERIAL
from .iks import robot, Stub

SUITE = Suite('C23', ['ik._ik_step_kernel', 'ik._ik_step_kernel_svd', 'ik.delta_pose', 'ik.PseudoInverseIK.__init__',
                      'ik.PseudoInverseIK.solve', 'ik.PseudoInverseIKWithSVD.__init__'],
    'All poses and targets, all Jacobians (6 rows, 1 to 7 joints; Jacobians as free matrices, and those of real robots), '
    'all non-negative weights, regularisation >= 1e-6, damping factors >= 0, step sizes; 1-2 problems with 1-2 attempts. '
    'The quaternion of the current orientation is that of matrix_to_quaternion (decided by C11); torch.linalg.solve and '
    'torch.linalg.svd are taken at their definition. Rotation vectors of less than 1e-6 are compared within that.')


def conj(q):
    return torch.cat((q[..., :1], -q[..., 1:]), -1)


def rotvec(c, t, q):
    """the rotation vector that turns orientation q into t (unit quaternions), at most half a turn"""
    d = qmul(t, conj(q))
    d = torch.where(d[..., :1] < 0, -d, d)
    v = d[..., 1:]
    n = torch.sqrt((v * v).sum(-1))
    angle = 2 * torch.atan2(n, d[..., 0])
    c.assume((n > 0).all() and (angle > 1e-5).all())
    one = torch.sqrt((d * d).sum(-1))      # quaternions of rotations have length one (C11)
    return v * (angle * one / n)[..., None]


def problem(c, N, M, tag=''):
    """end effector poses (N, M) and targets (N)"""
    q, t = c.unit(tag + 'q', (N, M)), c.unit(tag + 't', (N,))
    p, tp = c.real(tag + 'p', (N, M, 3)), c.real(tag + 'tp', (N, 3))
    m = make44(quat_to_mat(c, q), p)
    return m, q, t, p, tp


def pose_error(c, dx, m, t, p, tp):
    N, M = m.shape[:2]
    c.true('shape', dx.shape == (N * M, 6, 1))
    dx = dx.reshape(N, M, 6)
    cur = matrix_to_quaternion(m[..., :3, :3])
    c.eq('position error', dx[..., :3], tp[:, None] - p)
    c.eq('rotation error', dx[..., 3:], rotvec(c, t[:, None].expand(N, M, 4), cur), cut=[cur])


def delta(N, M, buffer=False):
    def body(c):
        m, q, t, p, tp = problem(c, N, M)
        keep = m.clone(), t.clone(), tp.clone()
        out = c.real('stale', (N * M, 6, 1)) if buffer else None
        dx, pos, rot = K.delta_pose(m, tp, t, **({'out': out} if buffer else {}))
        if N * M == 1:
            pose_error(c, dx, m, t, p, tp)
        else:
            c.true('shape', dx.shape == (N * M, 6, 1))
            c.eq('position error', dx[:, :3, 0].reshape(N, M, 3), tp[:, None] - p)
            for i in range(N):
                for j in range(M):
                    k = i * M + j
                    c.eq('as if alone', dx[k:k + 1], K.delta_pose(m[i:i + 1, j:j + 1], tp[i:i + 1], t[i:i + 1])[0])
        c.eq('parts', torch.cat((pos, rot), 1), dx)
        if buffer:
            c.eq('given buffer', out, dx)
        for a, b in zip((m, t, tp), keep):
            c.eq('argument unchanged', a, b)
    return body


SUITE.add('pose_error', delta(1, 1))
SUITE.add('pose_error_buffer', delta(1, 1, True))
for _n, _m in ((2, 1), (1, 2), (2, 3)):
    SUITE.add('pose_error_%d_%d' % (_n, _m), delta(_n, _m), defined=False)
SUITE.add('pose_error_buffer_2_2', delta(2, 2, True), defined=False)


def step(c, J, dx, w, lam, lm):
    """reference: J^T (J J^T + (lam + lm |e|^2) I)^-1 e with weighted rows, e the weighted error"""
    Jw, e = w[:, None] * J, w[:, None] * dx
    A = Jw @ Jw.transpose(1, 2) + lam * torch.eye(6, dtype=D64)
    if lm is not None:
        A = A + (lm * (e * e).sum(1, keepdim=True)) * torch.eye(6, dtype=D64)
    return Jw.transpose(1, 2) @ torch.linalg.solve(A, e)


def svd_step(c, J, dx, w, lam, lm):
    Jw, e = w[:, None] * J, w[:, None] * dx
    mu = lam
    if lm is not None:
        mu = mu + (lm * (e * e).sum(1)).reshape(-1)
    U, S, Vh = torch.linalg.svd(Jw)
    out = 0.
    for i in range(S.shape[1]):
        g = (U[:, :, i] * e[:, :, 0]).sum(-1)
        out = out + (S[:, i] / (S[:, i] ** 2 + mu) * g)[:, None] * Vh[:, i]
    return out[..., None]


KERNELS = {'plain': ('_ik_step_kernel', step), 'svd': ('_ik_step_kernel_svd', svd_step)}


def kernel(fname, ref, dof, N, M, weight, damped, error=False):
    """error: also the pose error against its definition; batches: against runs on each attempt alone"""
    def body(c):
        m, q, t, p, tp = problem(c, N, M)
        J = c.real('J', (N * M, 6, dof))
        w = c.real('w', (6,), lo=0, hi=100) if weight else None
        lam = c.scalar('lam', 1e-6, 10)
        lm = c.scalar('lm', 1e-6, 10) if damped else None
        R = torch.eye(6, dtype=D64) * lam
        keep = [x.clone() for x in (m, tp, t, J, R)]
        flat = m.reshape(-1, 4, 4)
        fn = getattr(K, fname)
        dq, dx = fn(flat, tp, t, J, R, M, lm_damping=lm if damped else 0.0, task_weight=w)
        c.true('shape', dq.shape == (N * M, dof, 1) and dx.shape == (N * M, 6, 1))
        if N * M > 1:
            for i in range(N):
                for j in range(M):
                    k = i * M + j
                    a, b = fn(flat[k:k + 1], tp[i:i + 1], t[i:i + 1], J[k:k + 1], R, 1, lm if damped else 0.0, w)
                    c.eq('as if alone: step', dq[k:k + 1], a)
                    c.eq('as if alone: error', dx[k:k + 1], b)
        else:
            if error:
                pose_error(c, dx, m, t, p, tp)
            else:
                c.eq('error as delta_pose', dx, K.delta_pose(m, tp, t)[0])
            c.eq('damped least squares step', dq, ref(c, J, dx, torch.ones(6, dtype=D64) if w is None else w, lam, lm), cut=[dx])
        for a, b in zip((m, tp, t, J, R), keep):
            c.eq('argument unchanged', a, b)
    return body


for _k, (_f, _r) in KERNELS.items():
    SUITE.add(_k + '_error', kernel(_f, _r, 2, 1, 1, True, True, error=True))
    for _d in (1, 2, 5, 6, 7, 8):
        SUITE.add('%s_%d_joints' % (_k, _d), kernel(_f, _r, _d, 1, 1, True, True), tier='quick' if _d in (6, 7) else 'thorough', defined=False)
    SUITE.add(_k + '_batch', kernel(_f, _r, 2, 2, 2, True, True), defined=False)
    SUITE.add(_k + '_batch_3_1', kernel(_f, _r, 3, 3, 1, True, False), defined=False)
    SUITE.add(_k + '_batch_1_3', kernel(_f, _r, 6, 1, 3, False, True), defined=False)
    SUITE.add(_k + '_unweighted', kernel(_f, _r, 3, 1, 1, False, True), defined=False)
    SUITE.add(_k + '_undamped', kernel(_f, _r, 3, 1, 1, True, False), defined=False)


def minimiser(dof):
    """the step formula is the minimiser: its gradient J^T (J x - e) + mu x vanishes identically when (J J^T + mu I) y = e"""
    def body(c):
        J, y, mu = c.real('J', (6, dof)), c.real('y', (6, 1)), c.scalar('mu', 1e-6, 10)
        e = J @ J.T @ y + mu * y
        x = J.T @ y
        c.eq('gradient', J.T @ (J @ x - e) + mu * x, torch.zeros(dof, 1, dtype=D64))
    return body


for _d in (1, 3, 7):
    SUITE.add('minimiser_%d' % _d, minimiser(_d), tier='quick' if _d < 7 else 'thorough')


def solver(cls, kind, spec, N, M, lr=0.25, weights=(2., 0.5), lam=0.125, lm=0.5, limits=None, clamp=False, free=None, **kw):
    """one iteration of the whole solver: the next iterate is the previous plus lr times the step"""
    def body(c):
        chain = robot(c, spec, None if limits is None else {x[0]: limits for x in spec if x[2] != 'fixed' and x[0] != free})
        dof = len(chain.get_joint_parameter_names())
        stub = Stub(c, N * M, dof)
        chain.jacobian_tensor = stub
        q0 = c.real('q', (M, dof))
        rate = c.scalar('lr', 1e-3, 2) if lr is None else lr
        s = cls(chain, retry_configs=q0.clone(), max_iterations=1, lr=rate, regularlization=lam, lm_damping=lm,
                position_weight=weights[0], orientation_weight=weights[1], enforce_joint_limits=False,
                pos_tolerance=1e-9, rot_tolerance=1e-9, clamp_to_limits=clamp, **kw)
        tq, tp = c.unit('tq', (N,)), c.real('tp', (N, 3))
        target = pk.Transform3d(matrix=make44(quat_to_mat(c, tq), tp))
        s.solve(target)
        c.true('one step', len(stub.calls) == 2)
        a, J, m = stub.calls[0]
        b = stub.calls[1][0]
        c.eq('starts at the given values', a, q0.repeat(N, 1))
        w = torch.tensor([weights[0]] * 3 + [weights[1]] * 3, dtype=D64)
        t = matrix_to_quaternion(target.get_matrix()[:, :3, :3])
        dx = K.delta_pose(m.reshape(N, M, 4, 4), tp, t)[0]
        dq = KERNELS[kind][1](c, J, dx, w, lam, lm if lm > 0 else None)
        want = q0.repeat(N, 1) + rate * dq[..., 0]
        if clamp:
            moving = [x[0] for x in spec if x[2] != 'fixed']
            want = torch.stack([want[:, j] if n == free else torch.clamp(want[:, j], *limits) for j, n in enumerate(moving)], 1)
        c.eq('next iterate', b, want, cut=[dq])
    return body


SUITE.add('solver_step', solver(K.PseudoInverseIK, 'plain', REVS, 1, 1), defined=False)
SUITE.add('solver_step_svd', solver(K.PseudoInverseIKWithSVD, 'svd', REVS, 1, 1), defined=False)
SUITE.add('solver_step_batch', solver(K.PseudoInverseIK, 'plain', SERIAL, 2, 2, lr=1.0, weights=(1., 3.), lm=0.0), defined=False, tier='thorough')
SUITE.add('solver_step_lr', solver(K.PseudoInverseIK, 'plain', REVS, 1, 2, lr=None), defined=False)
SUITE.add('solver_step_limits', solver(K.PseudoInverseIK, 'plain', PRIS, 1, 1, limits=(-.125, .25)), defined=False)
SUITE.add('solver_step_clamped', solver(K.PseudoInverseIK, 'plain', PRIS, 1, 1, limits=(-.125, .25), clamp=True), defined=False)
SUITE.add('solver_step_clamped_first', solver(K.PseudoInverseIK, 'plain', PRIS, 1, 1, limits=(-.125, .25), clamp=True, free='l2'), defined=False)
SUITE.add('solver_step_clamped_second', solver(K.PseudoInverseIK, 'plain', PRIS, 1, 1, limits=(-.125, .25), clamp=True, free='l1'), defined=False)
for _k, _lim in (('above', (-float('inf'), .25)), ('below', (-.125, float('inf')))):
    SUITE.add('solver_step_clamped_%s' % _k, solver(K.PseudoInverseIK, 'plain', PRIS, 1, 1, limits=_lim, clamp=True), defined=False)
