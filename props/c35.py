import math
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc
from symtorch.driver import Suite
from symtorch.h import *
from .kin import SERIAL
from .iks import robot, Stub

SUITE = Suite('C35', ['ik.InverseKinematics.sample_configs', 'ik.InverseKinematics.__init__', 'ik.gaussian_around_config',
                      'rotation_conversions.random_quaternions', 'rotation_conversions.random_rotations',
                      'rotation_conversions.random_rotation', 'rotation_conversions.quaternion_to_matrix'],
    'Every outcome of the random number generator (its numbers are symbols, assumed independent and of the distribution '
    'torch documents), all limits with lower <= upper, centres and spreads; 1-3 attempts on a robot of three joints, 1-3 '
    'rotations, both precisions.')


def draws(c, unit=False):
    """records what is drawn; unit: rows as direction and length"""
    got = []

    def on_random(k, kind, shape, dtype):
        if unit and kind == 'randn' and shape:
            u, n = c.unit('d%d' % k, shape[:-1], dim=shape[-1]), c.real('len%d' % k, shape[:-1], lo=1e-6, hi=1e6)
            got.append((kind, u))
            return (u * n[..., None]).to(dtype)
        v = c.real('d%d' % k, shape, lo=0, hi=1, dtype=dtype) if kind == 'rand' else c.real('d%d' % k, shape, dtype=dtype)
        got.append((kind, v))
        return v.clone()
    c.on_random = on_random
    return got


def per_joint(c, got, kind, q):
    """the number each joint value was made from: one of its own for every joint of every attempt"""
    c.true('drawn by the right generator', [k for k, _ in got] == [kind] * len(got), str(got))
    n = sum(v.numel() for _, v in got)
    c.true('a number of its own for each joint value', n == q.numel(), '%d numbers for %d joint values' % (n, q.numel()))
    if n != q.numel():
        return torch.zeros_like(q)
    if len(got) == 1 and q.dim() == 2 and tuple(got[0][1].shape) == tuple(q.shape)[::-1] != tuple(q.shape):
        return got[0][1].transpose(0, 1)
    return torch.cat([v.reshape(-1) for _, v in got]).reshape(q.shape)


def configs(kind, M):
    def body(c):
        chain = robot(c, SERIAL)
        got, dof = draws(c), 3
        if kind == 'uniform':
            lo, w = c.real('lo', (dof,)), c.real('w', (dof,), lo=0)
            kw = dict(joint_limits=torch.stack([lo, lo + w], -1))
        elif kind == 'gaussian':
            lo, w = torch.zeros(dof, dtype=D64), torch.ones(dof, dtype=D64)
            kw = dict(config_sampling_method='gaussian')
        else:
            lo, s = c.real('base', (dof,)), c.scalar('std', 0, 4)
            w = torch.ones(dof, dtype=D64) * s
            kw = dict(config_sampling_method=K.gaussian_around_config(lo.clone(), s))
        s = K.PseudoInverseIK(chain, num_retries=M, enforce_joint_limits=False, max_iterations=1, **kw)
        for k in (0, 1):
            q = s.sample_configs(M + 1) if k else s.initial_config
            c.true('as many as asked for', q.shape == (M + k, dof))
            c.true('in the precision of the robot', q.dtype == chain.dtype)
            u = per_joint(c, got, 'rand' if kind == 'uniform' else 'randn', q)
            if kind == 'uniform':
                # the stretch of the unit interval onto the limits, in either direction
                c.eq('spread evenly over the limits', (q - lo) * (lo + w - q), w * w * u * (1 - u))
            else:
                # the stretch of the normal distribution, in either direction
                c.eq('spread as requested', (q - lo) ** 2, (w * u) ** 2)
            del got[:]
    return body


for _k in ('uniform', 'gaussian', 'around'):
    for _m in (1, 2):
        SUITE.add('configs_%s_%d' % (_k, _m), configs(_k, _m))
    SUITE.add('configs_%s_3' % _k, configs(_k, 3), tier='thorough')


@SUITE.config()
def solve_starts_there(c):
    """the solver starts from the drawn configurations and draws no more"""
    chain = robot(c, SERIAL)
    got = draws(c)
    stub = Stub(c, 4, 3, rot=False, jac=False)
    chain.jacobian_tensor = stub
    lo, w = c.real('lo', (3,)), c.real('w', (3,), lo=0)
    s = K.PseudoInverseIK(chain, num_retries=2, enforce_joint_limits=False, max_iterations=1, joint_limits=torch.stack([lo, lo + w], -1))
    drawn = s.initial_config.clone()
    s.solve(pk.Transform3d(matrix=make44(torch.eye(3, dtype=D64).repeat(2, 1, 1), c.real('tp', (2, 3)))))
    c.true('drawn once', sum(v.numel() for _, v in got) == 6)
    c.eq('starts from what was drawn', stub.calls[0][0], drawn.repeat(2, 1))


def rotations(n, dtype, via):
    """normals scaled to length one are spread evenly over all rotations; scaled in any other way they are not"""
    def body(c):
        got = draws(c, unit=True)
        if via == 'quaternions':
            q = rc.random_quaternions(n, dtype=dtype).to(D64)
        elif via == 'rotations':
            R = rc.random_rotations(n, dtype=dtype).to(D64)
        else:
            R = rc.random_rotation(dtype=dtype).to(D64).reshape(1, 3, 3)
        c.true('normals', [k for k, _ in got] == ['randn'] * len(got))
        u = torch.cat([v.reshape(-1, v.shape[-1]) for _, v in got])
        c.true('four of its own for each', tuple(u.shape) == (n, 4), str(tuple(u.shape)))
        if via == 'quaternions':
            d = (q * u).sum(-1)
            c.eq('evenly spread', d * d, torch.ones(n, dtype=D64))
        else:
            c.eq('evenly spread', R, quat_to_mat(c, u))
    return body


for _d, _dt in (('f64', D64), ('f32', torch.float32)):
    _k = {'tol': 2e-4} if _d == 'f32' else {}
    for _n in (1, 3):
        SUITE.add('quaternions_%d_%s' % (_n, _d), rotations(_n, _dt, 'quaternions'), **_k)
        SUITE.add('rotations_%d_%s' % (_n, _d), rotations(_n, _dt, 'rotations'), **_k)
    SUITE.add('rotation_%s' % _d, rotations(1, _dt, 'rotation'), **_k)
