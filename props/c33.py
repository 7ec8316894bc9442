"""gradients through rotation conversions and transforms"""
import torch
import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc, so3
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C33', ['rotation_conversions.' + f for f in (
    'quaternion_to_matrix', 'matrix_to_quaternion', 'euler_angles_to_matrix', 'matrix_to_euler_angles', 'quaternion_multiply',
    'quaternion_invert', 'quaternion_apply', 'axis_angle_to_matrix', 'matrix_to_axis_angle', 'axis_angle_to_quaternion',
    'quaternion_to_axis_angle', 'rotation_6d_to_matrix', 'matrix_to_rotation_6d', 'standardize_quaternion',
    'axis_and_angle_to_matrix_33')] + ['so3.so3_exp_map', 'so3.so3_log_map', 'transform3d.Transform3d.compose',
    'transform3d.Transform3d.inverse', 'transform3d.Transform3d.transform_points', 'transform3d.Transform3d.transform_normals'],
    'All inputs of the stated kind, an arbitrary upstream gradient, batches of 1. Conversions to matrices: against automatic '
    'differentiation of the textbook formula. Conversions from matrices: differentiated after the textbook matrix of the same '
    'rotation, so that the derivative along every direction is known (the parameters themselves), away from half turns and '
    'gimbal lock; and at the identity exactly.',
    assumptions=['torch.autograd itself (chain rule and derivative formulas of PyTorch operators) is executed, not modelled'])


def grad(out, x, up):
    (g,) = torch.autograd.grad((out * up).sum(), x)
    return g


def leaf(x):
    return x.clone().requires_grad_(True)


def compare(c, name, code, ref, x, shape, n=None, cut=None):
    """the same value and the same gradient as the reference"""
    n = 'G%d' % c.__dict__.setdefault('_ups', 0) if n is None else n
    c._ups = getattr(c, '_ups', 0) + 1
    up = c.real(n, shape)
    a, b = leaf(x), leaf(x)
    o, r = code(a), ref(b)
    c.eq(name + ': value', o.detach(), r.detach())
    g, h = grad(o, a, up), grad(r, b, up)
    c.eq(name + ': gradient', g if cut is None else g[cut], h if cut is None else h[cut])


def quat_mat(q):
    """textbook matrix of a quaternion of any length"""
    w, x, y, z = q.unbind(-1)
    n = w * w + x * x + y * y + z * z
    R = torch.stack([w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
                     2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
                     2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z], -1).reshape(q.shape[:-1] + (3, 3))
    return R / n[..., None, None]


def unit_mat(q):
    """the same for unit quaternions"""
    w, x, y, z = q.unbind(-1)
    return torch.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
                        2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
                        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1).reshape(q.shape[:-1] + (3, 3))


def rod(v):
    n = torch.sqrt((v * v).sum(-1))[..., None, None]
    K = skew(v)
    return I3() + torch.sin(n) / n * K + (1 - torch.cos(n)) / (n * n) * (K @ K)


def near(v):
    """rotation by v to second order about no rotation"""
    K = skew(v)
    return I3() + K + K @ K / 2


def vec(c, name, lo, hi):
    return c.unit(name + 'u', (1,), dim=3) * c.real(name + 'n', (1,), lo=lo, hi=hi)[:, None]


@SUITE.config()
def quat_to_matrix(c):
    q = c.unit('q', (1,))
    compare(c, 'unit', rc.quaternion_to_matrix, quat_mat, q, (1, 3, 3))
    compare(c, 'any length', rc.quaternion_to_matrix, quat_mat, q * c.real('s', lo=.25, hi=4), (1, 3, 3))


@SUITE.config()
def quat_algebra(c):
    p, q, v = c.unit('p', (1,)), c.unit('q', (1,)), c.real('v', (1, 3))
    def apply(q, v):
        return (unit_mat(q) @ v[..., None])[..., 0]
    compare(c, 'apply, point', lambda x: rc.quaternion_apply(q, x), lambda x: apply(q, x), v, (1, 3))
    def mul(a, b):
        aw, bw, av, bv = a[..., :1], b[..., :1], a[..., 1:], b[..., 1:]
        return torch.cat([aw * bw - (av * bv).sum(-1, keepdim=True), aw * bv + bw * av + torch.cross(av, bv, dim=-1)], -1)
    for n, f in (('raw product', rc.quaternion_raw_multiply),):
        compare(c, n + ', first', lambda x: f(x, q), lambda x: mul(x, q), p, (1, 4))
        compare(c, n + ', second', lambda x: f(p, x), lambda x: mul(p, x), q, (1, 4))
    compare(c, 'inverse', rc.quaternion_invert, lambda x: x * t64([1., -1, -1, -1]), q, (1, 4))
    up = c.real('H', (1, 4))
    x = leaf(p)
    o = rc.quaternion_multiply(x, q)
    s = (o * mul(p, q)).sum(-1).detach()       # the sign chosen
    c.eq('product: gradient', grad(o, x, up), s * grad(mul(y := leaf(p), q), y, up))


def from_matrix_quat(which):
    def body(c):
        q = c.unit('q', (1,))
        c.assume((q[0, which] * q[0, which] >= q[0] * q[0]).all())
        up, w = c.real('G', (1, 4)), c.real('w', (1, 4))
        x = leaf(q)
        o = rc.matrix_to_quaternion(unit_mat(x))
        g = grad(o, x, up)
        v = w - (w * q).sum() * q
        s = (o.detach() * q).sum()
        c.eq('along every rotation', (g * v).sum(), s * (up * v).sum())
    return body


for _i in range(4):
    SUITE.add('matrix_to_quat_%s' % 'wxyz'[_i], from_matrix_quat(_i))


@SUITE.config()
def axis_angle_to_matrix(c):
    compare(c, 'turn', rc.axis_angle_to_matrix, rod, vec(c, 'v', 1e-3, 6), (1, 3, 3))
    z = torch.zeros(1, 3, dtype=D64)
    compare(c, 'no turn', rc.axis_angle_to_matrix, near, z, (1, 3, 3), 'H')


@SUITE.config()
def axis_angle_to_quat(c):
    def ref(v):
        n = torch.sqrt((v * v).sum(-1, keepdim=True))
        return torch.cat([torch.cos(n / 2), torch.sin(n / 2) / n * v], -1)
    compare(c, 'turn', rc.axis_angle_to_quaternion, ref, vec(c, 'v', 1e-3, 6), (1, 4))
    compare(c, 'no turn', rc.axis_angle_to_quaternion,
            lambda v: torch.cat([1 - (v * v).sum(-1, keepdim=True) / 8, v / 2], -1), torch.zeros(1, 3, dtype=D64), (1, 4), 'H')


@SUITE.config()
def quat_to_axis_angle(c):
    """along every rotation: quat(v(q)) = q, so the derivative of v undoes that of the quaternion of a vector"""
    q = c.unit('q', (1,))
    c.assume(((q[0, 1:] * q[0, 1:]).sum() > 1e-6))
    x, up, y = leaf(q), c.real('G', (1, 3)), c.real('y', (1, 3))
    g = grad(rc.quaternion_to_axis_angle(x), x, up)
    w, s = q[:, :1], torch.sqrt((q[:, 1:] * q[:, 1:]).sum(-1, keepdim=True))
    u = q[:, 1:] / s
    a = (u * y).sum(-1, keepdim=True)
    th = 2 * torch.atan2(s, w)
    d = torch.cat([-s / 2 * a, u * w / 2 * a + s / th * (y - a * u)], -1)
    c.eq('gradient', (g * d).sum(), (up * y).sum())


def log_of_matrix(fn, lo, hi):
    def body(c):
        """R(v) differentiated along y is [J y]x R with the left Jacobian J of the rotation group"""
        k, co = c.unit('k', (1,), dim=3), c.real('co', (1,), lo=lo, hi=hi)
        th, si = torch.acos(co), torch.sqrt(1 - co * co)
        K = skew(k)
        R = I3() + si[:, None, None] * K + (1 - co)[:, None, None] * (K @ K)
        x, up, y = leaf(R), c.real('G', (1, 3)), c.real('y', (1, 3))
        g = grad(fn(x), x, up)
        a = (k * y).sum(-1, keepdim=True)
        p = y - a * k
        w = th[:, None] * a * k + si[:, None] * p + (1 - co)[:, None] * torch.cross(k, p, dim=-1)
        c.eq('gradient', (g * (skew(w) @ R)).sum(), th[0] * (up * y).sum())
    return body


def back_zero(fn, ref, shape=(1, 3)):
    def body(c):
        x = leaf(torch.zeros(1, 3, dtype=D64))
        up = c.real('G', (1, 3))
        o = fn(ref(x))
        c.eq('value', o.detach(), torch.zeros(1, 3, dtype=D64))
        if fn is so3.so3_log_map:       # extrapolated next to no turn
            c.holds('gradient', (grad(o, x, up) - up).abs() <= 1e-4 * up.abs())
        else:
            c.eq('gradient', grad(o, x, up), up)
    return body


SUITE.add('quat_to_axis_angle_zero', back_zero(rc.quaternion_to_axis_angle, lambda v: torch.cat([1 - (v * v).sum(-1, keepdim=True) / 8, v / 2], -1)))
SUITE.add('matrix_to_axis_angle_zero', back_zero(rc.matrix_to_axis_angle, near))
SUITE.add('so3_log', log_of_matrix(so3.so3_log_map, -.9921875, .96875))
SUITE.add('so3_log_zero', back_zero(so3.so3_log_map, near), tol=1e-3)


@SUITE.config()
def so3_exp(c):
    compare(c, 'turn', so3.so3_exp_map, rod, vec(c, 'v', .0625, 6), (1, 3, 3))


@SUITE.config(tol=1e-3)
def so3_exp_zero(c):
    up = c.real('G', (1, 3, 3), lo=-1, hi=1)
    x, y = leaf(torch.zeros(1, 3, dtype=D64)), leaf(torch.zeros(1, 3, dtype=D64))
    g, h = grad(so3.so3_exp_map(x), x, up), grad(near(y), y, up)
    c.holds('gradient next to no turn', (g - h).abs() <= 1e-3)


@SUITE.config()
def mat33(c):
    k, th = c.unit('k', (1,), dim=3), c.real('th', (1,))
    compare(c, 'angle', lambda x: rc.axis_and_angle_to_matrix_33(k, x), lambda x: rodrigues(k, x), th, (1, 3, 3))


def eulers(conv):
    def body(c):
        a = c.real('a', (1, 3))
        def ref(x):
            return axis_rot(conv[0], x[:, 0]) @ axis_rot(conv[1], x[:, 1]) @ axis_rot(conv[2], x[:, 2])
        compare(c, conv, lambda x: rc.euler_angles_to_matrix(x, conv), ref, a, (1, 3, 3))
        tait = conv[0] != conv[2]
        b = torch.stack([c.real('x', lo=-3, hi=3), c.real('y', lo=-1.5 if tait else .0625, hi=1.5 if tait else 3),
                         c.real('z', lo=-3, hi=3)])[None]
        if tait:
            c.assume(torch.cos(b[0, 1]) > .0625)
        x, up = leaf(b), c.real('H', (1, 3))
        o = rc.matrix_to_euler_angles(ref(x), conv)
        c.eq(conv + ' back: gradient', grad(o, x, up), up)
    return body


for _c in ('XYZ', 'ZYX', 'YXZ', 'XZY', 'ZXZ', 'XYX', 'YZY'):
    SUITE.add('euler_' + _c, eulers(_c))


@SUITE.config()
def six(c):
    R = c.rotation('R', (1,))
    l, m, s = c.real('l', lo=.25, hi=4), c.real('m', lo=-4, hi=4), c.real('s', lo=.25, hi=4)
    d6 = torch.cat([l * R[:, 0], m * R[:, 0] + s * R[:, 1]], -1)
    def ref(x):
        a, b = x[..., :3], x[..., 3:]
        a = a / torch.sqrt((a * a).sum(-1, keepdim=True))
        b = b - (a * b).sum(-1, keepdim=True) * a
        b = b / torch.sqrt((b * b).sum(-1, keepdim=True))
        return torch.stack([a, b, torch.cross(a, b, dim=-1)], -2)
    compare(c, 'six numbers', rc.rotation_6d_to_matrix, ref, d6, (1, 3, 3))
    compare(c, 'from the matrix', rc.matrix_to_rotation_6d, lambda x: x[..., :2, :].reshape(1, 6), c.real('A', (1, 3, 3)), (1, 6), 'H')


@SUITE.config()
def transforms(c):
    M, N, p = c.pose('M', (1,)), c.pose('N', (1,)), c.real('p', (1, 2, 3))
    def pts(M, p):
        return p @ M[:, :3, :3].transpose(-1, -2) + M[:, None, :3, 3]
    compare(c, 'points', lambda x: pk.Transform3d(matrix=M).transform_points(x), lambda x: pts(M, x), p, (1, 2, 3))
    compare(c, 'transform of points', lambda x: pk.Transform3d(matrix=x).transform_points(p), lambda x: pts(x, p), M, (1, 2, 3), 'H', (slice(None), slice(3)))
    compare(c, 'composition, first', lambda x: pk.Transform3d(matrix=x).compose(pk.Transform3d(matrix=N)).get_matrix(), lambda x: x @ N, M, (1, 4, 4), 'I')
    compare(c, 'composition, second', lambda x: pk.Transform3d(matrix=M).compose(pk.Transform3d(matrix=x)).get_matrix(), lambda x: M @ x, N, (1, 4, 4), 'J')
    compare(c, 'normals', lambda x: pk.Transform3d(matrix=M).transform_normals(x), lambda x: x @ M[:, :3, :3].transpose(-1, -2), p, (1, 2, 3), 'K')


@SUITE.config()
def parts(c):
    """transforms built from differentiable parts"""
    q, t, p = c.unit('q', (1,)), c.real('t', (1, 3)), c.real('p', (1, 3))
    up = c.real('G', (1, 3))
    x, y = leaf(q), leaf(t)
    o = pk.Transform3d(rot=x, pos=y).transform_points(p)
    a, b = leaf(q), leaf(t)
    r = (quat_mat(a) @ p[..., None])[..., 0] + b
    for n, g, h in zip(('rotation', 'position'), torch.autograd.grad((o * up).sum(), (x, y)), torch.autograd.grad((r * up).sum(), (a, b))):
        c.eq(n, g, h)
    x, y = leaf(q), leaf(t)
    o = pk.Transform3d(rot=x, pos=y).inverse().transform_points(p)
    a, b = leaf(q), leaf(t)
    r = (quat_mat(a).transpose(-1, -2) @ (p - b)[..., None])[..., 0]
    for n, g, h in zip(('rotation, inverse', 'position, inverse'), torch.autograd.grad((o * up).sum(), (x, y)), torch.autograd.grad((r * up).sum(), (a, b))):
        if n[0] == 'r':     # along the rotations
            v = c.real('w', (1, 4))
            v = v - (v * q).sum() * q
            g, h = (g * v).sum(), (h * v).sum()
        c.eq(n, g, h)
