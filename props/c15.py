import torch
from pytorch_kinematics.transforms import rotation_conversions as rc
import pytorch_kinematics.transforms as tf
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C15', ['rotation_conversions.' + f for f in (
    'quaternion_raw_multiply', 'quaternion_multiply', 'quaternion_invert', 'quaternion_apply', 'standardize_quaternion',
    'random_quaternions', 'random_rotations', 'random_rotation', 'quaternion_to_matrix', '_copysign')],
    'All unit quaternions (and, for the product formula, all real quaternions), all points, all draws of a non-zero vector of '
    'any length in [1e-6, 1e6]; batch shapes (), (2,), (2,1)x(3,), (2,2).')


def qmat(q):
    """textbook matrix of a unit quaternion"""
    w, x, y, z = q.unbind(-1)
    v = q[..., 1:]
    return ((w * w - (v * v).sum(-1))[..., None, None] * I3() + 2 * v[..., :, None] * v[..., None, :]
            + 2 * w[..., None, None] * skew(v))


def conj(q):
    return torch.cat([q[..., :1], -q[..., 1:]], -1)


SHAPES = {'single': ((), ()), 'batch': ((2,), (2,)), 'broadcast': ((2, 1), (3,)), 'two_batch_dims': ((2, 2), (2,)),
          'one_to_many': ((), (2,)), 'many_to_one': ((2,), ())}


def product(sa, sb):
    def body(c):
        a, b = c.real('a', sa + (4,)), c.real('b', sb + (4,))
        ka, kb = a.clone(), b.clone()
        c.eq('Hamilton product', rc.quaternion_raw_multiply(a, b), qmul(a, b))
        r = rc.quaternion_multiply(a, b)
        w = qmul(a, b)
        c.true('shape', r.shape == torch.broadcast_shapes(a.shape, b.shape))
        c.eq('standardised product', r, torch.where(w[..., :1] < 0, -w, w))
        c.eq('first operand unchanged', a, ka)
        c.eq('second operand unchanged', b, kb)
    return body


def compose(sa, sb):
    def body(c):
        a, b = c.unit('a', sa), c.unit('b', sb)
        want = qmat(a) @ qmat(b)
        p = rc.quaternion_multiply(a, b)
        c.eq('product denotes the composition', rc.quaternion_to_matrix(p), want)
        c.eq('raw product denotes the composition', rc.quaternion_to_matrix(rc.quaternion_raw_multiply(a, b)), want)
        c.eq('unit', (p * p).sum(-1), torch.ones(p.shape[:-1], dtype=D64))
        c.holds('non-negative real part', p[..., 0] >= 0)
    return body


def invert(s):
    def body(c):
        q = c.unit('q', s)
        keep = q.clone()
        i = rc.quaternion_invert(q)
        c.true('shape', i.shape == q.shape)
        c.eq('inverse rotation', rc.quaternion_to_matrix(i), qmat(q).transpose(-1, -2))
        one = torch.tensor([1., 0, 0, 0], dtype=D64).expand(q.shape)
        c.eq('right inverse', rc.quaternion_multiply(q, i), one)
        c.eq('left inverse', rc.quaternion_multiply(i, q), one)
        c.eq('argument unchanged', q, keep)
    return body


def apply(sq, sp):
    def body(c):
        q, p = c.unit('q', sq), c.real('p', sp + (3,))
        keep, kq = p.clone(), q.clone()
        r = rc.quaternion_apply(q, p)
        c.eq('moves points as the matrix', r, matvec(qmat(q), p))
        c.eq('the same as the opposite quaternion', rc.quaternion_apply(-q, p), r)
        c.eq('undone by the inverse', rc.quaternion_apply(rc.quaternion_invert(q), r), p.expand(r.shape))
        c.eq('points unchanged', p, keep)
        c.eq('quaternion unchanged', q, kq)
    return body


def standard(s):
    def body(c):
        q = c.real('q', s + (4,))
        keep = q.clone()
        r = rc.standardize_quaternion(q)
        c.true('shape', r.shape == q.shape)
        c.holds('non-negative real part', r[..., 0] >= 0)
        c.eq('the same or the opposite', r, torch.where(q[..., :1] < 0, -q, q))
        c.eq('argument unchanged', q, keep)
        u = c.unit('u', s)
        c.eq('same rotation', rc.quaternion_to_matrix(rc.standardize_quaternion(u)), qmat(u))
        c.eq('idempotent', rc.standardize_quaternion(r), r)
    return body


for _n, (_a, _b) in SHAPES.items():
    SUITE.add('product_' + _n, product(_a, _b))
    # the batched forms of product_* are the product of each pair; what it denotes is decided once for a pair
    SUITE.add('compose_' + _n, compose(_a, _b), tier='quick' if _n in ('single', 'one_to_many') else 'thorough')
    SUITE.add('apply_' + _n, apply(_a, _b))
for _s in ((), (2,), (2, 2)):
    SUITE.add('invert_%s' % 'x'.join(map(str, _s)), invert(_s))
    SUITE.add('standard_%s' % 'x'.join(map(str, _s)), standard(_s))


@SUITE.config()
def apply_refuses(c):
    c.raises('points not in 3D', lambda: rc.quaternion_apply(c.unit('q'), c.real('p', (4,))), ValueError)


def draws(c):
    """any non-zero vectors: the direction and the length of each"""
    def on_random(k, kind, shape, dtype):
        if kind != 'randn' or not shape:
            return None
        u = c.unit('draw%d' % k, shape[:-1], dim=shape[-1])
        n = c.real('len%d' % k, shape[:-1], lo=1e-6, hi=1e6)
        return (u * n[..., None]).to(dtype)
    c.on_random = on_random


def random_q(n, dtype):
    def body(c):
        draws(c)
        q = rc.random_quaternions(n, dtype=dtype)
        c.true('shape', q.shape == (n, 4))
        c.true('dtype', q.dtype == (dtype or torch.get_default_dtype()))
        q = q.to(D64)
        c.eq('unit', (q * q).sum(-1), torch.ones(n, dtype=D64))
        c.holds('non-negative real part', q[:, 0] >= 0)
    return body


def random_R(n, dtype):
    def body(c):
        draws(c)
        R = rc.random_rotations(n, dtype=dtype)
        c.true('shape', R.shape == (n, 3, 3))
        c.true('dtype', R.dtype == (dtype or torch.get_default_dtype()))
        is_rotation(c, 'random_rotations', R.to(D64))
        R1 = rc.random_rotation(dtype=dtype)
        c.true('shape of one', R1.shape == (3, 3))
        is_rotation(c, 'random_rotation', R1.to(D64))
        c.true('exported', tf.random_rotation is rc.random_rotation)
    return body


for _n in (1, 3):
    for _d, _dt in (('f64', D64), ('f32', torch.float32)):
        SUITE.add('random_quaternions_%d_%s' % (_n, _d), random_q(_n, _dt), **({'tol': 2e-4} if _d == 'f32' else {}))
        SUITE.add('random_rotations_%d_%s' % (_n, _d), random_R(_n, _dt), **({'tol': 2e-4} if _d == 'f32' else {}))
