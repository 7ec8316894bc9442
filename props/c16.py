import torch
from pytorch_kinematics.transforms import so3
import pytorch_kinematics.transforms as tf
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C16', ['transforms.so3.' + f for f in (
    'so3_relative_angle', 'so3_rotation_angle', 'so3_exp_map', '_so3_exp_map', 'so3_log_map', 'hat', 'hat_inv')]
    + ['transforms.math.acos_linear_extrapolation'],
    'Exponential: all rotation vectors (unit direction times any length up to 4 pi), exact down to the clamp and within 1e-6 below '
    'it, for the default clamp and two others. Logarithm and angles: all rotations (unit axis, any angle in [0, pi]) whose cosine '
    'is inside the clamp +-(1-1e-4), exact; within 1e-5 for the smaller angles. Refusals: all matrices. Batches of 1 and 2.')


def vec(c, name, lo, hi, batch=()):
    u, n = c.unit(name + 'u', batch, dim=3), c.real(name + 'n', batch, lo=lo, hi=hi)
    return u, n


def exp(lo, hi, kw):
    def body(c):
        u, n = vec(c, 'v', lo, hi, (1,))
        v = u * n[:, None]
        keep = v.clone()
        R = so3.so3_exp_map(v, **kw)
        c.true('shape', R.shape == (1, 3, 3))
        c.eq('rotation about the vector by its length', R, rodrigues(u, n))
        c.eq('argument unchanged', v, keep)
    return body


SUITE.add('exp', exp(1.0001e-2, 4 * PI, {}))
SUITE.add('exp_eps_coarse', exp(0.25, 4 * PI, dict(eps=0.0625)))
SUITE.add('exp_eps_fine', exp(1e-4, 4 * PI, dict(eps=1e-8)))


def exp_small(hi, kw, tol):
    def body(c):
        u, n = vec(c, 'v', 0, hi, (1,))
        R = so3.so3_exp_map(u * n[:, None], **kw)
        # I + f1 n K + f2 n^2 K^2 with the clamped factors: compare the factors, K being the unit axis's
        c.eq('antisymmetric part is along the vector', R - R.transpose(-1, -2),
             ((R[0, 2, 1] - R[0, 1, 2]) * u[0, 0] + (R[0, 0, 2] - R[0, 2, 0]) * u[0, 1] + (R[0, 1, 0] - R[0, 0, 1]) * u[0, 2])
             * skew(u))
        d = R - rodrigues(u, n)
        s = ((R[0, 2, 1] - R[0, 1, 2]) * u[0, 0] + (R[0, 0, 2] - R[0, 2, 0]) * u[0, 1] + (R[0, 1, 0] - R[0, 0, 1]) * u[0, 2]) / 2
        c.holds('sine within tolerance', torch.abs(s - torch.sin(n[0])) <= tol)
        tr = (R[0, 0, 0] + R[0, 1, 1] + R[0, 2, 2] - 1) / 2
        c.holds('cosine within tolerance', torch.abs(tr - torch.cos(n[0])) <= tol)
    return body


SUITE.add('exp_small', exp_small(1e-2, {}, 1e-6))


@SUITE.config()
def exp_zero(c):
    v = c.real('v', (2, 3), -4, 4)
    z = torch.zeros(1, 3, dtype=D64)
    c.eq('no rotation', so3.so3_exp_map(z), I3()[None])
    R = so3.so3_exp_map(torch.cat([v, z]))
    for i in range(2):
        c.eq('entry %d alone' % i, R[i], so3.so3_exp_map(v[i:i + 1])[0])
    c.eq('no rotation in a batch', R[2], I3())


def rot(c, name, lo, hi, batch, strict=True):
    """any rotation by its unit axis and the cosine and sine of its angle in (0, pi), cosine in [lo, hi]"""
    u = c.unit(name + 'u', batch, dim=3)
    cs = c.unit(name + 'cs', batch, dim=2)
    co, si = cs[..., 0], cs[..., 1]
    c.assume(si >= 0)
    c.assume((co > lo) & (co < hi) if strict else (co >= lo) & (co <= hi))
    K = skew(u)
    return u, co, si, I3() + si[..., None, None] * K + (1 - co)[..., None, None] * (K @ K)


INSIDE = 1.0 - 1e-4


@SUITE.config()
def angle(c):
    u, co, si, R = rot(c, 'r', -INSIDE, INSIDE, (1,))
    keep = R.clone()
    phi = so3.so3_rotation_angle(R)
    c.true('shape', phi.shape == (1,))
    c.eq('cosine of the angle', so3.so3_rotation_angle(R, cos_angle=True), co)
    c.eq('the angle has that cosine', torch.cos(phi), co)
    c.eq('and that sine', torch.sin(phi), si)
    c.holds('between zero and half a turn', (phi >= 0) & (phi <= PI))
    c.eq('argument unchanged', R, keep)


@SUITE.config()
def angle_unclamped(c):
    u, co, si, R = rot(c, 'r', -1, 1, (1,), False)
    phi = so3.so3_rotation_angle(R, cos_bound=0.0)
    c.eq('cosine', torch.cos(phi), co)
    c.eq('sine', torch.sin(phi), si)
    c.eq('cosine asked for', so3.so3_rotation_angle(R, cos_angle=True, cos_bound=0.0), co)


@SUITE.config()
def angle_other_bound(c):
    u, co, si, R = rot(c, 'r', -0.75, 0.75, (1,))
    phi = so3.so3_rotation_angle(R, cos_bound=0.25)
    c.eq('cosine', torch.cos(phi), co)
    c.eq('sine', torch.sin(phi), si)


@SUITE.config()
def angle_clamped(c):
    """between the clamp and the identity or the half turn the angle is off by at most the tangent's error"""
    u, co, si, R = rot(c, 'r', INSIDE, 1, (1,), False)
    phi = so3.so3_rotation_angle(R)
    c.holds('small angles', (phi >= 0) & (phi <= 0.0143))
    u, co, si, R = rot(c, 's', -1, -INSIDE, (1,), False)
    phi = so3.so3_rotation_angle(R)
    c.holds('half turns', (phi >= PI - 0.0143) & (phi <= PI))


@SUITE.config()
def relative(c):
    A = c.rotation('a', (1,))
    u, co, si, D = rot(c, 'r', -INSIDE, INSIDE, (1,))
    ka = A.clone()
    B = D @ A
    kb = B.clone()
    c.eq('cosine', so3.so3_relative_angle(B, A, cos_angle=True), co)
    c.eq('cosine, the other way', so3.so3_relative_angle(A, B, cos_angle=True), co)
    phi = so3.so3_relative_angle(B, A)
    c.eq('angle by its cosine', torch.cos(phi), co)
    c.eq('angle by its sine', torch.sin(phi), si)
    c.eq('arguments unchanged', torch.cat([A, B]), torch.cat([ka, kb]))
    c.true('exported', tf.so3_relative_angle is so3.so3_relative_angle)


@SUITE.config()
def relative_batch(c):
    A = c.rotation('a', (2,))
    u, co, si, D = rot(c, 'r', -1, 1, (2,), False)
    c.eq('cosines', so3.so3_relative_angle(A, D @ A, cos_angle=True), co)


@SUITE.config()
def log(c):
    u, co, si, R = rot(c, 'r', -INSIDE, INSIDE, (1,))
    keep = R.clone()
    v = so3.so3_log_map(R)
    c.true('shape', v.shape == (1, 3))
    phi = so3.so3_rotation_angle(R)
    c.eq('the axis times the angle', v, u * phi[:, None])
    c.eq('argument unchanged', R, keep)


@SUITE.config()
def exp_log(c):
    # the logarithm is the axis times the angle (above), an angle whose cosine and sine are the rotation's
    u, co, si, R = rot(c, 'r', -INSIDE, INSIDE, (1,))
    c.eq('round trip', so3.so3_exp_map(so3.so3_log_map(R)), R)


@SUITE.config()
def log_small(c):
    u, co, si, R = rot(c, 'r', INSIDE, 1, (1,), False)
    v = so3.so3_log_map(R)
    t = (v * u).sum()
    c.eq('along the axis', v, u * t)
    # the angle is between si and si + si^3 / 5
    c.holds('at least the sine', t >= si[0] - 1e-9)
    # t <= (phi si + 1e-8) / sin(phi) <= si (1 + 4e-5) + 1.5e-6 for the code's own phi in (0.005, 0.0143)
    phi = so3.so3_rotation_angle(R)[0]
    c.holds('range of the angle', (phi > 0.005) & (phi < 0.0143))
    c.holds('within tolerance of the angle', t * torch.sin(phi) <= phi * si[0] + 1e-8)
    c.eq('identity', so3.so3_log_map(I3()[None]), torch.zeros(1, 3, dtype=D64))


@SUITE.config()
def log_batch(c):
    u, co, si, R = rot(c, 'r', -INSIDE, INSIDE, (2,))
    v = so3.so3_log_map(R)
    for i in range(2):
        c.eq('entry %d alone' % i, v[i], so3.so3_log_map(R[i:i + 1])[0])


@SUITE.config()
def hats(c):
    v, w = c.real('v', (2, 3), -100, 100), c.real('w', (2, 3), -100, 100)
    keep = v.clone()
    h = so3.hat(v)
    c.eq('skew matrix', h, skew(v))
    cr = torch.stack([v[:, 1] * w[:, 2] - v[:, 2] * w[:, 1], v[:, 2] * w[:, 0] - v[:, 0] * w[:, 2],
                      v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0]], -1)
    c.eq('cross product', matvec(h, w), cr)
    c.eq('inverse', so3.hat_inv(h), v)
    c.eq('argument unchanged', v, keep)


def outcome(fn, exc=ValueError):
    try:
        return fn(), None
    except exc:
        return None, True


@SUITE.config()
def hat_inv_refuses(c):
    h = c.real('h', (1, 3, 3), -10, 10)
    v, err = outcome(lambda: so3.hat_inv(h))
    worst = (h + h.transpose(-1, -2)).abs().amax()
    if err:
        c.holds('refused only when not skew-symmetric', worst > 0.99e-5)
    else:
        c.holds('accepted only when skew-symmetric within tolerance', worst <= 1.01e-5)
        c.holds('its entries', (v - torch.stack([h[:, 2, 1], h[:, 0, 2], h[:, 1, 0]], -1)).abs() <= 1.01e-5)


@SUITE.config()
def hat_inv_refuses_in_batch(c):
    g = c.real('h', (3,), -10, 10)
    e = c.real('e', (), 1.1e-5, 1)
    bad = skew(g).clone()
    bad[0, 2] = bad[0, 2] + e
    ok = skew(c.real('k', (3,), -10, 10))
    c.raises('second entry bad', lambda: so3.hat_inv(torch.stack([ok, bad])), ValueError)
    c.raises('first entry bad', lambda: so3.hat_inv(torch.stack([bad, ok])), ValueError)


def trace_refusal(fn, name):
    def body(c):
        M = c.real('m', (2, 3, 3), -10, 10)
        r, err = outcome(lambda: fn(M))
        tr = M[:, 0, 0] + M[:, 1, 1] + M[:, 2, 2]
        out = (tr < -1 - 1e-4) | (tr > 3 + 1e-4)
        if err:
            c.holds('refused only for an impossible trace', out.any())
        else:
            c.holds('accepted only for a possible trace', ~out.any())
    return body


SUITE.add('rotation_angle_refuses', trace_refusal(lambda M: so3.so3_rotation_angle(M, cos_angle=True), 'angle'))
SUITE.add('relative_angle_refuses', trace_refusal(
    lambda M: so3.so3_relative_angle(M, I3().expand(2, 3, 3), cos_angle=True), 'relative'))


@SUITE.config()
def log_refuses(c):
    M = c.real('m', (1, 3, 3), -10, 10)
    tr = M[0, 0, 0] + M[0, 1, 1] + M[0, 2, 2]
    c.assume((tr < -1.001) | (tr > 3.001))
    c.raises('impossible trace', lambda: so3.so3_log_map(M), ValueError)
    c.raises('impossible trace: angle', lambda: so3.so3_rotation_angle(M), ValueError)


@SUITE.config()
def shapes_refused(c):
    for s in ((1, 4, 4), (1, 3, 4), (1, 4, 3), (2, 2, 2)):
        M = torch.zeros(s, dtype=D64)
        for f in (so3.so3_rotation_angle, so3.so3_log_map, so3.hat_inv):
            c.raises('%s of %s' % (f.__name__, s), lambda: f(M), ValueError)
    for n in (2, 4):
        M = c.real('v%d' % n, (1, n))
        c.raises('exp of %d numbers' % n, lambda: so3.so3_exp_map(M), ValueError)
        c.raises('hat of %d numbers' % n, lambda: so3.hat(M), ValueError)
