import torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import math as pm
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C17', ['transforms.math.' + f for f in (
    'quaternion_angular_distance', 'quaternion_close', 'quaternion_slerp')],
    'All pairs of unit quaternions, as q and q times any relative rotation (unit axis, any half angle in [0, pi]); all '
    'interpolation parameters in [0, 1], as a number or one per pair. Angles under 0.0201 may count as zero; rotations closer '
    'than 0.0029 are interpolated linearly, decided to within 1e-6. Batches of none, 1 and 2.')


def relative(c, name, batch=(), lo=0.0, hi=1.0):
    """any relative rotation: (cosine, sine of the half angle, axis, quaternion), cosine in (lo, hi)"""
    n, cs = c.unit(name + 'n', batch, dim=3), c.unit(name + 'cs', batch, dim=2)
    co, si = cs[..., 0], cs[..., 1]
    c.assume((si >= 0) & (co > lo) & (co < hi))
    return co, si, n, torch.cat([co[..., None], n * si[..., None]], -1)


FAR = 0.99994999        # cosine of half of 0.02 rad: beyond it distances may be taken as zero


def distance(batch, lo, hi, sign):
    def body(c):
        q = c.unit('q', batch)
        co, si, n, r = relative(c, 'r', batch, lo, hi)
        p = sign * qmul(q, r)
        kq, kp = q.clone(), p.clone()
        d = pm.quaternion_angular_distance(q, p)
        c.true('shape', d.shape == batch)
        c.eq('cosine of the angle between', torch.cos(d), 2 * co * co - 1)
        c.holds('between zero and half a turn', (d >= 0) & (d <= PI))
        c.eq('symmetric', pm.quaternion_angular_distance(p, q), d)
        c.eq('blind to the sign of the first', pm.quaternion_angular_distance(-q, p), d)
        c.eq('blind to the sign of the second', pm.quaternion_angular_distance(q, -p), d)
        c.eq('arguments unchanged', torch.stack([q, p]), torch.stack([kq, kp]))
        c.true('exported', pk.quaternion_angular_distance is pm.quaternion_angular_distance)
    return body


SUITE.add('distance_acute', distance((), 0.0, FAR, 1))
SUITE.add('distance_obtuse', distance((), -FAR, 0.0, 1))
SUITE.add('distance_opposite', distance((), 0.0, FAR, -1))
SUITE.add('distance_batch_of_one', distance((1,), -FAR, FAR, 1))


@SUITE.config()
def distance_half_turn(c):
    q, n = c.unit('q'), c.unit('n', dim=3)
    d = pm.quaternion_angular_distance(q, qmul(q, torch.cat([n.new_zeros(1), n])))
    c.eq('half a turn', d, t64(PI))


@SUITE.config()
def distance_close(c):
    q = c.unit('q')
    co, si, n, r = relative(c, 'r', (), FAR, 1.0)
    for s in (1, -1):
        d = pm.quaternion_angular_distance(q, s * qmul(q, r))
        c.holds('zero or the angle, sign %d' % s, (d == 0) | (torch.abs(torch.cos(d) - (2 * co * co - 1)) <= 1e-9))
        c.holds('small, sign %d' % s, (d >= 0) & (d <= 0.0201))
    c.eq('zero from itself', pm.quaternion_angular_distance(q, q), t64(0.))
    c.eq('zero from its opposite', pm.quaternion_angular_distance(q, -q), t64(0.))


@SUITE.config()
def distance_batch(c):
    q = c.unit('q', (2,))
    co, si, n, r = relative(c, 'r', (2,), -1.0, 1.0)
    p = qmul(q, r)
    d = pm.quaternion_angular_distance(q, p)
    c.true('shape', d.shape == (2,))
    for i in range(2):
        c.eq('pair %d alone' % i, d[i], pm.quaternion_angular_distance(q[i], p[i]))
    c.eq('one against many', pm.quaternion_angular_distance(q[0], q), torch.stack(
        [pm.quaternion_angular_distance(q[0], q[i]) for i in range(2)]))


NEAR = 1.0 - 1.0e-6         # cosine of the half angle beyond which the interpolation is linear


def turn(q, n, a):
    """q turned by the half angle a about n"""
    return qmul(q, torch.cat([torch.cos(a)[..., None], n * torch.sin(a)[..., None]], -1))


def slerp(batch, sign, tt):
    def body(c):
        q = c.unit('q', batch)
        co, si, n, r = relative(c, 'r', batch, 0.0, NEAR)
        p = sign * qmul(q, r)
        kq, kp = q.clone(), p.clone()
        t = {'number': lambda: c.scalar('t', 0, 1), 'tensor': lambda: c.real('t', (), 0, 1),
             'each': lambda: c.real('t', batch, 0, 1)}[tt]()
        s = pm.quaternion_slerp(q, p, t)
        a = torch.acos(co)
        c.true('shape', s.shape == batch + (4,))
        c.eq('turned by the same share of the angle, the shorter way', s, turn(q, n, t * a))
        c.eq('unit', (s * s).sum(-1), torch.ones(batch, dtype=D64))
        c.eq('starts at the first', pm.quaternion_slerp(q, p, 0.0), q)
        c.eq('ends at the second', pm.quaternion_slerp(q, p, 1.0), sign * p)
        c.eq('arguments unchanged', torch.stack([q, p]), torch.stack([kq, kp]))
        c.true('exported', pk.quaternion_slerp is pm.quaternion_slerp)
    return body


for _b in ((), (1,), (2,)):
    _nm = 'x'.join(map(str, _b)) or 'single'
    for _s in (1, -1):
        for _t in ('number', 'tensor') if not _b else ('number', 'each'):
            SUITE.add('slerp_%s_%s_%s' % (_nm, 'same' if _s == 1 else 'opposite', _t), slerp(_b, _s, _t),
                      tier='thorough' if _b == (2,) and _t == 'number' else 'quick')


def slerp_near(sign):
    def body(c):
        q = c.unit('q')
        co, si, n, r = relative(c, 'r', (), NEAR, 2.0)
        p = sign * qmul(q, r)
        t = c.real('t', (), 0, 1)
        s = pm.quaternion_slerp(q, p, t)
        back = qmul(torch.cat([q[:1], -q[1:]]), s)
        c.holds('unit within tolerance', torch.abs((s * s).sum(-1) - 1) <= 1e-6)
        c.eq('turned about the axis', back[1:], n * (back[1:] * n).sum())
        c.holds('by a share of the angle', torch.abs((back[1:] * n).sum() - t * si) <= 1e-6)
        c.holds('no further', torch.abs(back[0] - 1) <= 1.1e-6)
        c.eq('starts at the first', pm.quaternion_slerp(q, p, 0.0), q)
        c.eq('ends at the second', pm.quaternion_slerp(q, p, 1.0), sign * p)
        c.eq('stays put between equals', pm.quaternion_slerp(q, q, t), q)
        c.eq('stays put between opposites', pm.quaternion_slerp(q, -q, t), q)
    return body


SUITE.add('slerp_near_same', slerp_near(1))
SUITE.add('slerp_near_opposite', slerp_near(-1))


@SUITE.config()
def slerp_mixed_batch(c):
    """pairs near and far, same and opposite, do not disturb each other"""
    q = c.unit('q', (2,))
    co, si, n, r = relative(c, 'r', (2,), -1.0, 1.0)
    p = qmul(q, r)
    t = c.real('t', (2,), 0, 1)
    s = pm.quaternion_slerp(q, p, t)
    for i in range(2):
        c.eq('pair %d alone' % i, s[i], pm.quaternion_slerp(q[i], p[i], t[i]))


@SUITE.config()
def slerp_half_turn(c):
    q, n, t = c.unit('q'), c.unit('n', dim=3), c.real('t', (), 0, 1)
    p = qmul(q, torch.cat([n.new_zeros(1), n]))
    s = pm.quaternion_slerp(q, p, t)
    d1, d2 = s - turn(q, n, t * PI / 2), s - turn(q, n, -t * PI / 2)
    c.holds('at constant rate, either way round', ((d1 * d1).sum() <= 1e-12) | ((d2 * d2).sum() <= 1e-12))


@SUITE.config()
def close_all(c):
    q = c.unit('q', (2,))
    co, si, n, r = relative(c, 'r', (2,), -1.0, 2.0)
    got = pm.quaternion_close(q, qmul(q, r))
    c.holds('close when every pair is', (got != 0) == ((si * si < 1e-4).all()))
    got = pm.quaternion_close(q, qmul(q, r), eps=0.25)
    c.holds('with a tolerance', (got != 0) == ((si * si < 0.25).all()))
