import torch
from pytorch_kinematics.transforms import math as pm
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C28', ['transforms.math.' + f for f in (
    'acos_linear_extrapolation', '_acos_linear_approximation', '_dacos_dx')],
    'All real arguments; the default bound, six other symmetric and unsymmetric ones (equal bounds included) and nine refused ones; '
    'none, 1, 2 and 2x2 entries, both precisions.')
BOUNDS = {'default': None, 'half': 0.5, 'zero': 0.0, 'nearly_one': 1.0 - 1e-7, 'uneven': (-0.25, 0.75), 'both_positive': (0.125, 0.9),
          'equal': (0.3, 0.3), 'list': [-0.9, 0.2]}


def ref(x, lo, hi):
    """the arc cosine inside, its tangent lines outside, of one number"""
    if bool(x >= hi):
        return math.acos(hi) - (x - hi) / math.sqrt(1 - hi * hi)
    if bool(x <= lo):
        return math.acos(lo) - (x - lo) / math.sqrt(1 - lo * lo)
    return torch.acos(x)


def check(bound, shape, dtype=D64, tol=1e-9):
    lo, hi = (bound if isinstance(bound, (tuple, list)) else (-(1.0 - 1e-4), 1.0 - 1e-4) if bound is None else (-bound, bound))

    def body(c):
        x = c.real('x', shape, dtype=dtype)
        keep = x.clone()
        y = pm.acos_linear_extrapolation(x) if bound is None else pm.acos_linear_extrapolation(x, bound)
        c.true('shape', y.shape == x.shape)
        c.true('dtype', y.dtype == dtype)
        x = x.to(D64)
        want = torch.stack([ref(v, lo, hi) for v in x.reshape(-1)]).reshape(shape)
        c.holds('arc cosine inside, tangent outside', torch.abs(y.to(D64) - want) <= tol * (1 + torch.abs(x)))
        c.eq('argument unchanged', x, keep.to(D64))
    return body


for _n, _b in BOUNDS.items():
    SUITE.add('scalar_' + _n, check(_b, ()))
    SUITE.add('pair_' + _n, check(_b, (2,)))
SUITE.add('grid_default', check(None, (2, 2)), max_paths=128)
SUITE.add('grid_half', check(0.5, (2, 2)), max_paths=128, tier='thorough')
SUITE.add('one_uneven', check((-0.25, 0.75), (1,)))
SUITE.add('single_precision', check(0.5, (2,), torch.float32, 1e-4))


def monotone(bound):
    """pairs of arguments in different regions, and outside, decrease; inside it is the arc cosine itself"""
    lo, hi = (bound if isinstance(bound, tuple) else (-bound, bound))

    def body(c):
        x = c.real('x', (2,))
        c.assume(x[0] < x[1])
        c.assume((x[0] <= lo) | (x[1] >= hi))
        c.assume((x <= lo) | (x >= hi))
        y = pm.acos_linear_extrapolation(x, bound)
        c.holds('decreasing', y[0] > y[1])
    return body


SUITE.add('decreasing_half', monotone(0.5))
SUITE.add('decreasing_uneven', monotone((-0.25, 0.75)))


@SUITE.config()
def continuous(c):
    """a value on a bound is the arc cosine's from either side"""
    for lo, hi in ((-0.5, 0.5), (-0.25, 0.75), (-0.9999, 0.9999)):
        y = pm.acos_linear_extrapolation(t64([lo, hi]), (lo, hi))
        c.eq('at %g and %g' % (lo, hi), y, t64([math.acos(lo), math.acos(hi)]))
        e = c.real('e%g' % lo, (), 0, 1e-6)
        z = pm.acos_linear_extrapolation(torch.stack([lo - e, hi + e]), (lo, hi))
        c.holds('close to it outside', torch.abs(z - y) <= 1e-4)


@SUITE.config()
def refused(c):
    x = c.real('x', (2,))
    for b in (1.0, 1.5, -0.5, (0.5, -0.5), (-1.0, 0.5), (-0.5, 1.0), (-2.0, 0.5), (-0.5, 2.0), (0.2, 0.1)):
        c.raises('bound %s' % (b,), lambda: pm.acos_linear_extrapolation(x, b), ValueError)


@SUITE.config()
def refused_any(c):
    """every pair of bounds in the wrong order or not within (-1, 1)"""
    x = c.real('x', (2,))
    lo, hi = c.scalar('lo', -10, 10), c.scalar('hi', -10, 10)
    c.assume((lo > hi) | (lo <= -1) | (hi >= 1) if not isinstance(lo, float) else lo > hi or lo <= -1 or hi >= 1)
    c.raises('refused', lambda: pm.acos_linear_extrapolation(x, (lo, hi)), ValueError)
