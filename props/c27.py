import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics.frame import Joint
from symtorch.driver import Suite
from symtorch.h import *
from .kin import Robot, TREE, SERIAL, MJ, choice

SUITE = Suite('C27', ['chain.Chain.clamp', 'chain.Chain.ensure_tensor', 'chain.Chain._get_joint_limits', 'chain.Chain.__init__',
                      'frame.Joint.clamp'],
    'All joint values and all limits with lower <= upper (also equal, also one-sided infinite), any subset of the joints '
    'unlimited; branching, serial and MuJoCo style robots, joints of both kinds; tensors (one configuration, batches of 2 '
    'and 2x3), lists, numpy arrays and dicts in any order; both precisions.')
INF = float('inf')


def moving(spec):
    def dfs(p):
        return [x for n, q, t, _, _ in spec if q == p for x in ([n] if t != 'fixed' else []) + dfs(n)]
    return dfs(None)


def limited(c, spec, dtype=D64, kinds=None, seed=0):
    """kinds: per moving joint in documented order 'b'oth, 'n'one (no limits), 'l'ower only, 'u'pper only"""
    order = moving(spec)
    kinds = dict(zip(order, kinds))
    lim, low, high = {}, [], []
    for n in order:
        k = kinds[n]
        if k == 'n':
            low.append(None), high.append(None)
            continue
        a, b = c.scalar('lo' + n), c.scalar('hi' + n)
        c.assume(a <= b)
        a, b = (a if k in 'bl' else None), (b if k in 'bu' else None)
        low.append(a), high.append(b)
        lim[n] = (-INF if a is None else a, INF if b is None else b)
    return lim, low, high, len(order)


def nearest(q, a, b):
    if a is not None:
        q = torch.where(q < a, a, q)
    if b is not None:
        q = torch.where(q > b, b, q)
    return q


def expect(c, out, q, low, high, dtype=D64):
    c.true('tensor', torch.is_tensor(out) and out.dtype == dtype and out.shape == q.shape)
    want = torch.stack([nearest(q[..., j], low[j], high[j]) for j in range(q.shape[-1])], -1)
    c.eq('nearest value within the limits', out, want)
    for j in range(q.shape[-1]):
        if low[j] is None and high[j] is None:
            c.eq('an unlimited joint', out[..., j], q[..., j])


def check(spec, kinds, shape, container, dtype=D64, serial=None):
    def body(c):
        lim, low, high, n = limited(c, spec, dtype, kinds)
        rob = Robot(c, spec, dtype, limits={k: list(v) for k, v in lim.items()})
        chain = rob.chain()
        if serial:
            chain = pk.SerialChain(chain, serial)
            keep = [rob.joints().index(n) for n in rob.ancestors(serial) if rob.type[n] != 'fixed']
            low, high, n = [low[i] for i in keep], [high[i] for i in keep], len(keep)
        names = chain.get_joint_parameter_names()
        q = c.real('q', tuple(shape) + (n,)).to(dtype)
        keep = q.clone()
        th = q
        if container == 'list':
            th = [q[j] for j in range(n)]
        elif container == 'dict':
            th = {m: q[..., names.index(m)] for m in reversed(names)}
        out = chain.clamp(th)
        expect(c, out, q, low, high, dtype)
        c.eq('argument unchanged', q, keep)
        c.eq('again', chain.clamp(out), out)
        for name, v, side in (('low', chain.low, low), ('high', chain.high, high)):
            c.true(name + ' shape', v.shape == (n,) and v.dtype == dtype)
            s = -INF if name == 'low' else INF
            for j in range(n):
                c.eq('%s of %s' % (name, names[j]), v[j], torch.as_tensor(s, dtype=dtype) if side[j] is None else side[j])
    return body


for _n, _s in (('one', ()), ('batch', (2,)), ('grid', (2, 3))):
    SUITE.add('tree_' + _n, check(TREE, 'bnbblb', _s, 'tensor'))
for _c in ('list', 'dict'):
    SUITE.add('tree_' + _c, check(TREE, 'nbbnub', (), _c))
SUITE.add('tree_dict_batch', check(TREE, 'bblnbb', (2,), 'dict'))
SUITE.add('serial', check(SERIAL, 'bnb', (2,), 'tensor', serial='tip'))
SUITE.add('serial_dict', check(SERIAL, 'nbb', (2,), 'dict', serial='tip'))
SUITE.add('branch', check(TREE, 'bunnlb', (2,), 'tensor', serial='a2'))
SUITE.add('mujoco_style', check(MJ, 'nbub', (2,), 'tensor'))
SUITE.add('single_precision', check(TREE, 'bnbblb', (2,), 'tensor', torch.float32), tol=1e-6)


@SUITE.config()
def numpy_batch(c):
    lim, low, high, n = limited(c, TREE, D64, 'bnbblb')
    chain = Robot(c, TREE, limits=lim).chain()
    q = c.real('q', (2, n))
    expect(c, chain.clamp(np.array(q.tolist(), dtype=np.float64)), q, low, high)


@SUITE.config()
def single_joints(c):
    """the clamp of one joint"""
    a, b = c.scalar('a'), c.scalar('b')
    c.assume(a <= b)
    q = c.real('q', (4,))
    for lim in ((a, b), (a, INF), (-INF, b)):
        j = Joint('j', joint_type='revolute', limits=lim, dtype=D64)
        c.eq('limited', j.clamp(q), nearest(q, None if lim[0] == -INF else a, None if lim[1] == INF else b))
    c.eq('unlimited', Joint('j', joint_type='revolute', dtype=D64).clamp(q), q)


@SUITE.config()
def joint_limit_lists(c):
    """position, velocity and effort limits are listed in joint order; none means unlimited"""
    order = moving(TREE)
    r = Robot(c, TREE)
    want = {}
    for kind in ('limits', 'velocity_limits', 'effort_limits'):
        low, high = [], []
        for i, n in enumerate(order):
            if (i + len(kind)) % 3 == 0:
                low.append(-INF), high.append(INF)
                continue
            low.append(c.scalar('l%s%d' % (kind[0], i))), high.append(c.scalar('h%s%d' % (kind[0], i)))
            setattr(r.frames[n].joint, kind, (low[-1], high[-1]))
        want[kind] = (low, high)
    chain = r.chain()
    for kind, got in (('limits', chain.get_joint_limits()), ('velocity_limits', chain.get_joint_velocity_limits()),
                      ('effort_limits', chain.get_joint_effort_limits())):
        for side, g, w in (('low', got[0], want[kind][0]), ('high', got[1], want[kind][1])):
            c.true('%s %s' % (kind, side), len(g) == len(w))
            for x, y, n in zip(g, w, order):
                c.eq('%s %s of %s' % (kind, side, n), torch.as_tensor(x, dtype=D64), torch.as_tensor(y, dtype=D64))
