import torch
import pytorch_kinematics as pk
from symtorch.driver import Suite
from symtorch.h import *
from props.kin import *

SUITE = Suite('C05', ['chain.SerialChain.__init__', 'chain.SerialChain.forward_kinematics', 'chain.Chain.find_frame',
                      'chain.Chain.get_frame_indices', 'chain._fk_impl'],
              'Every (root, end) pair on four robots (serial, branching, moving root with link offsets, ten frames), '
              'arbitrary rigid offsets, axes and joint values of the whole robot; frame by frame from the extracted root.')


def pairs(spec):
    rows = SPECS[spec]
    par = {n: p for n, p, *_ in rows}
    out = []
    for n in par:
        a = n
        while a is not None:
            out.append((a, n))
            a = par[a]
    return out


def check(c, r, ch, root, end):
    s = pk.SerialChain(ch, end, '' if root == r.root and end != root else root)
    anc = r.ancestors(end)
    path = anc[anc.index(root):]
    J = [n for n in path[1:] if r.type[n] != 'fixed']
    tag = '%s..%s: ' % (root, end)
    c.true(tag + 'joints are those on the path, in order', s.get_joint_parameter_names() == ['j_' + n for n in J])
    c.true(tag + 'frames are those on the path, in order', s.get_frame_names(exclude_fixed=False) == path)
    c.true(tag + 'same dtype', s.dtype == ch.dtype)
    th = c.real('th%s%s' % (root, end), (2, len(J)))
    T = s.forward_kinematics(th, end_only=False)
    c.true(tag + 'transforms of exactly the path', set(T) == set(path))
    T = {n: T[n].get_matrix() for n in path}
    c.eq(tag + 'root frame is the origin', T[root], I4().expand(2, 4, 4))
    for p, n in zip(path, path[1:]):
        q = th[:, J.index(n)] if n in J else None
        c.eq(tag + 'step %s -> %s' % (p, n), T[n], T[p] @ r.local(n, q), cut=[T[p]])


def body(spec, k, m):
    def f(c):
        r = Robot(c, SPECS[spec])
        ch = r.chain()
        before = ch.forward_kinematics(torch.zeros(1, len(r.joints()), dtype=D64))
        for a, b in pairs(spec)[k::m]:
            check(c, r, ch, a, b)
        after = ch.forward_kinematics(torch.zeros(1, len(r.joints()), dtype=D64))
        c.true('original still has all its frames', set(after) == set(r.order) and ch.get_joint_parameter_names() == ['j_' + n for n in r.joints()])
        for n in r.order:
            c.eq('extraction leaves the original robot unchanged', after[n].get_matrix(), before[n].get_matrix())
    return f


for _k in range(4):
    SUITE.add('serial_%d' % _k, body('serial', _k, 4))
    SUITE.add('tree_%d' % _k, body('tree', _k, 4))
for _k in range(2):
    SUITE.add('mjstyle_%d' % _k, body('mjstyle', _k, 2))
for _k in range(10):
    SUITE.add('deep_%d' % _k, body('deep', _k, 10), tier='thorough')


@SUITE.config()
def tower(c):
    r = Robot(c, LARGE['tower'])
    ch = r.chain()
    for a, b in (('b0', 'b69'), ('b12', 'b63'), ('b10', 'b11')):
        check(c, r, ch, a, b)


@SUITE.config()
def brush(c):
    r = Robot(c, LARGE['brush'])
    ch = r.chain()
    for b in ('t10', 't07', 's11'):
        check(c, r, ch, 'palm', b)


@SUITE.config()
def relation(c):
    """closed form on a small robot: world pose of the root times the serial pose is the world pose of the end"""
    r = Robot(c, [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 0, 0), ('l2', 'l1', 'prismatic', 1, 0),
                  ('l3', 'l2', 'revolute', 1, 0), ('tip', 'l3', 'fixed', 1, 0)])
    ch = r.chain()
    th = c.real('th', (1, 3))
    W = ch.forward_kinematics(th)
    s = pk.SerialChain(ch, 'tip', 'l2', dtype=D64)
    c.eq('root pose times serial pose', W['l2'].get_matrix() @ s.forward_kinematics(th[:, 2:]).get_matrix(),
         W['tip'].get_matrix(), cut=[W['l2'].get_matrix()])


@SUITE.config()
def errors(c):
    r = Robot(c, TREE)
    ch = r.chain()
    c.raises('unknown root frame', lambda: pk.SerialChain(ch, 'a2', 'nope'), ValueError)
    c.raises('unknown end frame', lambda: pk.SerialChain(ch, 'nope'), (KeyError, ValueError))
    c.raises('end that is not below the root', lambda: pk.SerialChain(ch, 'a2', 'zeta'), (KeyError, ValueError))


def loaded(dtype):
    def f(c):
        """extracted from a robot that was moved to another dtype, with no dtype given"""
        r = Robot(c, SERIAL)
        ch = r.chain().to(dtype=dtype)
        s = pk.SerialChain(ch, 'tip')
        th = c.real('th', (1, 3), dtype=dtype)
        T = {n: t.get_matrix() for n, t in s.forward_kinematics(th, end_only=False).items()}
        c.true('dtype is that of the robot', all(t.dtype == dtype for t in T.values()))
        for p, n in zip(r.order, r.order[1:]):
            J = r.joints()
            q = th[:, J.index(n)].to(D64) if n in J else None
            c.eq('step', T[n].to(D64), T[p].to(D64) @ r.local(n, q), cut=[T[p]], tol=1e-3)
    return f


SUITE.add('dtype_64', loaded(torch.float64))
SUITE.add('dtype_32', loaded(torch.float32), tol=1e-3)
