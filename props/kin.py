"""Robots with symbolic geometry, and the reference kinematics (independent of the code under test)."""
import torch
import pytorch_kinematics as pk
from pytorch_kinematics.frame import Frame, Joint, Link
from symtorch.h import *

# (name, parent, joint type, joint offset?, link offset?)
SERIAL = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 1, 0), ('l2', 'l1', 'prismatic', 1, 0),
          ('l3', 'l2', 'fixed', 1, 0), ('l4', 'l3', 'revolute', 1, 0), ('tip', 'l4', 'fixed', 1, 0)]
REVS = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 1, 0), ('l2', 'l1', 'revolute', 1, 0),
        ('tip', 'l2', 'fixed', 1, 0)]
PRIS = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'prismatic', 1, 0), ('l2', 'l1', 'prismatic', 1, 0),
        ('tip', 'l2', 'fixed', 1, 0)]
FIXED = [('base', None, 'fixed', 1, 1), ('l1', 'base', 'fixed', 1, 0), ('l2', 'l1', 'fixed', 0, 1)]
# a hand: branches, siblings in a non-alphabetical order, joints of both kinds, a fixed palm
TREE = [('base', None, 'fixed', 0, 0), ('zeta', 'base', 'revolute', 1, 0), ('alpha', 'base', 'prismatic', 1, 0),
        ('z1', 'zeta', 'fixed', 1, 0), ('z2', 'z1', 'revolute', 1, 0), ('a1', 'alpha', 'revolute', 1, 0),
        ('z3', 'zeta', 'revolute', 1, 0), ('a2', 'a1', 'prismatic', 1, 0)]
# MuJoCo style: link offsets, moving root
MJ = [('root', None, 'revolute', 1, 1), ('b', 'root', 'prismatic', 1, 1), ('c', 'root', 'revolute', 0, 1),
      ('d', 'b', 'revolute', 1, 1), ('e', 'c', 'fixed', 1, 1)]
DEEP = [('b%d' % i, 'b%d' % (i - 1) if i else None, 'fixed' if i in (0, 9) else ('prismatic' if i == 5 else 'revolute'),
         1 if i else 0, 0) for i in range(10)]
SPECS = {'serial': SERIAL, 'revolute': REVS, 'prismatic': PRIS, 'fixed': FIXED, 'tree': TREE, 'mjstyle': MJ,
         'deep': DEEP}

# large robots
LARGE = {
    # seventy frames in a row
    'tower': [('b%d' % i, 'b%d' % (i - 1) if i else None, 'fixed' if i % 9 == 0 else ('prismatic' if i % 5 == 2 else 'revolute'),
               1 if i % 4 == 1 else 0, 0) for i in range(70)],
    # twelve branches of two joints each on one palm
    'brush': [('palm', None, 'fixed', 0, 0)] + [('s%02d' % (7 * i % 12), 'palm', 'revolute' if i % 3 else 'prismatic', 1, 0) for i in range(12)]
             + [('t%02d' % (7 * i % 12), 's%02d' % (7 * i % 12), 'prismatic' if i % 2 else 'revolute', 0, 0) for i in range(12)],
}


class Robot:
    def __init__(self, c, spec, dtype=D64, geometry='symbolic', limits=None, names=None, axis_scale=False):
        self.spec = spec
        self.off, self.lof, self.axis, self.type, self.parent, self.order = {}, {}, {}, {}, {}, []
        self.frames = {}
        limits = limits or {}
        for name, parent, jt, jo, lo in spec:
            self.order.append(name)
            self.type[name], self.parent[name] = jt, parent
            self.off[name] = c.pose('O' + name) if jo else None
            self.lof[name] = c.pose('L' + name) if lo else None
            if jt != 'fixed':
                self.axis[name] = c.unit('A' + name, (), dim=3)
            else:
                self.axis[name] = None
            conv = lambda T: None if T is None else pk.Transform3d(matrix=T.to(dtype))
            self.frames[name] = Frame(name, link=Link(name + '_link', offset=conv(self.lof[name])),
                                      joint=Joint('j_' + name, offset=conv(self.off[name]), joint_type=jt,
                                                  axis=None if self.axis[name] is None else self.axis[name].to(dtype),
                                                  dtype=dtype, limits=limits.get(name)))
            if parent is not None:
                self.frames[parent].add_child(self.frames[name])
        self.root = spec[0][0]
        self.dtype = dtype

    def chain(self, **k):
        return pk.Chain(self.frames[self.root], dtype=self.dtype, **k)

    def children(self, name):
        return [n for n in self.order if self.parent[n] == name]

    def dfs(self, name=None):
        name = name or self.root
        out = [name]
        for ch in self.children(name):
            out += self.dfs(ch)
        return out

    def joints(self):
        """frames of the moving joints in documented (depth-first) order"""
        return [n for n in self.dfs() if self.type[n] != 'fixed']

    def ancestors(self, name):
        out = []
        while name is not None:
            out.insert(0, name)
            name = self.parent[name]
        return out

    def static(self, name, batch=()):
        S = I4()
        if self.lof[name] is not None:
            S = S @ self.lof[name]
        if self.off[name] is not None:
            S = S @ self.off[name]
        return S

    def local(self, name, q):
        """reference transform from the parent frame to this frame; q: (B,) value of its joint"""
        S = self.static(name)
        if self.type[name] == 'fixed':
            return S
        f = rot_trans if self.type[name] == 'revolute' else prism
        a = self.axis[name]
        return S @ f(a.expand(q.shape + (3,)), q)

    def fk(self, name, th):
        """reference world transform; th: (B, n_joints) in documented order"""
        J = self.joints()
        T = I4()
        for n in self.ancestors(name):
            T = T @ self.local(n, th[:, J.index(n)] if n in J else None)
        return T


def choice(c, name, k):
    """an arbitrary element of range(k); forks one path per value"""
    if k == 1:
        return 0
    b = c.bools(name, (k - 1,))
    for i in range(k - 1):
        if b[i]:
            return i
    return k - 1


def any_tree(c, n, names=None, joint_types=('fixed', 'revolute', 'prismatic'), root_types=('fixed', 'revolute')):
    """an arbitrary ordered tree on n frames, the children of a frame in arbitrary order of creation"""
    names = names or ['base', 'zed', 'mid', 'arm', 'link_1', 'a']
    spec = []
    for i in range(n):
        p = None if i == 0 else spec[choice(c, 'p%d' % i, i)][0]
        ts = root_types if i == 0 else joint_types
        spec.append((names[i], p, ts[choice(c, 't%d' % i, len(ts))], 0, 0))
    return spec
