import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics.frame import Frame, Joint, Link
from symtorch.driver import Suite
from symtorch.h import *
from props.kin import *

SUITE = Suite('C06', ['chain.Chain.__init__', 'chain.Chain._get_joints', 'chain.Chain.get_joints',
                      'chain.Chain.get_joint_parameter_names', 'chain.Chain.get_joint_parent_frame_names',
                      'chain.Chain.get_frame_names', 'chain.Chain.get_links', 'chain.Chain.get_link_names',
                      'chain.Chain.find_frame', 'chain.Chain.find_link', 'chain.Chain.find_joint',
                      'chain.Chain.get_frame_indices', 'chain.Chain.get_joint_limits',
                      'chain.Chain.get_joint_velocity_limits', 'chain.Chain.get_joint_effort_limits',
                      'chain.Chain.get_joints_and_child_links', 'frame.Frame.add_child'],
              'Every ordered tree with up to four frames (quick) or five (thorough) and every assignment of fixed, '
              'revolute and prismatic joints, chosen by symbolic booleans; every real limit value and every choice of '
              'limited or unlimited joints on four fixed trees of up to eight frames. Frame, joint and link names are '
              'distinct and not in tree order.')


class Shape:
    """plain frames for a spec; link i sits i + 1 units along x from its parent"""

    def __init__(self, spec, limits=None):
        self.spec, self.frames = spec, {}
        self.parent = {n: p for n, p, *_ in spec}
        self.type = {n: t for n, _, t, *_ in spec}
        self.order = [n for n, *_ in spec]
        for i, (n, p, t, *_) in enumerate(spec):
            off = pk.Transform3d(pos=torch.tensor([[i + 1.0, 0., 0.]], dtype=D64), dtype=D64)
            k = (limits or {}).get(n, {})
            self.frames[n] = Frame(n, link=Link(n + '_link'),
                                   joint=Joint('j_' + n, offset=off, joint_type=t, axis=t64([0., 1., 0.]), dtype=D64, **k))
            if p is not None:
                self.frames[p].add_child(self.frames[n])
        self.root = self.order[0]

    def children(self, n):
        return [m for m in self.order if self.parent[m] == n]

    def dfs(self, n=None):
        n = n or self.root
        return [n] + [x for ch in self.children(n) for x in self.dfs(ch)]

    def moving(self):
        return [n for n in self.dfs() if self.type[n] != 'fixed']

    def ancestors(self, n):
        out = []
        while n is not None:
            out.insert(0, n)
            n = self.parent[n]
        return out


def queries(c, s, ch):
    d, J = s.dfs(), s.moving()
    F = s.frames
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    c.true('joints in depth-first order', same(ch.get_joints(), [F[n].joint for n in J]))
    c.true('all joints in depth-first order', same(ch.get_joints(exclude_fixed=False), [F[n].joint for n in d]))
    c.true('joint names', list(ch.get_joint_parameter_names()) == ['j_' + n for n in J])
    c.true('all joint names', list(ch.get_joint_parameter_names(exclude_fixed=False)) == ['j_' + n for n in d])
    c.true('joint names again', list(ch.get_joint_parameter_names()) == ['j_' + n for n in J])
    c.true('joint count', ch.n_joints == len(J))
    c.true('frames of the joints', list(ch.get_joint_parent_frame_names()) == J)
    c.true('frames of all joints', list(ch.get_joint_parent_frame_names(exclude_fixed=False)) == d)
    c.true('frame names', list(ch.get_frame_names(exclude_fixed=False)) == d)
    c.true('moving frame names', list(ch.get_frame_names()) == J)
    c.true('links', same(ch.get_links(), [F[n].link for n in d]))
    c.true('link names', list(ch.get_link_names()) == [n + '_link' for n in d])
    for n in d:
        c.true('find_frame', ch.find_frame(n) is F[n])
        c.true('find_link', ch.find_link(n + '_link') is F[n].link)
        c.true('find_joint', ch.find_joint('j_' + n) is F[n].joint)
    for m in ('nope', '', 'j_', 'ba', d[-1] + 'x'):
        c.true('absent frame', ch.find_frame(m) is None)
        c.true('absent link', ch.find_link(m) is None and ch.find_link(d[0]) is None)
        c.true('absent joint', ch.find_joint(m) is None and ch.find_joint(d[-1]) is None)
    got = list(ch.get_joints_and_child_links())
    c.true('one entry per moving joint', sorted(j.name for j, _ in got) == sorted('j_' + n for n in J))
    for j, ls in got:
        below = [n for n in d if j.name[2:] in s.ancestors(n)]
        c.true('links moved by the joint', sorted(l.name for l in ls) == sorted(n + '_link' for n in below))


def indices(c, s, ch):
    d, J = s.dfs(), s.moving()
    idx = {n: int(ch.get_frame_indices(n)) for n in d}
    c.true('indices number the frames', sorted(idx.values()) == list(range(len(d))))
    both = ch.get_frame_indices(d[-1], d[0]).tolist()
    c.true('several at once, as asked', both == [idx[d[-1]], idx[d[0]]])
    c.true('all indices', ch.get_all_frame_indices().tolist() == [idx[n] for n in d])
    c.true('index tables', all(ch.frame_to_idx[n] == i and ch.idx_to_frame[i] == n for n, i in idx.items()))
    q = c.real('q', (1, len(J)))
    T = ch.forward_kinematics_tensor(q)
    c.true('one pose per frame', T.shape == (len(d), 1, 4, 4))
    for n in d:
        c.true('ancestor indices', ch.parents_indices[idx[n]].tolist() == [idx[a] for a in s.ancestors(n)])
        if all(s.type[a] != 'revolute' for a in s.ancestors(n)):
            x = sum(s.order.index(a) + 1.0 for a in s.ancestors(n))
            y = sum((q[0, J.index(a)] for a in s.ancestors(n) if s.type[a] == 'prismatic'), t64(0.))
            c.eq('the indexed pose is that of the frame', T[idx[n], 0, :3, 3], torch.stack([t64(x), y, t64(0.)]))


def shapes(n, root, types):
    def body(c):
        s = Shape(any_tree(c, n, root_types=(root,), joint_types=types))
        ch = pk.Chain(s.frames[s.root], dtype=D64)
        queries(c, s, ch)
        indices(c, s, ch)
    return body


ALL = ('fixed', 'revolute', 'prismatic')
for _n in (1, 2, 3):
    for _r in ('fixed', 'revolute'):
        SUITE.add('shapes_%d_%s_root' % (_n, _r), shapes(_n, _r, ALL), max_paths=200)
SUITE.add('shapes_4_fixed_prismatic', shapes(4, 'fixed', ('fixed', 'prismatic')), max_paths=400)
SUITE.add('shapes_4_fixed_revolute', shapes(4, 'prismatic', ('fixed', 'revolute')), max_paths=400)
SUITE.add('shapes_4', shapes(4, 'fixed', ALL), max_paths=1000)
SUITE.add('shapes_5', shapes(5, 'fixed', ('fixed', 'prismatic')), tier='thorough', max_paths=1000)


def large(spec):
    def body(c):
        s = Shape(LARGE[spec])
        ch = pk.Chain(s.frames[s.root], dtype=D64)
        queries(c, s, ch)
        indices(c, s, ch)
    return body


SUITE.add('tower', large('tower'))
SUITE.add('brush', large('brush'))


LT = {'serial': SERIAL, 'tree': TREE, 'mjstyle': MJ}


def limits(spec):
    def body(c):
        rows = LT[spec]
        J = [n for n, _, t, *_ in rows if t != 'fixed']
        lim, want = {}, {}
        free = choice(c, 'free', len(J) + 1)       # which joint is unlimited (or none)
        for i, n in enumerate(J):
            lo, hi, v, e = [c.scalar('%s_%s' % (k, n)) for k in ('lo', 'hi', 'v', 'e')]
            if i == free:
                lim[n] = {}
            else:
                lim[n] = dict(limits=(lo, hi), velocity_limits=(-v, v), effort_limits=(-e, e))
            want[n] = lim[n]
        s = Shape(rows, lim)
        ch = pk.Chain(s.frames[s.root], dtype=D64)
        for get, key in ((ch.get_joint_limits, 'limits'), (ch.get_joint_velocity_limits, 'velocity_limits'),
                         (ch.get_joint_effort_limits, 'effort_limits')):
            low, high = get()
            c.true('one limit per joint', len(low) == len(high) == len(s.moving()))
            for i, n in enumerate(s.moving()):
                w = want[n].get(key)
                if w is None:
                    c.true('no limit', not symbolic(low[i]) and low[i] == -np.inf and high[i] == np.inf)
                else:
                    c.eq(key + ' of its own joint', torch.stack([num(low[i]), num(high[i])]), torch.stack([num(w[0]), num(w[1])]))
        c.true('limit vectors', ch.low.shape == ch.high.shape == (len(s.moving()),))
        for i, n in enumerate(s.moving()):
            w = want[n].get('limits')
            if w is not None:
                c.eq('low and high of its own joint', torch.stack([ch.low[i], ch.high[i]]), torch.stack([num(w[0]), num(w[1])]))
            else:
                c.true('unlimited', float(ch.low[i]) == -np.inf and float(ch.high[i]) == np.inf)
    return body


def num(x):
    return torch.as_tensor(torch.tensor(x, dtype=D64))


def symbolic(x):
    return type(x).__name__ == 'SymNum'


for _s in LT:
    SUITE.add('limits_' + _s, limits(_s))


@SUITE.config()
def serial_limits(c):
    """a serial chain keeps the limits of its own joints"""
    J = [n for n, _, t, *_ in TREE if t != 'fixed']
    lim = {n: dict(limits=(c.scalar('lo' + n), c.scalar('hi' + n)), velocity_limits=(c.scalar('v' + n), c.scalar('w' + n)),
                   effort_limits=(c.scalar('e' + n), c.scalar('f' + n))) for n in J}
    s = Shape(TREE, lim)
    ch = pk.Chain(s.frames[s.root], dtype=D64)
    for end in ('a2', 'z2', 'z3'):
        sc = pk.SerialChain(ch, end)
        mine = [n for n in s.ancestors(end) if s.type[n] != 'fixed']
        c.true('joint names', sc.get_joint_parameter_names() == ['j_' + n for n in mine])
        for get, key in ((sc.get_joint_limits, 'limits'), (sc.get_joint_velocity_limits, 'velocity_limits'),
                         (sc.get_joint_effort_limits, 'effort_limits')):
            low, high = get()
            c.eq(key + ' of ' + end, torch.stack([num(x) for x in low + high]),
                 torch.stack([num(lim[n][key][k]) for k in (0, 1) for n in mine]))
