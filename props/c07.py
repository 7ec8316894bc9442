import itertools
import torch
import pytorch_kinematics as pk
from symtorch.driver import Suite
from symtorch.h import *
from props.desc import *

SUITE = Suite('C07', ['urdf.build_chain_from_urdf', 'urdf.build_serial_chain_from_urdf', 'urdf._build_chain_recurse',
                      'urdf._convert_transform', 'urdf._convert_visual', 'urdf._convert_visuals',
                      'urdf_parser_py.urdf (parser, executed)', 'urdf_parser_py.xml_reflection (parser, executed)',
                      'frame.Joint.__init__', 'chain.Chain.__init__', 'chain.Chain.forward_kinematics',
                      'rotation_conversions.quaternion_from_euler', 'transform3d.Transform3d.__init__'],
              'Description shapes: serial, branching with links and joints out of order, every order of four joints, single link, every joint '
              'type, origins with xyz and rpy / xyz only / rpy only / neither / absent, axes of any length, limits '
              'complete / partial / absent; every number in the text (xyz, rpy, axis, limit, size) is an arbitrary real. '
              'Numbers reach the loader through the text itself; decimal parsing is not modelled.')
TOL = 2e-4

# (link, parent, joint type, origin kind)
BRANCH = [('tool', 'wrist', 'fixed', 'xyz'), ('base', None, None, None), ('wrist', 'arm', 'continuous', 'rpy'),
          ('arm', 'base', 'revolute', 'full'), ('rail', 'base', 'prismatic', 'full'), ('cam', 'arm', 'fixed', 'full'),
          ('tip', 'rail', 'revolute', 'none')]
SERIAL = [('b', None, None, None), ('l1', 'b', 'revolute', 'full'), ('l2', 'l1', 'prismatic', 'rpy'),
          ('l3', 'l2', 'continuous', 'full'), ('ee', 'l3', 'fixed', 'absent')]
REVERSED = [('l4', 'l3', 'revolute', 'xyz'), ('l3', 'l2', 'fixed', 'full'), ('l2', 'l1', 'prismatic', 'absent'),
            ('l1', 'w', 'revolute', 'full'), ('w', None, None, None)]
# 30 links: twelve on the root, the others in a row; named and listed in an irregular order
NAME = ['k%d' % ((11 * t + 4) % 30) for t in range(30)]
LARGE = [(NAME[t], NAME[0 if t <= 12 else t - 1] if t else None, ('revolute', 'prismatic', 'continuous', 'fixed')[t % 4] if t else None, ('full', 'xyz', 'rpy', 'absent')[t % 3 + t // 20] if t else None) for t in [7 * j % 30 for j in range(30)]]
SHAPES = {'branch': BRANCH, 'serial': SERIAL, 'reversed': REVERSED, 'large': LARGE}


class Urdf:
    def __init__(self, c, rows, scaled=False, joints_order=None, limit=None, extra=''):
        n = Numbers(c)
        self.rows = rows
        self.parent = {l: p for l, p, *_ in rows}
        self.type = {l: t for l, _, t, _ in rows}
        self.T, self.axis = {}, {}
        links = ''.join('  <link name="%s"/>\n' % r[0] for r in rows)
        js = []
        for l, p, t, kind in rows:
            if p is None:
                self.root = l
                continue
            z = t64([0., 0., 0.])
            xyz = n.xyz(l) if kind in ('full', 'xyz') else z
            rpy = n.rpy(l) if kind in ('full', 'rpy') else z
            self.T[l] = xyzrpy(xyz, rpy)
            o = {'full': '<origin xyz="%s" rpy="%s"/>' % (txt(xyz), txt(rpy)), 'xyz': '<origin xyz="%s"/>' % txt(xyz),
                 'rpy': '<origin rpy="%s"/>' % txt(rpy), 'none': '<origin/>', 'absent': ''}[kind]
            ax = ''
            if t != 'fixed':
                a = n.axis(l, scaled)
                self.axis[l] = a / torch.sqrt((a * a).sum()) if scaled else a
                ax = '<axis xyz="%s"/>' % txt(a)
            li = (limit or {}).get(l, '')
            js.append('  <joint name="j_%s" type="%s">%s<parent link="%s"/><child link="%s"/>%s%s</joint>\n'
                      % (l, t, o, p, l, ax, li))
        if joints_order:
            js = [js[i] for i in joints_order]
        self.text = '<robot name="r">\n%s%s%s</robot>\n' % (links, ''.join(js), extra)

    def ancestors(self, l):
        out = []
        while l is not None:
            out.insert(0, l)
            l = self.parent[l]
        return out

    def motion(self, l, q):
        if self.type[l] == 'fixed':
            return I4()
        f = prism if self.type[l] == 'prismatic' else rot_trans
        return f(self.axis[l].expand(q.shape + (3,)), q)


def poses(c, u, ch, B=2, memo=None, tag=''):
    names = ch.get_joint_parameter_names()
    moving = [l for l in u.parent if u.type[l] not in (None, 'fixed')]
    c.true(tag + 'the moving joints', sorted(names) == sorted('j_' + l for l in moving))
    c.true(tag + 'one frame per link', sorted(ch.get_frame_names(exclude_fixed=False)) == sorted(u.parent))
    c.true(tag + 'link names', sorted(ch.get_link_names()) == sorted(u.parent))
    q = {} if memo is None else memo
    for l in moving:
        if l not in q:
            q[l] = c.real('q' + l, (B,))
    T = ch.forward_kinematics(torch.stack([q[n[2:]] for n in names], -1).to(torch.float32))
    M = {l: T[l].get_matrix().to(D64) for l in u.parent}
    c.eq(tag + 'root link is the origin', M[u.root], I4().expand(B, 4, 4), tol=TOL)
    for l, p in u.parent.items():
        if p is None:
            continue
        c.eq(tag + '%s sits and moves as described' % l, M[l], M[p] @ (u.T[l] @ u.motion(l, q.get(l))), cut=[M[p]], tol=TOL)


def loaded(shape, **k):
    def body(c):
        u = Urdf(c, SHAPES[shape], **k)
        poses(c, u, pk.build_chain_from_urdf(u.text))
    return body


for _s in SHAPES:
    SUITE.add('urdf_' + _s, loaded(_s), tol=TOL)
SUITE.add('urdf_branch_reordered', loaded('branch', joints_order=[4, 2, 0, 5, 3, 1]), tol=TOL)
SUITE.add('urdf_serial_scaled_axes', loaded('serial', scaled=True), tol=TOL)
SUITE.add('urdf_branch_bytes', lambda c: _bytes(c), tol=TOL)


ORDERED = [('w', None, None, None), ('a', 'w', 'revolute', 'full'), ('b', 'a', 'prismatic', 'xyz'),
           ('e', 'b', 'revolute', 'rpy'), ('s', 'a', 'fixed', 'xyz')]


def joint_orders(rows):
    def body(c):
        memo = {}
        for perm in itertools.permutations(range(len(rows) - 1)):
            u = Urdf(c, rows, joints_order=perm)
            poses(c, u, pk.build_chain_from_urdf(u.text), B=1, memo=memo, tag='joints in order %s: ' % (perm,))
    return body


SUITE.add('urdf_joint_orders', joint_orders(ORDERED), tol=TOL)
SUITE.add('urdf_joint_orders_links_reversed', joint_orders(ORDERED[::-1]), tol=TOL)


def _bytes(c):
    u = Urdf(c, REVERSED)
    poses(c, u, pk.build_chain_from_urdf(u.text.encode()), B=1)


@SUITE.config(tol=TOL)
def serial_builder(c):
    u = Urdf(c, BRANCH)
    for end, root in (('tool', ''), ('tool', 'arm'), ('tip', 'base')):
        s = pk.build_serial_chain_from_urdf(u.text, end, root)
        path = u.ancestors(end)
        path = path[path.index(root or 'base'):]
        J = [l for l in path[1:] if u.type[l] != 'fixed']
        c.true('joints on the way', s.get_joint_parameter_names() == ['j_' + l for l in J])
        q = c.real('q' + end + root, (1, len(J)))
        T = s.forward_kinematics(q.to(torch.float32), end_only=False)
        c.true('frames on the way', list(T) == path)
        c.eq('root at the origin', T[path[0]].get_matrix(), I4().expand(1, 4, 4), tol=TOL)
        for p, l in zip(path, path[1:]):
            P = T[p].get_matrix().to(D64)
            c.eq('%s as described' % l, T[l].get_matrix(), P @ (u.T[l] @ u.motion(l, q[:, J.index(l)] if l in J else None)),
                 cut=[P], tol=TOL)


@SUITE.config(tol=TOL)
def single_link(c):
    x = c.real('x', (3,))
    ch = pk.build_chain_from_urdf('<robot name="r"><link name="only"><visual><origin xyz="%s"/><geometry>'
                                  '<sphere radius="1"/></geometry></visual></link></robot>' % txt(x))
    c.true('one frame', ch.get_frame_names(exclude_fixed=False) == ['only'] and ch.n_joints == 0)
    T = ch.forward_kinematics(torch.zeros(1, 0))
    c.eq('at the origin', T['only'].get_matrix(), I4().expand(1, 4, 4), tol=TOL)
    c.eq('visual placement', ch.find_link('only').visuals[0].offset.get_matrix()[0, :3, 3], x, tol=TOL)


@SUITE.config(tol=TOL)
def joint_limits(c):
    s = {k: c.scalar(k) for k in ('lo1', 'hi1', 've1', 'ef1', 'lo2', 'hi2', 've2', 'ef2', 'hi3', 've3', 'ef3', 've4', 'ef4',
                                  'lo4', 'hi4')}
    t = {k: txt(v) for k, v in s.items()}
    lim = {'arm': '<limit lower="%(lo1)s" upper="%(hi1)s" velocity="%(ve1)s" effort="%(ef1)s"/>' % t,
           'rail': '<limit effort="%(ef2)s" upper="%(hi2)s" velocity="%(ve2)s" lower="%(lo2)s"/>' % t,
           'tip': '<limit upper="%(hi3)s" velocity="%(ve3)s" effort="%(ef3)s"/>' % t,
           'wrist': '<limit lower="%(lo4)s" upper="%(hi4)s" velocity="%(ve4)s" effort="%(ef4)s"/>' % t}
    u = Urdf(c, BRANCH, limit=lim)
    for ch, which in ((pk.build_chain_from_urdf(u.text), ('arm', 'rail', 'tip', 'wrist')),
                      (pk.build_serial_chain_from_urdf(u.text, 'tool'), ('arm', 'wrist'))):
        pos, vel, eff = limits_of(ch), limits_of(ch, 'velocity'), limits_of(ch, 'effort')
        c.true('of the moving joints', sorted(pos) == sorted(vel) == sorted(eff) == sorted('j_' + w for w in which))
        want = {'arm': (s['lo1'], s['hi1']), 'rail': (s['lo2'], s['hi2']), 'tip': (0.0, s['hi3'])}
        for i, w in enumerate(('arm', 'rail', 'tip', 'wrist')):
            j = 'j_' + w
            if w not in which:
                continue
            v, e = s['ve%d' % (i + 1)], s['ef%d' % (i + 1)]
            if w == 'wrist':
                is_inf(c, 'a continuous joint has no position limits', pos[j])
            else:
                c.eq('position limits of ' + w, nums(pos[j]), nums(want[w]), tol=TOL)
                k = ch.get_joint_parameter_names().index(j)
                c.eq('limit vectors', torch.stack([ch.low[k], ch.high[k]]), nums(want[w]), tol=TOL)
            c.eq('velocity limits of ' + w, nums(vel[j]), torch.stack([-num(v), num(v)]), tol=TOL)
            c.eq('effort limits of ' + w, nums(eff[j]), torch.stack([-num(e), num(e)]), tol=TOL)


@SUITE.config(tol=TOL)
def no_limits(c):
    u = Urdf(c, SERIAL)
    ch = pk.build_chain_from_urdf(u.text)
    for which in ('limits', 'velocity', 'effort'):
        for j, p in limits_of(ch, which).items():
            is_inf(c, 'no %s for %s' % (which, j), p)


@SUITE.config(tol=TOL)
def visuals(c):
    n = Numbers(c)
    size, scale = c.real('size', (3,)), c.real('scale', (3,))
    r1, l1, r2 = c.scalar('r1'), c.scalar('l1'), c.scalar('r2')
    xyz = {k: n.xyz(k) for k in 'abcde'}
    rpy = {k: n.rpy(k) for k in 'abcde'}

    def vis(k, g, origin=True):
        o = '<origin xyz="%s" rpy="%s"/>' % (txt(xyz[k]), txt(rpy[k])) if origin else ''
        return '<visual>%s<geometry>%s</geometry></visual>' % (o, g)
    text = ('<robot name="r"><link name="base">%s</link>'
            '<link name="l2">%s%s</link><link name="l1">%s%s</link><link name="bare"/>'
            '<joint name="j2" type="fixed"><parent link="l1"/><child link="l2"/></joint>'
            '<joint name="j1" type="fixed"><parent link="base"/><child link="l1"/></joint>'
            '<joint name="j3" type="fixed"><parent link="base"/><child link="bare"/></joint></robot>') % (
        vis('a', '<box size="%s"/>' % txt(size)),
        vis('b', '<cylinder radius="%s" length="%s"/>' % (txt(r1), txt(l1))),
        '<collision><geometry><box size="1 2 3"/></geometry></collision>',
        vis('c', '<sphere radius="%s"/>' % txt(r2)),
        vis('d', '<mesh filename="m.stl" scale="%s"/>' % txt(scale)))
    for ch in (pk.build_chain_from_urdf(text), pk.build_serial_chain_from_urdf(text, 'l2')):
        V = {l: ch.find_link(l).visuals for l in ('base', 'l1', 'l2')}
        c.true('visuals per link', [len(V[l]) for l in ('base', 'l1', 'l2')] == [1, 2, 1])
        (box,), (sph, mesh), (cyl,) = V['base'], V['l1'], V['l2']
        c.true('shapes', [v.geom_type for v in (box, sph, mesh, cyl)] == ['box', 'sphere', 'mesh', 'cylinder'])
        c.eq('box size', nums(box.geom_param), size, tol=TOL)
        c.eq('sphere radius', num(sph.geom_param), num(r2), tol=TOL)
        c.eq('cylinder size', nums(cyl.geom_param), nums([r1, l1]), tol=TOL)
        c.true('mesh file', mesh.geom_param[0] == 'm.stl')
        c.eq('mesh scale', nums(mesh.geom_param[1]), scale, tol=TOL)
        for k, v in (('a', box), ('b', cyl), ('c', sph), ('d', mesh)):
            c.eq('placement of ' + v.geom_type, v.offset.get_matrix()[0], xyzrpy(xyz[k], rpy[k]), tol=TOL)
    ch = pk.build_chain_from_urdf(text)
    c.true('a bare link has an empty visual', all(v.geom_type is None for v in ch.find_link('bare').visuals))


@SUITE.config(tol=TOL)
def omitted_axis(c):
    """the URDF default axis is x"""
    q = c.real('q', (1, 1))
    ch = pk.build_chain_from_urdf('<robot name="r"><link name="a"/><link name="b"/><joint name="j" type="prismatic">'
                                  '<parent link="a"/><child link="b"/></joint></robot>')
    p = ch.forward_kinematics(q.to(torch.float32))['b'].get_matrix()[0, :3, 3]
    c.eq('moves along x', p, torch.cat([q[0], torch.zeros(2, dtype=D64)]), tol=TOL)


SUITE.with_falling(skip='omitted_axis')
