import itertools
import torch
import pytorch_kinematics as pk
from symtorch.driver import Suite
from symtorch.h import *
from props.desc import *

SUITE = Suite('C08', ['sdf.build_chain_from_sdf', 'sdf.build_serial_chain_from_sdf', 'sdf._build_chain_recurse',
                      'sdf._convert_transform', 'sdf._convert_visuals', 'urdf_parser_py.sdf (parser, executed)',
                      'frame.Joint.__init__', 'chain.Chain.__init__', 'chain.Chain.forward_kinematics',
                      'transform3d.Transform3d.inverse', 'transform3d.Transform3d.compose',
                      'rotation_conversions.euler_angles_to_matrix'],
              'Description shapes: serial, branching with links and joints out of order, every order of four joints, deep, single link, revolute, '
              'prismatic and fixed joints, link poses present or absent, axes in the link or the model frame, limits complete / partial / absent; every number in '
              'the text (poses, axes, limits, sizes) is an arbitrary real. Joint <pose> elements (known finding) and '
              'joints to the world are outside the bounds.')
TOL = 2e-4
INERT = ('<inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz>'
         '</inertia></inertial>')

# (link, parent, joint type, pose?)
BRANCH = [('tool', 'wrist', 'fixed', 1), ('base', None, None, 1), ('wrist', 'arm', 'revolute', 1),
          ('arm', 'base', 'revolute', 1), ('rail', 'base', 'prismatic', 1), ('cam', 'arm', 'fixed', 0),
          ('tip', 'rail', 'revolute', 1)]
SERIAL = [('b', None, None, 0), ('l1', 'b', 'revolute', 1), ('l2', 'l1', 'prismatic', 1), ('ee', 'l2', 'fixed', 1)]
REVERSED = [('l4', 'l3', 'revolute', 1), ('l3', 'l2', 'fixed', 1), ('l2', 'l1', 'prismatic', 0),
            ('l1', 'w', 'revolute', 1), ('w', None, None, 1)]
# 26 links: twelve on the root, the others in a row; named and listed in an irregular order
NAME = ['k%d' % ((11 * t + 4) % 26) for t in range(26)]
LARGE = [(NAME[t], NAME[0 if t <= 12 else t - 1] if t else None, ('revolute', 'prismatic', 'fixed')[t % 3] if t else None, int(t % 4 != 1)) for t in [7 * j % 26 for j in range(26)]]
SHAPES = {'branch': BRANCH, 'serial': SERIAL, 'reversed': REVERSED, 'large': LARGE}


class Sdf:
    def __init__(self, c, rows, scaled=False, joints_order=None, limit=None, visual=None):
        n = Numbers(c)
        self.parent = {l: p for l, p, *_ in rows}
        self.type = {l: t for l, _, t, _ in rows}
        self.W, self.axis, self.q = {}, {}, {}
        links, js = [], []
        for l, p, t, posed in rows:
            if p is None:
                self.root = l
            z = t64([0., 0., 0.])
            xyz, rpy = (n.xyz(l), n.rpy(l)) if posed else (z, z)
            self.W[l] = xyzrpy(xyz, rpy)
            links.append('<link name="%s">%s%s%s</link>\n' % (
                l, '<pose>%s %s</pose>' % (txt(xyz), txt(rpy)) if posed else '', INERT, (visual or {}).get(l, '')))
            if p is None:
                continue
            ax = ''
            if t != 'fixed':
                a = n.axis(l, scaled)
                self.axis[l] = a / torch.sqrt((a * a).sum()) if scaled else a
                ax = '<axis><xyz>%s</xyz>%s</axis>' % (txt(a), (limit or {}).get(l, ''))
            js.append('<joint name="j_%s" type="%s"><parent>%s</parent><child>%s</child>%s</joint>\n' % (l, t, p, l, ax))
        if joints_order:
            js = [js[i] for i in joints_order]
        self.text = '<sdf version="1.5"><model name="m">\n%s%s</model></sdf>' % (''.join(links), ''.join(js))

    def ancestors(self, l):
        out = []
        while l is not None:
            out.insert(0, l)
            l = self.parent[l]
        return out

    def motion(self, l, q):
        if self.type[l] == 'fixed':
            return I4()
        f = prism if self.type[l] == 'prismatic' else rot_trans
        return f(self.axis[l].expand(q.shape + (3,)), q)


def poses(c, u, ch, B=1, memo=None, tag=''):
    names = ch.get_joint_parameter_names()
    moving = [l for l in u.parent if u.type[l] not in (None, 'fixed')]
    c.true(tag + 'the moving joints', sorted(names) == sorted('j_' + l for l in moving))
    c.true(tag + 'one frame per link', sorted(ch.get_frame_names(exclude_fixed=False)) == sorted(u.parent))
    c.true(tag + 'link names', sorted(ch.get_link_names()) == sorted(u.parent))
    q = {} if memo is None else memo
    for l in moving:
        if l not in q:
            q[l] = c.real('q' + l, (B,))
    T = ch.forward_kinematics(torch.stack([q[n[2:]] for n in names], -1).to(torch.float32))
    M = {l: T[l].get_matrix().to(D64) for l in u.parent}
    c.eq(tag + 'root link where its pose says', M[u.root], u.W[u.root].expand(B, 4, 4), tol=TOL)
    for l, p in u.parent.items():
        if p is None:
            continue
        off = rigid_inv(u.W[p]) @ u.W[l]
        c.eq(tag + '%s sits and moves as described' % l, M[l], M[p] @ (off @ u.motion(l, q.get(l))), cut=[M[p]], tol=TOL)


def loaded(shape, **k):
    def body(c):
        u = Sdf(c, SHAPES[shape], **k)
        poses(c, u, pk.build_chain_from_sdf(u.text))
    return body


for _s in SHAPES:
    SUITE.add('sdf_' + _s, loaded(_s), tol=TOL)
SUITE.add('sdf_branch_reordered', loaded('branch', joints_order=[4, 2, 0, 5, 3, 1]), tol=TOL)
ORDERED = [('w', None, None, 1), ('a', 'w', 'revolute', 1), ('b', 'a', 'prismatic', 1), ('e', 'b', 'revolute', 0),
           ('s', 'a', 'fixed', 1)]


def joint_orders(rows):
    def body(c):
        memo = {}
        for perm in itertools.permutations(range(len(rows) - 1)):
            u = Sdf(c, rows, joints_order=perm)
            poses(c, u, pk.build_chain_from_sdf(u.text), memo=memo, tag='joints in order %s: ' % (perm,))
    return body


SUITE.add('sdf_joint_orders', joint_orders(ORDERED), tol=TOL)
SUITE.add('sdf_joint_orders_links_reversed', joint_orders(ORDERED[::-1]), tol=TOL)
SUITE.add('sdf_serial_scaled_axes', loaded('serial', scaled=True), tol=TOL)


@SUITE.config(tol=TOL)
def serial_builder(c):
    u = Sdf(c, BRANCH)
    for end, root in (('tool', ''), ('tool', 'arm'), ('tip', 'base')):
        s = pk.build_serial_chain_from_sdf(u.text, end, root)
        path = u.ancestors(end)
        path = path[path.index(root or 'base'):]
        J = [l for l in path if u.type[l] not in (None, 'fixed') and l != (root or 'base')]
        c.true('joints on the way', s.get_joint_parameter_names() == ['j_' + l for l in J])
        q = c.real('q' + end + root, (1, len(J)))
        T = s.forward_kinematics(q.to(torch.float32), end_only=False)
        c.true('frames on the way', list(T) == path)
        for p, l in zip(path, path[1:]):
            P = T[p].get_matrix().to(D64)
            off = rigid_inv(u.W[p]) @ u.W[l]
            c.eq('%s as described' % l, T[l].get_matrix(), P @ (off @ u.motion(l, q[:, J.index(l)] if l in J else None)),
                 cut=[P], tol=TOL)


@SUITE.config(tol=TOL)
def single_link(c):
    n = Numbers(c)
    xyz, rpy = n.xyz('o'), n.rpy('o')
    ch = pk.build_chain_from_sdf('<sdf version="1.5"><model name="m"><link name="only"><pose>%s %s</pose>%s</link></model>'
                                 '</sdf>' % (txt(xyz), txt(rpy), INERT))
    c.true('one frame', ch.get_frame_names(exclude_fixed=False) == ['only'] and ch.n_joints == 0)
    T = ch.forward_kinematics(torch.zeros(1, 0))
    c.eq('at its pose', T['only'].get_matrix()[0], xyzrpy(xyz, rpy), tol=TOL)


@SUITE.config(tol=TOL)
def joint_limits(c):
    s = {k: c.scalar(k) for k in ('lo1', 'hi1', 'lo2', 'hi2', 'hi3', 'lo4')}
    t = {k: txt(v) for k, v in s.items()}
    lim = {'arm': '<limit><lower>%(lo1)s</lower><upper>%(hi1)s</upper></limit>' % t,
           'rail': '<limit><upper>%(hi2)s</upper><lower>%(lo2)s</lower></limit>' % t,
           'tip': '<limit><upper>%(hi3)s</upper></limit>' % t, 'wrist': '<limit><lower>%(lo4)s</lower></limit>' % t}
    inf = float('inf')
    for which in (lim, {'rail': lim['rail']}, {}):
        u = Sdf(c, BRANCH, limit=which)
        for ch, js in ((pk.build_chain_from_sdf(u.text), ('arm', 'rail', 'tip', 'wrist')),
                       (pk.build_serial_chain_from_sdf(u.text, 'tool'), ('arm', 'wrist'))):
            pos = limits_of(ch)
            c.true('of the moving joints', sorted(pos) == sorted('j_' + w for w in js))
            want = {'arm': (s['lo1'], s['hi1']), 'rail': (s['lo2'], s['hi2']), 'tip': (-inf, s['hi3']),
                    'wrist': (s['lo4'], inf)}
            for w in js:
                lo, hi = want[w] if w in which else (-inf, inf)
                k = ch.get_joint_parameter_names().index('j_' + w)
                for side, got, vec, x in (('lower', pos['j_' + w][0], ch.low[k], lo), ('upper', pos['j_' + w][1], ch.high[k], hi)):
                    if isinstance(x, float) and abs(x) == inf:
                        c.true('%s is not bounded %s' % (w, side), float(got) == x and float(vec) == x, str(got))
                    else:
                        c.eq('%s limit of %s' % (side, w), num(got), num(x), tol=TOL)
                        c.eq('%s limit vector of %s' % (side, w), vec, num(x), tol=TOL)


@SUITE.config(tol=TOL)
def visuals(c):
    n = Numbers(c)
    size = c.real('size', (3,))
    r1, l1, r2 = c.scalar('r1'), c.scalar('l1'), c.scalar('r2')
    xyz = {k: n.xyz(k) for k in 'abcd'}
    rpy = {k: n.rpy(k) for k in 'abcd'}

    def vis(k, g):
        o = '<pose>%s %s</pose>' % (txt(xyz[k]), txt(rpy[k])) if k in xyz else ''
        return '<visual name="v%s">%s<geometry>%s</geometry></visual>' % (k, o, g)
    v = {'base': vis('a', '<box><size>%s</size></box>' % txt(size)),
         'rail': vis('b', '<cylinder><radius>%s</radius><length>%s</length></cylinder>' % (txt(r1), txt(l1))),
         'tool': vis('c', '<sphere><radius>%s</radius></sphere>' % txt(r2)) + vis('d', '<mesh><filename>m.stl</filename></mesh>')
         + vis('e', '<sphere><radius>0.5</radius></sphere>')}
    u = Sdf(c, BRANCH, visual=v)
    for ch, has_rail in ((pk.build_chain_from_sdf(u.text), True), (pk.build_serial_chain_from_sdf(u.text, 'tool'), False)):
        V = {l: ch.find_link(l).visuals for l in ('base', 'tool') + (('rail',) if has_rail else ())}
        c.true('visuals per link', [len(V[l]) for l in ('base', 'tool')] == [1, 3])
        (box,), (sph, mesh, bare) = V['base'], V['tool']
        c.true('shapes', [x.geom_type for x in (box, sph, mesh, bare)] == ['box', 'sphere', 'mesh', 'sphere'])
        c.eq('box size', nums(box.geom_param), size, tol=TOL)
        c.eq('sphere radius', num(sph.geom_param), num(r2), tol=TOL)
        c.true('mesh file', mesh.geom_param == 'm.stl' or mesh.geom_param[0] == 'm.stl', str(mesh.geom_param))
        for k, x in (('a', box), ('c', sph), ('d', mesh)):
            c.eq('placement of ' + x.geom_type, x.offset.get_matrix()[0], xyzrpy(xyz[k], rpy[k]), tol=TOL)
        c.eq('no placement given', bare.offset.get_matrix()[0], I4(), tol=TOL)
        if has_rail:
            c.true('cylinder', [x.geom_type for x in V['rail']] == ['cylinder'])
            cyl = V['rail'][0]
            c.eq('cylinder size', nums(cyl.geom_param), nums([r1, l1]), tol=TOL)
            M = xyzrpy(xyz['b'], rpy['b'])
            # a cylinder is symmetric about its z axis
            c.eq('cylinder position and axis', cyl.offset.get_matrix()[0][:3, 2:], M[:3, 2:], tol=TOL)
        c.true('bare links have no visuals', not [l for l in ch.get_link_names() if l not in v and ch.find_link(l).visuals])


@SUITE.config(tol=TOL)
def axis_frame(c):
    """use_parent_model_frame: the axis is given in the frame of the model, as the poses of links are"""
    u = Sdf(c, SERIAL)
    for flag in ('true', '1', 'false', '0'):
        text = u.text.replace('</xyz>', '</xyz><use_parent_model_frame>%s</use_parent_model_frame>' % flag)
        ch = pk.build_chain_from_sdf(text)
        given = dict(u.axis)
        if flag in ('true', '1'):
            u.axis = {l: u.W[l][:3, :3].T @ a for l, a in given.items()}
        q = {l: c.real('q%s_%s' % (flag, l), (1,)) for l in ('l1', 'l2')}
        T = ch.forward_kinematics(torch.stack([q['l1'], q['l2']], -1).to(torch.float32))
        for l, p in (('l1', 'b'), ('l2', 'l1'), ('ee', 'l2')):
            P = T[p].get_matrix().to(D64)
            c.eq('%s with %s' % (l, flag), T[l].get_matrix(), P @ (rigid_inv(u.W[p]) @ u.W[l] @ u.motion(l, q.get(l))),
                 cut=[P], tol=TOL)
        u.axis = given


@SUITE.config(tol=TOL)
def joint_pose(c):
    """a joint with a pose of its own moves its child about that pose"""
    n = Numbers(c)
    x, a, q = n.xyz('joint'), n.axis('joint'), c.real('q', (1,))
    text = ('<sdf version="1.5"><model name="m"><link name="b">%s</link><link name="l">%s</link><joint name="j" '
            'type="revolute"><pose>%s 0 0 0</pose><parent>b</parent><child>l</child><axis><xyz>%s</xyz></axis></joint>'
            '</model></sdf>') % (INERT, INERT, txt(x), txt(a))
    T = pk.build_chain_from_sdf(text).forward_kinematics(q[None].to(torch.float32))
    J = make44(I3(), x)
    c.eq('turns about the joint', T['l'].get_matrix(), J @ rot_trans(a[None], q) @ rigid_inv(J), tol=TOL)


SUITE.with_falling(skip='joint_pose')
