import torch
import pytorch_kinematics as pk
from symtorch.driver import Suite
from symtorch.h import *
from props.desc import *
from props.mj import *

SUITE = Suite('C09', ['mjcf.build_chain_from_mjcf', 'mjcf.build_serial_chain_from_mjcf', 'mjcf._build_chain_recurse',
                      'mjcf._joint_offset', 'mjcf.body_to_geoms', 'frame.Joint.__init__', 'chain.Chain.__init__',
                      'chain.Chain.forward_kinematics', 'transform3d.Transform3d.__init__'],
              'Model shapes: branching, serial, sub-trees chosen by name or id; hinge, slide and jointless bodies, sites on '
              'bodies and on the world, geoms; body, site and geom poses, joint axes, reference values, limits and sizes '
              'of the compiled model are arbitrary reals. The MuJoCo compiler itself is executed, not encoded.')
TOL = 2e-4
TREE = '''<mujoco><worldbody><site name="ws" pos="0 0 1"/>
<body name="zed" pos="1 0 0"><geom type="sphere" size=".1"/><joint name="jz" type="hinge"/>
  <body name="arm" pos="0 1 0"><geom type="box" size=".1 .2 .3"/><joint name="ja" type="slide"/>
    <site name="grip" pos="0 0 .1"/>
    <body name="fixed" pos="0 0 1"><geom type="capsule" size=".1 .2"/><geom type="sphere" size=".3"/>
      <body name="last" pos="0 1 1"><geom type="sphere" size=".1"/><joint name="jl" type="hinge"/><site name="tip"/></body>
    </body></body>
  <body name="mid" pos="0 2 0"><geom type="cylinder" size=".1 .4"/><joint name="jm" type="hinge"/></body></body>
<body name="other" pos="3 0 0"><geom type="sphere" size=".1"/><joint name="jo" type="slide"/></body>
</worldbody></mujoco>'''


def tree(c, m, ch, root=0, B=1):
    below = [i for i in range(m.m.nbody) if root in chain_of(m, i)]
    moving = [i for i in below if i in m.joint and i != root]
    names = ch.get_joint_parameter_names()
    c.true('the moving joints', sorted(names) == sorted(m.joint[i][0] for i in moving))
    sites = [s for s in range(m.m.nsite) if int(m.m.site_bodyid[s]) in below]
    frames = [m.name[i] for i in below] + [m.m.site(s).name for s in sites]
    c.true('a frame per body and site', sorted(ch.get_frame_names(exclude_fixed=False)) == sorted(frames))
    q = {m.joint[i][0]: c.real('q%d_%d' % (root, i), (B,)) for i in moving}
    T = ch.forward_kinematics(torch.stack([q[n] for n in names], -1).to(torch.float32))
    W = {i: T[m.name[i]].get_matrix().to(D64) for i in below}
    c.eq('root body', W[root], m.body[root].expand(B, 4, 4), tol=TOL)
    for i in below:
        if i != root:
            P = W[m.parent[i]]
            c.eq('%s as the model says' % m.name[i], W[i], P @ m.local(i, q[m.joint[i][0]] if i in moving else None), cut=[P],
                 tol=TOL)
    for s in sites:
        b = W[int(m.m.site_bodyid[s])]
        c.eq('site %s' % m.m.site(s).name, T[m.m.site(s).name].get_matrix(), b @ m.site[s], cut=[b], tol=TOL)


def chain_of(m, i):
    out = [i]
    while i:
        i = m.parent[i]
        out.insert(0, i)
    return out


@SUITE.config(tol=TOL)
def whole_model(c):
    m = Mj(c, TREE)
    tree(c, m, m.build(pk.build_chain_from_mjcf))


@SUITE.config(tol=TOL)
def batch(c):
    m = Mj(c, TREE)
    tree(c, m, m.build(pk.build_chain_from_mjcf), B=2)


def nested(rows, parent):
    return ''.join('<body name="k%d" pos="1 0 %d"><geom type="sphere" size=".1"/>%s%s%s</body>' % (
        i, i, '' if i % 4 == 3 else '<joint name="j%d" type="%s"/>' % (i, 'slide' if i % 3 else 'hinge'),
        '<site name="s%d"/>' % i if i % 6 == 1 else '', nested(rows, i)) for i, p in rows if p == parent)


@SUITE.config(tol=TOL)
def large_model(c):
    """twenty-six bodies, many on one, some in rows"""
    rows = [((11 * j + 4) % 26, None if j < 3 else (11 * (j // 2) + 4) % 26 if j % 2 else 4) for j in range(26)]
    m = Mj(c, '<mujoco><worldbody>%s</worldbody></mujoco>' % nested(rows, None))
    tree(c, m, m.build(pk.build_chain_from_mjcf))


@SUITE.config(tol=TOL)
def part_of_the_model(c):
    m = Mj(c, TREE)
    for body in ('arm', 'zed'):
        tree(c, m, m.build(pk.build_chain_from_mjcf, body), root=m.name.index(body))
    a, b = m.build(pk.build_chain_from_mjcf, 'fixed'), m.build(pk.build_chain_from_mjcf, m.name.index('fixed'))
    q = c.real('q', (1, 1))
    A, B = a.forward_kinematics(q.to(torch.float32)), b.forward_kinematics(q.to(torch.float32))
    c.true('same frames', list(A) == list(B))
    for n in A:
        c.eq('by name and by id: ' + n, A[n].get_matrix(), B[n].get_matrix())


@SUITE.config(tol=TOL)
def as_compiled(c):
    """numbers as MuJoCo compiled them (degrees, several orientation forms, default classes), joint values arbitrary"""
    text = '''<mujoco><compiler angle="degree"/><default><joint axis="0 1 0"/><default class="s">
    <joint axis="0 0 -2" range="-20 40" limited="true"/></default></default><worldbody>
    <body name="a" pos="1 2 3" axisangle="1 1 1 120"><geom size=".1"/><joint name="ja"/>
    <body name="b" pos=".25 .5 .75" euler="0 180 0"><geom size=".1"/><joint name="jb" class="s"/><site name="s" quat="2 2 -2 2"/>
    <body name="d" xyaxes="0 1 0 0 0 1" pos="1 0 0"><geom size=".1"/><joint name="jd" type="slide" ref=".375"/></body></body></body>
    </worldbody></mujoco>'''
    m = Mj(c, text, symbolic=False)  # MuJoCo's rounding of the orientations is removed
    for ch in (m.build(pk.build_chain_from_mjcf),):
        tree(c, m, ch)
        L = limits_of(ch)
        c.eq('limits in radians', nums(L['jb']), nums([math.radians(-20), math.radians(40)]), tol=TOL)


@SUITE.config(tol=TOL)
def serial_builder(c):
    m = Mj(c, TREE)
    for end, root in (('last', ''), ('tip', 'arm'), ('grip', 'zed')):
        s = m.build(pk.build_serial_chain_from_mjcf, end, root)
        sites = {m.m.site(k).name: k for k in range(m.m.nsite)}
        e = int(m.m.site_bodyid[sites[end]]) if end in sites else m.name.index(end)
        path = chain_of(m, e)
        path = path[path.index(m.name.index(root) if root else 0):]
        J = [i for i in path[1:] if i in m.joint]
        c.true('joints on the way', s.get_joint_parameter_names() == [m.joint[i][0] for i in J])
        q = c.real('q' + end, (1, len(J)))
        T = s.forward_kinematics(q.to(torch.float32), end_only=False)
        c.true('frames on the way', list(T) == [m.name[i] for i in path] + ([end] if end in sites else []))
        for p, i in zip(path, path[1:]):
            P = T[m.name[p]].get_matrix().to(D64)
            c.eq('%s as the model says' % m.name[i], T[m.name[i]].get_matrix(),
                 P @ m.local(i, q[:, J.index(i)] if i in J else None), cut=[P], tol=TOL)
        if end in sites:
            P = T[m.name[e]].get_matrix().to(D64)
            c.eq('site at the end', s.forward_kinematics(q.to(torch.float32)).get_matrix(), P @ m.site[sites[end]], cut=[P],
                 tol=TOL)


@SUITE.config(tol=TOL)
def joint_limits(c):
    """every combination of limited and unlimited joints, any ranges"""
    m = Mj(c, TREE)
    lim = [bool(b) for b in c.bools('limited', (5,))]
    R = {}
    for j in range(m.m.njnt):
        m.m.jnt_limited[j] = lim[j]
        lo, hi = c.scalar('lo%d' % j), c.scalar('hi%d' % j)
        put(m.m.jnt_range, j, [lo, hi])
        R[m.m.joint(j).name] = (lim[j], lo, hi)
    for ch in (m.build(pk.build_chain_from_mjcf), m.build(pk.build_serial_chain_from_mjcf, 'last')):
        names = ch.get_joint_parameter_names()
        L = limits_of(ch)
        for k, n in enumerate(names):
            on, lo, hi = R[n]
            if on:
                c.eq('limits of ' + n, nums(L[n]), nums([lo, hi]), tol=TOL)
                c.eq('limit vectors of ' + n, torch.stack([ch.low[k], ch.high[k]]), nums([lo, hi]), tol=TOL)
            else:
                is_inf(c, n + ' is not limited', L[n])
        for w in ('velocity', 'effort'):
            for n, p in limits_of(ch, w).items():
                is_inf(c, 'no %s limits' % w, p)


@SUITE.config(tol=TOL)
def geoms(c):
    m = Mj(c, TREE, geoms=True)
    size = c.real('size', (m.m.ngeom, 3))
    for g in range(m.m.ngeom):
        put(m.m.geom_size, g, size[g])
    ch = m.build(pk.build_chain_from_mjcf)
    for i in range(m.m.nbody):
        mine = [g for g in range(m.m.ngeom) if int(m.m.geom_bodyid[g]) == i]
        V = ch.find_link(m.name[i]).visuals
        c.true('geoms of ' + m.name[i], len(V) == len(mine))
        for v, g in zip(V, mine):
            c.true('type', int(np.asarray(v.geom_type).reshape(-1)[0]) == int(m.m.geom_type[g]))
            c.eq('size', nums(list(v.geom_param)), size[g], tol=TOL)
            c.eq('placement', v.offset.get_matrix()[0], m.geom[g], tol=TOL)


@SUITE.config()
def refused(c):
    """what the loader cannot represent is refused, not misread"""
    body = '<mujoco><worldbody><body name="a"><geom size=".1"/>%s</body></worldbody></mujoco>'
    c.raises('two joints of one body', lambda: pk.build_chain_from_mjcf(
        body % '<joint name="x" axis="1 0 0"/><joint name="y" axis="0 1 0"/>'))
    c.raises('ball joint', lambda: pk.build_chain_from_mjcf(body % '<joint name="x" type="ball"/>'))
    c.raises('free joint', lambda: pk.build_chain_from_mjcf(body % '<freejoint name="x"/>'))
    c.raises('no such body', lambda: pk.build_chain_from_mjcf(body % '', body='b'))


@SUITE.config(tol=TOL)
def joint_pos(c):
    """a hinge away from the origin of its body"""
    m = Mj(c, '<mujoco><worldbody><body name="a"><geom size=".1"/><joint name="j" pos="0 0 1"/></body></worldbody></mujoco>',
           joint_pos=True)
    q = c.real('q', (1,))
    T = m.build(pk.build_chain_from_mjcf).forward_kinematics(q[None].to(torch.float32))
    c.eq('body pose', T['a'].get_matrix(), m.local(1, q), tol=TOL)


SUITE.with_falling(skip='joint_pos')
