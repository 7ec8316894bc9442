import torch
from pytorch_kinematics.frame import Visual
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import Transform3d, Translate, Rotate, Scale
from symtorch.driver import Suite
from symtorch.h import *
from .kin import Robot, TREE, SERIAL, MJ, REVS

F32 = torch.float32
SUITE = Suite('C10', ['chain.Chain.to', 'chain.SerialChain.to', 'frame.Frame.to', 'frame.Joint.to', 'frame.Link.to',
                      'transforms.transform3d.Transform3d.to', 'transforms.transform3d.Transform3d.clone'],
    'All joint values, offsets, axes and limits; conversion histories f64->f32, f32->f64, f32->f64->f32, f64->f32->f64, '
    'repeated conversions; branching, serial and MuJoCo style robots; transforms of every class. The machine has no second '
    'device; device changes are covered only as far as "cpu" goes. float32 results are compared within 2e-4.')


def structure(ch):
    return (ch.get_joint_parameter_names(), ch.get_joint_parameter_names(exclude_fixed=False), ch.get_frame_names(False),
            ch.get_link_names(), dict(ch.frame_to_idx), dict(ch.idx_to_frame), ch.print_tree(do_print=False),
            [j.joint_type for j in ch.get_joints(exclude_fixed=False)], ch.n_joints)


def numbers(ch):
    out = {'low': ch.low, 'high': ch.high, 'axes': ch.axes}
    for f in ch.get_frame_names(exclude_fixed=False):
        f = ch.find_frame(f)
        out['axis of ' + f.name] = f.joint.axis
        for n, o in (('joint', f.joint.offset), ('link', f.link.offset)):
            if o is not None:
                out['%s offset of %s' % (n, f.name)] = o.get_matrix()
                out['%s offset dtype of %s' % (n, f.name)] = torch.zeros(0, dtype=o.dtype)
        for i, v in enumerate(f.link.visuals):
            out['visual %d of %s' % (i, f.name)] = v.offset.get_matrix()
    for k, v in sorted(vars(ch).items()):     # every other table the robot shows
        if k.startswith('_'):
            continue
        vs = v if isinstance(v, list) else [v]
        for i, x in enumerate(vs):
            if torch.is_tensor(x) and x.is_floating_point():
                out['%s[%d]' % (k, i)] = x
    return out


def queries(c, ch, th):
    """everything numeric the robot answers"""
    dt = ch.dtype
    out = {}
    fk = ch.forward_kinematics(th.to(dt), end_only=False) if isinstance(ch, pk.SerialChain) else ch.forward_kinematics(th.to(dt))
    for f, T in fk.items():
        out['pose of ' + f] = T.get_matrix()
        c.true('pose of %s has the dtype' % f, T.dtype == dt)
    out['list'] = ch.ensure_tensor([0.] * ch.n_joints)
    out['clamped'] = ch.clamp(th.to(dt))
    if isinstance(ch, pk.SerialChain):
        p = t64([[.25, -.5, 2.]]).to(dt)
        out['Jacobian'] = ch.jacobian(th.to(dt))
        out['Jacobian of a tool'], out['tool pose'] = ch.jacobian(th.to(dt), locations=p, ret_eef_pose=True)
        out['Jacobian of a tool (other dtype)'] = ch.jacobian(th.to(dt), locations=p.to(F32 if dt == D64 else D64))
        out['end'] = ch.forward_kinematics([.5] * ch.n_joints).get_matrix()
    return out


def gradient(ch, th):
    x = th.to(ch.dtype).detach().clone().requires_grad_(True)
    m = ch.forward_kinematics_tensor(x)
    m[..., :3, :].sum().backward()
    return x.grad


def history(spec, dts, serial=None, grad=False):
    def body(c):
        lim = {s[0]: (c.scalar('lo' + s[0], -5, 0), c.scalar('hi' + s[0], 0, 5)) for s in spec if s[2] != 'fixed'
               and s[0] not in ('l2', 'alpha')}
        r = Robot(c, spec, dts[0], limits=lim)
        for n in r.order[1:3]:
            r.frames[n].link.visuals = [Visual(Transform3d(matrix=c.pose('V%s%d' % (n, k)).to(dts[0])), 'box', (1., 2., 3.))
                                        for k in range(2)]
        ch = r.chain()
        if serial:
            ch = pk.SerialChain(ch, serial)
        for o in list(r.off.values()) + list(r.lof.values()):
            if o is not None:
                c.assume((o[..., :3, 3].abs() <= 10).all())
        th = c.real('th', (2, ch.n_joints), lo=-7, hi=7)
        want, s0, lims = queries(c, ch, th), structure(ch), ch.get_joint_limits()
        num0 = numbers(ch)
        g0 = gradient(ch, th) if grad else None
        ch.get_frame_indices(*ch.get_frame_names(exclude_fixed=False))
        for i, dt in enumerate(dts[1:]):
            new = ch.to(dtype=dt)
            c.true('%d: gives the robot' % i, type(new) is type(ch))
            ch = new
            at = '%d %s: ' % (i, str(dt)[-7:])
            c.true(at + 'dtype', ch.dtype == dt)
            c.true(at + 'structure', structure(ch) == s0)
            n = numbers(ch)
            c.true(at + 'the same tables', set(n) == set(num0))
            for k in n:
                c.true(at + k + ': dtype', n[k].dtype == dt)
                if n[k].numel():
                    c.eq(at + k, n[k].to(D64), num0[k].to(D64))
            for a, b in zip(lims, ch.get_joint_limits()):
                for x, y in zip(a, b):
                    c.eq(at + 'limit', torch.as_tensor(x, dtype=D64), torch.as_tensor(y, dtype=D64))
            got = queries(c, ch, th)
            for k in got:
                c.true(at + k + ': dtype', got[k].dtype == dt)
                c.eq(at + k, got[k].to(D64), want[k].to(D64))
            if grad:
                g = gradient(ch, th)
                c.true(at + 'gradient: dtype', g.dtype == dt)
                c.eq(at + 'gradient', g.to(D64), g0.to(D64))
    return body


for _n, _s, _e in (('tree', TREE, None), ('mujoco_style', MJ, None), ('serial', SERIAL, 'tip')):
    for _k, _d in (('narrow', (D64, F32)), ('widen', (F32, D64)), ('there_and_back', (F32, D64, F32)),
                   ('back_and_there', (D64, F32, D64))):
        SUITE.add('%s_%s' % (_n, _k), history(_s, _d, _e, grad=_k in ('narrow', 'widen')), tol=2e-4)
SUITE.add('serial_same', history(SERIAL, (D64, D64, D64), 'tip'))
SUITE.add('branch_widen', history(TREE, (F32, D64), 'a2', grad=True), tol=2e-4)


@SUITE.config(tol=2e-4)
def device_only(c):
    """a conversion that names no dtype keeps the precision"""
    for dt in (D64, F32):
        r = Robot(Prefix(c, str(dt)[-2:]), REVS, dt)
        ch = r.chain()
        th = c.real('th' + str(dt)[-2:], (1, 2)).to(dt)
        want = ch.forward_kinematics(th)
        ch = ch.to(device='cpu')
        c.true('dtype', ch.dtype == dt)
        for k, v in numbers(ch).items():
            c.true(k + ': dtype', v.dtype == dt)
        for k, T in ch.forward_kinematics(th).items():
            c.eq(k, T.get_matrix(), want[k].get_matrix())


class Prefix:
    def __init__(self, c, p):
        self.c, self.p = c, p

    def pose(self, n, *a):
        return self.c.pose(self.p + n, *a)

    def unit(self, n, *a, **k):
        return self.c.unit(self.p + n, *a, **k)


@SUITE.config(tol=2e-4)
def transforms(c):
    M = c.pose('M', (2,))
    c.assume((M[:, :3, 3].abs() <= 10).all())
    p = c.real('p', (2, 3), lo=-10, hi=10)
    s = c.real('s', (2, 3), lo=.1, hi=10)
    for a in (D64, F32):
        for name, T in (('matrix', Transform3d(matrix=M.to(a))), ('translation', Translate(p.to(a), dtype=a)),
                        ('scale', Scale(s.to(a), dtype=a)), ('rotation', Rotate(M[:, :3, :3].to(a), dtype=a, orthogonal_tol=1e-3))):
            at = '%s %s ' % (name, str(a)[-2:])
            m = T.get_matrix().clone()
            for b in (D64, F32):
                X = T.to('cpu', dtype=b)
                c.true(at + 'dtype', X.dtype == b and X.get_matrix().dtype == b)
                c.eq(at + 'matrix', X.get_matrix().to(D64), m.to(D64))
                c.true(at + 'original dtype', T.dtype == a and T.get_matrix().dtype == a)
                I = X.inverse()
                c.true(at + 'inverse dtype', I.dtype == b and I.get_matrix().dtype == b)
                c.eq(at + 'inverse', (I.get_matrix() @ X.get_matrix()).to(D64), I4().expand(2, 4, 4))
                c.true(at + 'points dtype', X.transform_points(p.to(b)).dtype == b)
                Y = X.to('cpu', copy=True)
                c.true(at + 'copy', Y is not X and Y.dtype == b and Y.get_matrix().dtype == b)
                c.eq(at + 'copied', Y.get_matrix(), X.get_matrix())
                Y.get_matrix()[:] = 0
                c.eq(at + 'a copy is independent', X.get_matrix().to(D64), m.to(D64))
            c.eq(at + 'original', T.get_matrix(), m)
            Z = T.to('cpu', dtype=F32).to('cpu', dtype=D64).to('cpu', dtype=a)
            c.true(at + 'final dtype', Z.dtype == a)
            c.eq(at + 'round trip', Z.get_matrix(), m)
