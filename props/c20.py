import warnings
import torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import Transform3d, Translate, Scale, Rotate, RotateAxisAngle
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C20', ['transforms.transform3d.' + f for f in (
    'Transform3d.__init__', 'Translate.__init__', 'Scale.__init__', 'Rotate.__init__', 'RotateAxisAngle.__init__',
    'Transform3d.translate', 'Transform3d.scale', 'Transform3d.rotate', 'Transform3d.rotate_axis_angle', '_handle_coord',
    '_handle_input', '_handle_angle_input', '_check_valid_rotation_matrix')],
    'All positions, unit quaternions, rotation matrices, Euler angles, scale factors, offsets and angles, as lists, numbers, '
    'scalar tensors, single and batched tensors; batches of 1, 2 and 3; both precisions.')
F32 = torch.float32


def qmat(q):
    w, v = q[..., 0], q[..., 1:]
    return ((w * w - (v * v).sum(-1))[..., None, None] * I3() + 2 * v[..., :, None] * v[..., None, :]
            + 2 * w[..., None, None] * skew(v))


def euler(e):
    """intrinsic rotations about x, then y, then z"""
    a, b, d = e.unbind(-1)
    return axis_rot('X', a) @ axis_rot('Y', b) @ axis_rot('Z', d)


ROT = {'matrix': lambda c, b: (lambda R: (R, R))(c.rotation('r', b)),
       'quaternion': lambda c, b: (lambda q: (q, qmat(q)))(c.unit('q', b)),
       'euler': lambda c, b: (lambda e: (e, euler(e)))(c.real('e', b + (3,)))}


def expect(c, T, R, p, n, dtype=D64):
    M = T.get_matrix()
    c.true('shape', M.shape == (n, 4, 4) and len(T) == n)
    c.true('dtype', M.dtype == dtype and T.dtype == dtype)
    M = M.to(D64)
    c.eq('rotation', M[:, :3, :3], (R if R.dim() == 3 else R[None]).expand(n, 3, 3))
    c.eq('translation', M[:, :3, 3], (p if p.dim() == 2 else p[None]).expand(n, 3))
    c.eq('bottom row', M[:, 3], t64([0., 0, 0, 1]).expand(n, 4))


def given(kind, rb, pb):
    """rotation batch, position batch; None: not given"""
    def body(c):
        kw, R, p = {}, I3(), torch.zeros(3, dtype=D64)
        n = 1
        if rb is not None:
            kw['rot'], R = ROT[kind](c, rb)
            n = max(n, rb[0] if rb else 1)
        if pb is not None:
            kw['pos'] = p = c.real('p', pb + (3,))
            n = max(n, pb[0] if pb else 1)
        keep = {k: v.clone() for k, v in kw.items()}
        T = Transform3d(dtype=D64, **kw)
        expect(c, T, R, p, n)
        T.get_matrix()[:] = 0.
        for k in kw:
            c.eq(k + ' unchanged', kw[k], keep[k])
    return body


for _k in ROT:
    for _r, _p in (((), ()), ((2,), (2,)), ((), (2,)), ((2,), ()), ((1,), (2,)), ((2,), (1,)), ((), None), ((2,), None), ((1,), (1,))):
        SUITE.add('given_%s_%s_%s' % (_k, _r[0] if _r else 'one', 'none' if _p is None else _p[0] if _p else 'one'), given(_k, _r, _p))
SUITE.add('given_three_matrices', given('matrix', (3,), (3,)))
SUITE.add('given_three_quaternions', given('quaternion', (3,), (3,)))
SUITE.add('given_position', given(None, None, ()))
SUITE.add('given_positions', given(None, None, (2,)))


@SUITE.config()
def identity(c):
    for n in (1, 3):
        expect(c, Transform3d(n, dtype=D64), I3(), torch.zeros(3, dtype=D64), n)
    expect(c, Transform3d(), I3(), torch.zeros(3, dtype=D64), 1, F32)


@SUITE.config()
def given_lists(c):
    q, p, e, R = c.unit('q'), [c.scalar('p%d' % i) for i in range(3)], [c.scalar('e%d' % i) for i in range(3)], c.rotation('r')
    pt, et = torch.stack([torch.as_tensor(x, dtype=D64) for x in p]), torch.stack([torch.as_tensor(x, dtype=D64) for x in e])
    ql = [q[i].item() for i in range(4)]
    expect(c, Transform3d(rot=ql, pos=p, dtype=D64), qmat(q), pt, 1)
    expect(c, Transform3d(rot=e, pos=tuple(p), dtype=D64), euler(et), pt, 1)
    expect(c, Transform3d(rot=[[R[i, j].item() for j in range(3)] for i in range(3)], dtype=D64), R, torch.zeros(3, dtype=D64), 1)
    expect(c, Transform3d(pos=[p, p], rot=[ql, ql], dtype=D64), qmat(q), pt, 2)
    expect(c, Transform3d(pos=p, matrix=I4()), I3(), pt, 1)
    expect(c, Transform3d(rot=ql, matrix=I4()), qmat(q), torch.zeros(3, dtype=D64), 1)


def overrides(mb, rb, pb):
    def body(c):
        M = c.pose('m', mb)
        keep = M.clone()
        n = max([b[0] for b in (mb, rb, pb) if b] + [1])
        q, p = c.unit('q', rb), c.real('p', pb + (3,))
        R0, p0 = M[..., :3, :3], M[..., :3, 3]
        expect(c, Transform3d(matrix=M), R0, p0, mb[0] if mb else 1)
        expect(c, Transform3d(matrix=M, pos=p), R0, p, max([b[0] for b in (mb, pb) if b] + [1]))
        expect(c, Transform3d(matrix=M, rot=q), qmat(q), p0, max([b[0] for b in (mb, rb) if b] + [1]))
        expect(c, Transform3d(matrix=M, rot=q, pos=p), qmat(q), p, n)
        c.eq('matrix unchanged', M, keep)
    return body


for _m, _r, _p in (((), (), ()), ((2,), (2,), (2,)), ((), (2,), (2,)), ((2,), (), ()), ((1,), (), (2,)), ((1,), (2,), ())):
    SUITE.add('overrides_%s' % '_'.join(str(b[0]) if b else 'one' for b in (_m, _r, _p)), overrides(_m, _r, _p))


def one(v):
    return torch.as_tensor(v, dtype=D64).reshape(-1)


def spread(c, name, kinds):
    """x, y, z given as 'n'umber, 's'calar tensor or batch (digit)"""
    out = []
    for i, k in enumerate(kinds):
        nm = name + 'xyz'[i]
        out.append(c.scalar(nm) if k == 'n' else c.real(nm) if k == 's' else c.real(nm, (int(k),)))
    n = max([int(k) for k in kinds if k.isdigit()] + [1])
    return out, torch.stack([one(v).expand(n) for v in out], -1)


SPREADS = ('nnn', 'sss', '222', 'n2s', '21n', '1ns', '3nn')


def translate(kinds):
    def body(c):
        a, xyz = spread(c, 't', kinds)
        n = len(xyz)
        expect(c, Translate(*a, dtype=D64), I3(), xyz, n)
        T = Transform3d(matrix=c.pose('m', (1,)))
        keep = T.get_matrix().clone()
        U = T.translate(*a)
        c.eq('acts before the transform', U.get_matrix()[:, :3, 3], matvec(keep[:, :3, :3], xyz) + keep[:, :3, 3])
        c.eq('rotation kept', U.get_matrix()[:, :3, :3], keep[:, :3, :3].expand(n, 3, 3))
        c.true('dtype', U.get_matrix().dtype == D64)
        c.eq('the original untouched', T.get_matrix(), keep)
    return body


def scale(kinds):
    def body(c):
        a, xyz = spread(c, 's', kinds)
        n = len(xyz)
        S = Scale(*a, dtype=D64)
        expect(c, S, torch.diag_embed(xyz), torch.zeros(3, dtype=D64), n)
        T = Transform3d(matrix=c.pose('m', (1,)))
        keep = T.get_matrix().clone()
        U = T.scale(*a)
        c.eq('acts before the transform', U.get_matrix(), keep @ S.get_matrix())
        c.true('dtype', U.get_matrix().dtype == D64)
        c.eq('the original untouched', T.get_matrix(), keep)
    return body


for _k in SPREADS:
    SUITE.add('translate_' + _k, translate(_k))
    SUITE.add('scale_' + _k, scale(_k))


@SUITE.config()
def translate_rows(c):
    for n in (1, 2, 3):
        x = c.real('x%d' % n, (n, 3))
        keep = x.clone()
        expect(c, Translate(x, dtype=D64), I3(), x, n)
        expect(c, Transform3d(dtype=D64).translate(x), I3(), x, n)
        Translate(x, dtype=D64).get_matrix()[:] = 0.
        c.eq('argument unchanged', x, keep)


@SUITE.config()
def scale_rows(c):
    z = torch.zeros(3, dtype=D64)
    for n in (1, 2, 3):
        x, u = c.real('x%d' % n, (n, 3)), c.real('u%d' % n, (n,))
        expect(c, Scale(x, dtype=D64), torch.diag_embed(x), z, n)
        expect(c, Scale(u, dtype=D64), torch.diag_embed(u[:, None].expand(n, 3)), z, n)
        expect(c, Transform3d(dtype=D64).scale(x), torch.diag_embed(x), z, n)
    s, t = c.scalar('s'), c.real('t')
    for v in (s, t):
        expect(c, Scale(v, dtype=D64), one(v) * I3(), z, 1)


@SUITE.config()
def rotate(c):
    z = torch.zeros(3, dtype=D64)
    for k in ROT:
        for b in ((), (2,)) + (((3,),) if k == 'quaternion' else ()):
            class Named:
                rotation = staticmethod(lambda n, s: c.rotation('%s_%s_%s' % (n, k, len(s) and s[0]), s))
                unit = staticmethod(lambda n, s: c.unit('%s_%s_%s' % (n, k, len(s) and s[0]), s))
                real = staticmethod(lambda n, s: c.real('%s_%s_%s' % (n, k, len(s) and s[0]), s))
            r, R = ROT[k](Named, b)
            n = b[0] if b else 1
            keep = r.clone()
            expect(c, Rotate(r, dtype=D64), R, z, n)
            M = c.pose('m_%s_%d' % (k, n if b else 0), (1,))
            T = Transform3d(matrix=M)
            U = T.rotate(r)
            c.eq('acts before the transform', U.get_matrix()[:, :3, :3], M[:, :3, :3] @ R)
            c.eq('position kept', U.get_matrix()[:, :3, 3], M[:, :3, 3].expand(n, 3))
            c.true('dtype', U.get_matrix().dtype == D64)
            c.eq('the original untouched', T.get_matrix(), M)
            c.eq('argument unchanged', r, keep)


@SUITE.config()
def rotate_lists(c):
    e, q = [c.scalar('e%d' % i) for i in range(3)], c.unit('q')
    z = torch.zeros(3, dtype=D64)
    expect(c, Rotate(e, dtype=D64), euler(torch.stack([one(v)[0] for v in e])), z, 1)
    expect(c, Rotate([q[i].item() for i in range(4)], dtype=D64), qmat(q), z, 1)


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        fn()
    return any('rotation' in str(x.message) for x in w)


@SUITE.config()
def rotate_warns(c):
    R = c.rotation('r', (2,))
    c.true('no warning for rotations', not warned(lambda: Rotate(R, dtype=D64)))
    s = c.real('s', lo=1.01, hi=10)
    c.true('scaled', warned(lambda: Rotate(R[0] * s, dtype=D64)))
    c.true('reflected', warned(lambda: Rotate(-R[0], dtype=D64)))
    bad = torch.stack([R[0], R[1] * s])
    c.true('one bad of two', warned(lambda: Rotate(bad, dtype=D64)))


def axis_angle(ax, degrees):
    def body(c):
        z = torch.zeros(3, dtype=D64)
        k = math.pi / 180 if degrees else 1.0
        kw = {} if degrees else dict(degrees=False)
        for nm, a in (('number', c.scalar('a', -1000, 1000)), ('tensor', c.real('b', (), -1000, 1000)), ('batch', c.real('d', (2,), -1000, 1000))):
            n = 2 if nm == 'batch' else 1
            R = axis_rot(ax, one(a) * k)
            expect(c, RotateAxisAngle(a, ax, **kw), R, z, n)
            expect(c, RotateAxisAngle(a, ax.lower(), dtype=D64, **kw), R, z, n)
            T = Transform3d(matrix=c.pose('m' + nm, (1,)))
            keep = T.get_matrix().clone()
            U = T.rotate_axis_angle(a, ax, **kw)
            c.eq('acts before the transform', U.get_matrix()[:, :3, :3], keep[:, :3, :3] @ R)
            c.eq('position kept', U.get_matrix()[:, :3, 3], keep[:, :3, 3].expand(n, 3))
            c.eq('the original untouched', T.get_matrix(), keep)
        c.eq('the axis defaults to x', RotateAxisAngle(a, **kw).get_matrix(), RotateAxisAngle(a, 'X', **kw).get_matrix())
    return body


for _a in 'XYZ':
    SUITE.add('axis_angle_degrees_' + _a, axis_angle(_a, True))
    SUITE.add('axis_angle_radians_' + _a, axis_angle(_a, False))


@SUITE.config()
def chain_of_builders(c):
    a, t, s = c.scalar('a'), c.real('t', (1, 3)), c.real('s', (1, 3))
    T = Transform3d(dtype=D64)
    U = T.rotate_axis_angle(a, 'Z', degrees=False).translate(t).scale(s)
    R = axis_rot('Z', one(a))
    c.eq('in the order called', U.get_matrix()[:, :3, :3], R @ torch.diag_embed(s))
    c.eq('translation turned', U.get_matrix()[:, :3, 3], matvec(R, t))
    c.eq('the first untouched', T.get_matrix(), I4()[None])


@SUITE.config(tol=2e-5)
def single_precision(c):
    p, q, s = c.real('p', (2, 3), -10, 10, dtype=F32), c.unit('q', (2,), dtype=F32), c.real('s', (2, 3), -10, 10, dtype=F32)
    z = torch.zeros(3, dtype=D64)
    expect(c, Transform3d(pos=p, rot=q), qmat(q.to(D64)), p.to(D64), 2, F32)
    expect(c, Translate(p), I3(), p.to(D64), 2, F32)
    expect(c, Scale(s), torch.diag_embed(s.to(D64)), z, 2, F32)
    expect(c, Rotate(q), qmat(q.to(D64)), z, 2, F32)
    expect(c, RotateAxisAngle(p[:, 0], 'Y', degrees=False, dtype=F32), axis_rot('Y', p[:, 0].to(D64)), z, 2, F32)
    T = Transform3d(pos=p)
    for U in (T.translate(0.5, 0., 0.), T.scale(2.0), T.rotate(q), T.rotate_axis_angle(30.)):
        c.true('stays', U.get_matrix().dtype == F32)


@SUITE.config()
def refused(c):
    for s in ((2, 2), (2, 4)):
        c.raises('translate by %s' % (s,), lambda: Translate(torch.zeros(s)), ValueError)
        c.raises('scale by %s' % (s,), lambda: Scale(torch.zeros(s)), ValueError)
    c.raises('rows and y', lambda: Translate(torch.zeros(2, 3), 1.0), ValueError)
    c.raises('rows and z', lambda: Scale(torch.zeros(2, 3), None, 1.0), ValueError)
    c.raises('sizes 2 and 3', lambda: Translate(torch.zeros(2), torch.zeros(3), 0.0), ValueError)
    c.raises('axis', lambda: RotateAxisAngle(1.0, 'W'), ValueError)
    c.raises('angles with two dimensions', lambda: RotateAxisAngle(torch.zeros(2, 1)), ValueError)
