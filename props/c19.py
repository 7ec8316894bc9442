import torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import Transform3d, Translate, Scale, Rotate
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C19', ['transforms.transform3d.' + f for f in (
    'Transform3d.transform_points', 'Transform3d.transform_normals', 'Transform3d.transform_shape_operator',
    'Transform3d.inverse', 'Transform3d.compose', '_broadcast_bmm')],
    'Points: all rigid, affine (any 3x4 part) and projective (homogeneous coordinate at least 0.01 away from zero) matrices and all '
    'points; normals: all rigid transforms with scale factors of size 1e-2 to 1e2. 1, 2 and 3 transforms with 1, 2 and 3 points in '
    'the layouts (P,3), (1,P,3), (N,P,3) and one to one.')


def homog(M, p):
    """the textbook: append 1, multiply, divide; M (..., 4, 4), p (..., 3)"""
    h = matvec(M, torch.cat([p, torch.ones(p.shape[:-1] + (1,), dtype=p.dtype)], -1))
    return h[..., :3] / h[..., 3:]


def affine(c, name, n):
    A = c.real(name, (n, 3, 4), -10, 10)
    return torch.cat([A, t64([[[0., 0, 0, 1]]]).expand(n, 1, 4)], -2)


# layout: (transforms, shape of the points, expected shape)
LAYOUTS = {'one_P': (1, (2, 3), (2, 3)), 'one_1P': (1, (1, 2, 3), (1, 2, 3)), 'one_MP': (1, (3, 2, 3), (3, 2, 3)),
           'many_P': (3, (2, 3), (3, 2, 3)), 'many_1P': (3, (1, 2, 3), (3, 2, 3)), 'many_NP': (3, (3, 2, 3), (3, 2, 3)),
           'one_point': (1, (1, 3), (1, 3)), 'many_one_point': (2, (1, 3), (2, 1, 3)), 'many_NP_square': (3, (3, 3, 3), (3, 3, 3)),
           'many_P_equal': (3, (3, 3), (3, 3, 3)), 'one_single': (1, (1, 1, 3), (1, 1, 3))}


def per_transform(p, n):
    """points as (1 or N, P, 3)"""
    return p if p.dim() == 3 else p[None]


def points(lay, kind):
    n, shape, want = LAYOUTS[lay]

    def body(c):
        M = {'rigid': lambda: c.pose('m', (n,)), 'affine': lambda: affine(c, 'm', n),
             'projective': lambda: c.real('m', (n, 4, 4), -10, 10)}[kind]()
        p = c.real('p', shape, -100, 100)
        keep, km = p.clone(), M.clone()
        if kind == 'projective':
            h = matvec(M[:, None], torch.cat([per_transform(p, n), torch.ones(per_transform(p, n).shape[:-1] + (1,), dtype=D64)], -1))
            c.assume(h[..., 3] * h[..., 3] >= 1e-4)
        T = Transform3d(matrix=M)
        out = T.transform_points(p)
        c.true('shape', out.shape == want)
        c.true('dtype', out.dtype == D64)
        c.eq('each point by the matrix', out, homog(M[:, None], per_transform(p, n)).reshape(want))
        c.eq('points unchanged', p, keep)
        c.eq('transform unchanged', T.get_matrix(), km)
    return body


for _l in LAYOUTS:
    SUITE.add('points_affine_' + _l, points(_l, 'affine'))
for _l in ('one_P', 'many_P', 'many_NP'):
    SUITE.add('points_projective_' + _l, points(_l, 'projective'))
SUITE.add('points_rigid', points('many_P', 'rigid'))


@SUITE.config()
def points_clamped(c):
    """a homogeneous coordinate nearer to zero than eps counts as eps, on its own side"""
    for eps in (0.25, 2.0):
        M, p = c.real('m%g' % eps, (1, 4, 4), -10, 10), c.real('p%g' % eps, (2, 3), -10, 10)
        h = matvec(M, torch.cat([p, torch.ones(2, 1, dtype=D64)], -1))
        w = h[:, 3:]
        side = torch.where(w < 0, -torch.ones_like(w), torch.ones_like(w))
        out = Transform3d(matrix=M).transform_points(p, eps=eps)
        c.eq('eps %g' % eps, out, h[:, :3] / (side * torch.where(torch.abs(w) < eps, torch.full_like(w, eps), torch.abs(w))))


@SUITE.config()
def points_one_to_one(c):
    M, p = affine(c, 'm', 3), c.real('p', (3, 3), -100, 100)
    keep = p.clone()
    out = Transform3d(matrix=M).transform_points(p, batch_to_batch=True)
    c.true('shape', out.shape == (3, 3))
    c.eq('each point by its own matrix', out, homog(M, p))
    c.eq('points unchanged', p, keep)


@SUITE.config()
def points_refused(c):
    T = Transform3d(matrix=affine(c, 'm', 2))
    for s in ((3,), (2, 2, 2, 3)):
        c.raises('points of shape %s' % (s,), lambda: T.transform_points(torch.zeros(s, dtype=D64)), ValueError)
        c.raises('normals of shape %s' % (s,), lambda: T.transform_normals(torch.zeros(s, dtype=D64)), ValueError)
    c.raises('batches that do not match', lambda: T.transform_points(torch.zeros(3, 2, 3, dtype=D64)), ValueError)


@SUITE.config()
def points_composed(c):
    """composed transforms act one after the other, the last given first"""
    A, B = Transform3d(matrix=affine(c, 'a', 1)), Transform3d(matrix=affine(c, 'b', 1))
    p = c.real('p', (2, 3), -10, 10)
    c.eq('two', A.compose(B).transform_points(p), A.transform_points(B.transform_points(p)))
    t, s, R = c.real('t', (1, 3), -10, 10), c.real('s', (1, 3), -10, 10), c.rotation('r', (1,))
    T = Transform3d(dtype=D64).translate(t).rotate(R).scale(s)
    c.eq('built', T.transform_points(p), matvec(R, p * s) + t)
    N = Transform3d(matrix=affine(c, 'n', 2))
    c.eq('batches', A.compose(N).transform_points(p), A.transform_points(N.transform_points(p)))


@SUITE.config()
def points_inverse(c):
    T = Transform3d(matrix=c.pose('m', (2,)))
    p = c.real('p', (2, 3), -10, 10)
    c.eq('there and back', T.inverse().transform_points(T.transform_points(p)), p[None].expand(2, 2, 3))


@SUITE.config()
def points_precision(c):
    T = Transform3d(matrix=affine(c, 'm', 1))
    p = c.real('p', (2, 3), -10, 10, dtype=torch.float32)
    c.true('precision of the points', T.transform_points(p).dtype == torch.float32)
    c.true('precision of the normals', Transform3d(dtype=D64).transform_normals(p).dtype == torch.float32)


def factors(c, name, shape):
    s = c.real(name, shape, -100, 100)
    c.assume(s * s >= 1e-4)
    return s


def diag4(s):
    return torch.diag_embed(torch.cat([s, torch.ones(s.shape[:-1] + (1,), dtype=D64)], -1))


def scaled(c, name, n, after):
    P, s = c.pose(name, (n,)), factors(c, name + 's', (n, 3))
    return P @ diag4(s) if after else diag4(s) @ P


def normals(lay, after):
    n, shape, want = LAYOUTS[lay]

    def body(c):
        M = scaled(c, 'm', n, after)
        T = Transform3d(matrix=M)
        v = c.real('v', shape, -10, 10)
        keep, km = v.clone(), M.clone()
        out = T.transform_normals(v)
        c.true('shape', out.shape == want)
        # the normal is the covector: what it measures on a direction d it measures, transformed, on the transformed direction
        d = c.real('d', (3,), -10, 10)
        o = out if out.dim() == 3 else out[None]
        Md = matvec(M[:, :3, :3], d)[:, None]
        c.eq('measures transformed directions as before', (o * Md).sum(-1), (per_transform(v, n) * d).sum(-1).expand(o.shape[:2]))
        c.eq('normals unchanged', v, keep)
        c.eq('transform unchanged', T.get_matrix(), km)
    return body


for _l in ('one_P', 'one_1P', 'one_MP', 'many_P', 'many_1P', 'many_NP', 'one_point', 'many_P_equal'):
    SUITE.add('normals_' + _l, normals(_l, True), tier='thorough' if _l in ('many_1P', 'many_P_equal') else 'quick')
SUITE.add('normals_scaled_after', normals('one_P', False))


@SUITE.config()
def normals_perpendicular(c):
    """tangents of a surface, moved as differences of its points, stay perpendicular to its normals"""
    M = scaled(c, 'm', 1, True)
    T = Transform3d(matrix=M)
    p, t = c.real('p', (1, 3), -10, 10), c.real('t', (1, 3), -10, 10)
    w = c.real('w', (1, 3), -10, 10)
    n = torch.stack([t[:, 1] * w[:, 2] - t[:, 2] * w[:, 1], t[:, 2] * w[:, 0] - t[:, 0] * w[:, 2],
                     t[:, 0] * w[:, 1] - t[:, 1] * w[:, 0]], -1)
    tt = T.transform_points(p + t) - T.transform_points(p)
    c.eq('perpendicular', (T.transform_normals(n) * tt).sum(-1), torch.zeros(1, dtype=D64))


@SUITE.config()
def normals_rigid(c):
    R, n = c.rotation('r', (2,)), c.real('n', (2, 3), -10, 10)
    T = Transform3d(rot=R, pos=c.real('p', (2, 3)))
    c.eq('turned', T.transform_normals(n), matvec(R[:, None], n))
    c.eq('one to one', T.transform_normals(n, batch_to_batch=True), matvec(R, n))
    c.eq('special rotation', Rotate(R, dtype=D64).transform_normals(n), matvec(R[:, None], n))
    c.eq('translation leaves them', Translate(c.real('t', (1, 3)), dtype=D64).transform_normals(n), n)
    s = factors(c, 's', (1, 3))
    c.eq('scaling divides them', Scale(s, dtype=D64).transform_normals(n), n / s)


@SUITE.config()
def normals_one_to_one(c):
    M = scaled(c, 'm', 2, True)
    v, d = c.real('v', (2, 3), -10, 10), c.real('d', (3,), -10, 10)
    out = Transform3d(matrix=M).transform_normals(v, batch_to_batch=True)
    c.true('shape', out.shape == (2, 3))
    c.eq('each by its own', (out * matvec(M[:, :3, :3], d)).sum(-1), (v * d).sum(-1))


def operators(n, shape, want):
    def body(c):
        """the form h(a, b) = a.H b of the original directions is kept by the transformed operator on transformed ones"""
        M = scaled(c, 'm', n, True)
        H = c.real('h', shape, -10, 10)
        out = Transform3d(matrix=M).transform_shape_operator(H)
        c.true('shape', out.shape == want)
        a, b = c.real('a', (3,), -10, 10), c.real('b', (3,), -10, 10)
        o = out if out.dim() == 4 else out[None]
        K = H if H.dim() == 4 else H[None]
        Ma, Mb = matvec(M[:, :3, :3], a)[:, None], matvec(M[:, :3, :3], b)[:, None]
        c.eq('same form', (Ma * matvec(o, Mb)).sum(-1), (a * matvec(K, b)).sum(-1).expand(o.shape[:2]))
    return body


SUITE.add('operators_one_P', operators(1, (2, 3, 3), (2, 3, 3)))
SUITE.add('operators_many_P', operators(2, (1, 3, 3), (2, 1, 3, 3)))
SUITE.add('operators_many_NP', operators(2, (2, 1, 3, 3), (2, 1, 3, 3)))
SUITE.add('operators_one_MP', operators(1, (2, 2, 3, 3), (2, 2, 3, 3)))
