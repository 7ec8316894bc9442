import torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import Transform3d, Translate, Scale, Rotate, RotateAxisAngle
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C18', ['transforms.transform3d.' + f for f in (
    'Transform3d.compose', 'Transform3d.inverse', 'Transform3d._get_matrix_inverse', 'Transform3d._invert_transformation_matrix',
    'Transform3d.stack', 'Transform3d.__getitem__', 'Transform3d.__len__', 'Transform3d.clone', 'Transform3d.to',
    'Translate._get_matrix_inverse', 'Scale._get_matrix_inverse', 'Rotate._get_matrix_inverse', '_broadcast_bmm')],
    'Composition, stacking, indexing and cloning: all real 4x4 matrices; inversion: all rigid transforms (unit quaternion and any '
    'translation) with any scale factors of size 1e-2 to 1e2 before or after; batches of 1, 2 and 3.')


def mats(c, name, n):
    return c.real(name, (n, 4, 4), -10, 10)


def compose(sizes):
    def body(c):
        M = [mats(c, 'm%d' % i, n) for i, n in enumerate(sizes)]
        keep = [m.clone() for m in M]
        T = [Transform3d(matrix=m) for m in M]
        out = T[0].compose(*T[1:])
        want = M[0]
        for m in M[1:]:
            want = want @ m
        N = max(sizes)
        c.true('size', len(out) == N and out.get_matrix().shape == (N, 4, 4))
        c.eq('product in the order given', out.get_matrix(), want.expand(N, 4, 4))
        c.true('dtype', out.dtype == D64 and out.get_matrix().dtype == D64)
        for i, (t, k) in enumerate(zip(T, keep)):
            c.eq('operand %d unchanged' % i, t.get_matrix(), k)
        if len(T) == 2:
            c.eq('the same without a batch dimension', Transform3d(matrix=M[0][0]).compose(T[1]).get_matrix(), M[0][0] @ M[1])
    return body


for _s in ((1, 1), (3, 3), (1, 3), (3, 1), (1, 1, 1), (1, 2, 1, 2), (2, 1, 1)):
    SUITE.add('compose_' + '_'.join(map(str, _s)), compose(_s))


@SUITE.config()
def compose_refuses(c):
    T = [Transform3d(matrix=mats(c, 'm%d' % i, n)) for i, n in enumerate((2, 3))]
    c.raises('batches that do not match', lambda: T[0].compose(T[1]), ValueError)
    c.raises('matrix of another shape', lambda: Transform3d(matrix=c.real('x', (2, 3, 4))), ValueError)
    c.raises('matrix with too many dimensions', lambda: Transform3d(matrix=c.real('y', (2, 2, 4, 4))), ValueError)


@SUITE.config()
def compose_laws(c):
    A, B, C = (Transform3d(matrix=mats(c, n, 2)) for n in 'abc')
    c.eq('associative', A.compose(B).compose(C).get_matrix(), A.compose(B.compose(C)).get_matrix())
    c.eq('several at once', A.compose(B, C).get_matrix(), A.compose(B).compose(C).get_matrix())
    I = Transform3d(dtype=D64)
    c.eq('identity on the left', I.compose(A).get_matrix(), A.get_matrix())
    c.eq('identity on the right', A.compose(I).get_matrix(), A.get_matrix())
    c.eq('alone', A.compose().get_matrix(), A.get_matrix())


def checks_inverse(c, T, n):
    keep = T.get_matrix().clone()
    inv = T.inverse()
    I = I4().expand(n, 4, 4)
    c.true('shape', inv.get_matrix().shape == (n, 4, 4))
    c.true('dtype', inv.get_matrix().dtype == T.get_matrix().dtype and inv.dtype == T.dtype)
    c.eq('right inverse', keep.to(D64) @ inv.get_matrix().to(D64), I)
    c.eq('left inverse', inv.get_matrix().to(D64) @ keep.to(D64), I)
    c.eq('by composition', T.compose(inv).get_matrix().to(D64), I)
    c.eq('operand unchanged', T.get_matrix(), keep)
    c.eq('flag of old', T.inverse(invert_composed=True).get_matrix(), inv.get_matrix())


def factors(c, name, shape):
    """any scale factors with a size between 0.01 and 100"""
    s = c.real(name, shape, -100, 100)
    c.assume(s * s >= 1e-4)
    return s


@SUITE.config()
def inverse_rigid(c):
    checks_inverse(c, Transform3d(matrix=c.pose('p', (1,))), 1)


@SUITE.config()
def inverse_rigid_batch(c):
    checks_inverse(c, Transform3d(matrix=c.pose('p', (2,))), 2)


@SUITE.config()
def inverse_of_inverse(c):
    P = c.pose('p', (1,))
    c.eq('the transform', Transform3d(matrix=P).inverse().inverse().get_matrix(), P)


def diag4(s):
    return torch.diag_embed(torch.cat([s, torch.ones(s.shape[:-1] + (1,), dtype=D64)], -1))


@SUITE.config()
def inverse_scaled_first(c):
    P, s = c.pose('p', (1,)), factors(c, 's', (1, 3))
    checks_inverse(c, Transform3d(matrix=P @ diag4(s)), 1)


@SUITE.config()
def inverse_scaled_last(c):
    P, s = c.pose('p', (1,)), factors(c, 's', (1, 3))
    checks_inverse(c, Transform3d(matrix=diag4(s) @ P), 1)


@SUITE.config()
def inverse_translate(c):
    checks_inverse(c, Translate(c.real('t', (2, 3)), dtype=D64), 2)


@SUITE.config()
def inverse_scale(c):
    checks_inverse(c, Scale(factors(c, 's', (2, 3)), dtype=D64), 2)


@SUITE.config()
def inverse_rotate(c):
    checks_inverse(c, Rotate(c.rotation('r', (2,)), dtype=D64), 2)


@SUITE.config()
def inverse_axis_angle(c):
    for ax in 'XYZ':
        checks_inverse(c, RotateAxisAngle(c.real('a' + ax, (2,)), ax, degrees=False), 2)


@SUITE.config()
def inverse_of_built(c):
    """inverting a chain of builders, and the copies and parts of special transforms"""
    t, s = c.real('t', (1, 3)), factors(c, 's', (1, 3))
    R = c.rotation('r', (1,))
    checks_inverse(c, Transform3d(dtype=D64).rotate(R).translate(t).scale(s), 1)
    for n, T in (('translate', Translate(t, dtype=D64)), ('scale', Scale(s, dtype=D64)), ('rotate', Rotate(R, dtype=D64))):
        for m, U in (('clone', T.clone()), ('item', T[0]), ('stack', T.stack(T)), ('copy', T.to('cpu', copy=True)),
                     ('compose', T.compose(Transform3d(dtype=D64)))):
            c.eq('inverse of the %s of %s' % (m, n), U.inverse().get_matrix(),
                 T.inverse().get_matrix().expand(U.get_matrix().shape))


def stack(sizes):
    def body(c):
        M = [mats(c, 'm%d' % i, n) for i, n in enumerate(sizes)]
        T = [Transform3d(matrix=m) for m in M]
        keep = [m.clone() for m in M]
        out = T[0].stack(*T[1:])
        c.true('size', len(out) == sum(sizes))
        c.eq('one after the other', out.get_matrix(), torch.cat(M))
        k = 0
        for i, n in enumerate(sizes):
            for j in range(n):
                c.eq('entry %d of %d' % (j, i), out[k].get_matrix(), T[i][j].get_matrix())
                k += 1
        if len(sizes) > 1:
            again = T[0].stack(T[1], T[0], T[0])
            c.true('size, repeated', len(again) == 3 * sizes[0] + sizes[1])
            c.eq('one after the other, repeated', again.get_matrix(), torch.cat([M[0], M[1], M[0], M[0]]))
            again = T[0].stack(T[0])
            c.eq('on itself', again.get_matrix(), torch.cat([M[0], M[0]]))
            again.get_matrix()[:] = 0.
        out.get_matrix()[:] = 0.
        for i in range(len(T)):
            c.eq('operand %d unchanged' % i, T[i].get_matrix(), keep[i])
    return body


for _s in ((1, 1), (2, 1), (1, 2, 3)):
    SUITE.add('stack_' + '_'.join(map(str, _s)), stack(_s))


@SUITE.config()
def indexing(c):
    M = mats(c, 'm', 3)
    T = Transform3d(matrix=M)
    for name, ix in (('int', 1), ('negative', -1), ('slice', slice(0, 2)), ('step', slice(None, None, 2)), ('list', [2, 0]),
                     ('tensor', torch.tensor([1, 1, 2, 0])), ('mask', torch.tensor([True, False, True])), ('tail', slice(1, None)),
                     ('scalar tensor', torch.tensor(2))):
        want = M[ix].reshape(-1, 4, 4)
        got = T[ix]
        c.true(name + ': size', len(got) == want.shape[0])
        c.eq(name, got.get_matrix(), want)
    c.eq('original unchanged', T.get_matrix(), M)
    c.raises('out of range', lambda: T[3], IndexError)
    c.eq('iteration', torch.cat([T[i].get_matrix() for i in range(len(T))]), M)


def clones(make):
    def body(c):
        T = make(c)
        keep = T.get_matrix().clone()
        for name, U in (('clone', T.clone()), ('copy', T.to('cpu', copy=True)), ('copy by device', T.to(torch.device('cpu'), copy=True)),
                        ('copy with dtype', T.to('cpu', copy=True, dtype=D64))):
            c.eq(name + ' is equal', U.get_matrix(), keep)
            c.true(name + ': dtype', U.dtype == T.dtype and U.get_matrix().dtype == T.get_matrix().dtype)
            U.get_matrix()[0, 1, 2] = 77.
            U.get_matrix()[:, :3, 3] += 5.
            c.eq(name + ' is independent', T.get_matrix(), keep)
        U = T.clone()
        T.get_matrix()[0, 0, 0] = 33.
        c.eq('clone keeps its value', U.get_matrix(), keep)
    return body


SUITE.add('clone', clones(lambda c: Transform3d(matrix=mats(c, 'm', 2))))
SUITE.add('clone_translate', clones(lambda c: Translate(c.real('t', (2, 3)), dtype=D64)))
SUITE.add('clone_scale', clones(lambda c: Scale(c.real('t', (2, 3)), dtype=D64)))
SUITE.add('clone_rotate', clones(lambda c: Rotate(c.rotation('t', (2,)), dtype=D64)))


@SUITE.config(tol=2e-6)
def change_of_precision(c):
    M = mats(c, 'm', 2)
    T = Transform3d(matrix=M)
    keep = M.clone()
    U = T.to('cpu', dtype=torch.float32)
    c.true('dtype', U.dtype == torch.float32 and U.get_matrix().dtype == torch.float32)
    c.eq('same numbers', U.get_matrix(), M.to(torch.float32))
    V = U.to('cpu', dtype=D64)
    c.true('and back', V.dtype == D64 and V.get_matrix().dtype == D64)
    c.true('same object when nothing changes', T.to(T.device) is T and T.to(T.device, dtype=D64) is T)
    c.eq('nothing to change', T.to('cpu').get_matrix(), keep)
    U.get_matrix()[:] = 0.
    c.eq('original unchanged', T.get_matrix(), keep)
    c.true('original dtype', T.dtype == D64)
    W = T.compose(U.to('cpu', dtype=torch.float32))
    c.true('composed in the precision of the first', W.get_matrix().dtype == D64)
