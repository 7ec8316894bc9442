import torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import rotation_conversions as rc
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C14', ['rotation_conversions.' + f for f in (
    'rotation_6d_to_matrix', 'matrix_to_rotation_6d', 'matrix44_to_se3_9d', 'se3_9d_to_matrix44')],
    'All rotation matrices (parametrised by unit quaternions), all positions, all pairs of vectors with a1 between 1e-3 and 100 '
    'long and the part of a2 across a1 longer than 1e-3; also lengths 1e-6 to 1e6 of either with up to 10 along a1; batch shapes (), (2,), (2,2).')


def cross(a, b):
    return torch.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                        a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)


@SUITE.config()
def encode_decode(c):
    R = c.rotation('r')
    d = rc.matrix_to_rotation_6d(R)
    c.true('six numbers', d.shape == (6,))
    c.eq('the first two rows', d, torch.cat([R[0], R[1]]))
    c.eq('round trip', rc.rotation_6d_to_matrix(d), R)


@SUITE.config()
def encode_decode_batch(c):
    R = c.rotation('r', (2, 2))
    d = rc.matrix_to_rotation_6d(R)
    c.true('shape', d.shape == (2, 2, 6))
    c.eq('round trip', rc.rotation_6d_to_matrix(d), R)


@SUITE.config()
def copy_of_the_matrix(c):
    R = c.rotation('r', (2,))
    keep = R.clone()
    d = rc.matrix_to_rotation_6d(R)
    d *= 2.0
    c.eq('the matrix is not aliased', R, keep)


def vectors(c):
    """any two vectors that are not parallel: the first as its direction and length"""
    u, n, b = c.unit('u', dim=3), c.real('n', lo=1e-3, hi=100), c.real('b', (3,), -100, 100)
    x = cross(u, b)
    c.assume((x * x).sum(-1) > 1e-6)
    return u, n, b, x


@SUITE.config()
def decode_rows(c):
    u, n, b, x = vectors(c)
    R = rc.rotation_6d_to_matrix(torch.cat([u * n, b]))
    c.true('shape', R.shape == (3, 3))
    c.eq('first row along the first vector', R[0], u)
    c.eq('second row is orthogonal to the first', (R[0] * R[1]).sum(), t64(0.))
    c.eq('second row is a unit vector', (R[1] * R[1]).sum(), t64(1.))
    c.eq('second row lies in the plane', (R[1] * x).sum(), t64(0.))
    c.eq('third row completes a right-handed basis', R[2], cross(R[0], R[1]))
    # b = (b . R0) R0 + |u x b| R1, so the second row is on the second vector's side
    c.eq('on the side of the second vector', (R[1] * b).sum(), torch.sqrt((x * x).sum()))


@SUITE.config()
def decode_frames(c):
    """vectors of very different lengths, nearly parallel ones included: n R0 and p R0 + s R1 decode to R"""
    R = c.rotation('r')
    n, s, p = c.real('n', lo=1e-6, hi=1e6), c.real('s', lo=1e-6, hi=1e6), c.real('p', lo=-10, hi=10)
    c.eq('the rotation', rc.rotation_6d_to_matrix(torch.cat([n * R[0], p * R[0] + s * R[1]])), R)


@SUITE.config()
def decode_batch(c):
    d = c.real('d', (2, 6), -100, 100)
    for i in range(2):
        a, b = d[i, :3], d[i, 3:]
        x = cross(a, b)
        c.assume((a * a).sum() > 1e-6)
        c.assume((x * x).sum() > 1e-6)
    R = rc.rotation_6d_to_matrix(d)
    for i in range(2):
        c.eq('entry %d alone' % i, R[i], rc.rotation_6d_to_matrix(d[i]))
    c.eq('further batch dimension', rc.rotation_6d_to_matrix(d[:, None]), R[:, None])


def pose9(batch):
    def body(c):
        T = c.pose('T', batch)
        keep = T.clone()
        e = rc.matrix44_to_se3_9d(T)
        c.true('shape', e.shape == batch + (9,))
        c.eq('rotation then position', e, torch.cat([T[..., 0, :3], T[..., 1, :3], T[..., :3, 3]], -1))
        c.eq('round trip', rc.se3_9d_to_matrix44(e), T)
        c.eq('the pose is left alone', T, keep)
        c.true('exported', pk.matrix44_to_se3_9d is rc.matrix44_to_se3_9d)
    return body


for _b in ((), (2,), (2, 2)):
    SUITE.add('pose_round_trip_%s' % 'x'.join(map(str, _b)), pose9(_b))


@SUITE.config()
def decode_pose(c):
    u, n, b, x = vectors(c)
    a = u * n
    p = c.real('p', (3,))
    H = rc.se3_9d_to_matrix44(torch.cat([a, b, p]))
    c.eq('rotation part', H[:3, :3], rc.rotation_6d_to_matrix(torch.cat([a, b])))
    c.eq('position', H[:3, 3], p)
    c.eq('bottom row', H[3], t64([0., 0, 0, 1]))
