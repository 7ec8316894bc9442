"""Independent reference mathematics used by the harnesses (never the code under test)."""
import math

import torch

from .ctx import quat_to_mat, make44   # noqa: F401

D64 = torch.float64


def eye(n, batch=(), dtype=D64):
    return torch.eye(n, dtype=dtype).expand(tuple(batch) + (n, n))


def I3():
    return torch.eye(3, dtype=D64)


def I4():
    return torch.eye(4, dtype=D64)


def t64(v):
    return torch.tensor(v, dtype=D64)


def axis_rot(letter, a):
    """textbook rotation about a coordinate axis; a: (...)"""
    c, s = torch.cos(a), torch.sin(a)
    o, z = torch.ones_like(a), torch.zeros_like(a)
    rows = {'X': [o, z, z, z, c, -s, z, s, c],
            'Y': [c, z, s, z, o, z, -s, z, c],
            'Z': [c, -s, z, s, c, z, z, z, o]}[letter.upper()]
    return torch.stack(rows, -1).reshape(a.shape + (3, 3))


def skew(v):
    x, y, z = v.unbind(-1)
    o = torch.zeros_like(x)
    return torch.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(v.shape[:-1] + (3, 3))


def rodrigues(axis, theta):
    """rotation about a unit axis (..., 3) by theta (...)"""
    K = skew(axis)
    th = theta[..., None, None]
    return I3() + torch.sin(th) * K + (1 - torch.cos(th)) * (K @ K)


def rot_trans(axis, theta):
    return make44(rodrigues(axis, theta), torch.zeros(axis.shape, dtype=axis.dtype))


def prism(axis, d):
    R = I3().expand(axis.shape[:-1] + (3, 3))
    return make44(R, axis * d[..., None])


def rpy_to_mat(rpy):
    """URDF/SDF fixed-axis roll, pitch, yaw: Rz(yaw) Ry(pitch) Rx(roll)"""
    r, p, y = rpy.unbind(-1)
    return axis_rot('Z', y) @ axis_rot('Y', p) @ axis_rot('X', r)


def qmul(a, b):
    aw, ax, ay, az = a.unbind(-1)
    bw, bx, by, bz = b.unbind(-1)
    return torch.stack([aw * bw - ax * bx - ay * by - az * bz, aw * bx + ax * bw + ay * bz - az * by,
                        aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw], -1)


def rigid_inv(T):
    R = T[..., :3, :3]
    Rt = R.transpose(-1, -2)
    return make44(Rt, -(Rt @ T[..., :3, 3:4]).squeeze(-1))


def matvec(M, v):
    return (M @ v.unsqueeze(-1)).squeeze(-1)


def is_rotation(c, name, R, **k):
    """claims that R (..., 3, 3) is orthogonal with determinant 1"""
    b = R.shape[:-2]
    c.eq(name + ': R R^T = I', R @ R.transpose(-1, -2), I3().expand(b + (3, 3)), **k)
    c.eq(name + ': det R = 1', torch.det(R), torch.ones(b, dtype=R.dtype), **k)


PI = math.pi
