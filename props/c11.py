import torch
from pytorch_kinematics.transforms import rotation_conversions as rc
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C11', ['rotation_conversions.' + f for f in (
    'quaternion_to_matrix', 'matrix_to_quaternion', '_sqrt_positive_part', 'xyzw_to_wxyz', 'wxyz_to_xyzw',
    'matrix_to_pos_rot', 'pos_rot_to_matrix', 'standardize_quaternion')],
    'All real unit quaternions, all rotation matrices (parametrised by unit quaternions), all non-zero quaternions '
    'for the scale-invariance claim; batch shapes (), (2,), (2,1).')


@SUITE.config()
def q_to_m(c):
    q = c.unit('q')
    M = rc.quaternion_to_matrix(q)
    c.true('shape', M.shape == (3, 3))
    is_rotation(c, 'quaternion_to_matrix', M)
    v = c.real('v', (3,))
    w = qmul(qmul(q, torch.cat([torch.zeros(1, dtype=D64), v])), q * t64([1., -1, -1, -1]))
    c.eq('M v is q v q*', matvec(M, v), w[1:])
    c.eq('-q gives the same rotation', rc.quaternion_to_matrix(-q), M)


@SUITE.config()
def q_scale(c):
    q = c.real('q', (1, 4))
    n = (q * q).sum()
    c.assume(n > 1e-3)
    M = rc.quaternion_to_matrix(q)
    is_rotation(c, 'any non-zero quaternion', M)
    c.eq('scale invariant', M * n, quat_to_mat_hom(q))


def quat_to_mat_hom(q):
    w, x, y, z = q.unbind(-1)
    return torch.stack([w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
                        2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
                        2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z], -1
                       ).reshape(q.shape[:-1] + (3, 3))


@SUITE.config()
def m_to_q(c):
    R = c.rotation('r')
    q = rc.matrix_to_quaternion(R)
    c.true('shape', q.shape == (4,))
    c.eq('round trip matrix -> quaternion -> matrix', quat_to_mat(c, q), R)
    c.eq('unit norm', (q * q).sum(), t64(1.0))


@SUITE.config()
def m_to_q_code(c):
    """through the code in both directions, starting from a quaternion"""
    q = c.unit('q', (1,))
    p = rc.matrix_to_quaternion(rc.quaternion_to_matrix(q))
    d = (p * q).sum(-1)
    c.eq('matrix_to_quaternion(quaternion_to_matrix(q)) = +-q', d * d, torch.ones(1, dtype=D64))


@SUITE.config()
def batch(c):
    q = c.unit('q', (2, 1))
    M = rc.quaternion_to_matrix(q)
    c.true('shape', M.shape == (2, 1, 3, 3))
    p = rc.matrix_to_quaternion(M)
    c.true('shape q', p.shape == (2, 1, 4))
    for i in range(2):
        Mi = rc.quaternion_to_matrix(q[i, 0])
        c.eq('row %d of a batch equals the single call' % i, M[i, 0], Mi)
        c.eq('row %d of a batch equals the single call (inverse)' % i, p[i, 0], rc.matrix_to_quaternion(Mi))


@SUITE.config()
def orders(c):
    q = c.unit('q', (2,))
    x = rc.wxyz_to_xyzw(q)
    c.eq('wxyz_to_xyzw', x, torch.stack([q[:, 1], q[:, 2], q[:, 3], q[:, 0]], -1))
    c.eq('xyzw_to_wxyz inverts it', rc.xyzw_to_wxyz(x), q)
    s = rc.standardize_quaternion(q)
    c.holds('standard quaternion has w >= 0', s[:, 0] >= 0)
    c.eq('standard quaternion is the same rotation', quat_to_mat(c, s), quat_to_mat(c, q))


@SUITE.config()
def pos_rot(c):
    q = c.unit('q', (2,))
    p = c.real('p', (2, 3))
    xyzw = torch.cat([q[:, 1:], q[:, :1]], -1)
    m = rc.pos_rot_to_matrix(p, xyzw)
    c.eq('pos_rot_to_matrix', m, make44(quat_to_mat(c, q), p))


@SUITE.config()
def pos_rot_back(c):
    T = c.pose('T')
    pos, rot = rc.matrix_to_pos_rot(T)
    c.eq('position', pos, T[:3, 3])
    c.eq('xyzw quaternion', quat_to_mat(c, torch.cat([rot[3:], rot[:3]])), T[:3, :3])


@SUITE.config()
def bad_shapes(c):
    c.raises('matrix_to_quaternion rejects non 3x3', lambda: rc.matrix_to_quaternion(c.real('a', (2, 3, 4))), ValueError)
    c.raises('matrix_to_quaternion rejects non 3x3', lambda: rc.matrix_to_quaternion(c.real('b', (4, 4))), ValueError)
