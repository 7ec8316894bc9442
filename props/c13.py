import itertools
import torch
from pytorch_kinematics.transforms import rotation_conversions as rc
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C13', ['rotation_conversions.' + f for f in (
    'euler_angles_to_matrix', 'matrix_to_euler_angles', '_axis_angle_rotation', '_angle_from_tan', '_index_from_letter',
    'quaternion_from_euler')],
    'All twelve conventions, all real angles, all rotation matrices (parametrised by elementary rotations) whose middle angle '
    'is away from gimbal lock by any margin above 1e-6 in its sine or cosine; the 24 axis sequences of quaternion_from_euler '
    'by name and by tuple; batch shapes (3,), (2,3), (2,1,3).')
CONV = [a + b + d for a, b, d in itertools.product('XYZ', repeat=3) if a != b and b != d]


def ref(conv, angles):
    a, b, d = angles.unbind(-1)
    return axis_rot(conv[0], a) @ axis_rot(conv[1], b) @ axis_rot(conv[2], d)


def to_matrix(conv):
    def body(c):
        e = c.real('e', (3,))
        M = rc.euler_angles_to_matrix(e, conv)
        c.true('shape', M.shape == (3, 3))
        c.eq('the product of the three rotations', M, ref(conv, e))
        b = c.real('b', (2, 1, 3))
        c.eq('batched', rc.euler_angles_to_matrix(b, conv), ref(conv, b))
    return body


def gimbal(conv, R):
    """the entry that is the (co)sine of the middle angle"""
    return R[..., 'XYZ'.index(conv[0]), 'XYZ'.index(conv[2])]


def back(conv, angles=True):
    def body(c):
        # every rotation is the product of its three elementary rotations
        R = ref(conv, c.real('r', (3,))) if angles else c.rotation('r')
        c.assume(torch.abs(gimbal(conv, R)) < 1 - 1e-6)
        e = rc.matrix_to_euler_angles(R, conv)
        c.true('shape', e.shape == (3,))
        c.eq('angles describe the matrix', ref(conv, e), R)
        if conv[0] == conv[2]:
            c.holds('middle angle in [0, pi]', (e[1] >= 0) & (e[1] <= PI))
        else:
            c.holds('middle angle in [-pi/2, pi/2]', (e[1] >= -PI / 2) & (e[1] <= PI / 2))
    return body


def back_batched(conv):
    def body(c):
        R = c.rotation('r', (2,))
        for i in range(2):
            c.assume(torch.abs(gimbal(conv, R[i])) < 1 - 1e-6)
        e = rc.matrix_to_euler_angles(R, conv)
        for i in range(2):
            c.eq('entry %d alone' % i, e[i], rc.matrix_to_euler_angles(R[i], conv))
        c.eq('further batch dimension', rc.matrix_to_euler_angles(R[:, None], conv)[:, 0], e)
    return body


for _c in CONV:
    SUITE.add('to_matrix_' + _c, to_matrix(_c))
    SUITE.add('from_matrix_' + _c, back(_c))
for _c in ('XYZ', 'ZXZ'):
    SUITE.add('from_matrix_batched_' + _c, back_batched(_c))
for _c in CONV:
    if _c not in ('XYZ', 'ZXZ'):
        SUITE.add('from_matrix_batched_' + _c, back_batched(_c), tier='thorough')


# the same with the matrix given by a quaternion (harder for the solver)
for _c in CONV:
    if _c[0] == _c[2]:
        SUITE.add('from_matrix_of_quaternion_' + _c, back(_c, False), tier='thorough', timeout=60)

# axis sequences after Gohlke: static axes compose from the left, rotating ones from the right
SEQ = ['s' + a + b + d for a, b, d in itertools.product('xyz', repeat=3) if a != b and b != d]
SEQ += ['r' + s[1:] for s in SEQ]


def sequence(seqs):
    def body(c):
        e = c.real('e', (3,))
        for s in seqs:
            q = rc.quaternion_from_euler(e, s)
            c.true('shape', q.shape == (4,))
            R = [axis_rot(l, e[i]) for i, l in enumerate(s[1:])]
            want = R[2] @ R[1] @ R[0] if s[0] == 's' else R[0] @ R[1] @ R[2]
            c.eq('unit ' + s, (q * q).sum(), t64(1.0))
            c.eq('rotation of ' + s, quat_to_mat(c, q), want)
            c.eq('upper case ' + s, rc.quaternion_from_euler(e, s.upper()), q)
    return body


for _i in range(0, 24, 4):
    SUITE.add('sequences_%d' % _i, sequence(SEQ[_i:_i + 4]))


@SUITE.config()
def sequence_batched(c):
    e = c.real('e', (2, 1, 3))
    c.eq('default is static xyz', rc.quaternion_from_euler(e), rc.quaternion_from_euler(e, 'sxyz'))
    for s in ('sxyz', 'rzyx', 'syzy', 'ryxz'):
        q = rc.quaternion_from_euler(e, s)
        c.true('shape', q.shape == (2, 1, 4))
        for i in range(2):
            c.eq('entry %d of %s' % (i, s), q[i, 0], rc.quaternion_from_euler(e[i, 0], s))
    # the documented tuple form: inner axis, parity, repetition, frame
    for s, t in (('sxyz', (0, 0, 0, 0)), ('rxyz', (2, 1, 0, 1)), ('szyx', (2, 1, 0, 0)), ('rzxz', (2, 0, 1, 1))):
        c.eq('tuple of ' + s, rc.quaternion_from_euler(e, t), rc.quaternion_from_euler(e, s))


@SUITE.config()
def refused(c):
    e, R = c.real('e', (3,)), c.rotation('r')
    for bad in ('XY', 'XXY', 'XYY', 'xyz', 'XYW', 'XYZX', ''):
        c.raises('convention %r' % bad, lambda: rc.euler_angles_to_matrix(e, bad), ValueError)
        c.raises('convention %r' % bad, lambda: rc.matrix_to_euler_angles(R, bad), ValueError)
    c.raises('two angles', lambda: rc.euler_angles_to_matrix(e[:2], 'XYZ'), ValueError)
    c.raises('no vector', lambda: rc.euler_angles_to_matrix(e[0], 'XYZ'), ValueError)
    c.raises('2x3 matrix', lambda: rc.matrix_to_euler_angles(R[:2], 'XYZ'), ValueError)
    c.raises('unknown sequence', lambda: rc.quaternion_from_euler(e, 'sxxz'), KeyError)
