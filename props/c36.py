import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc, so3, math as tm
from symtorch.driver import Suite
from symtorch.h import *
from .kin import Robot
from .c16 import rot as turned, INSIDE

SUITE = Suite('C36', ['rotation_conversions (all conversions)', 'so3 (all functions)', 'math (all functions)',
                      'transform3d.Transform3d', 'chain.Chain.forward_kinematics', 'chain.Chain.clamp',
                      'chain._FKAnalyticalBackward', 'chain.SerialChain.jacobian', 'ik.delta_pose', 'ik._ik_step_kernel',
                      'ik._ik_step_kernel_svd'],
    'Batches of 1030 rows (thorough: 4100) in which two or three arbitrary rows occur over and over in a fixed '
    'irregular order, and of shape (1, 5) where any leading shape is accepted; every value of the arbitrary rows.')

BIG, HUGE = 1030, 4100


def order(n, k):
    """an irregular arrangement of k different rows"""
    out, x = [], 12345
    for i in range(n):
        x = (1103515245 * x + 12345) % 2 ** 31
        out.append((x >> 16) % k)
    return out


def rows(v, idx):
    return v.index_select(0, torch.tensor(idx))


def many(v):
    return v if isinstance(v, (tuple, list)) else (v,)


def body(make, f, n, k=2, shape=None):
    def run(c):
        base = many(make(c, k))
        alone = [many(f(*[b[i:i + 1] for b in base])) for i in range(k)]
        idx = order(n, k)
        got = many(f(*[rows(b, idx) for b in base]))
        c.true('as many results', len(got) == len(alone[0]))
        for r, g in enumerate(got):
            c.true('one result for each row', g.shape == (n,) + tuple(alone[0][r].shape[1:]), str(tuple(g.shape)))
            if g.shape[0] != n:
                continue
            want = rows(torch.cat([a[r] for a in alone]), idx)
            if g.dtype == torch.bool:
                c.holds('each row as it is alone', g == want)
            else:
                c.eq('each row as it is alone', g, want)
        if shape:
            idx = order(5, k)
            got = many(f(*[rows(b, idx).reshape(shape + tuple(b.shape[1:])) for b in base]))
            for r, g in enumerate(got):
                want = rows(torch.cat([a[r] for a in alone]), idx)
                c.true('shape of the batch kept', g.shape == shape + tuple(want.shape[1:]), str(tuple(g.shape)))
                c.eq('each row of a nested batch as it is alone', g, want.reshape(shape + tuple(want.shape[1:])))
    return run


def add(name, make, f, k=2, shape=(1, 5), n=BIG, **kw):
    SUITE.add(name, body(make, f, n, k, shape), **kw)
    SUITE.add(name + '_huge', body(make, f, HUGE, k, None), tier='thorough', **kw)


unit = lambda c, k: c.unit('q', (k,))
units = lambda c, k: (c.unit('q', (k,)), c.unit('p', (k,)))
quats = lambda c, k: (c.real('q', (k, 4)), c.real('p', (k, 4)))
rot = lambda c, k: c.rotation('R', (k,))
vec = lambda d, lo=-4, hi=4: lambda c, k: c.real('v', (k, d), lo=lo, hi=hi)


def poses(c, k, name='T'):
    return make44(c.rotation('R' + name, (k,)), c.real('p' + name, (k, 3)))


add('quaternion_to_matrix', lambda c, k: c.real('q', (k, 4), lo=0.1, hi=4), rc.quaternion_to_matrix)
add('matrix_to_quaternion', rot, rc.matrix_to_quaternion)
add('quaternion_order', lambda c, k: c.real('q', (k, 4)), lambda q: (rc.xyzw_to_wxyz(q), rc.wxyz_to_xyzw(q)))
add('standardize_quaternion', lambda c, k: c.real('q', (k, 4)), rc.standardize_quaternion)
add('quaternion_products', quats, lambda a, b: (rc.quaternion_raw_multiply(a, b), rc.quaternion_invert(a)))
add('quaternion_multiply', quats, rc.quaternion_multiply)
add('quaternion_apply', lambda c, k: (c.unit('q', (k,)), c.real('v', (k, 3))), rc.quaternion_apply)
for _c in ('XYZ', 'ZYZ'):
    add('euler_angles_to_matrix_' + _c, vec(3), lambda v, c=_c: rc.euler_angles_to_matrix(v, c))
    add('matrix_to_euler_angles_' + _c, rot, lambda m, c=_c: rc.matrix_to_euler_angles(m, c))
add('axis_angle_to_matrix', vec(3, 0.1), rc.axis_angle_to_matrix)
add('axis_angle_to_quaternion', vec(3, 0.1), rc.axis_angle_to_quaternion)
add('quaternion_to_axis_angle', unit, rc.quaternion_to_axis_angle, defined=False)
add('matrix_to_axis_angle', rot, rc.matrix_to_axis_angle, defined=False)
add('rotation_6d_to_matrix', vec(6), rc.rotation_6d_to_matrix, defined=False)
add('matrix_to_rotation_6d', lambda c, k: c.real('m', (k, 3, 3)), rc.matrix_to_rotation_6d)
add('matrix44_to_se3_9d', lambda c, k: c.real('m', (k, 4, 4)), rc.matrix44_to_se3_9d)
add('se3_9d_to_matrix44', vec(9), rc.se3_9d_to_matrix44, defined=False)
add('matrix_to_pos_rot', lambda c, k: c.pose('T', (k,)), rc.matrix_to_pos_rot, shape=None)
add('pos_rot_to_matrix', lambda c, k: (c.real('p', (k, 3)), c.unit('q', (k,))), rc.pos_rot_to_matrix, shape=None)
axes = lambda c, k: (c.unit('a', (k,), dim=3), c.real('t', (k, 1)))
axes1 = lambda c, k: (c.unit('a', (k,), dim=3), c.real('t', (k,)))
add('axis_and_angle_to_matrix_33', axes1, rc.axis_and_angle_to_matrix_33)
add('axis_and_angle_to_matrix_44', axes1, rc.axis_and_angle_to_matrix_44)
add('axis_and_d_to_pris_matrix', axes1, rc.axis_and_d_to_pris_matrix)

add('so3_exp_map', vec(3, 0.1), so3.so3_exp_map, shape=None)
add('so3_log_map', lambda c, k: turned(c, 'r', -INSIDE, INSIDE, (k,))[3], so3.so3_log_map, shape=None, defined=False)
add('hat', vec(3), lambda v: (so3.hat(v), so3.hat_inv(so3.hat(v))), shape=None)
add('so3_rotation_angle', rot, lambda R: (so3.so3_rotation_angle(R), so3.so3_rotation_angle(R, cos_angle=True)), shape=None)


def two_rotations(c, k):
    R, S = c.rotation('R', (k,)), c.rotation('S', (k,))
    for i in range(k):      # a fact about rotations the solver need not rediscover
        t = (R[i] * S[i]).sum()
        c.assume((t >= -1) & (t <= 3))
    return R, S


add('so3_relative_angle', two_rotations,
    lambda R, S: so3.so3_relative_angle(R, S, cos_angle=True), shape=None)

add('angular_distance', units, tm.quaternion_angular_distance, defined=False)
add('slerp', lambda c, k: (c.unit('q', (k,)), c.unit('p', (k,)), c.real('t', (k,), lo=0, hi=1)), tm.quaternion_slerp, defined=False)
add('acos', lambda c, k: c.real('x', (k,)), tm.acos_linear_extrapolation, defined=False)


def T3(m):
    return pk.Transform3d(matrix=m)


add('compose', lambda c, k: (poses(c, k), c.real('M', (k, 4, 4))), lambda a, b: T3(a).compose(T3(b)).get_matrix(), shape=None)
add('inverse', poses, lambda a: T3(a).inverse().get_matrix(), shape=None)
add('stack', lambda c, k: (c.real('M', (k, 4, 4)),), lambda a: T3(a[:1]).stack(T3(a[1:])).get_matrix(), shape=None)
add('transform_points', lambda c, k: (c.real('M', (k, 4, 4)), c.real('x', (k, 3))),
    lambda a, x: (T3(a).transform_points(x.unsqueeze(1))[:, 0], T3(a).transform_points(x, batch_to_batch=True)), shape=None, defined=False)
add('transform_normals', lambda c, k: (poses(c, k), c.real('x', (k, 3))),
    lambda a, x: T3(a).transform_normals(x.unsqueeze(1))[:, 0], shape=None)
add('many_points', lambda c, k: c.real('x', (k, 3)), lambda x: POINTS[0].transform_points(x), shape=None, defined=False)
POINTS = [T3(torch.tensor([[[0., -1, 0, 4], [1, 0, 0, 5], [0, 0, 1, 6], [0, 0, 0, 1]]], dtype=D64))]
add('translate_rotate_scale', lambda c, k: (c.real('x', (k, 3)), c.rotation('R', (k,)), c.real('s', (k, 3), lo=0.1, hi=4)),
    lambda x, R, s: (tf.Translate(x, dtype=D64).get_matrix(), tf.Rotate(R, dtype=D64).get_matrix(),
                     tf.Scale(s[:, 0], s[:, 1], s[:, 2], dtype=D64).get_matrix()), shape=None)
add('transform_from_parts', lambda c, k: (c.real('x', (k, 3)), c.unit('q', (k,))),
    lambda x, q: pk.Transform3d(pos=x, rot=q, dtype=D64).get_matrix(), shape=None)
add('rotate_axis_angle', lambda c, k: c.real('a', (k,)), lambda a: tf.RotateAxisAngle(a, 'Y', dtype=D64).get_matrix(), shape=None)


# ---- robots
def on_robot(spec, f, serial=None, limits=None):
    """f(robot, inputs...) with the geometry of the robot arbitrary too"""
    def make(c, k):
        r = Robot(c, spec, limits=limits)
        n = len(r.joints()) if serial is None else len([x for x in r.ancestors(serial) if r.type[x] != 'fixed'])
        make.chain = pk.SerialChain(r.chain(), serial, dtype=D64) if serial else r.chain()
        return c.real('th', (k, n))

    def call(th):
        return f(make.chain, th)
    return make, call


SMALL = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 1, 0), ('l2', 'l1', 'prismatic', 0, 0),
         ('l3', 'base', 'revolute', 0, 1)]
ARM = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 1, 0), ('l2', 'l1', 'prismatic', 0, 0),
       ('l3', 'l2', 'revolute', 1, 0)]


def fk(ch, th):
    T = ch.forward_kinematics(th)
    return [T[n].get_matrix() for n in ch.get_frame_names(exclude_fixed=False)]


def fk_dict(ch, th):
    T = ch.forward_kinematics({n: th[:, i] for i, n in enumerate(ch.get_joint_parameter_names())})
    return [T[n].get_matrix() for n in ch.get_frame_names(exclude_fixed=False)]


def fk_gradient(ch, th):
    x = th.clone().requires_grad_(True)
    T = ch.forward_kinematics(x)
    (g,) = torch.autograd.grad(sum(T[n].get_matrix()[:, :3].sum() for n in T), x)
    return g


def fk_gradient_plain(ch, th):
    x = th.clone().requires_grad_(True)
    (g,) = torch.autograd.grad(ch.forward_kinematics_tensor(x, analytical_grad=False)[:, :, :3].sum(), x)
    return g


def jacobian(ch, th):
    J, m = ch.jacobian(th, ret_eef_pose=True)
    return J, m


def tool(ch, th):
    return ch.jacobian(th, locations=th[:, :3] * 2 + 1)


def clamp(ch, th):
    return ch.clamp(th)


add('forward_kinematics', *on_robot(SMALL, fk), shape=None)
add('forward_kinematics_dict', *on_robot(SMALL, fk_dict), shape=None)
add('forward_kinematics_serial', *on_robot(ARM, lambda ch, th: ch.forward_kinematics(th).get_matrix(), 'l3'), shape=None)
add('gradient', *on_robot(SMALL, fk_gradient), shape=None)
add('gradient_plain', *on_robot(SMALL, fk_gradient_plain), shape=None)
add('jacobian', *on_robot(ARM, jacobian, 'l3'), shape=None)
add('jacobian_tool', *on_robot(ARM, tool, 'l3'), shape=None)
add('clamp', *on_robot(SMALL, clamp, limits={'l1': (-1., 2.), 'l3': (0.5, 0.75)}), shape=None)


# ---- inverse kinematics: rows are attempts of a problem
def ik_step(kernel, damping, weight):
    def f(R, p, J, tp, tq):
        n = R.shape[0]
        dq, dx = kernel(make44(R, p), tp, tq, J, 0.25 * torch.eye(6, dtype=D64), 1, damping,
                        torch.tensor([1., 2, 3, 4, 5, 6], dtype=D64) if weight else None)
        return dq, dx
    return f


def ik_inputs(c, k):
    return (c.rotation('R', (k,)), c.real('p', (k, 3)), c.real('J', (k, 6, 2)), c.real('tp', (k, 3)), c.unit('tq', (k,)))


def attempts(N, M):
    """N problems with M attempts each, among two different problems and three different attempts"""
    def body(c):
        R, p, J = c.rotation('R', (3,)), c.real('p', (3, 3)), c.real('J', (3, 6, 2))
        tp, tq = c.real('tp', (2, 3)), c.unit('tq', (2,))
        reg = 0.25 * torch.eye(6, dtype=D64)
        alone = [[K._ik_step_kernel(make44(R[a:a + 1], p[a:a + 1]), tp[b:b + 1], tq[b:b + 1], J[a:a + 1], reg, 1) for a in range(3)]
                 for b in range(2)]
        ib, ia = order(N, 2), order(N * M, 3)
        m = make44(rows(R, ia), rows(p, ia))
        dq, dx = K._ik_step_kernel(m, rows(tp, ib), rows(tq, ib), rows(J, ia), reg, M)
        full = K.delta_pose(m.reshape(N, M, 4, 4), rows(tp, ib), rows(tq, ib))[0]
        for r, g in ((0, dq), (1, dx), (1, full)):
            c.true('one result for each attempt', g.shape[0] == N * M)
            c.eq('each attempt as it is alone', g, torch.cat([alone[ib[i // M]][a][r] for i, a in enumerate(ia)]))
    return body


SUITE.add('ik_attempts', attempts(13, 10), defined=False)
SUITE.add('ik_attempts_huge', attempts(53, 20), defined=False, tier='thorough')
add('ik_step', ik_inputs, ik_step(K._ik_step_kernel, 0., False), shape=None, defined=False, n=130)
add('ik_step_damped', ik_inputs, ik_step(K._ik_step_kernel, 0.5, True), shape=None, defined=False, n=130)
