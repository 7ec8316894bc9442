import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from pytorch_kinematics.transforms import rotation_conversions as RC, math as PM, so3
from pytorch_kinematics.jacobian import calc_jacobian
from pytorch_kinematics.transforms.perturbation import sample_perturbations
from symtorch.driver import Suite
from symtorch.h import *
from .kin import Robot, TREE, SERIAL, PRIS

SUITE = Suite('C25', ['chain.Chain.forward_kinematics', 'chain.Chain.forward_kinematics_tensor', 'chain._fk_impl',
                      'chain.Chain.ensure_tensor', 'chain.Chain.clamp', 'chain.SerialChain.__init__', 'chain.SerialChain.jacobian',
                      'chain.SerialChain.jacobian_tensor', 'chain.SerialChain.forward_kinematics', 'jacobian.calc_jacobian',
                      'ik.PseudoInverseIK.solve', 'ik.BacktrackingLineSearch.do_line_search', 'ik.delta_pose',
                      'transforms.rotation_conversions (all public functions)', 'transforms.math', 'transforms.so3',
                      'transforms.perturbation.sample_perturbations', 'transforms.transform3d.Transform3d (all queries)'],
    'All joint values, robots of the studied shapes with arbitrary geometry, every ordered pair of the robot queries listed '
    '(the first repeated after the second); all arguments of every conversion and transform function, each called twice; '
    'batches of 1 and 2. Single calls of inverse kinematics with one iteration.')


def snap(x, out=None):
    """copies of all tensors in a value, in a fixed order"""
    out = [] if out is None else out
    if torch.is_tensor(x):
        out.append(x.clone())
    elif isinstance(x, pk.Transform3d):
        out.append(x.get_matrix().clone())
    elif isinstance(x, dict):
        for k in x:
            snap(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            snap(y, out)
    elif isinstance(x, K.IKSolution):
        snap([x.solutions, x.err_pos, x.err_rot, x.converged, x.converged_any], out)
    elif isinstance(x, np.ndarray):
        out.append(torch.as_tensor(x).clone())
    elif x is not None and not isinstance(x, (str, int, float, bool, set)) and hasattr(x, 'detach'):
        out.append(x.clone())
    return out


def same(c, name, a, b):
    c.true(name + ': as many values', len(a) == len(b))
    for x, y in zip(a, b):
        if tuple(x.shape) != tuple(y.shape) or x.dtype != y.dtype:
            c.true(name + ': shape and type', False)
        c.eq(name, x, y)


def robot_data(chain):
    out = []
    for n in chain.get_frame_names(exclude_fixed=False):
        f = chain.find_frame(n)
        snap([f.joint.axis, f.joint.offset, f.link.offset], out)
        if f.joint.limits is not None:
            snap([torch.stack([torch.as_tensor(v) for v in f.joint.limits])], out)
    snap([chain.low, chain.high], out)
    return out


def robot_queries(c, spec, end, N=1):
    lims = {n: (-0.5, 0.25) for n, _, t, _, _ in spec if t == 'revolute'}
    r = Robot(c, spec, D64, limits=lims)
    chain = r.chain()
    names = chain.get_joint_parameter_names()
    q = c.real('q', (N, len(names)))
    d = {n: q[0, i].clone() for i, n in enumerate(names)}
    serial = pk.SerialChain(chain, end, dtype=D64)
    sn = serial.get_joint_parameter_names()
    qs = c.real('qs', (N, len(sn)))
    ql = [qs[0, i].clone() for i in range(len(sn))]
    loc = c.real('loc', (N, 3))
    tool = pk.Transform3d(matrix=c.pose('tool'))
    idx = chain.get_frame_indices(end, spec[0][0])
    q3, qs3 = c.real('q3', (3, len(names))), c.real('qs3', (3, len(sn)))
    other = Robot(c, [('x' + n, p and 'x' + p, t, a, b) for n, p, t, a, b in spec], D64).chain()
    oserial = pk.SerialChain(other, 'x' + end, dtype=D64)
    args = dict(q3=q3, qs3=qs3, q=q, d=d, qs=qs, ql=ql, loc=loc, tool=tool, idx=idx)
    Q = {
        'fk': lambda: chain.forward_kinematics(q),
        'fk_more': lambda: chain.forward_kinematics(q3),
        'jacobian_more': lambda: serial.jacobian(qs3),
        'fk_other': lambda: other.forward_kinematics(q),
        'jacobian_other': lambda: oserial.jacobian(qs),
        'fk_dict': lambda: chain.forward_kinematics(d),
        'fk_some': lambda: chain.forward_kinematics(q, frame_indices=idx),
        'fk_tensor': lambda: chain.forward_kinematics_tensor(q),
        'fk_end': lambda: serial.forward_kinematics(qs),
        'fk_list': lambda: serial.forward_kinematics(ql),
        'fk_all': lambda: serial.forward_kinematics(qs, end_only=False),
        'clamp': lambda: chain.clamp(q),
        'clamp_dict': lambda: chain.clamp(d),
        'limits': lambda: chain.get_joint_limits(),
        'jacobian': lambda: serial.jacobian(qs),
        'jacobian_at': lambda: serial.jacobian(qs, locations=loc, ret_eef_pose=True),
        'jacobian_tensor': lambda: serial.jacobian_tensor(qs, ret_eef_pose=True),
        'calc_jacobian': lambda: calc_jacobian(serial, qs, tool=tool),
        'extract': lambda: pk.SerialChain(chain, end, dtype=D64).forward_kinematics(qs),
        'print': lambda: (chain.print_tree(do_print=False), None)[1],
        'names': lambda: (chain.get_joint_parameter_names(), chain.get_link_names(), str(chain))[0],
    }
    return chain, serial, args, Q


def pairs(spec, end, first, N=1):
    def body(c):
        chain, serial, args, Q = robot_queries(c, spec, end, N)
        before, data, sdata = snap(args), robot_data(chain), robot_data(serial)
        got = Q[first]()
        ref = snap(got)
        for k in Q:
            other = Q[k]()
            again = Q[first]()
            same(c, 'same answer after ' + k, snap(again), ref)
            same(c, 'earlier answer untouched by ' + k, snap(got), ref)
            same(c, 'arguments untouched by ' + k, snap(args), before)
        same(c, 'robot untouched', robot_data(chain), data)
        same(c, 'extracted robot untouched', robot_data(serial), sdata)
    return body


for _k in ('fk', 'fk_dict', 'fk_some', 'fk_tensor', 'fk_end', 'fk_list', 'fk_all', 'clamp', 'clamp_dict', 'limits', 'jacobian', 'jacobian_at', 'jacobian_tensor',
           'calc_jacobian', 'extract'):
    SUITE.add('pairs_' + _k, pairs(TREE, 'z2', _k), defined=False)
    if _k in ('fk', 'fk_tensor', 'jacobian', 'jacobian_at', 'extract', 'fk_end'):
        SUITE.add('pairs_batch_' + _k, pairs(SERIAL, 'tip', _k, 2), defined=False)


def ik(line=False, **kw):
    """one iteration of the solver on a real robot; the queries before and after agree"""
    def body(c):
        chain, serial, args, Q = robot_queries(c, PRIS, 'tip')
        q0 = c.real('q0', (2, 2))
        lim = c.real('lim', (2, 2))
        tp = c.real('tp', (1, 3))
        home = serial.forward_kinematics(args['qs']).get_matrix()
        target = pk.Transform3d(matrix=make44(home[:, :3, :3], tp))
        s = K.PseudoInverseIK(serial, retry_configs=q0, joint_limits=lim, max_iterations=1, num_limit_refinement_iterations=0,
                              line_search=K.BacktrackingLineSearch(max_iterations=1) if line else None, **kw)
        before = snap([args, q0, lim, target])
        data, ref = robot_data(serial), snap(Q['fk_end']())
        sol = s.solve(target)
        same(c, 'arguments untouched', snap([args, q0, lim, target]), before)
        same(c, 'robot untouched', robot_data(serial), data)
        same(c, 'same pose afterwards', snap(Q['fk_end']()), ref)
        kept = snap(sol)
        Q['jacobian']()
        same(c, 'answer untouched', snap(sol), kept)
    return body


SUITE.add('ik', ik(enforce_joint_limits=False), defined=False)
SUITE.add('ik_limits', ik(), defined=False)
SUITE.add('ik_clamped', ik(clamp_to_limits=True), defined=False)


def twice(make, B):
    def body(c):
        fn, args = make(c, B)
        before = snap(args)
        a = fn(*args)
        ref = snap(a)
        same(c, 'arguments untouched', snap(args), before)
        b = fn(*args)
        same(c, 'same answer again', snap(b), ref)
        same(c, 'first answer untouched', snap(a), ref)
    return body


def unit(c, B, n='u', dim=4):
    return c.unit(n, (B,), dim=dim)


def rot(c, B, n='r'):
    return quat_to_mat(c, unit(c, B, n))


def pose(c, B, n='T'):
    return make44(rot(c, B, n + 'r'), c.real(n + 'p', (B, 3)))


FUNCS = {
    'xyzw_to_wxyz': lambda c, B: (RC.xyzw_to_wxyz, [unit(c, B)]),
    'wxyz_to_xyzw': lambda c, B: (RC.wxyz_to_xyzw, [unit(c, B)]),
    'quaternion_to_matrix': lambda c, B: (RC.quaternion_to_matrix, [unit(c, B)]),
    'matrix_to_quaternion': lambda c, B: (RC.matrix_to_quaternion, [rot(c, B)]),
    'euler_angles_to_matrix': lambda c, B: (lambda x: RC.euler_angles_to_matrix(x, 'XYZ'), [c.real('x', (B, 3))]),
    'matrix_to_euler_angles': lambda c, B: (lambda x: RC.matrix_to_euler_angles(x, 'ZYX'), [rot(c, B)]),
    'standardize_quaternion': lambda c, B: (RC.standardize_quaternion, [unit(c, B)]),
    'quaternion_raw_multiply': lambda c, B: (RC.quaternion_raw_multiply, [unit(c, B), unit(c, B, 'v')]),
    'quaternion_multiply': lambda c, B: (RC.quaternion_multiply, [unit(c, B), unit(c, B, 'v')]),
    'quaternion_invert': lambda c, B: (RC.quaternion_invert, [unit(c, B)]),
    'quaternion_apply': lambda c, B: (RC.quaternion_apply, [unit(c, B), c.real('x', (B, 3))]),
    'axis_and_d_to_pris_matrix': lambda c, B: (RC.axis_and_d_to_pris_matrix, [unit(c, B, dim=3), c.real('x', (B,))]),
    'axis_and_angle_to_matrix_44': lambda c, B: (RC.axis_and_angle_to_matrix_44, [unit(c, B, dim=3), c.real('x', (B,))]),
    'axis_and_angle_to_matrix_33': lambda c, B: (RC.axis_and_angle_to_matrix_33, [unit(c, B, dim=3), c.real('x', (B,))]),
    'axis_angle_to_matrix': lambda c, B: (RC.axis_angle_to_matrix, [c.real('x', (B, 3))]),
    'matrix_to_axis_angle': lambda c, B: (RC.matrix_to_axis_angle, [rot(c, B)]),
    'axis_angle_to_quaternion': lambda c, B: (RC.axis_angle_to_quaternion, [c.real('x', (B, 3))]),
    'quaternion_to_axis_angle': lambda c, B: (RC.quaternion_to_axis_angle, [unit(c, B)]),
    'rotation_6d_to_matrix': lambda c, B: (RC.rotation_6d_to_matrix, [c.real('x', (B, 6))]),
    'matrix_to_rotation_6d': lambda c, B: (RC.matrix_to_rotation_6d, [rot(c, B)]),
    'matrix44_to_se3_9d': lambda c, B: (RC.matrix44_to_se3_9d, [pose(c, B)]),
    'se3_9d_to_matrix44': lambda c, B: (RC.se3_9d_to_matrix44, [c.real('x', (B, 9))]),
    'matrix_to_pos_rot': lambda c, B: (RC.matrix_to_pos_rot, [pose(c, B)]),
    'pos_rot_to_matrix': lambda c, B: (RC.pos_rot_to_matrix, [c.real('x', (B, 3)), unit(c, B)]),
    'quaternion_angular_distance': lambda c, B: (PM.quaternion_angular_distance, [unit(c, B), unit(c, B, 'v')]),
    'quaternion_close': lambda c, B: (PM.quaternion_close, [unit(c, B), unit(c, B, 'v')]),
    'quaternion_slerp': lambda c, B: (PM.quaternion_slerp, [unit(c, B), unit(c, B, 'v'), c.real('x', (B, 1), lo=0, hi=1)]),
    'acos_linear_extrapolation': lambda c, B: (PM.acos_linear_extrapolation, [c.real('x', (B,))]),
    'so3_relative_angle': lambda c, B: (so3.so3_relative_angle, [rot(c, B), rot(c, B, 's')]),
    'so3_rotation_angle': lambda c, B: (so3.so3_rotation_angle, [rot(c, B)]),
    'so3_exp_map': lambda c, B: (so3.so3_exp_map, [c.real('x', (B, 3))]),
    'so3_log_map': lambda c, B: (so3.so3_log_map, [rot(c, B)]),
    'hat': lambda c, B: (so3.hat, [c.real('x', (B, 3))]),
    'hat_inv': lambda c, B: (so3.hat_inv, [so3.hat(c.real('x', (B, 3)))]),
    'delta_pose': lambda c, B: (lambda m, p, t: K.delta_pose(m, p, t), [pose(c, B)[:, None], c.real('x', (B, 3)), unit(c, B)]),
    'from_pos_rot': lambda c, B: (lambda p, r: pk.Transform3d(pos=p, rot=r), [c.real('x', (B, 3)), unit(c, B)]),
    'from_parts': lambda c, B: (lambda p, r: pk.Transform3d(pos=p, rot=r), [c.real('x', (B, 3)), rot(c, B)]),
    'from_matrix': lambda c, B: (lambda m: pk.Transform3d(matrix=m), [pose(c, B)]),
    'from_matrix_and_pos': lambda c, B: (lambda m, p: pk.Transform3d(matrix=m, pos=p), [pose(c, B), c.real('x', (B, 3))]),
    'from_matrix_and_rot': lambda c, B: (lambda m, r: pk.Transform3d(matrix=m, rot=r), [pose(c, B), unit(c, B)]),
    'from_euler': lambda c, B: (lambda p, r: pk.Transform3d(pos=p, rot=r), [c.real('x', (3,)), c.real('y', (3,))]),
    'Translate': lambda c, B: (lambda x: pk.Translate(x, dtype=D64), [c.real('x', (B, 3))]),
    'Scale': lambda c, B: (lambda x: pk.Scale(x, dtype=D64), [c.real('x', (B, 3), lo=0.1, hi=3)]),
    'Rotate': lambda c, B: (lambda x: pk.Rotate(x, dtype=D64), [rot(c, B)]),
    'RotateAxisAngle': lambda c, B: (lambda x: pk.RotateAxisAngle(x, axis='Y', dtype=D64), [c.real('x', (B,))]),
}
TF = {
    'compose': lambda t, u, x: t.compose(u),
    'compose_self': lambda t, u, x: t.compose(t, u),
    'get_matrix': lambda t, u, x: t.get_matrix(),
    'inverse': lambda t, u, x: t.inverse(),
    'inverse_composed': lambda t, u, x: t.compose(u).inverse(invert_composed=True),
    'stack': lambda t, u, x: t.stack(u),
    'getitem': lambda t, u, x: t[0],
    'transform_points': lambda t, u, x: t.transform_points(x),
    'transform_normals': lambda t, u, x: t.transform_normals(x),
    'translate': lambda t, u, x: t.translate(x),
    'scale': lambda t, u, x: t.scale(2., 3., 4.),
    'rotate': lambda t, u, x: t.rotate(u.get_matrix()[:, :3, :3]),
    'rotate_axis_angle': lambda t, u, x: t.rotate_axis_angle(30., axis='Z'),
    'clone': lambda t, u, x: t.clone(),
    'to': lambda t, u, x: t.to('cpu', dtype=torch.float32),
    'to_copy': lambda t, u, x: t.to('cpu', copy=True),
    'repr': lambda t, u, x: [None, len(t)][:1],
}
for _k, _f in FUNCS.items():
    SUITE.add('function_' + _k, twice(_f, 1 if _k == 'so3_relative_angle' else 2), defined=False, tier='thorough' if _k == 'so3_relative_angle' else 'quick')
    if _k != 'so3_relative_angle':
        SUITE.add('function_single_' + _k, twice(_f, 1), defined=False, tier='thorough')
for _k, _f in TF.items():
    SUITE.add('transform_' + _k, twice(lambda c, B, f=_f: (f, [pk.Transform3d(matrix=pose(c, B)), pk.Transform3d(matrix=pose(c, B, 'U')),
                                                               c.real('x', (B, 3))]), 2), defined=False)


@SUITE.config('perturbations', defined=False)
def perturbations(c):
    T = pose(c, 1)[0]
    ax, sr, st = c.unit('ax', (), dim=3), c.real('sr', (), lo=0, hi=1), c.real('st', (), lo=0, hi=1)
    before = snap([T, ax, sr, st])
    for kw in ({}, dict(axis_of_rotation=ax), dict(axis_of_rotation=ax, translation_perpendicular_to_axis_of_rotation=False)):
        sample_perturbations(T, 3, sr, st, **kw)
        pk.Transform3d(matrix=T).sample_perturbations(2, sr, st)
        same(c, 'arguments untouched', snap([T, ax, sr, st]), before)
