"""everything is computed on the device of the robot or of the inputs"""
import copy
import math
import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from pytorch_kinematics.transforms import Transform3d, Translate, Rotate, Scale, RotateAxisAngle
from pytorch_kinematics.transforms import rotation_conversions as rc, so3, math as tm
from pytorch_kinematics.transforms.perturbation import sample_perturbations
from symtorch.driver import Suite
from symtorch.dev import Device, Dev, LABEL, host
from symtorch.h import *
from .kin import Robot, TREE, SERIAL, MJ, REVS, PRIS, FIXED

F32 = torch.float32
SUITE = Suite('C34', ['chain.Chain.' + f for f in ('__init__', 'to', 'forward_kinematics', 'forward_kinematics_tensor', 'ensure_tensor',
                                                  'clamp', 'get_frame_indices')]
              + ['chain.SerialChain.' + f for f in ('__init__', 'to', 'jacobian', 'jacobian_tensor', 'forward_kinematics')]
              + ['chain._fk_impl', 'chain._FKAnalyticalBackward', 'frame.Frame.to', 'frame.Joint.to', 'frame.Link.to',
                 'ik.InverseKinematics.__init__', 'ik.InverseKinematics.sample_configs', 'ik.IKSolution.__init__',
                 'ik.IKSolution.update', 'ik.PseudoInverseIK.__init__', 'ik.PseudoInverseIK.solve', 'ik.PseudoInverseIK._enforce_limits',
                 'ik._ik_step_kernel', 'ik._ik_step_kernel_svd', 'ik.delta_pose', 'ik.BacktrackingLineSearch.do_line_search',
                 'transforms.transform3d.Transform3d', 'transforms.transform3d.Translate', 'transforms.transform3d.Rotate',
                 'transforms.transform3d.Scale', 'transforms.transform3d.RotateAxisAngle', 'transforms.rotation_conversions',
                 'transforms.so3', 'transforms.math', 'transforms.perturbation.sample_perturbations'],
    'All joint values, geometry, rotations, points and targets of the stated shapes, on a second device that is simulated: '
    'tensors on it are labelled wrappers around the values, every operator checks the rules by which PyTorch refuses mixed '
    'devices (tensors without dimensions on the host may be combined with tensors on the device; indices may stay on the '
    'host) and everything made without naming a device is made on the host. The answers are compared with those on the host.',
    assumptions=['the rules about mixed devices are those of symtorch/dev.py'])


def same(c, name, got, want):
    """on the device, and what the host answers"""
    if isinstance(got, Transform3d):
        c.true(name + ': its device', torch.device(got.device).type == LABEL)
        got = got.get_matrix()
    want = want.get_matrix() if isinstance(want, Transform3d) else want
    if isinstance(got, (tuple, list)):
        for i, (a, b) in enumerate(zip(got, want)):
            same(c, '%s[%d]' % (name, i), a, b)
        return
    c.true(name + ': on the device', isinstance(got, Dev))
    c.true(name + ': dtype', got.dtype == want.dtype)
    c.eq(name, host(got), host(want))


def both(c, name, f, *args):
    """f on the host and on the device"""
    want = f(*[copy.deepcopy(a) if isinstance(a, Transform3d) else a.clone() if torch.is_tensor(a) else a for a in args])
    with Device():
        got = f(*[a.to(LABEL) if isinstance(a, (torch.Tensor, Transform3d)) else a for a in args])
        same(c, name, got, want)


def limits(spec):
    return {n: (-1., 2.) for n, _, jt, *_ in spec if jt != 'fixed'}


MOVES = {'moved': lambda r: r.chain().to(device=LABEL),
         'moved_narrow': lambda r: r.chain().to(device=LABEL, dtype=F32),
         'moved_twice': lambda r: r.chain().to(device=LABEL).to(device=LABEL),
         'made': lambda r: pk.Chain(r.frames[r.root].to(device=LABEL), dtype=D64, device=LABEL),
         'copied': lambda r: copy.deepcopy(r.chain().to(device=LABEL))}


def robots(spec, how, kinds):
    def body(c):
        r = Robot(c, spec, limits=limits(spec))
        n = len(r.joints())
        th = c.real('th', (2, n))
        ch = r.chain()
        dt = F32 if 'narrow' in how else D64
        want = {k: v.get_matrix() for k, v in ch.forward_kinematics(th.to(dt).to(D64)).items()}
        clamped = ch.clamp(th.to(dt).to(D64))
        one = {k: v.get_matrix() for k, v in ch.forward_kinematics([.5] * n).items()}
        names = ['j_' + x for x in r.joints()]
        moved = {}
        with Device():
            ch = MOVES[how](r)
            t = th.to(LABEL, dt)
            forms = {'tensor': t, 'row': t, 'names': {k: t[:, i] for i, k in enumerate(names)},
                     'names on the host': {k: th[:, i] for i, k in enumerate(names)}}
            numbers = {'list': [.5] * n, 'array': np.full(n, .5), 'named numbers': {k: .5 for k in names}}
            for kind in kinds:
                if kind in forms and (n or 'names' not in kind):
                    for k, v in ch.forward_kinematics(forms[kind]).items():
                        moved[kind + ', ' + k] = v, want[k]
                elif kind in numbers and n:
                    for k, v in ch.forward_kinematics(numbers[kind]).items():
                        moved[kind + ', ' + k] = v, one[k]
            moved['clamped'] = ch.clamp(t), clamped
            if n:
                moved['list as tensor'] = ch.ensure_tensor([.5] * n), torch.full((n,), .5, dtype=D64)
            some = list(want)[-2:]
            c.true('indices', [int(i) for i in ch.get_frame_indices(*some)] == [ch.frame_to_idx[s] for s in some])
            some = ch.forward_kinematics(t, frame_indices=ch.get_frame_indices(*some))
            for k, v in some.items():
                moved['asked for, ' + k] = v, want[k]
            low, high = ch.low, ch.high
            c.true('limits on the device', isinstance(low, Dev) and isinstance(high, Dev))
            for f in ch.get_frame_names(exclude_fixed=False):
                f = ch.find_frame(f)
                c.true('axis on the device', isinstance(f.joint.axis, Dev))
                for o in (f.joint.offset, f.link.offset):
                    c.true('offset on the device', o is None or isinstance(o.get_matrix(), Dev))
        for k, (a, b) in moved.items():
            same(c, k, a, b.to(dt) if torch.is_tensor(b) else b)
    return body


for _n, _s in (('tree', TREE), ('mujoco_style', MJ), ('serial', SERIAL), ('prismatic', PRIS), ('revolute', REVS), ('fixed', FIXED)):
    for _h in MOVES:
        if _h in ('moved', 'made') or _n in ('tree', 'serial'):
            SUITE.add('robot_%s_%s' % (_n, _h), robots(_s, _h, ('tensor', 'names', 'list', 'array', 'named numbers', 'names on the host')
                                                     if _n == 'tree' else ('tensor', 'list')), tol=2e-4 if 'narrow' in _h else 0)


def back(c):
    """to the device and back to the host"""
    r = Robot(c, TREE, limits=limits(TREE))
    th = c.real('th', (2, 5 if False else len(r.joints())))
    want = {k: v.get_matrix() for k, v in r.chain().forward_kinematics(th).items()}
    with Device():
        ch = r.chain().to(device=LABEL).to(device='cpu')
        got = ch.forward_kinematics(th)
        for k, v in got.items():
            c.true('on the host', not isinstance(v.get_matrix(), Dev))
            c.eq(k, v.get_matrix(), want[k])
        c.eq('clamp', ch.clamp(th), r.chain().clamp(th))


SUITE.add('robot_back', back)
SERIALS = {'moved': lambda r: pk.SerialChain(r.chain(), 'tip').to(device=LABEL),
           'extracted': lambda r: pk.SerialChain(r.chain().to(device=LABEL), 'tip'),
           'extracted_part': lambda r: pk.SerialChain(r.chain().to(device=LABEL), 'tip', 'l1'),
           'copied': lambda r: copy.deepcopy(pk.SerialChain(r.chain(), 'tip').to(device=LABEL))}


def serial(spec, how):
    def body(c):
        r = Robot(c, spec, limits=limits(spec))
        sc = pk.SerialChain(r.chain(), 'tip', *(['l1'] if 'part' in how else []))
        n = sc.n_joints
        th, p = c.real('th', (2, n)), c.real('p', (2, 3))
        up = c.real('G', (2, 4, 4))

        def ask(sc, th, p, up):
            out = {'end': sc.forward_kinematics(th).get_matrix(), 'clamp': sc.clamp(th)}
            for k, v in sc.forward_kinematics(th, end_only=False).items():
                out['frame ' + k] = v
            out['J'] = sc.jacobian(th)
            out['J and pose'] = sc.jacobian(th, ret_eef_pose=True)
            out['J of a tool'] = sc.jacobian(th, locations=p, ret_eef_pose=True)
            out['J of a transform'] = sc.jacobian(th, locations=Transform3d(pos=p, device=p.device, dtype=D64))
            out['J of a list'] = sc.jacobian([.5] * n)
            for a in (True, False):
                t = th.clone().requires_grad_(True)
                T = sc.forward_kinematics_tensor(t, analytical_grad=a)[-1]
                (out['gradient, ' + ('analytical' if a else 'ordinary')],) = torch.autograd.grad((T * up).sum(), t)
            return out
        want = ask(sc, th, p, up)
        want['J, tool on the host'] = sc.jacobian(th, locations=p)
        with Device():
            sd = SERIALS[how](r)
            t = th.to(LABEL)
            got = ask(sd, t, p.to(LABEL), up.to(LABEL))
            got['J, tool on the host'] = sd.jacobian(t, locations=p)
        for k in want:
            same(c, k, got[k], want[k])
    return body


for _n, _s in (('mixed', SERIAL), ('revolute', REVS), ('prismatic', PRIS)):
    for _h in SERIALS:
        if _n == 'mixed' or _h in ('moved', 'extracted'):
            SUITE.add('serial_%s_%s' % (_n, _h), serial(_s, _h))


@SUITE.config()
def building(c):
    """transforms made on the device from numbers, lists and tensors"""
    T = c.pose('T', (2,))
    q, p, a = c.unit('q', (2,)), c.real('p', (2, 3)), c.real('a', (3,))
    R, pts = c.rotation('R', (2,)), c.real('x', (1, 2, 3))
    th, s = c.real('th', (2,)), c.real('s', (3,), lo=.25, hi=4)
    kw = dict(dtype=D64)
    for name, f, args in (
            ('matrix', lambda x: Transform3d(matrix=x), [T]),
            ('position', lambda x: Transform3d(pos=x, device=x.device, **kw), [p]),
            ('quaternion', lambda x: Transform3d(rot=x, device=x.device, **kw), [q]),
            ('angles', lambda x: Transform3d(rot=x, device=x.device, **kw), [a]),
            ('rotation and position', lambda x, y: Transform3d(rot=x, pos=y, device=x.device, **kw), [R, p]),
            ('matrix and lists', lambda x: Transform3d(matrix=x, rot=[1., 0, 0, 0], pos=[1., 2, 3]), [T]),
            ('lists', lambda x: Transform3d(rot=[.5, .5, .5, .5], pos=[1., 2, 3], device=x.device, **kw), [p]),
            ('default', lambda x: Transform3d(default_batch_size=3, device=x.device, **kw), [p]),
            ('translation', lambda x: Translate(x, device=x.device, **kw), [p]),
            ('translation by numbers', lambda x: Translate(1., 2., 3., device=x.device, **kw), [p]),
            ('translation by columns', lambda x: Translate(x[:, 0], x[:, 1], 2., device=x.device, **kw), [p]),
            ('scaling', lambda x: Scale(x[0], x[1], x[2], device=x.device, **kw), [s]),
            ('scaling by a number', lambda x: Scale(2., device=x.device, **kw), [s]),
            ('rotation', lambda x: Rotate(x, device=x.device, **kw), [R]),
            ('rotation, quaternion', lambda x: Rotate(x, device=x.device, **kw), [q]),
            ('rotation, angles', lambda x: Rotate(x, device=x.device, **kw), [a]),
            ('rotation, list', lambda x: Rotate([1., 0, 0, 0], device=x.device, **kw), [a]),
            ('rotation, from the host', lambda x: Rotate(R, device=x.device, **kw), [a]),
            ('about an axis', lambda x: RotateAxisAngle(x, 'Y', device=x.device, **kw), [th]),
            ('about an axis, number', lambda x: RotateAxisAngle(30., 'Z', device=x.device, **kw), [th])):
        both(c, name, f, *args)
        both(c, name + ', inverse', lambda *x: f(*x).inverse(), *args)
        both(c, name + ', of points', lambda y, *x: f(*x).transform_points(y), pts, *args)


@SUITE.config()
def transforms(c):
    T, U, p = Transform3d(matrix=c.pose('T', (2,))), Transform3d(matrix=c.pose('U', (1,))), c.real('p', (2, 3))
    a = c.real('a')
    for name, f, args in (
            ('compose', lambda x, y: x.compose(y), [T, U]), ('compose many', lambda x, y: y.compose(x, y, x), [T, U]),
            ('inverse', lambda x: x.inverse(), [T]), ('stack', lambda x, y: x.stack(y, x), [T, U]),
            ('clone', lambda x: x.clone(), [T]), ('one', lambda x: x[1], [T]), ('some', lambda x: x[:1], [T]),
            ('points', lambda x, p: x.transform_points(p), [T, p]), ('points of one', lambda x, p: x.transform_points(p), [U, p]),
            ('points, guarded', lambda x, p: x.transform_points(p, eps=1e-3), [T, p]),
            ('each its points', lambda x, p: x.transform_points(p, batch_to_batch=True), [T, p]),
            ('normals', lambda x, p: x.transform_normals(p), [T, p]),
            ('shape operators', lambda x, p: x.transform_shape_operator(p), [U, c.real('S', (2, 3, 3))]),
            ('translate', lambda x: x.translate(1., 2., 3.), [T]), ('translate by', lambda x, p: x.translate(p), [T, p]),
            ('scale', lambda x: x.scale(2.), [T]), ('rotate', lambda x, y: x.rotate(y.get_matrix()[:, :3, :3]), [T, U]),
            ('rotate_axis_angle', lambda x: x.rotate_axis_angle(30., 'X'), [T]),
            ('rotate_axis_angle by', lambda x, y: x.rotate_axis_angle(y, axis='X'), [T, a]),
            ('to float', lambda x: x.to(x.device, dtype=F32).to(x.device, dtype=D64), [U])):
        both(c, name, f, *args)
    with Device():
        for X in (T, Translate(p, dtype=D64), Rotate(c.unit('q', (2,)), dtype=D64), Scale(p, dtype=D64)):
            Y = X.to(LABEL)
            same(c, 'moved', Y, X)
            same(c, 'moved, inverse', Y.inverse() if type(X) is not Scale else Y, X.inverse() if type(X) is not Scale else X)
            c.true('the original stays', not isinstance(X.get_matrix(), Dev))
            Z = Y.to('cpu')
            c.true('back', not isinstance(Z.get_matrix(), Dev) and torch.device(Z.device).type == 'cpu')
            c.eq('back', Z.get_matrix(), X.get_matrix())
            c.true('cpu()', not isinstance(Y.cpu().get_matrix(), Dev))


def turn(c):
    return axis_rot('X', c.real('a', (1,), lo=-3, hi=3))


FUNCTIONS = {
    'xyzw_to_wxyz': (rc.xyzw_to_wxyz, lambda c: [c.unit('q', (2,))]),
    'wxyz_to_xyzw': (rc.wxyz_to_xyzw, lambda c: [c.unit('q', (2,))]),
    'quaternion_to_matrix': (rc.quaternion_to_matrix, lambda c: [c.unit('q', (2,))]),
    'matrix_to_quaternion': (rc.matrix_to_quaternion, lambda c: [c.rotation('R', (1,))]),
    'standardize_quaternion': (rc.standardize_quaternion, lambda c: [c.unit('q', (2,))]),
    'quaternion_raw_multiply': (rc.quaternion_raw_multiply, lambda c: [c.unit('q', (2,)), c.unit('p', (2,))]),
    'quaternion_multiply': (rc.quaternion_multiply, lambda c: [c.unit('q', (2,)), c.unit('p', (2,))]),
    'quaternion_invert': (rc.quaternion_invert, lambda c: [c.unit('q', (2,))]),
    'quaternion_apply': (rc.quaternion_apply, lambda c: [c.unit('q', (2,)), c.real('v', (2, 3))]),
    'axis_and_angle_to_matrix_33': (rc.axis_and_angle_to_matrix_33, lambda c: [c.unit('k', (2,), dim=3), c.real('t', (2,))]),
    'axis_and_angle_to_matrix_44': (rc.axis_and_angle_to_matrix_44, lambda c: [c.unit('k', (2,), dim=3), c.real('t', (2,))]),
    'axis_and_d_to_pris_matrix': (rc.axis_and_d_to_pris_matrix, lambda c: [c.unit('k', (2,), dim=3), c.real('t', (2,))]),
    'axis_angle_to_matrix': (rc.axis_angle_to_matrix, lambda c: [c.real('v', (2, 3))]),
    'axis_angle_to_quaternion': (rc.axis_angle_to_quaternion, lambda c: [c.real('v', (2, 3))]),
    'quaternion_to_axis_angle': (rc.quaternion_to_axis_angle, lambda c: [c.unit('q', (2,))]),
    'matrix_to_axis_angle': (rc.matrix_to_axis_angle, lambda c: [c.rotation('R', (1,))]),
    'rotation_6d_to_matrix': (rc.rotation_6d_to_matrix, lambda c: [c.real('v', (2, 6))]),
    'matrix_to_rotation_6d': (rc.matrix_to_rotation_6d, lambda c: [c.rotation('R', (2,))]),
    'matrix44_to_se3_9d': (rc.matrix44_to_se3_9d, lambda c: [c.pose('T', (2,))]),
    'se3_9d_to_matrix44': (rc.se3_9d_to_matrix44, lambda c: [c.real('v', (2, 9))]),
    'matrix_to_pos_rot': (rc.matrix_to_pos_rot, lambda c: [c.pose('T', (1,))]),
    'pos_rot_to_matrix': (rc.pos_rot_to_matrix, lambda c: [c.real('p', (2, 3)), c.unit('q', (2,))]),
    'quaternion_from_euler': (rc.quaternion_from_euler, lambda c: [c.real('v', (2, 3))]),
    'so3_relative_angle': (so3.so3_relative_angle, lambda c: [axis_rot('X', c.real('a', (1,))), axis_rot('X', c.real('b', (1,)))]),
    'so3_rotation_angle': (so3.so3_rotation_angle, lambda c: [turn(c)]),
    'so3_exp_map': (so3.so3_exp_map, lambda c: [c.real('v', (1, 3))]),
    'so3_log_map': (so3.so3_log_map, lambda c: [turn(c)]),
    'hat': (so3.hat, lambda c: [c.real('v', (2, 3))]),
    'hat_inv': (so3.hat_inv, lambda c: [skew(c.real('v', (2, 3)))]),
    'quaternion_angular_distance': (tm.quaternion_angular_distance, lambda c: [c.unit('q', (2,)), c.unit('p', (2,))]),
    'quaternion_slerp': (tm.quaternion_slerp, lambda c: [c.unit('q', (1,)), c.unit('p', (1,)), .25]),
    'quaternion_slerp_tensor': (tm.quaternion_slerp, lambda c: [c.unit('q', (1,)), c.unit('p', (1,)), c.real('t', (1,), lo=0, hi=1)]),
    'acos_linear_extrapolation': (tm.acos_linear_extrapolation, lambda c: [c.real('x', (1,))]),
}
for _c in ('XYZ', 'ZYX', 'ZXZ'):
    FUNCTIONS['euler_angles_to_matrix_' + _c] = (lambda x, k=_c: rc.euler_angles_to_matrix(x, k), lambda c: [c.real('v', (2, 3))])
    FUNCTIONS['matrix_to_euler_angles_' + _c] = (lambda x, k=_c: rc.matrix_to_euler_angles(x, k), lambda c: [c.rotation('R', (2,))])


def function(name):
    def body(c):
        f, args = FUNCTIONS[name]
        both(c, name, f, *args(c))
    return body


for _n in FUNCTIONS:
    SUITE.add(_n, function(_n), defined=False)


@SUITE.config(defined=False)
def close(c):
    with Device():
        q, p = c.unit('q', (1,)), c.unit('p', (1,))
        c.true('quaternion_close', bool(tm.quaternion_close(q.to(LABEL), p.to(LABEL))) == bool(tm.quaternion_close(q, p)))


@SUITE.config(defined=False)
def drawing(c):
    T, k = c.pose('T', (1,)), c.unit('k', (), dim=3)
    with Device():
        for name, f in (('random_quaternions', lambda: rc.random_quaternions(2, D64, LABEL)),
                        ('random_rotations', lambda: rc.random_rotations(2, D64, LABEL)),
                        ('random_rotation', lambda: rc.random_rotation(D64, LABEL)),
                        ('perturbations', lambda: sample_perturbations(T.to(LABEL), 2, 1., 1.)),
                        ('perturbations about an axis', lambda: sample_perturbations(T.to(LABEL), 2, 1., 1., axis_of_rotation=k.to(LABEL))),
                        ('perturbations of a transform',
                         lambda: Transform3d(matrix=T.to(LABEL)).sample_perturbations(2, 1., 1.).get_matrix())):
            x = f()
            c.true(name, isinstance(x, Dev) and x.dtype == D64)


def solver(N, M, cls=K.PseudoInverseIK, steps=1, search=False, sampled=None, limits_=False, at_home=False, **kw):
    """the same poses and Jacobians for the solver on the host and for that on the device"""
    def body(c):
        r = Robot(c, REVS, limits=limits(REVS) if limits_ else None)
        n, poses = 2, []
        q0 = c.real('q', (M, n)) if not sampled else None
        T = c.pose('T', (N,))

        def at(i):
            while len(poses) <= i:
                k = len(poses)
                poses.append((c.real('J%d' % k, (N * M, 6, n)), make44(torch.eye(3, dtype=D64).repeat(N * M, 1, 1), c.real('p%d' % k, (N * M, 3)))))
            return poses[i]

        def solve(sc, T, q0, where):
            seen = []

            def jac(q, ret=False):
                seen.append(q)
                J, m = at(len(seen) - 1)
                return J.to(where), m.to(where)

            def fk(q):
                seen.append(q)
                return {sc._serial_eef_frame_idx: at(len(seen) - 1)[1].to(where)}
            k = dict(kw)
            if sampled:
                k.update(num_retries=M, joint_limits=torch.tensor([[-1., 1.]] * n, dtype=D64, device=where if at_home is False else 'cpu'),
                         config_sampling_method=K.gaussian_around_config(torch.ones(n, dtype=D64, device=where), .5) if sampled == 'around' else sampled)
            else:
                k['retry_configs'] = q0
            if search:
                k['line_search'] = K.BacktrackingLineSearch(max_iterations=2)
            s = cls(sc, max_iterations=steps, early_stopping_any_converged=k.pop('any', False), pos_tolerance=.25, rot_tolerance=.5, **k)
            s._jacobian_fn, s._fk_fn = jac, fk
            if not sampled:
                return s, s.solve(Transform3d(matrix=T)), seen
            return s, None, seen
        s, want, seen = solve(pk.SerialChain(r.chain(), 'tip'), T, q0, 'cpu')
        with Device():
            sd, got, seend = solve(pk.SerialChain(r.chain(), 'tip').to(device=LABEL), T.to(LABEL), None if q0 is None else q0.to(LABEL), LABEL)
            c.true('starts on the device', isinstance(sd.initial_config, Dev))
            if sampled:
                return
            for i, (a, b) in enumerate(zip(seend, seen)):
                same(c, 'configuration %d' % i, a, b)
            for f in ('solutions', 'err_pos', 'err_rot', 'converged', 'converged_any', 'converged_pos', 'converged_rot',
                      'converged_pos_any', 'converged_rot_any', 'remaining'):
                a, b = getattr(got, f), getattr(want, f)
                c.true(f + ' on the device', isinstance(a, Dev))
                c.eq(f, host(a), b)
    return body


SUITE.add('solver', solver(1, 2), defined=False, max_paths=40)
SUITE.add('solver_limits', solver(1, 1, limits_=True, enforce_joint_limits=True, num_limit_refinement_iterations=1), defined=False, max_paths=40)
SUITE.add('solver_search', solver(1, 1, search=True), defined=False, max_paths=40)
SUITE.add('solver_svd', solver(1, 1, cls=K.PseudoInverseIKWithSVD), defined=False, max_paths=40)
SUITE.add('solver_patience', solver(1, 1, steps=2, early_stopping_no_improvement='all', early_stopping_no_improvement_patience=0), defined=False, max_paths=40)
SUITE.add('solver_weights', solver(1, 1, lm_damping=.5), defined=False, max_paths=40)
SUITE.add('solver_uniform', solver(1, 2, sampled='uniform'), defined=False)
SUITE.add('solver_gaussian', solver(1, 2, sampled='gaussian'), defined=False)
SUITE.add('solver_around', solver(1, 2, sampled='around'), defined=False)
SUITE.add('solver_uniform_limits_on_the_host', solver(1, 2, sampled='uniform', at_home=True), defined=False)


@SUITE.config(defined=False)
def solver_search_alone(c):
    """the line search without being told which problems remain"""
    r = Robot(c, REVS)
    q, dq = c.real('q', (2, 2)), c.real('dq', (2, 2))
    m = make44(torch.eye(3, dtype=D64).repeat(2, 1, 1), c.real('p', (2, 3)))
    tp, dx = c.real('tp', (2, 3)), c.real('dx', (2, 6, 1))
    tq = torch.tensor([[1., 0, 0, 0]] * 2, dtype=D64)

    def run(q, dq, m, tp, dx, tq):
        return K.BacktrackingLineSearch(max_iterations=1).do_line_search(None, q, dq, tp, tq, dx, fk_fn=lambda x: {0: m}, eef_frame_idx=0)
    both(c, 'line search', run, q, dq, m, tp, dx, tq)


@SUITE.config()
def robot_joints(c):
    """single joints made on the device, and their own transforms"""
    a, th = c.unit('a', (), dim=3), c.real('th', (2,))
    for kind in ('revolute', 'prismatic', 'fixed'):
        for name, axis in (('none', None), ('default', (0., 0., 1.)), ('list', [0., 3., 4.]), ('on the host', a), ('on the device', 'moved')):
            def make(where):
                ax = a.to(where) if axis == 'moved' else axis
                return pk.frame.Frame('f', joint=pk.frame.Joint('j', joint_type=kind, axis=ax, dtype=D64, device=where))
            want = make('cpu')
            with Device():
                f = make(LABEL)
                same(c, 'axis, ' + name, f.joint.axis, want.joint.axis)
                same(c, '%s about the axis, %s' % (kind, name), f.get_transform(th.to(LABEL)), want.get_transform(th))
