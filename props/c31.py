import copy
import torch
import pytorch_kinematics as pk
from torch.utils._python_dispatch import _disable_current_modes
from pytorch_kinematics import ik as ikm
from pytorch_kinematics.transforms import rotation_conversions as rc
from symtorch.driver import Suite
from symtorch.h import *
from symtorch.tensor import Sym
from symtorch import dag as DAG
from .kin import Robot, SPECS
from .iks import robot, Stub

SUITE = Suite('C31', ['chain.Chain.forward_kinematics_tensor', 'chain._fk_impl', 'chain._FKAnalyticalBackward',
                      'chain.SerialChain.jacobian_tensor', 'chain.SerialChain.jacobian', 'ik._ik_step_kernel',
                      'ik._ik_step_kernel_svd', 'ik.PseudoInverseIK.__init__ (use_compile)', 'ik.PseudoInverseIK.solve',
                      'rotation_conversions used by them'],
              'The graph that torch.compile captures from the current source (TorchDynamo, one graph without breaks) is '
              'executed symbolically and compared with the plain function: all joint values, geometry, upstream '
              'gradients, poses and Jacobians; seven tree shapes, batches of 1 to 4, graphs captured for one batch size '
              'and graphs for any. Whole solves with use_compile (the compiler replaced by a recorder) against plain '
              'ones, all poses. The code generator below the graph (Inductor) is outside the bounds.')


def real_twin(v, memo, table):
    """a real tensor of the same shape for every symbolic one (the same numbers where they are constants)"""
    if isinstance(v, Sym):
        if id(v) not in memo:
            vals = []
            for i in v.ids.reshape(-1).tolist():
                vals.append(float(DAG.cval(i)) if DAG.isconst(i) else 0.25 + len(vals) % 7)
            with _disable_current_modes():
                t = torch.tensor(vals, dtype=torch.float64).reshape(tuple(v.shape)).to(v.dtype)
            if v.requires_grad:
                t.requires_grad_()
            memo[id(v)] = t
            table[id(t)] = v
        return memo[id(v)]
    if isinstance(v, torch.Tensor):
        table[id(v)] = v
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(real_twin(x, memo, table) for x in v)
    if isinstance(v, dict):
        return {k: real_twin(x, memo, table) for k, x in v.items()}
    return v


class Graph:
    """what the compiler captures from f(*args, **kw), to be run on other arguments"""

    def __init__(self, f, *args, dynamic=False, batch=None, **kw):
        memo, self.table, self.keep = {}, {}, []
        self.memo, self.graphs, self.batch = memo, [], batch
        owner = getattr(f, '__self__', None)
        if owner is not None:
            twin = copy.copy(owner)
            twin.__dict__.update({k: real_twin(v, memo, self.table) for k, v in vars(owner).items()})
            f = getattr(type(owner), f.__name__).__get__(twin)
        self.args = [real_twin(a, memo, self.table) for a in args]
        if batch is not None:     # the batch the graph is captured with; the first argument is the batched one
            with _disable_current_modes():
                self.args[0] = torch.zeros((batch,) + tuple(args[0].shape[1:]), dtype=args[0].dtype,
                                           requires_grad=args[0].requires_grad)
            self.table[id(self.args[0])] = args[0]
        inputs = []

        def backend(gm, ex):
            def run(*a):
                self.graphs.append((gm, a))
                return gm.forward(*a)
            return run
        with _disable_current_modes():
            torch._dynamo.reset()
            torch.compile(f, backend=backend, fullgraph=True, dynamic=True if dynamic else None)(*self.args, **kw)
            torch._dynamo.reset()
        self.f, self.kw = f, kw

    def __call__(self):
        (gm, a), = self.graphs
        def to(x):
            if id(x) in self.table:
                return self.table[id(x)]
            if self.batch is not None and isinstance(x, int) and x == self.batch:
                return next(iter([self.table[id(self.args[0])].shape[0]]))
            if isinstance(x, torch.Tensor):
                raise AssertionError('a graph input that is no argument: %s' % (tuple(x.shape),))
            return x
        out = gm(*[to(x) for x in a])
        return out


def captured(c, name, f, *args, **k):
    try:
        g = Graph(f, *args, **k)
    except torch._dynamo.exc.TorchDynamoException as e:
        c.true(name + ' is compiled as one graph', False, str(e)[:300])
        return None
    c.true(name + ' is compiled as one graph', len(g.graphs) == 1)
    return g()


def fk_graph(spec, B, grad=False, dynamic=False):
    def body(c):
        r = Robot(c, SPECS[spec])
        ch = r.chain()
        th = c.real('th', (B, len(r.joints())))
        plain = ch.forward_kinematics_tensor(th)
        if not grad:
            out = captured(c, 'forward kinematics', ch.forward_kinematics_tensor, th, dynamic=dynamic,
                           batch=11 if dynamic else None)
            c.true('one result', len(out) == 1 and out[0].shape == plain.shape and out[0].dtype == plain.dtype)
            c.eq('the same poses', out[0], plain)
            return
        x, y = th.clone().requires_grad_(True), th.clone().requires_grad_(True)
        G = c.real('G', tuple(plain.shape))
        Tp = ch.forward_kinematics_tensor(x)
        (gp,) = torch.autograd.grad(Tp, x, grad_outputs=G)
        out = captured(c, 'forward kinematics', ch.forward_kinematics_tensor, y, dynamic=dynamic,
                       batch=11 if dynamic else None)
        c.eq('the same poses', out[0].detach(), plain)
        (gc,) = torch.autograd.grad(out[0], y, grad_outputs=G)
        c.eq('the same gradients', gc, gp, cut=[plain])
    return body


for _s in SPECS:
    SUITE.add('fk_' + _s, fk_graph(_s, 2))
for _s in ('serial', 'tree', 'mjstyle'):
    SUITE.add('fk_gradient_' + _s, fk_graph(_s, 2, grad=True))
SUITE.add('fk_gradient_single', fk_graph('tree', 1, grad=True))
for _b in (1, 2, 3):
    SUITE.add('fk_any_batch_%d' % _b, fk_graph('tree', _b, dynamic=True))


def jac_graph(spec, B, pose=True, dynamic=False):
    def body(c):
        s = robot(c, SPECS[spec])
        th = c.real('th', (B, s.n_joints))
        J, T = s.jacobian_tensor(th, True) if pose else (s.jacobian_tensor(th), None)
        f = s.jacobian_tensor
        out = captured(c, 'the Jacobian', f, th, *([True] if pose else []), dynamic=dynamic, batch=11 if dynamic else None)
        c.true('as many results', len(out) == 1 + pose)
        c.true('shapes', out[0].shape == J.shape and out[0].dtype == J.dtype)
        c.eq('the same Jacobian', out[0], J)
        if pose:
            c.eq('the same pose', out[1], T)
    return body


for _s in ('serial', 'revolute', 'prismatic', 'deep'):
    SUITE.add('jacobian_' + _s, jac_graph(_s, 2))
SUITE.add('jacobian_only', jac_graph('serial', 2, pose=False))
SUITE.add('jacobian_one_per_row', jac_graph('serial', 6))
for _b in (1, 3):
    SUITE.add('jacobian_any_batch_%d' % _b, jac_graph('serial', _b, dynamic=True))


def kernel_graph(name, N, M, dof, lm, weighted):
    def body(c):
        f = getattr(ikm, name)
        m = make44(quat_to_mat(c, c.unit('q', (N * M,))), c.real('p', (N * M, 3)))
        t, tp = c.unit('t', (N,)), c.real('tp', (N, 3))
        J, reg = c.real('J', (N * M, 6, dof)), 1e-3 * torch.eye(6, dtype=D64)
        w = c.real('w', (6,), lo=0, hi=10) if weighted else None
        a = (m, tp, t, J, reg, M, lm, w)
        dq, dx = f(*a)
        out = captured(c, 'the solver step', f, *a)
        c.true('two results', len(out) == 2 and out[0].shape == dq.shape and out[1].shape == dx.shape)
        c.eq('the same error', out[1], dx)
        c.eq('the same step', out[0], dq)
    return body


for _k, _n in (('step', '_ik_step_kernel'), ('svd', '_ik_step_kernel_svd')):
    for _N, _M, _d, _l, _w in ((1, 1, 3, .1, True), (2, 2, 2, .1, True), (1, 2, 7, 0., True), (2, 1, 3, 0., False),
                               (1, 1, 6, .5, False)):
        SUITE.add('%s_%d_%d_%d_%s%s' % (_k, _N, _M, _d, 'damped' if _l else 'plain', '_weighted' if _w else ''),
                  kernel_graph(_n, _N, _M, _d, _l, _w), defined=False)


class Again(Stub):
    """gives the poses of another stub again, as long as it is asked for the same joint values"""

    def __init__(self, first):
        self.first, self.calls = first, []

    def __call__(self, q, ret=False):
        i = len(self.calls)
        f = self.first
        self.first.c.true('asked no more often than without compiling', i < len(f.calls))
        q0, J, m = f.calls[i]
        f.c.eq('the same joint values in iteration %d' % i, q, q0)
        self.calls.append((q, J, m))
        return J, m


def solve(cls, N, M, limit, limits=None, search=False, **k):
    def body(c):
        s = robot(c, SPECS['revolute'], limits)
        T = make44(quat_to_mat(c, c.unit('t', (N,))), c.real('tp', (N, 3)))
        q0 = c.real('q', (M, 2))
        got = []
        stub = Stub(c, N * M, 2, jac=not search)
        asked = []

        def record(f=None, **kw):
            asked.append(f)
            return f
        real = torch.compile
        for flag in (False, True):
            s.jacobian_tensor = stub if not flag else Again(stub)
            torch.compile = record
            try:
                x = cls(s, retry_configs=q0, max_iterations=limit, pos_tolerance=.3, rot_tolerance=.2, use_compile=flag,
                        num_limit_refinement_iterations=1, **k)
                if flag:
                    c.true('the kernels are compiled', len(asked) > 0)
                sol = x.solve(pk.Transform3d(matrix=T))
            finally:
                torch.compile = real
            got.append(sol)
        a, b = got
        c.true('as many iterations', a.iterations == b.iterations)
        c.eq('solutions', b.solutions, a.solutions)
        for n in ('converged', 'converged_pos', 'converged_rot', 'converged_any', 'converged_pos_any',
                  'converged_rot_any', 'remaining'):
            c.true(n, bool((getattr(a, n) == getattr(b, n)).all()))
        c.eq('position errors', b.err_pos, a.err_pos)
        c.eq('rotation errors', b.err_rot, a.err_rot)
    return body


_L = {'l1': (-1., 1.5), 'l2': (-2., 1.)}
for _n, _c in (('dls', ikm.PseudoInverseIK), ('svd', ikm.PseudoInverseIKWithSVD)):
    SUITE.add('solve_%s' % _n, solve(_c, 1, 1, 2, early_stopping_no_improvement=None), defined=False)
    SUITE.add('solve_%s_limits' % _n, solve(_c, 1, 1, 1, limits=_L, early_stopping_no_improvement=None), defined=False)
SUITE.add('solve_weighted', solve(ikm.PseudoInverseIK, 1, 2, 1, position_weight=2., orientation_weight=.5, lm_damping=.3,
                                  regularlization=1e-3, early_stopping_no_improvement=None), defined=False)


class Named:
    """the inputs of a harness under a prefix of their own"""

    def __init__(self, c, p):
        self.c, self.p = c, p

    def __getattr__(self, k):
        return lambda name, *a, **kw: getattr(self.c, k)(self.p + name, *a, **kw)


CONVERSIONS = {
    'quaternion_to_matrix': lambda c, b: (c.unit('q', b),),
    'matrix_to_quaternion': lambda c, b: (c.rotation('r', b),),
    'standardize_quaternion': lambda c, b: (c.unit('q', b),),
    'quaternion_raw_multiply': lambda c, b: (c.real('a', b + (4,)), c.real('b', b + (4,))),
    'quaternion_multiply': lambda c, b: (c.unit('a', b), c.unit('b', b)),
    'quaternion_invert': lambda c, b: (c.unit('q', b),),
    'quaternion_apply': lambda c, b: (c.unit('q', b), c.real('p', b + (3,))),
    'axis_and_angle_to_matrix_33': lambda c, b: (c.unit('u', b, dim=3), c.real('t', b)),
    'axis_and_angle_to_matrix_44': lambda c, b: (c.unit('u', b, dim=3), c.real('t', b)),
    'axis_and_d_to_pris_matrix': lambda c, b: (c.unit('u', b, dim=3), c.real('t', b)),
    'axis_angle_to_quaternion': lambda c, b: (c.unit('u', b, dim=3) * c.real('t', b, lo=0, hi=10)[..., None],),
    'quaternion_to_axis_angle': lambda c, b: (c.unit('q', b),),
    'matrix_to_axis_angle': lambda c, b: (c.rotation('r', b),),
    'euler_angles_to_matrix': lambda c, b: (c.real('e', b + (3,)), 'XZY'),
    'matrix_to_euler_angles': lambda c, b: (c.rotation('r', b), 'ZYX'),
    'rotation_6d_to_matrix': lambda c, b: (c.real('d', b + (6,)),),
    'matrix_to_rotation_6d': lambda c, b: (c.rotation('r', b),),
    'matrix44_to_se3_9d': lambda c, b: (c.pose('T', b),),
    'se3_9d_to_matrix44': lambda c, b: (c.real('d', b + (9,)),),
    'matrix_to_pos_rot': lambda c, b: (c.pose('T', b),),
    'pos_rot_to_matrix': lambda c, b: (c.real('p', b + (3,)), c.unit('q', b)),
    'wxyz_to_xyzw': lambda c, b: (c.real('q', b + (4,)),),
    'xyzw_to_wxyz': lambda c, b: (c.real('q', b + (4,)),),
    'quaternion_from_euler': lambda c, b: (c.real('e', b + (3,)), 'rxyz'),
}


def conversions(names, batch):
    def body(c):
        for n in names:
            f = getattr(rc, n)
            args = CONVERSIONS[n](Named(c, n + '_'), batch)
            a = f(*args)
            out = captured(c, n, f, *args)
            a = a if isinstance(a, tuple) else (a,)
            c.true(n + ' as many results', len(out) == len(a))
            for i, (x, y) in enumerate(zip(out, a)):
                c.true(n + ' shape', x.shape == y.shape and x.dtype == y.dtype)
                c.eq(n + ' gives the same result', x, y)
    return body


_names = list(CONVERSIONS)
for _i in range(0, len(_names), 6):
    SUITE.add('conversions_%d' % (_i // 6), conversions(_names[_i:_i + 6], (2,)), defined=False)
SUITE.add('conversions_single', conversions(['matrix_to_quaternion', 'quaternion_to_axis_angle', 'axis_angle_to_quaternion'], ()),
          defined=False)
