import math
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import ik as K
from symtorch.driver import Suite
from symtorch.h import *
from .kin import REVS, PRIS, SERIAL
from .iks import robot, Stub

SUITE = Suite('C22', ['ik.PseudoInverseIK._wrap_revolute_joints', 'ik.PseudoInverseIK._enforce_limits',
                      'ik.PseudoInverseIK._has_finite_limits', 'ik.PseudoInverseIK.solve', 'ik.InverseKinematics.__init__',
                      'chain.Chain._get_joint_limits'],
    'All joint values, all limits with lower <= upper (finite, one-sided, none; limits of the same robot mixed), revolute and '
    'prismatic joints; solves of 0-2 iterations with 0-2 refinement iterations whose poses and Jacobians are arbitrary, 1-2 '
    'problems with 1-2 attempts. Pi is the real number (its rounding is outside the bounds).')
INF = float('inf')
TURN = 2 * math.pi


def limits(c, spec, kinds):
    lim, lo, hi = {}, [], []
    for (n, _, t, _, _), k in zip([x for x in spec if x[2] != 'fixed'], kinds):
        a = c.scalar('lo' + n, -20, 20) if k in 'bl' else None
        b = c.scalar('hi' + n, -20, 20) if k in 'bu' else None
        if k == 'b':
            c.assume(a <= b)
        lo.append(a), hi.append(b)
        if k != 'n':
            lim[n] = (-INF if a is None else a, INF if b is None else b)
    return lim, lo, hi


def inside(q, a, b):
    ok = torch.ones(q.shape, dtype=torch.bool)
    if a is not None:
        ok = ok & (q >= a)
    if b is not None:
        ok = ok & (q <= b)
    return ok


def solver(c, spec, kinds, N, M, steps, refine, jac=True, **kw):
    lim, lo, hi = limits(c, spec, kinds)
    chain = robot(c, spec, lim)
    types = [x[2] for x in spec if x[2] != 'fixed']
    stub = Stub(c, N * M, len(types), rot=False, jac=jac)
    chain.jacobian_tensor = stub
    q0 = c.real('q', (M, len(types)), lo=-50, hi=50)
    s = K.PseudoInverseIK(chain, retry_configs=q0.clone(), max_iterations=steps, num_limit_refinement_iterations=refine, **kw)
    tp = c.real('tp', (N, 3))
    target = pk.Transform3d(matrix=make44(torch.eye(3, dtype=D64).repeat(N, 1, 1), tp))
    return s, target, stub, q0, types, lo, hi


def within(spec, kinds, N, M, steps, refine, **kw):
    def body(c):
        s, target, stub, q0, types, lo, hi = solver(c, spec, kinds, N, M, steps, refine, **kw)
        sol = s.solve(target)
        for j in range(len(types)):
            c.holds('within the limits', inside(sol.solutions[..., j], lo[j], hi[j]))
    return body


SUITE.add('limits_revolute', within(REVS, 'bb', 2, 1, 1, 0), defined=False)
SUITE.add('limits_prismatic', within(PRIS, 'bb', 1, 2, 1, 1), defined=False)
SUITE.add('limits_mixed', within(SERIAL, 'bbb', 1, 1, 1, 1), defined=False)
SUITE.add('limits_one_sided', within(SERIAL, 'lbu', 1, 1, 1, 1), defined=False)
SUITE.add('limits_some_none', within(SERIAL, 'nbl', 1, 1, 1, 0), defined=False)
SUITE.add('limits_one_joint_above', within(REVS, 'nu', 1, 1, 1, 0), defined=False)
SUITE.add('limits_one_joint_below', within(REVS, 'nl', 1, 1, 1, 0), defined=False)
SUITE.add('limits_clamped', within(REVS, 'bn', 1, 1, 1, 1, clamp_to_limits=True), defined=False)
SUITE.add('limits_any_converged', within(REVS, 'bb', 2, 1, 2, 0, early_stopping_any_converged=True), defined=False)
SUITE.add('limits_refined_2', within(SERIAL, 'blb', 2, 2, 2, 2), defined=False, tier='thorough')


def no_iterations(spec, kinds, N=1, M=2):
    """without iterations only the wrapping and the clamping act on the initial values"""
    def body(c):
        s, target, stub, q0, types, lo, hi = solver(c, spec, kinds, N, M, 0, 0, jac=False)
        sol = s.solve(target)
        out = sol.solutions.reshape(N, M, len(types))[0]
        whole = c.real('whole', (M, len(types)), lo=-12, hi=12)
        for i in range(M):
            for j in range(len(types)):
                q, r, a, b = q0[i, j], out[i, j], lo[j], hi[j]
                if types[j] == 'prismatic' or a is None or b is None:
                    want = q
                    if a is not None:
                        want = torch.where(want < a, torch.zeros_like(want) + a, want)
                    if b is not None:
                        want = torch.where(want > b, torch.zeros_like(want) + b, want)
                    c.eq('clamped only', r, want)
                    continue
                narrow = (b - a) < TURN
                c.holds('already inside', ~(inside(q, a, b) & narrow) | (r == q))
                k = torch.floor(whole[i, j])
                v = q + k * TURN
                c.holds('a turn brings it inside: pose kept', ~inside(v, a, b) | inside(r, a, b) &
                        ((r == v) | ((r - q) / TURN == torch.floor((r - q) / TURN))))
    return body


SUITE.add('wrapping_prismatic', no_iterations(PRIS, 'bb'), defined=False)
SUITE.add('wrapping_revolute', no_iterations(REVS, 'bn', M=1), defined=False)
SUITE.add('wrapping_mixed', no_iterations(SERIAL, 'bbu', M=1), defined=False)
SUITE.add('wrapping_unlimited', no_iterations(SERIAL, 'nbl'), defined=False)


def wrap(spec, kinds):
    def body(c):
        s, target, stub, q0, types, lo, hi = solver(c, spec, kinds, 1, 1, 0, 0, jac=False)
        if not hasattr(s, '_wrap_revolute_joints'):
            return      # internal; the wrapping_* configurations see the same through solve()
        q = c.real('v', (1, len(types)), lo=-50, hi=50)
        keep = q.clone()
        out = s._wrap_revolute_joints(q)
        c.eq('argument unchanged', q, keep)
        for j in range(len(types)):
            if types[j] == 'prismatic' or lo[j] is None or hi[j] is None:
                c.eq('not wrapped', out[..., j], q[..., j])
                continue
            n = (out[0, j] - q[0, j]) / TURN
            c.holds('whole turns', n == torch.round(n))
            d = out[0, j] - (lo[j] + hi[j]) / 2
            c.holds('within half a turn of the middle', (d <= math.pi) & (d >= -math.pi))
    return body


SUITE.add('wrap_revolute', wrap(REVS, 'bb'), defined=False)
SUITE.add('wrap_mixed', wrap(SERIAL, 'bbb'), defined=False)
SUITE.add('wrap_unlimited', wrap(SERIAL, 'nbu'), defined=False)
