import torch
import pytorch_kinematics as pk
from symtorch.driver import Suite
from symtorch.h import *
from props.kin import *

SUITE = Suite('C03', ['chain._FKAnalyticalBackward.forward', 'chain._FKAnalyticalBackward.backward', 'chain._fk_impl',
                      'chain.Chain.forward_kinematics_tensor', 'chain.Chain.__init__ (ancestor masks, DOF tables)'],
              'Seven tree shapes with up to eight joints, arbitrary rigid offsets, unit axes and joint values, an '
              'arbitrary upstream gradient on every entry of every frame; one and two configurations per batch. The '
              'gradient is compared with the derivative of rigid motion, dT_f = [z_j]x (T_f - o_j) for each joint j '
              'above frame f, which the lemma configurations derive from the joint transforms. Ordinary differentiation (second order, '
              'offsets): robots of one to three joints; Jacobians of a serial and an extracted chain.',
              assumptions=['torch.autograd itself (chain rule bookkeeping of PyTorch) is executed, not modelled'])


def expected(r, T, G, B, J):
    """sum over frames below each joint of <G_f, dT_f/dq_j>, from the poses T"""
    out = []
    for j in J:
        a = r.axis[j].expand(B, 3)
        z = matvec(T[j][:, :3, :3], a)
        o = T[j][:, :3, 3]
        s = torch.zeros(B, dtype=D64)
        for f in r.order:
            if j not in r.ancestors(f):
                continue
            if r.type[j] == 'revolute':
                dR = skew(z) @ T[f][:, :3, :3]
                dt = matvec(skew(z), T[f][:, :3, 3] - o)
                s = s + (G[f][:, :3, :3] * dR).sum((-1, -2)) + (G[f][:, :3, 3] * dt).sum(-1)
            else:
                s = s + (G[f][:, :3, 3] * z).sum(-1)
        out.append(s)
    return torch.stack(out, -1)


def setup(c, spec, B):
    r = Robot(c, SPECS[spec])
    ch = r.chain()
    J = r.joints()
    th = c.real('th', (B, len(J)))
    G = {n: c.real('G' + n, (B, 4, 4)) for n in r.order}
    inv = {v: k for k, v in ch.frame_to_idx.items()}
    Gm = torch.stack([G[inv[i]] for i in range(len(r.order))])
    return r, ch, J, th, G, Gm


def analytic(spec, B):
    def body(c):
        r, ch, J, th, G, Gm = setup(c, spec, B)
        plain = ch.forward_kinematics_tensor(th)
        T = {n: plain[ch.frame_to_idx[n]] for n in r.order}
        x = th.clone().requires_grad_(True)
        Tg = ch.forward_kinematics_tensor(x)
        c.eq('value does not depend on gradient tracking', Tg.detach(), plain)
        (g,) = torch.autograd.grad(Tg, x, grad_outputs=Gm)
        c.true('shape', g.shape == th.shape)
        E = expected(r, T, G, B, J)
        for k, j in enumerate(J):
            c.eq('gradient with respect to ' + j, g[:, k], E[:, k], cut=[plain])
    return body


for _s in ('revolute', 'prismatic', 'serial', 'tree', 'mjstyle', 'deep'):
    SUITE.add('analytic_%s_b1' % _s, analytic(_s, 1))
    SUITE.add('analytic_%s_b2' % _s, analytic(_s, 2))

SPECS = dict(SPECS, **LARGE)
SUITE.add('analytic_brush', analytic('brush', 1))
SPECS['half_tower'] = LARGE['tower'][:26]
SUITE.add('analytic_half_tower', analytic('half_tower', 1))
SUITE.add('analytic_tower', analytic('tower', 1), tier='thorough')


def through_dict(c):
    """gradients through the public dict of transforms, of one frame only"""
    r, ch, J, th, G, Gm = setup(c, 'tree', 1)
    plain = ch.forward_kinematics(th)
    T = {n: plain[n].get_matrix() for n in r.order}
    x = th.clone().requires_grad_(True)
    for n in ('z2', 'a2'):
        (g,) = torch.autograd.grad(ch.forward_kinematics(x)[n].get_matrix(), x, grad_outputs=G[n])
        z = torch.zeros(1, 4, 4, dtype=D64)
        E = expected(r, T, {m: G[m] if m == n else z for m in r.order}, 1, J)
        for k, j in enumerate(J):
            c.eq('gradient of frame %s with respect to %s' % (n, j), g[:, k], E[:, k], cut=list(T.values()))


SUITE.add('through_dict', through_dict)


def autograd_same(spec):
    def body(c):
        """plain autograd of a single-joint robot equals the analytical gradient"""
        r, ch, J, th, G, Gm = setup(c, spec, 1)
        x = th.clone().requires_grad_(True)
        (g,) = torch.autograd.grad(ch.forward_kinematics_tensor(x), x, grad_outputs=Gm)
        (h,) = torch.autograd.grad(ch.forward_kinematics_tensor(x, analytical_grad=False), x, grad_outputs=Gm)
        c.eq('analytical gradient equals autograd', g, h)
    return body


SPECS['one_rev'] = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 0, 0), ('tip', 'l1', 'fixed', 1, 0)]
SUITE.add('autograd_one_revolute', autograd_same('one_rev'))
SUITE.add('autograd_prismatic', autograd_same('prismatic'))


def diff(r, n, q):
    a = r.axis[n].expand(q.shape + (3,))
    if r.type[n] == 'revolute':
        K = skew(a)
        D = torch.cos(q)[..., None, None] * K + torch.sin(q)[..., None, None] * (K @ K)
        t = torch.zeros(q.shape + (3,), dtype=q.dtype)
    else:
        D = torch.zeros(q.shape + (3, 3), dtype=q.dtype)
        t = a
    return torch.cat([torch.cat([D, t.unsqueeze(-1)], -1), torch.zeros(q.shape + (1, 4), dtype=q.dtype)], -2)


def lemma(jt):
    def body(c):
        """d/dq (P S(q)) = [z]x (P S(q) - o): the derivative used above is the derivative of the joint transform,
        and it carries over to every frame further down"""
        P = c.pose('P')
        a = c.unit('a', (), dim=3)
        q = c.real('q', (1,))
        r = Robot(c, [('b', None, 'fixed', 0, 0), ('l', 'b', jt, 0, 0)])
        T = P @ r.local('l', q)[0]
        dT = P @ diff(r, 'l', q)[0]
        z = matvec(T[:3, :3], r.axis['l'])
        Z = skew(z)
        if jt == 'revolute':
            c.eq('rotation part', dT[:3, :3], Z @ T[:3, :3])
            c.eq('own origin does not move', dT[:3, 3], torch.zeros(3, dtype=D64))
        else:
            c.eq('rotation part', dT[:3, :3], torch.zeros(3, 3, dtype=D64))
            c.eq('origin moves along the axis', dT[:3, 3], z)
        X = c.pose('X')
        A, v, o = c.real('A', (3, 3)), c.real('v', (3,)), c.real('o', (3,))
        w = c.real('w', (3,))
        # a frame further down: T' = [A v] X with derivative [w]x A, [w]x (v - o)
        c.eq('carries over to the next frame', (skew(w) @ A) @ X[:3, 3] + matvec(skew(w), v - o),
             matvec(skew(w), A @ X[:3, 3] + v - o))
    return body


SUITE.add('lemma_revolute', lemma('revolute'))
SUITE.add('lemma_prismatic', lemma('prismatic'))


def ordinary(spec, second=True, B=1):
    """analytical_grad=False: ordinary differentiation, of second order too, and with respect to the robot's own offsets.
    Reference: automatic differentiation of the product of joint transforms, written out here."""
    def body(c):
        r = Robot(c, SPECS[spec])
        own = {n: m.clone().requires_grad_(True) for n, m in r.off.items() if m is not None}
        for n, m in own.items():
            r.off[n], r.frames[n].joint.offset = m, pk.Transform3d(matrix=m)
        ch = r.chain()
        J = r.joints()
        th = c.real('th', (B, len(J)))
        inv = {v: k for k, v in ch.frame_to_idx.items()}
        G = torch.stack([c.real('G' + inv[i], (B, 4, 4)) for i in range(len(r.order))])
        x, y = th.clone().requires_grad_(True), th.clone().requires_grad_(True)
        T = ch.forward_kinematics_tensor(x, analytical_grad=False)
        c.eq('value', T.detach(), ch.forward_kinematics_tensor(th).detach())
        R = torch.stack([r.fk(inv[i], y).expand(B, 4, 4) for i in range(len(r.order))])
        (g,), (h,) = (torch.autograd.grad((a * G).sum(), b, create_graph=second) for a, b in ((T, x), (R, y)))
        c.eq('gradient', g.detach(), h.detach())
        if second:
            v = c.real('v', (B, len(J)))
            (g2,), (h2,) = (torch.autograd.grad((a * v).sum(), b) for a, b in ((g, x), (h, y)))
            c.eq('second order', g2, h2)
        T = ch.forward_kinematics_tensor(x, analytical_grad=False)
        R = torch.stack([r.fk(inv[i], y).expand(B, 4, 4) for i in range(len(r.order))])
        names = sorted(own)
        for n, a, b in zip(names, torch.autograd.grad((T * G).sum(), [own[n] for n in names]),
                           torch.autograd.grad((R * G).sum(), [own[n] for n in names])):
            c.eq('gradient with respect to the offset of ' + n, a, b)
    return body


SUITE.add('ordinary_one', ordinary('one_rev'))
SUITE.add('ordinary_prismatic', ordinary('prismatic'))
SPECS['rev_pris'] = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 0, 0), ('tip', 'l1', 'prismatic', 1, 0)]
SPECS['fork'] = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 0, 0), ('l2', 'base', 'revolute', 1, 0), ('l3', 'base', 'prismatic', 1, 0)]
SUITE.add('ordinary_rev_pris', ordinary('rev_pris'))
SUITE.add('ordinary_fork', ordinary('fork'))


def through_inputs(B):
    """joint values given by name, each differentiable on its own; and an expanded (repeated) batch"""
    def body(c):
        r, ch, J, th, G, Gm = setup(c, 'tree', B)
        T = {n: ch.forward_kinematics_tensor(th)[ch.frame_to_idx[n]] for n in r.order}
        E = expected(r, T, G, B, J)
        xs = [th[:, k].clone().requires_grad_(True) for k in range(len(J))]
        out = ch.forward_kinematics({'j_' + j: x for j, x in zip(J, xs)})
        gs = torch.autograd.grad([out[n].get_matrix() for n in r.order], xs, grad_outputs=[G[n] for n in r.order])
        for k, j in enumerate(J):
            c.eq('gradient with respect to ' + j, gs[k], E[:, k], cut=list(T.values()))
    return body


SUITE.add('through_inputs_1', through_inputs(1))
SUITE.add('through_inputs_2', through_inputs(2))


def repeated(c):
    """one configuration repeated over the batch, and two uses of it: contributions add up"""
    r, ch, J, th, G, Gm = setup(c, 'serial', 2)
    one = th[:1]
    T = {n: ch.forward_kinematics_tensor(one)[ch.frame_to_idx[n]] for n in r.order}
    E = sum(expected(r, T, {n: G[n][i:i + 1] for n in r.order}, 1, J) for i in range(2))
    x = one.clone().requires_grad_(True)
    (g,) = torch.autograd.grad(ch.forward_kinematics_tensor(x.expand(2, -1)), x, grad_outputs=Gm)
    c.eq('repeated batch', g, E, cut=list(T.values()))
    x = one.clone().requires_grad_(True)
    a, b = ch.forward_kinematics_tensor(x), ch.forward_kinematics_tensor(x)
    torch.autograd.backward([a, b], [Gm[:, :1], Gm[:, 1:]])
    c.eq('two uses', x.grad, E, cut=list(T.values()))
    with torch.no_grad():
        c.true('nothing recorded without gradients', not ch.forward_kinematics_tensor(x).requires_grad)


SUITE.add('repeated', repeated)


def through_jacobian(spec, end):
    """gradients through the Jacobian and the pose it returns"""
    def body(c):
        r = Robot(c, SPECS[spec])
        s = pk.SerialChain(r.chain(), end, dtype=D64)
        J = [j for j in r.ancestors(end) if r.type[j] != 'fixed']
        line = r.ancestors(end)
        th = c.real('th', (1, len(J)))
        GJ, GP = c.real('GJ', (1, 6, len(J))), c.real('GP', (1, 4, 4))
        plain = s.forward_kinematics_tensor(th)
        T = {n: plain[s.frame_to_idx[n]] for n in line}
        leaf = {n: T[n].clone().requires_grad_(True) for n in line}
        cols = []
        for j in J:
            z = matvec(leaf[j][:, :3, :3], r.axis[j].expand(1, 3))
            d = leaf[end][:, :3, 3] - leaf[j][:, :3, 3]
            cols.append(torch.cat([torch.cross(z, d, dim=-1), z] if r.type[j] == 'revolute' else [z, torch.zeros_like(z)], -1))
        ref = (torch.stack(cols, -1) * GJ).sum() + (leaf[end] * GP).sum()
        up = torch.autograd.grad(ref, [leaf[n] for n in line], allow_unused=True)
        G = {n: torch.zeros(1, 4, 4, dtype=D64) if g is None else g for n, g in zip(line, up)}
        x = th.clone().requires_grad_(True)
        Jx, P = s.jacobian(x, ret_eef_pose=True)
        (g,) = torch.autograd.grad((Jx * GJ).sum() + (P * GP).sum(), x)
        s_ = Robot.__new__(Robot)
        s_.__dict__.update(r.__dict__, order=line)
        E = expected(s_, T, G, 1, J)
        for k, j in enumerate(J):
            c.eq('gradient with respect to ' + j, g[:, k], E[:, k], cut=list(T.values()))
    return body


SUITE.add('through_jacobian_serial', through_jacobian('serial', 'tip'))
SUITE.add('through_jacobian_tree', through_jacobian('tree', 'z2'))
