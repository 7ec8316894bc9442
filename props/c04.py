import torch
import pytorch_kinematics as pk
from pytorch_kinematics.jacobian import calc_jacobian
from symtorch.driver import Suite
from symtorch.h import *
from props.kin import *

SUITE = Suite('C04', ['chain.SerialChain.jacobian', 'chain.SerialChain.jacobian_tensor', 'chain.SerialChain.__init__',
                      'chain.Chain.forward_kinematics_tensor', 'jacobian.calc_jacobian'],
              'Serial chains with up to eight mixed joints, also extracted from a branching robot and from an inner '
              'root, arbitrary rigid offsets, unit axes, joint values and tool offsets; batches of 1, 2 and 6. Each column is '
              'compared with the geometric derivative [z x (p - o); z] or [z; 0] of the pose of the tool point, which '
              'C03 derives from the joint transforms.')

CASES = {'serial': ('serial', 'tip', ''), 'revolute': ('revolute', 'tip', ''), 'prismatic': ('prismatic', 'tip', ''),
         'deep': ('deep', 'b9', ''), 'branch': ('tree', 'a2', ''), 'branch_z2': ('tree', 'z2', ''),
         'moving_end': ('serial', 'l4', ''), 'inner_root': ('serial', 'tip', 'l1'), 'offsets': ('mjstyle', 'd', '')}


def make(c, case):
    spec, end, root = CASES[case]
    r = Robot(c, SPECS[spec])
    s = pk.SerialChain(r.chain(), end, root, dtype=D64)
    anc = r.ancestors(end)
    anc = anc[anc.index(root or r.root):]
    J = [n for n in anc[1:] if r.type[n] != 'fixed']
    return r, s, end, J


def columns(r, J, T, p):
    """T: frame -> (B, 4, 4); p: (B, 3) the tool point"""
    cols = []
    for j in J:
        z = matvec(T[j][:, :3, :3], r.axis[j].expand(p.shape))
        if r.type[j] == 'revolute':
            cols.append(torch.cat([matvec(skew(z), p - T[j][:, :3, 3]), z], -1))
        else:
            cols.append(torch.cat([z, torch.zeros_like(z)], -1))
    return torch.stack(cols, -1)


def body(case, B):
    def f(c):
        r, s, end, J = make(c, case)
        th = c.real('th', (B, len(J)))
        T = {k: v.get_matrix() for k, v in s.forward_kinematics(th, end_only=False).items()}
        cut = list(T.values())
        Jm = s.jacobian(th)
        c.true('shape', Jm.shape == (B, 6, len(J)))
        c.eq('jacobian', Jm, columns(r, J, T, T[end][:, :3, 3]), cut=cut)
        J2, pose = s.jacobian(th, ret_eef_pose=True)
        c.eq('jacobian with pose', J2, Jm)
        c.eq('returned pose is the end effector pose', pose, T[end])
        c.eq('function form', calc_jacobian(s, th), Jm)
    return f


for _c in CASES:
    SUITE.add('jac_%s_b2' % _c, body(_c, 2))
SPECS = dict(SPECS, **LARGE)
CASES['tower'] = ('tower', 'b69', '')
CASES['tower_part'] = ('tower', 'b26', 'b11')
SUITE.add('jac_tower', body('tower', 1))
SUITE.add('jac_tower_part', body('tower_part', 2))
SUITE.add('jac_serial_b1', body('serial', 1))
SUITE.add('jac_revolute_b6', body('revolute', 6))


def tool(case, B, kind):
    def f(c):
        r, s, end, J = make(c, case)
        th = c.real('th', (B, len(J)))
        T = {k: v.get_matrix() for k, v in s.forward_kinematics(th, end_only=False).items()}
        if kind == 'transform':
            off = c.pose('tool', (1,))
            arg = pk.Transform3d(matrix=off)
        elif kind == 'transform_b':
            off = c.pose('tool', (B,))
            arg = pk.Transform3d(matrix=off)
        else:
            p = c.real('tool', (3,) if kind == 'point' else (B, 3))
            off = make44(I3().expand(p.shape[:-1] + (3, 3)), p)
            arg = p
        E = T[end] @ off
        cut = list(T.values())
        Jt, pose = s.jacobian(th, locations=arg, ret_eef_pose=True)
        c.eq('pose includes the tool', pose, E, cut=cut)
        c.eq('jacobian of the tool point', Jt, columns(r, J, T, E[:, :3, 3]), cut=cut)
        c.eq('without pose', s.jacobian(th, locations=arg), Jt)
        c.eq('function form', calc_jacobian(s, th, tool=arg), Jt)
    return f


for _k in ('point', 'points', 'transform', 'transform_b'):
    SUITE.add('tool_%s' % _k, tool('serial', 2, _k))
SUITE.add('tool_branch', tool('branch', 2, 'points'))
SUITE.add('tool_prismatic', tool('prismatic', 2, 'point'))
SUITE.add('tool_b1', tool('revolute', 1, 'point'))


@SUITE.config()
def no_joints(c):
    r = Robot(c, FIXED)
    s = pk.SerialChain(r.chain(), 'l2', dtype=D64)
    c.true('no joints, no columns', s.jacobian(torch.zeros(2, 0, dtype=D64)).shape == (2, 6, 0))
