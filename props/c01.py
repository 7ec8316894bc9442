import torch
import pytorch_kinematics as pk
from symtorch.driver import Suite
from symtorch.h import *
from props.kin import *

SUITE = Suite('C01', ['chain.Chain.__init__', 'chain._fk_impl', 'chain.Chain.forward_kinematics_tensor',
                      'chain.Chain.forward_kinematics', 'chain.SerialChain.__init__', 'chain.SerialChain.forward_kinematics',
                      'chain.SerialChain.convert_serial_inputs_to_chain_inputs', 'frame.Joint.__init__',
                      'frame.Frame.get_transform', 'rotation_conversions.axis_and_angle_to_matrix_44',
                      'rotation_conversions.axis_and_d_to_pris_matrix', 'transform3d.Transform3d'],
              'Seven tree shapes (serial, branching, all-revolute, all-prismatic, all-fixed, moving root with link '
              'offsets, ten frames deep; at most 8 joints), every joint offset and link offset an arbitrary rigid '
              'transform, every joint axis an arbitrary unit vector, every real joint value, batches of 1 and 2.')


def fk_body(spec, B):
    def body(c):
        r = Robot(c, SPECS[spec])
        ch = r.chain()
        J = r.joints()
        c.true('joint order', ch.get_joint_parameter_names() == ['j_' + n for n in J])
        th = c.real('th', (B, len(J)))
        T = ch.forward_kinematics(th)
        c.true('one transform per frame', sorted(T) == sorted(r.order))
        M = {n: T[n].get_matrix() for n in r.order}
        for n in r.order:
            c.true('shape', M[n].shape == (B, 4, 4), '%s %s' % (n, tuple(M[n].shape)))
            q = th[:, J.index(n)] if n in J else None
            L = r.local(n, q)
            p = r.parent[n]
            if p is None:
                c.eq('root frame', M[n], L.expand(B, 4, 4))
            else:
                c.eq('frame is parent times joint transform', M[n], M[p] @ L, cut=[M[p]])
    return body


for _s in SPECS:
    SUITE.add('tree_%s_b2' % _s, fk_body(_s, 2))
    SUITE.add('tree_%s_b1' % _s, fk_body(_s, 1), tier='thorough')


@SUITE.config()
def closed_form(c):
    """full product formula, not frame by frame"""
    r = Robot(c, REVS)
    th = c.real('th', (1, 2))
    T = r.chain().forward_kinematics(th)['tip'].get_matrix()
    c.eq('tip pose is the product of all joint transforms', T, r.fk('tip', th))


def serial_body(spec, end, B):
    def body(c):
        r = Robot(c, SPECS[spec])
        s = pk.SerialChain(r.chain(), end, dtype=D64)
        J = [n for n in r.ancestors(end) if r.type[n] != 'fixed']
        th = c.real('th', (B, len(J)))
        T = s.forward_kinematics(th, end_only=False)
        M = {n: T[n].get_matrix() for n in r.ancestors(end)}
        for n in r.ancestors(end)[1:]:
            q = th[:, J.index(n)] if n in J else None
            p = r.parent[n]
            c.eq('frame is parent times joint transform', M[n], M[p] @ r.local(n, q), cut=[M[p]])
        c.eq('base is the origin', M[r.root], I4().expand(B, 4, 4))
        c.eq('end_only gives the end effector', s.forward_kinematics(th).get_matrix(), M[end])
    return body


SUITE.add('serial_chain', serial_body('serial', 'tip', 2))
SUITE.add('serial_chain_in_tree', serial_body('tree', 'a2', 2))


@SUITE.config()
def frame_get_transform(c):
    r = Robot(c, SERIAL)
    th = c.real('th', (2,))
    for n in ('l1', 'l2', 'l3'):
        c.eq('single joint transform of ' + n, r.frames[n].get_transform(th).get_matrix(), r.local(n, th).expand(2, 4, 4))


# large robots and many configurations at once
SPECS = dict(SPECS, **LARGE)
SPECS['tiny'] = [('base', None, 'fixed', 0, 0), ('l1', 'base', 'revolute', 0, 0), ('l2', 'l1', 'prismatic', 0, 0)]
SUITE.add('tower', fk_body('tower', 2))
SUITE.add('brush', fk_body('brush', 2))
SUITE.add('batch_130', fk_body('tiny', 130))
SUITE.add('batch_1030', fk_body('tiny', 1030))
SUITE.add('batch_4100', fk_body('tiny', 4100), tier='thorough')
