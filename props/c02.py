import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics.jacobian import calc_jacobian
from symtorch.driver import Suite
from symtorch.h import *
from props.kin import *

SUITE = Suite('C02', ['chain.Chain.forward_kinematics', 'chain.Chain.ensure_tensor', 'chain.Chain.jacobian',
                      'chain.SerialChain.forward_kinematics', 'chain.SerialChain.convert_serial_inputs_to_chain_inputs',
                      'chain.SerialChain.jacobian', 'chain.get_n_joints', 'chain.get_batch_size',
                      'chain.get_dict_elem_shape', 'chain.Chain.get_frame_indices', 'chain.Chain.clamp'],
              'A branching robot with six joints and a serial robot with three; every real joint value; dict key '
              'orders: given, reversed and rotated; dict values as scalars, tensors and batches of 2; every single '
              'missing joint; every frame subset of size one and two ordered pairs.')


def tree(c):
    r = Robot(c, TREE)
    return r, r.chain(), ['j_' + n for n in r.joints()]


def same(c, name, A, B):
    c.true(name + ' (frames)', set(A) == set(B))
    for k in A:
        c.eq(name, A[k].get_matrix(), B[k].get_matrix())


@SUITE.config()
def chain_forms(c):
    r, ch, names = tree(c)
    th = c.real('th', (len(names),))
    ref = ch.forward_kinematics(th.unsqueeze(0))
    same(c, '1-D tensor', ch.forward_kinematics(th), ref)
    vals = [th[i].item() for i in range(len(names))]
    same(c, 'list', ch.forward_kinematics(vals), ref)
    for k, order in (('given', names), ('reversed', names[::-1]), ('rotated', names[2:] + names[:2])):
        same(c, 'dict of numbers, keys ' + k, ch.forward_kinematics({n: vals[names.index(n)] for n in order}), ref)
        same(c, 'dict of 0-d tensors, keys ' + k, ch.forward_kinematics({n: th[names.index(n)] for n in order}), ref)
        same(c, 'dict of 1-element tensors, keys ' + k,
             ch.forward_kinematics({n: th[names.index(n):names.index(n) + 1] for n in order}), ref)


@SUITE.config()
def chain_batched_dict(c):
    r, ch, names = tree(c)
    th = c.real('th', (2, len(names)))
    ref = ch.forward_kinematics(th)
    for k, order in (('given', names), ('reversed', names[::-1]), ('rotated', names[3:] + names[:3])):
        same(c, 'batched dict, keys ' + k, ch.forward_kinematics({n: th[:, names.index(n)] for n in order}), ref)
    for b in range(2):
        one = ch.forward_kinematics(th[b])
        for n in one:
            c.eq('row of a batch equals the single call', ref[n].get_matrix()[b], one[n].get_matrix()[0])


@SUITE.config()
def chain_rejects(c):
    r, ch, names = tree(c)
    th = c.real('th', (len(names),))
    for n in names:
        d = {m: th[i] for i, m in enumerate(names) if m != n}
        c.raises('missing joint %s is an error' % n, lambda: ch.forward_kinematics(d), ValueError)
    d = {m: th[i] for i, m in enumerate(names)}
    d['no_such_joint'] = th[0]
    c.raises('unknown joint is an error', lambda: ch.forward_kinematics(d), ValueError)


@SUITE.config()
def frame_subsets(c):
    r, ch, names = tree(c)
    th = c.real('th', (2, len(names)))
    ref = ch.forward_kinematics(th)
    for n in r.order:
        out = ch.forward_kinematics(th, frame_indices=ch.get_frame_indices(n))
        c.true('exactly the requested frame', list(out) == [n])
        c.eq('requested frame is unchanged', out[n].get_matrix(), ref[n].get_matrix())
    for a, b in (('a2', 'zeta'), ('z3', 'z2')):
        out = ch.forward_kinematics(th, frame_indices=ch.get_frame_indices(a, b))
        c.true('exactly the requested frames', set(out) == {a, b})
        for n in (a, b):
            c.eq('requested frame is unchanged', out[n].get_matrix(), ref[n].get_matrix())


def serial(c):
    r = Robot(c, SERIAL)
    s = pk.SerialChain(r.chain(), 'tip', dtype=D64)
    return r, s, s.get_joint_parameter_names()


@SUITE.config()
def serial_forms(c):
    r, s, names = serial(c)
    c.true('joint names', names == ['j_l1', 'j_l2', 'j_l4'])
    th = c.real('th', (3,))
    ref = s.forward_kinematics(th.unsqueeze(0), end_only=False)
    vals = [th[i].item() for i in range(3)]
    same(c, '1-D tensor', s.forward_kinematics(th, end_only=False), ref)
    same(c, 'list', s.forward_kinematics(vals, end_only=False), ref)
    for k, order in (('given', names), ('reversed', names[::-1]), ('rotated', names[1:] + names[:1])):
        same(c, 'dict, keys ' + k, s.forward_kinematics({n: th[names.index(n)].reshape(1) for n in order}, end_only=False), ref)
        same(c, 'dict of numbers, keys ' + k,
             s.forward_kinematics({n: vals[names.index(n)] for n in order}, end_only=False), ref)
    c.eq('end_only', s.forward_kinematics(th).get_matrix(), ref['tip'].get_matrix())


@SUITE.config()
def serial_rejects(c):
    r, s, names = serial(c)
    th = c.real('th', (3,))
    for n in names:
        d = {m: th[i] for i, m in enumerate(names) if m != n}
        c.raises('missing joint %s is an error' % n, lambda: s.forward_kinematics(d), ValueError)


@SUITE.config()
def jacobian_forms(c):
    r, s, names = serial(c)
    th = c.real('th', (2, 3))
    ref = s.jacobian(th)
    one = s.jacobian(th[0])
    c.true('shape', ref.shape == (2, 6, 3) and one.shape == (1, 6, 3))
    c.eq('single equals row of the batch', one[0], ref[0])
    vals = [th[0, i].item() for i in range(3)]
    c.eq('list', s.jacobian(vals), one)
    c.eq('function form', calc_jacobian(s, th), ref)
    for k, order in (('given', names), ('reversed', names[::-1])):
        c.eq('dict, keys ' + k, s.jacobian({n: vals[names.index(n)] for n in order}), one)
        c.eq('batched dict, keys ' + k, s.jacobian({n: th[:, names.index(n)] for n in order}), ref)


def arr(t):
    return np.array(t.tolist(), dtype=np.float64)


@SUITE.config()
def numpy_forms(c):
    r, ch, names = tree(c)
    th = c.real('th', (2, len(names)))
    ref = ch.forward_kinematics(th)
    same(c, '2-D array', ch.forward_kinematics(arr(th)), ref)
    same(c, '1-D array', ch.forward_kinematics(arr(th[0])), ch.forward_kinematics(th[0]))
    same(c, 'dict of arrays', ch.forward_kinematics({n: arr(th[:, i]) for i, n in list(enumerate(names))[::-1]}), ref)
    s = pk.SerialChain(ch, 'a2', dtype=D64)
    q = th[:, :3]
    c.eq('serial array', s.forward_kinematics(arr(q)).get_matrix(), s.forward_kinematics(q).get_matrix())
    c.eq('serial 1-D array', s.forward_kinematics(arr(q[0])).get_matrix(), s.forward_kinematics(q[0]).get_matrix())
    c.eq('serial dict of arrays', s.forward_kinematics(
        {n: arr(q[:, i]) for i, n in enumerate(s.get_joint_parameter_names())}).get_matrix(), s.forward_kinematics(q).get_matrix())
    c.eq('jacobian array', s.jacobian(arr(q)), s.jacobian(q))
    c.eq('clamp array', ch.clamp(arr(th)), th)


@SUITE.config()
def many_joints(c):
    """two dozen joints: names with numbers, in an order that is neither alphabetical nor the tree's"""
    r = Robot(c, LARGE['brush'])
    ch = r.chain()
    names = ['j_' + n for n in r.joints()]
    c.true('joint names', ch.get_joint_parameter_names() == names)
    th = c.real('th', (1, len(names)))
    ref = ch.forward_kinematics(th)
    for k, ks in (('sorted', sorted(names)), ('reversed', names[::-1])):
        same(c, 'dict, keys ' + k, ch.forward_kinematics({n: th[:, names.index(n)] for n in ks}), ref)
    same(c, 'list', ch.forward_kinematics([th[0, i].item() for i in range(len(names))]), ref)
    for f in ('t03', 's10', 'palm'):
        out = ch.forward_kinematics(th, frame_indices=ch.get_frame_indices(f))
        c.true('exactly the requested frame', list(out) == [f])
        c.eq('requested frame', out[f].get_matrix(), ref[f].get_matrix())
    for n in ('j_s10', 'j_t11', names[0], names[-1]):
        c.raises('missing joint %s is an error' % n, lambda: ch.forward_kinematics({m: th[:, i] for i, m in enumerate(names) if m != n}), ValueError)
