"""Compiled MuJoCo models whose numbers are symbolic, and MuJoCo's own kinematics as reference.

The model is compiled by MuJoCo from the text; its arrays are then overwritten with arbitrary numbers, and the loader
under test sees that compiled model instead of compiling again."""
import mujoco
import numpy as np
import torch
from symtorch import dag as D
from symtorch.tensor import SymNum, mknum, node_of_number
from symtorch.h import *


class SymArray(np.ndarray):
    """A float array that may hold symbolic numbers; its arithmetic keeps them."""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        plain = [np.asarray(x) for x in inputs]
        sym = any(float(v) in D._magic or -float(v) in D._magic for x in plain if x.dtype.kind == 'f' for v in x.flat)
        ops = {np.add: D.add, np.subtract: D.sub, np.multiply: D.mul, np.divide: D.div, np.negative: D.neg}
        if not sym or method != '__call__' or ufunc not in ops:
            r = getattr(ufunc, method)(*[x.view(np.ndarray) if isinstance(x, SymArray) else x for x in inputs],
                                       **{k: v for k, v in kw.items() if k != 'out'})
            return r
        b = np.broadcast_arrays(*plain)
        out = np.empty(b[0].shape)
        for i in np.ndindex(b[0].shape):
            out[i] = float(mknum(ops[ufunc](*[D.const(float(x[i])) for x in b])))
        return out.view(SymArray) if out.ndim else np.float64(out)


class View:
    def __init__(self, v):
        self.__dict__['v'] = v

    def __getattr__(self, n):
        x = getattr(self.v, n)
        return x.view(SymArray) if isinstance(x, np.ndarray) and x.dtype.kind == 'f' else x


class Model:
    """the compiled model as the loader sees it"""

    def __init__(self, m):
        self.m = m

    def __getattr__(self, n):
        x = getattr(self.m, n)
        if n in ('body', 'joint', 'jnt', 'site', 'geom'):
            return lambda *a: View(x(*a))
        return x.view(SymArray) if isinstance(x, np.ndarray) and x.dtype.kind == 'f' else x


class Handed:
    """stands for mujoco.MjModel: hands out the prepared model for its text"""

    def __init__(self, text, model):
        self.text, self.model, self.used = text, model, False

    def from_xml_string(self, xml, *a, **k):
        assert xml == self.text
        self.used = True
        return Model(self.model)


class Lib:
    """stands for the mujoco module"""

    def __init__(self, text, model):
        self.MjModel = Handed(text, model)

    def __getattr__(self, n):
        x = getattr(mujoco, n)
        if type(x).__name__ == 'builtin_function_or_method':
            return lambda *a, **k: x(*[y.m if isinstance(y, Model) else y for y in a], **k)
        return x


class handing:
    """within this context the loader gets the prepared model"""

    def __init__(self, text, model):
        self.lib = Lib(text, model)

    def __enter__(self):
        import pytorch_kinematics.mjcf as M
        self.mod, self.old = M, {}
        for n, x in list(vars(M).items()):
            new = self.lib if x is mujoco else self.lib.MjModel if x is mujoco.MjModel else None
            if new is not None:
                self.old[n] = x
                setattr(M, n, new)

    def __exit__(self, et, e, tb):
        for n, x in self.old.items():
            setattr(self.mod, n, x)
        if et is None and not self.lib.MjModel.used:
            raise D.EngineError('the loader does not obtain its model from MjModel.from_xml_string')


def put(arr, i, t):
    """writes numbers (possibly symbolic) into a model array"""
    v = t.tolist() if isinstance(t, torch.Tensor) else t
    arr[i] = [float(x) for x in v] if isinstance(v, (list, tuple)) else float(v)


class Mj:
    """a compiled model with arbitrary numbers"""

    def __init__(self, c, text, joint_pos=False, geoms=False, symbolic=True):
        self.text = text
        self.m = m = mujoco.MjModel.from_xml_string(text)
        self.name = [m.body(i).name for i in range(m.nbody)]
        self.parent = [int(m.body_parentid[i]) for i in range(m.nbody)]
        self.body, self.site, self.geom, self.joint = {}, {}, {}, {}
        for i in range(1, m.nbody):
            self.body[i] = self.pose(c, 'b%d' % i, m.body_pos, m.body_quat, i, symbolic)
        self.body[0] = I4()
        for i in range(m.nsite):
            self.site[i] = self.pose(c, 's%d' % i, m.site_pos, m.site_quat, i, symbolic)
        if geoms:
            for i in range(m.ngeom):
                self.geom[i] = self.pose(c, 'g%d' % i, m.geom_pos, m.geom_quat, i, symbolic)
        for j in range(m.njnt):
            t = int(m.jnt_type[j])
            if t not in (2, 3):
                continue
            adr = int(m.jnt_qposadr[j])
            if symbolic:
                ax, ref = c.unit('ax%d' % j, dim=3), c.scalar('ref%d' % j)
                put(m.jnt_axis, j, ax)
                put(m.qpos0, adr, ref)
                ref = ref if isinstance(ref, torch.Tensor) else torch.tensor(float(ref), dtype=D64)
            else:
                ax, ref = t64(m.jnt_axis[j].tolist()), t64(float(m.qpos0[adr]))
            p = t64(m.jnt_pos[j].tolist())
            if joint_pos and symbolic:
                p = c.real('jp%d' % j, (3,))
                put(m.jnt_pos, j, p)
            self.joint[int(m.jnt_bodyid[j])] = (m.joint(j).name, t, ax, ref, p)
        self.parents = self.parent

    def pose(self, c, name, pos, quat, i, symbolic):
        if not symbolic:
            q = t64([round(v, 12) for v in quat[i].tolist()])
            put(quat, i, q)
            return make44(quat_to_mat(c, q), t64(pos[i].tolist()))
        p, q = c.real(name + 'p', (3,)), c.unit(name + 'q', dim=4)
        put(pos, i, p)
        put(quat, i, q)
        return make44(quat_to_mat(c, q), p)

    def local(self, i, q):
        """pose of body i in its parent at the joint value q (B,): mj_kinematics"""
        T = self.body[i]
        if i not in self.joint:
            return T
        _, t, ax, ref, p = self.joint[i]
        d = q - ref
        if t == 2:
            return T @ prism(ax.expand(d.shape + (3,)), d)
        A, B = make44(I3(), p), make44(I3(), -p)
        return T @ A @ rot_trans(ax.expand(d.shape + (3,)), d) @ B

    def build(self, fn, *a, **k):
        with handing(self.text, self.m):
            return fn(self.text, *a, **k)
