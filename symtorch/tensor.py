"""Symbolic tensors: the real code runs under the real PyTorch dispatcher, with every
float/bool tensor replaced by a wrapper whose storage is an int64 tensor of DAG ids.

View and data-movement kernels run natively on the id tensor, so aliasing, in-place
writes, broadcasting and indexing have PyTorch's own semantics; arithmetic kernels
build DAG nodes element by element.
"""
import math
import operator
from fractions import Fraction

import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

from . import dag as D
from .dag import EngineError

aten = torch.ops.aten
CUR = [None]          # current Ctx (symbolic mode)
ROUND32 = [False]     # model float64 -> float32 casts as an uninterpreted rounding
OPCOUNT = {}


def ctx():
    if CUR[0] is None:
        raise EngineError('symbolic tensor used outside a symbolic run')
    return CUR[0]


class Sym(torch.Tensor):
    __slots__ = ['ids']
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, ids, dtype):
        r = torch.Tensor._make_wrapper_subclass(
            cls, ids.size(), strides=ids.stride(), storage_offset=ids.storage_offset(),
            dtype=dtype, device='cpu', requires_grad=False)
        r.ids = ids
        return r

    def __init__(self, ids, dtype):
        pass

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __bool__(self):
        if self.numel() != 1:
            raise RuntimeError('Boolean value of Tensor with more than one value is ambiguous')
        return ctx().decide(D.tobool(int(self.ids.reshape(()).item())))

    def item(self):
        if self.numel() != 1:
            raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % self.numel())
        return realise(int(self.ids.reshape(()).item()), self.dtype)

    def tolist(self):
        def rec(t):
            if t.dim() == 0:
                return realise(int(t.item()), self.dtype)
            return [rec(x) for x in t]
        return rec(self.ids)

    def __float__(self):
        return float(self.item())

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        r = Sym(self.ids.clone(), self.dtype)
        if self.requires_grad:
            r.requires_grad_()
        memo[id(self)] = r
        return r

    def __repr__(self, *a, **k):
        return 'Sym(%s, %s)' % (tuple(self.shape), self.dtype)

    def __format__(self, spec):
        return repr(self)

    def numpy(self, *a, **k):
        raise EngineError('numpy() of a symbolic tensor')

    def __reduce_ex__(self, proto):
        raise EngineError('pickling a symbolic tensor')


class SymNum(float):
    """A Python float that stands for a DAG node.  Its float value is a unique magic number,
    so it survives C boundaries; Python arithmetic on it stays symbolic."""
    __slots__ = ('node',)

    def __new__(cls, node):
        r = float.__new__(cls, D.magic(node))
        r.node = node
        return r

    def _b(self, o, f, rev=False):
        n = node_of_number(o)
        if n is None:
            return NotImplemented
        r = f(n, self.node) if rev else f(self.node, n)
        return mknum(r)

    def __add__(self, o): return self._b(o, D.add)
    def __radd__(self, o): return self._b(o, D.add, True)
    def __sub__(self, o): return self._b(o, D.sub)
    def __rsub__(self, o): return self._b(o, D.sub, True)
    def __mul__(self, o): return self._b(o, D.mul)
    def __rmul__(self, o): return self._b(o, D.mul, True)
    def __truediv__(self, o): return self._b(o, D.div)
    def __rtruediv__(self, o): return self._b(o, D.div, True)
    def __neg__(self): return mknum(D.neg(self.node))
    def __pos__(self): return self
    def __abs__(self): return mknum(D.abs_(self.node))

    def __pow__(self, o):
        n = node_of_number(o)
        if n is not None and D.isconst(n):
            return mknum(D.power(self.node, D.cval(n)))
        return NotImplemented

    def _c(self, o, f):
        n = node_of_number(o)
        if n is None:
            return NotImplemented
        return ctx().decide(f(self.node, n))

    def __lt__(self, o): return self._c(o, D.lt)
    def __le__(self, o): return self._c(o, D.le)
    def __gt__(self, o): return self._c(o, lambda a, b: D.lt(b, a))
    def __ge__(self, o): return self._c(o, lambda a, b: D.le(b, a))
    def __eq__(self, o): return self._c(o, D.eq)

    def __ne__(self, o):
        r = self._c(o, D.eq)
        return r if r is NotImplemented else not r

    def __hash__(self): return hash(self.node)
    def __bool__(self): return ctx().decide(D.not_(D.eq(self.node, D.ZERO)))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def mknum(n):
    if D.OPS[n] == 'const':
        return float(D.ARGS[n])
    if D.OPS[n] == 'special':
        return float(D.ARGS[n])
    if n == D.PI:
        return math.pi
    return SymNum(n)


def node_of_number(o):
    if isinstance(o, SymNum):
        return o.node
    if isinstance(o, (bool, int, float)):
        return D.const(o)
    try:
        import numpy as np
        if isinstance(o, np.number):
            return D.const(float(o))
    except Exception:
        pass
    return None


class _SymFloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class symfloat(metaclass=_SymFloatMeta):
    """Injected as `float` into the modules under test: like float, but keeps symbols."""

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x.item()
        if isinstance(x, SymNum):
            return x
        v = float(x)
        if isinstance(x, str):
            n = D._magic.get(v)
            if n is None and -v in D._magic:
                return mknum(D.neg(D._magic[-v]))
            if n is not None:
                return mknum(n)
        return v


def realise(n, dtype):
    if D.OPS[n] == 'const':
        v = D.ARGS[n]
        if dtype == torch.bool:
            return bool(v)
        if not dtype.is_floating_point:
            return int(v)
        return float(v)
    if D.BOOL[n] or dtype == torch.bool:
        return ctx().decide(D.tobool(n))
    if not dtype.is_floating_point:
        return ctx().pick_int(n)
    return mknum(n)


# ------------------------------------------------------------------ helpers
_FLOATS = (torch.float32, torch.float64, torch.float16, torch.bfloat16)


def lift_ids(t):
    """plain tensor -> id tensor"""
    if isinstance(t, Sym):
        return t.ids
    if t.dtype == torch.bool:
        return t.to(torch.int64)   # False->0 True->1 by construction
    if t.dtype.is_floating_point or not t.dtype.is_complex:
        flat = t.detach().reshape(-1).tolist()
        return torch.tensor([D.const(v) for v in flat], dtype=torch.int64).reshape(t.shape)
    raise EngineError('lift of dtype %s' % t.dtype)


def sc(v):
    """scalar (python number / 0-dim tensor) -> node"""
    if isinstance(v, torch.Tensor):
        return int(lift_ids(v).reshape(()).item())
    n = node_of_number(v)
    if n is None:
        raise EngineError('scalar %r' % (v,))
    return n


def wrap(ids, dtype):
    """ints whose ids are all constant become plain tensors"""
    if dtype.is_floating_point or dtype == torch.bool:
        return Sym(ids, dtype)
    flat = ids.reshape(-1).tolist()
    if all(D.OPS[i] == 'const' for i in flat):
        return torch.tensor([int(D.ARGS[i]) for i in flat], dtype=dtype).reshape(ids.shape)
    return Sym(ids, dtype)


def concretise_bool(t):
    """Sym bool tensor -> plain bool tensor, forking where needed."""
    if not isinstance(t, Sym):
        return t
    flat = t.ids.reshape(-1).tolist()
    if t.dtype == torch.bool:
        return torch.tensor([ctx().decide(D.tobool(i)) for i in flat], dtype=torch.bool).reshape(t.shape)
    if not t.dtype.is_floating_point:
        return torch.tensor([realise(i, t.dtype) for i in flat], dtype=t.dtype).reshape(t.shape)
    raise EngineError('float tensor used as index')


def idlist(ids):
    return ids.reshape(-1).tolist()


def from_list(lst, shape):
    return torch.tensor(lst, dtype=torch.int64).reshape(shape)


def emap(fn, *tensors):
    ids = [lift_ids(t) if isinstance(t, torch.Tensor) else torch.tensor(sc(t)) for t in tensors]
    ids = torch.broadcast_tensors(*ids) if len(ids) > 1 else ids
    shape = ids[0].shape
    ls = [idlist(i) for i in ids]
    return from_list([fn(*xs) for xs in zip(*ls)], shape)


def result_dtype(*args):
    """dtype promotion for elementwise ops over tensors and scalars (PyTorch categories)."""
    ts = []
    for a in args:
        if isinstance(a, Sym):
            ts.append(torch.empty([1] * min(a.dim(), 1), dtype=a.dtype))
        elif isinstance(a, torch.Tensor):
            ts.append(torch.empty([1] * min(a.dim(), 1), dtype=a.dtype))
        elif isinstance(a, bool):
            ts.append(a)
        elif isinstance(a, int):
            ts.append(a)
        elif a is None:
            continue
        else:
            ts.append(1.0)
    r = ts[0]
    if len(ts) == 1:
        return r.dtype if isinstance(r, torch.Tensor) else torch.get_default_dtype()
    out = None
    # result_type handles pairs; fold, keeping dimensionality categories
    if len(ts) == 2:
        return torch.result_type(ts[0], ts[1])
    acc = ts[0]
    for t in ts[1:]:
        d = torch.result_type(acc, t)
        dim = max(x.dim() if isinstance(x, torch.Tensor) else 0 for x in (acc, t))
        acc = torch.empty([1] * dim, dtype=d)
    return acc.dtype


def fl(dtype):
    return dtype if dtype.is_floating_point else torch.get_default_dtype()


def cast_ids(ids, src, dst):
    if src == dst:
        return ids.clone()
    if dst == torch.bool:
        return from_list([D.tobool(i) for i in idlist(ids)], ids.shape)
    if src == torch.bool:
        return from_list([D.tonum(i) for i in idlist(ids)], ids.shape)
    if dst.is_floating_point:
        if ROUND32[0] and src == torch.float64 and dst in (torch.float32, torch.float16, torch.bfloat16):
            return from_list([D.rnd32(i) for i in idlist(ids)], ids.shape)
        return ids.clone()
    if src.is_floating_point:
        return from_list([D.ite(D.lt(i, 0), D.ceil(i), D.floor(i)) for i in idlist(ids)], ids.shape)
    return ids.clone()


# ------------------------------------------------------------------ handlers
H = {}


def reg(*ops):
    def deco(f):
        for o in ops:
            H[o] = f
        return f
    return deco


def _packet(func):
    return func._overloadpacket if hasattr(func, '_overloadpacket') else func


# ---- data movement: run the real kernel on ids
MOVE = set()
for _n in ('''view _unsafe_view reshape _reshape_alias select slice permute transpose t expand unsqueeze squeeze
 as_strided unbind split split_with_sizes split_with_sizes_copy diagonal alias detach
 detach_ clone contiguous flip roll repeat tile unfold narrow movedim swapaxes swapdims select_copy slice_copy
 index_select view_copy expand_copy permute_copy transpose_copy unsqueeze_copy squeeze_copy
 diag_embed tril triu select_backward slice_backward diagonal_backward unfold_backward lift_fresh lift
 lift_fresh_copy constant_pad_nd rot90 repeat_interleave diag tensor_split chunk hsplit vsplit
 select_scatter slice_scatter diagonal_scatter as_strided_scatter unsqueeze_ squeeze_ transpose_ t_ swapdims_
 swapaxes_ as_strided_ _conj resolve_conj resolve_neg view_as_real atleast_1d atleast_2d atleast_3d
 pixel_shuffle channel_shuffle take_along_dim broadcast_to new_empty_strided ravel flatten unflatten
 tril_ triu_ meshgrid broadcast_tensors _view_copy alias_copy detach_copy resize_ expand_as view_as
 diagonal_copy as_strided_copy unbind_copy split_copy'''.split()):
    if hasattr(aten, _n):
        MOVE.add(getattr(aten, _n))


def run_move(func, args, kwargs):
    dts = []

    def conv(a):
        if isinstance(a, Sym):
            dts.append(a.dtype)
            return a.ids
        if isinstance(a, torch.Tensor):
            if a.dtype.is_floating_point or a.dtype == torch.bool:
                dts.append(a.dtype)
                return lift_ids(a)
            return a
        return a
    if _packet(func) is aten.constant_pad_nd:
        args = list(args)
        if len(args) > 2:
            args[2] = sc(args[2])
        elif 'value' in kwargs:
            kwargs = dict(kwargs, value=sc(kwargs['value']))
    a2 = tree_map(conv, args)
    k2 = {k: (conv(v) if isinstance(v, torch.Tensor) else v) for k, v in kwargs.items()}
    if not dts:
        return func(*args, **kwargs)
    dt = dts[0]
    k2.pop('memory_format', None)
    try:
        out = func(*a2, **k2)
    except RuntimeError:
        # the memory layout of intermediate results is not modelled: where the real code would refuse the view,
        # the concrete run of this path does
        if _packet(func) not in (aten.view, aten._unsafe_view):
            raise
        out = func(a2[0].contiguous(), *a2[1:], **k2)
    if func._schema.is_mutable and isinstance(args[0], Sym):
        return args[0]
    return tree_map(lambda t: Sym(t, dt) if isinstance(t, torch.Tensor) else t, out)


@reg(aten.copy_, aten.copy)
def _copy_(func, args, kwargs):
    dst, src = args[0], args[1]
    if not isinstance(dst, Sym):
        if dst.dtype.is_floating_point or dst.dtype == torch.bool:
            raise EngineError('in-place write of a symbolic value into a plain tensor')
        return func(dst, concretise_bool(src) if src.dtype == torch.bool else _toplain_int(src), **kwargs)
    v = cast_ids(lift_ids(src), src.dtype, dst.dtype)
    if _packet(func) is aten.copy:
        return Sym(v.expand(dst.shape).clone(), dst.dtype)
    dst.ids.copy_(v.expand(dst.shape) if v.dim() <= dst.dim() else v.reshape(dst.shape))
    return dst


def _toplain_int(t):
    if not isinstance(t, Sym):
        return t
    return torch.tensor([realise(i, t.dtype) for i in idlist(t.ids)], dtype=t.dtype).reshape(t.shape)


@reg(aten.cat, aten.stack, aten.concat, aten.hstack, aten.vstack)
def _cat(func, args, kwargs):
    ts = list(args[0])
    dt = result_dtype(*ts) if len(ts) > 1 else ts[0].dtype
    # result_dtype treats 0-dim specially; cat promotes everything equally
    for t in ts:
        dt = torch.promote_types(dt, t.dtype)
    idt = [cast_ids(lift_ids(t), t.dtype, dt) for t in ts]
    return wrap(func(idt, *args[1:], **{k: v for k, v in kwargs.items() if k != 'out'}), dt)


@reg(aten._to_copy)
def _to_copy(func, args, kwargs):
    t = args[0]
    dt = kwargs.get('dtype') or t.dtype
    if kwargs.get('device') is not None and torch.device(kwargs['device']).type not in ('cpu',):
        raise EngineError('device move')
    return wrap(cast_ids(lift_ids(t), t.dtype, dt), dt)


@reg(aten._local_scalar_dense)
def _lsd(func, args, kwargs):
    t = args[0]
    v = realise(int(t.ids.reshape(()).item()), t.dtype)
    return float(v) if isinstance(v, SymNum) else v


@reg(aten.is_same_size)
def _iss(func, args, kwargs):
    return args[0].shape == args[1].shape


# ---- factories
def _fdtype(kwargs, like=None, default=None):
    dt = kwargs.get('dtype')
    if dt is None:
        dt = like.dtype if like is not None else (default or torch.get_default_dtype())
    return dt


FACT = {}
for _n in ('empty', 'zeros', 'ones', 'full', 'eye', 'rand', 'randn', 'empty_strided', 'zeros_like', 'ones_like',
           'full_like', 'empty_like', 'new_zeros', 'new_ones', 'new_full', 'new_empty', 'rand_like', 'randn_like',
           'scalar_tensor', 'linspace', 'arange', 'empty_permuted', 'normal', 'uniform', 'tril_indices',
           'new_empty_strided', 'randint', 'randperm', 'normal_functional', 'normal_', 'uniform_', 'bernoulli_',
           'exponential_', 'random_'):
    if hasattr(aten, _n):
        FACT[getattr(aten, _n)] = _n


def factory(name, func, args, kwargs):
    like = args[0] if args and isinstance(args[0], torch.Tensor) else None
    dt = _fdtype(kwargs, like)
    if name == 'arange' and kwargs.get('dtype') is None:
        dt = torch.int64 if all(isinstance(a, int) for a in args) else torch.get_default_dtype()
    if name in ('full', 'full_like', 'new_full', 'scalar_tensor') and kwargs.get('dtype') is None and like is None:
        v = args[1] if name == 'full' else args[0]
        dt = torch.bool if isinstance(v, bool) else torch.int64 if isinstance(v, int) else torch.get_default_dtype()
    if name in ('randint', 'randperm'):
        if isinstance(dt, torch.dtype) and not dt.is_floating_point:
            dt = torch.int64
    if not (dt.is_floating_point or dt == torch.bool):
        if name in ('randint', 'randperm'):
            raise EngineError(name)
        return func(*[_toplain_int(a) if isinstance(a, Sym) and not a.dtype.is_floating_point
                      else (torch.empty(a.shape, dtype=a.dtype) if isinstance(a, Sym) else a) for a in args], **kwargs)
    if name in ('zeros', 'empty', 'empty_strided', 'empty_permuted'):
        return Sym(torch.zeros(list(args[0]), dtype=torch.int64), dt)
    if name == 'ones':
        return Sym(torch.ones(list(args[0]), dtype=torch.int64), dt)
    if name == 'full':
        return Sym(torch.full(list(args[0]), _boolfix(sc(args[1]), dt), dtype=torch.int64), dt)
    if name == 'eye':
        return Sym(torch.eye(*args, dtype=torch.int64), dt)
    if name in ('zeros_like', 'empty_like'):
        return Sym(torch.zeros(args[0].shape, dtype=torch.int64), dt)
    if name == 'ones_like':
        return Sym(torch.ones(args[0].shape, dtype=torch.int64), dt)
    if name == 'full_like':
        return Sym(torch.full(args[0].shape, _boolfix(sc(args[1]), dt), dtype=torch.int64), dt)
    if name in ('new_zeros', 'new_empty', 'new_empty_strided'):
        return Sym(torch.zeros(list(args[1]), dtype=torch.int64), dt)
    if name == 'new_ones':
        return Sym(torch.ones(list(args[1]), dtype=torch.int64), dt)
    if name == 'new_full':
        return Sym(torch.full(list(args[1]), _boolfix(sc(args[2]), dt), dtype=torch.int64), dt)
    if name == 'scalar_tensor':
        return Sym(torch.tensor(sc(args[0])), dt)
    if name in ('rand', 'randn'):
        return ctx().random(name, list(args[0]), dt)
    if name in ('rand_like', 'randn_like'):
        return ctx().random(name[:-5], list(args[0].shape), dt)
    if name in ('linspace', 'arange'):
        if any(isinstance(a, (Sym, SymNum)) for a in args):
            raise EngineError(name + ' with symbolic ends')
        k = dict(kwargs)
        k['dtype'] = torch.float64
        t = func(*args, **k)
        return Sym(lift_ids(t), dt)
    if name in ('normal_', 'uniform_'):
        lo = args[1] if len(args) > 1 else kwargs.get('mean' if name == 'normal_' else 'from', 0.0)
        hi = args[2] if len(args) > 2 else kwargs.get('std' if name == 'normal_' else 'to', 1.0)
        r = ctx().random('randn' if name == 'normal_' else 'rand', list(args[0].shape), dt)
        lo, hi = sc(lo), sc(hi)
        w = hi if name == 'normal_' else D.sub(hi, lo)
        args[0].ids.copy_(emap(lambda x: D.add(D.mul(x, w), lo), r))
        return args[0]
    if name == 'normal':
        if len(args) >= 3 and not isinstance(args[2], torch.Tensor):
            r = ctx().random('randn', list(args[2]), dt)
            lo, w = sc(args[0]), sc(args[1])
            return Sym(emap(lambda x: D.add(D.mul(x, w), lo), r), dt)
        m = args[0]
        s = args[1] if len(args) > 1 else 1.0
        shp = torch.broadcast_shapes(*[a.shape for a in (m, s) if isinstance(a, torch.Tensor)])
        dt = m.dtype if isinstance(m, torch.Tensor) else s.dtype
        r = ctx().random('randn', list(shp), dt)
        return Sym(emap(lambda x, mm, ss: D.add(D.mul(x, ss), mm), r, m, s), dt)
    raise EngineError('factory ' + name)


def _boolfix(n, dt):
    return D.tobool(n) if dt == torch.bool else n


# ---- elementwise
def _sub_alpha(a, b, alpha=1):
    return emap(lambda x, y: D.sub(x, y), a, b)


def ew(name, fn, kind):
    """kind: 'arith' | 'float' | 'cmp' | 'bool'"""
    EW[name] = (fn, kind)


EW = {}
ew('mul', D.mul, 'arith')
ew('multiply', D.mul, 'arith')
ew('div', D.div, 'float')
ew('true_divide', D.div, 'float')
ew('neg', D.neg, 'arith')
ew('negative', D.neg, 'arith')
ew('abs', D.abs_, 'arith')
ew('absolute', D.abs_, 'arith')
ew('sqrt', D.sqrt, 'float')
ew('rsqrt', lambda a: D.div(D.ONE, D.sqrt(a)), 'float')
ew('reciprocal', lambda a: D.div(D.ONE, a), 'float')
ew('square', lambda a: D.mul(a, a), 'arith')
ew('sin', D.sin, 'float')
ew('cos', D.cos, 'float')
ew('tan', D.tan, 'float')
ew('asin', D.asin, 'float')
ew('acos', D.acos, 'float')
ew('arcsin', D.asin, 'float')
ew('arccos', D.acos, 'float')
ew('atan', lambda a: D.atan2(a, D.ONE), 'float')
ew('atan2', D.atan2, 'float')
ew('arctan2', D.atan2, 'float')
ew('hypot', lambda a, b: D.sqrt(D.add(D.mul(a, a), D.mul(b, b))), 'float')
ew('sinc', lambda a: D.ite(D.eq(a, D.ZERO), D.ONE, D.div(D.sin(D.mul(D.PI, a)), D.mul(D.PI, a))), 'float')
ew('exp', lambda a: D.uf('exp', a), 'float')
ew('log', lambda a: D.uf('log', a), 'float')
ew('tanh', lambda a: D.uf('tanh', a), 'float')
ew('sigmoid', lambda a: D.div(D.ONE, D.add(D.ONE, D.uf('exp', D.neg(a)))), 'float')
ew('sign', D.sign, 'arith')
ew('sgn', D.sign, 'arith')
ew('relu', lambda a: D.max_(a, D.ZERO), 'arith')
ew('floor', D.floor, 'arith')
ew('ceil', D.ceil, 'arith')
ew('trunc', lambda a: D.ite(D.lt(a, 0), D.ceil(a), D.floor(a)), 'arith')
ew('deg2rad', lambda a: D.mul(D.mul(a, D.PI), D.const(Fraction(1, 180))), 'float')
ew('rad2deg', lambda a: D.div(D.mul(a, D.const(180)), D.PI), 'float')
ew('maximum', D.max_, 'arith')
ew('minimum', D.min_, 'arith')
ew('fmax', D.max_, 'arith')
ew('fmin', D.min_, 'arith')
ew('copysign', lambda a, b: D.ite(D.lt(b, D.ZERO), D.neg(D.abs_(a)), D.abs_(a)), 'float')
ew('remainder', lambda a, b: D.sub(a, D.mul(b, D.floor(D.div(a, b)))), 'arith')
ew('fmod', lambda a, b: D.sub(a, D.mul(b, _trunc(D.div(a, b)))), 'arith')
ew('floor_divide', lambda a, b: D.floor(D.div(a, b)), 'arith')
ew('positive', lambda a: a, 'arith')
ew('lt', D.lt, 'cmp')
ew('le', D.le, 'cmp')
ew('gt', lambda a, b: D.lt(b, a), 'cmp')
ew('ge', lambda a, b: D.le(b, a), 'cmp')
ew('eq', D.eq, 'cmp')
ew('ne', lambda a, b: D.not_(D.eq(a, b)), 'cmp')
ew('greater', lambda a, b: D.lt(b, a), 'cmp')
ew('less', D.lt, 'cmp')
ew('logical_and', lambda a, b: D.and_(D.tobool(a), D.tobool(b)), 'cmp')
ew('logical_or', lambda a, b: D.or_(D.tobool(a), D.tobool(b)), 'cmp')
ew('logical_xor', lambda a, b: D.xor(D.tobool(a), D.tobool(b)), 'cmp')
ew('logical_not', lambda a: D.not_(D.tobool(a)), 'cmp')
ew('isnan', D.isnan, 'cmp')
ew('isinf', D.isinf, 'cmp')
ew('isfinite', lambda a: D.not_(D.or_(D.isnan(a), D.isinf(a))), 'cmp')
ew('isposinf', lambda a: D.eq(a, D.INF), 'cmp')
ew('isneginf', lambda a: D.eq(a, D.NINF), 'cmp')
ew('signbit', lambda a: D.lt(a, D.ZERO), 'cmp')
ew('bitwise_and', lambda a, b: D.and_(a, b), 'bool')
ew('bitwise_or', lambda a, b: D.or_(a, b), 'bool')
ew('bitwise_xor', lambda a, b: D.xor(a, b), 'bool')
ew('bitwise_not', lambda a: D.not_(a), 'bool')
ew('__and__', lambda a, b: D.and_(a, b), 'bool')
ew('__or__', lambda a, b: D.or_(a, b), 'bool')
ew('__xor__', lambda a, b: D.xor(a, b), 'bool')
ew('addcmul', None, 'arith')
ew('addcdiv', None, 'float')
ew('lerp', lambda a, b, w: D.add(a, D.mul(w, D.sub(b, a))), 'float')
ew('nan_to_num', None, 'arith')


def _trunc(a):
    return D.ite(D.lt(a, 0), D.ceil(a), D.floor(a))


def elementwise(base, func, args, kwargs):
    fn, kind = EW[base]
    args = list(args)
    if base in ('div', 'true_divide') and kwargs.get('rounding_mode'):
        rm = kwargs['rounding_mode']
        fn = (lambda a, b: D.floor(D.div(a, b))) if rm == 'floor' else (lambda a, b: _trunc(D.div(a, b)))
        kind = 'arith'
    if base == 'addcmul':
        v = sc(kwargs.get('value', 1))
        fn = lambda a, b, c: D.add(a, D.mul(v, D.mul(b, c)))
    if base == 'addcdiv':
        v = sc(kwargs.get('value', 1))
        fn = lambda a, b, c: D.add(a, D.mul(v, D.div(b, c)))
    if base == 'nan_to_num':
        v = sc(args[1] if len(args) > 1 and args[1] is not None else kwargs.get('nan') or 0.0)
        args = args[:1]
        fn = lambda a: D.ite(D.isnan(a), v, a)
    dt = result_dtype(*args)
    if kind == 'cmp':
        out = torch.bool
    elif kind == 'float':
        out = fl(dt)
    elif kind == 'bool':
        if dt != torch.bool:
            raise EngineError('bitwise on ' + str(dt))
        out = dt
    else:
        out = dt
    targs = args
    if kind != 'cmp' and kind != 'bool' and out != torch.bool:
        targs = [_numeric(a) for a in args]
    ids = emap(fn, *targs)
    if out == torch.bool and kind == 'arith':
        ids = from_list([D.tobool(i) for i in idlist(ids)], ids.shape)
    return ids, out


def _numeric(a):
    if isinstance(a, Sym) and a.dtype == torch.bool:
        return Sym(cast_ids(a.ids, torch.bool, torch.float64), torch.float64)
    return a


def e_add(args, kwargs, sgn=1, rev=False):
    a, b = args[0], args[1]
    alpha = kwargs.get('alpha', args[2] if len(args) > 2 else 1)
    dt = result_dtype(a, b)
    a, b = _numeric(a), _numeric(b)
    if rev:
        a, b = b, a
        f = lambda x, y: D.sub(x, D.mul(al, y))
    elif sgn > 0:
        f = lambda x, y: D.add(x, D.mul(al, y))
    else:
        f = lambda x, y: D.sub(x, D.mul(al, y))
    al = sc(alpha)
    ids = emap(f, a, b)
    if dt == torch.bool:
        ids = from_list([D.tobool(i) for i in idlist(ids)], ids.shape)
    return ids, dt


def e_clamp(base, args, kwargs):
    x = args[0]
    names = {'clamp': ('min', 'max'), 'clip': ('min', 'max'), 'clamp_min': ('min',), 'clamp_max': ('max',),
             'hardtanh': ('min', 'max')}[base]
    vals = dict(zip(names, args[1:]))
    for n in ('min', 'max'):
        if n in kwargs:
            vals[n] = kwargs[n]
    lo, hi = vals.get('min'), vals.get('max')
    dt = result_dtype(*[v for v in (x, lo, hi) if v is not None])
    ids = lift_ids(x)
    t = Sym(ids, x.dtype)
    if lo is not None:
        t = Sym(emap(D.max_, t, lo), dt)
    if hi is not None:
        t = Sym(emap(D.min_, t, hi), dt)
    return t.ids, dt


def e_pow(args, kwargs):
    a, b = args[0], args[1]
    dt = result_dtype(a, b)
    if isinstance(b, torch.Tensor):
        bl = lift_ids(b)
        ids = emap(lambda x, y: D.power(x, D.cval(y)) if D.isconst(y) else D.uf('pow', x, y), a, Sym(bl, torch.float64))
    else:
        n = sc(b)
        if not D.isconst(n):
            raise EngineError('symbolic exponent')
        ids = emap(lambda x: D.power(x, D.cval(n)), a)
    return ids, dt


def e_where(args):
    if len(args) == 1:
        c = concretise_bool(args[0])
        return None
    c, a, b = args
    dt = result_dtype(a, b)
    ids = emap(lambda cc, x, y: D.ite(D.tobool(cc), x, y), c, _cast(a, dt), _cast(b, dt))
    return ids, dt


def _cast(a, dt):
    if isinstance(a, torch.Tensor):
        return Sym(cast_ids(lift_ids(a), a.dtype, dt), dt)
    n = sc(a)
    return Sym(torch.tensor(D.tobool(n) if dt == torch.bool else n), dt)


def e_round(args, kwargs):
    dec = kwargs.get('decimals', 0)
    if dec:
        raise EngineError('round decimals')
    return emap(D.rnd, args[0]), args[0].dtype


# ---- reductions
def _dims(x, dim):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return list(range(x.dim()))
    if isinstance(dim, int):
        dim = [dim]
    return [d % max(x.dim(), 1) for d in dim]


def reduce_(x, dim, keepdim, fold):
    """fold: list of nodes -> node"""
    ids = lift_ids(x)
    dims = _dims(x, dim)
    if x.dim() == 0:
        return from_list([fold(idlist(ids))], ())
    keep = [d for d in range(x.dim()) if d not in dims]
    p = ids.permute(keep + dims).reshape([ids.shape[d] for d in keep] + [int(math.prod(ids.shape[d] for d in dims))])
    n = p.shape[-1]
    flat = p.reshape(-1, n).tolist() if n > 0 else [[] for _ in range(int(math.prod(p.shape[:-1])))]
    out = from_list([fold(r) for r in flat], [ids.shape[d] for d in keep])
    if keepdim:
        for d in sorted(dims):
            out = out.unsqueeze(d)
    return out


def fsum(r):
    s = D.ZERO
    for x in r:
        s = D.add(s, D.tonum(x))
    return s


def fprod(r):
    s = D.ONE
    for x in r:
        s = D.mul(s, D.tonum(x))
    return s


def fand(r):
    s = 1
    for x in r:
        s = D.and_(s, D.tobool(x))
    return s


def for_(r):
    s = 0
    for x in r:
        s = D.or_(s, D.tobool(x))
    return s


def fmax(r):
    s = r[0]
    for x in r[1:]:
        s = D.max_(s, x)
    return s


def fmin(r):
    s = r[0]
    for x in r[1:]:
        s = D.min_(s, x)
    return s


def fargmax(r):
    # first maximal element (PyTorch CPU semantics)
    best, bi = r[0], D.const(0)
    for k, x in enumerate(r[1:], 1):
        c = D.lt(best, x)
        bi = D.ite(c, D.const(k), bi)
        best = D.ite(c, x, best)
    return bi


def fargmin(r):
    best, bi = r[0], D.const(0)
    for k, x in enumerate(r[1:], 1):
        c = D.lt(x, best)
        bi = D.ite(c, D.const(k), bi)
        best = D.ite(c, x, best)
    return bi


def _argn(func, args, kwargs):
    """normalise to a dict by schema"""
    d = {}
    for p, v in zip(func._schema.arguments, args):
        d[p.name] = v
    d.update(kwargs)
    return d


def reduction(base, func, args, kwargs):
    a = _argn(func, args, kwargs)
    x = a['self'] if 'self' in a else a['input']
    dim = a.get('dim')
    keep = a.get('keepdim', False)
    dt = x.dtype
    if base in ('sum', 'nansum'):
        out = a.get('dtype') or (torch.int64 if not dt.is_floating_point else dt)
        return wrap(reduce_(x, dim, keep, fsum), out)
    if base == 'prod':
        out = a.get('dtype') or (torch.int64 if not dt.is_floating_point else dt)
        return wrap(reduce_(x, dim, keep, fprod), out)
    if base == 'mean':
        dims = _dims(x, dim)
        n = math.prod([x.shape[d] for d in dims]) if x.dim() else 1
        return Sym(reduce_(x, dim, keep, lambda r: D.div(fsum(r), D.const(n))), a.get('dtype') or dt)
    if base in ('var', 'std'):
        raise EngineError(base)
    if base == 'any':
        return Sym(reduce_(x, dim, keep, for_), torch.bool)
    if base == 'all':
        return Sym(reduce_(x, dim, keep, fand), torch.bool)
    if base == 'argmax':
        return wrap(reduce_(x, dim, keep, fargmax), torch.int64)
    if base == 'argmin':
        return wrap(reduce_(x, dim, keep, fargmin), torch.int64)
    if base in ('max', 'min'):
        if 'other' in a:
            return Sym(emap(D.max_ if base == 'max' else D.min_, x, a['other']), result_dtype(x, a['other']))
        f = fmax if base == 'max' else fmin
        g = fargmax if base == 'max' else fargmin
        if dim is None:
            return wrap(reduce_(x, None, False, f), dt)
        return (wrap(reduce_(x, dim, keep, f), dt), wrap(reduce_(x, dim, keep, g), torch.int64))
    if base in ('amax', 'amin'):
        return wrap(reduce_(x, dim, keep, fmax if base == 'amax' else fmin), dt)
    if base == 'count_nonzero':
        return wrap(reduce_(x, dim, False, lambda r: fsum([D.tonum(D.tobool(i)) for i in r])), torch.int64)
    if base in ('linalg_vector_norm', 'norm'):
        o = a.get('ord', a.get('p', 2))
        o = 2 if o is None else o
        if isinstance(o, Sym):
            o = o.item()
        if o == 2:
            f = lambda r: D.sqrt(fsum([D.mul(i, i) for i in r])) if len(r) != 1 else D.abs_(r[0])
        elif o == 1:
            f = lambda r: fsum([D.abs_(i) for i in r])
        elif o == math.inf:
            f = lambda r: fmax([D.abs_(i) for i in r])
        elif o == -math.inf:
            f = lambda r: fmin([D.abs_(i) for i in r])
        elif o == 0:
            f = lambda r: fsum([D.tonum(D.tobool(i)) for i in r])
        else:
            raise EngineError('norm ord %r' % o)
        return Sym(reduce_(x, dim, keep, f), a.get('dtype') or fl(dt))
    raise EngineError('reduction ' + base)


RED = {'sum', 'prod', 'mean', 'any', 'all', 'argmax', 'argmin', 'max', 'min', 'amax', 'amin', 'linalg_vector_norm',
       'norm', 'count_nonzero', 'nansum'}


# ---- linear algebra
def mm_lists(A, B, n, k, m):
    out = []
    for i in range(n):
        for j in range(m):
            s = D.ZERO
            for l in range(k):
                x = A[i * k + l]
                if x == 0:
                    continue
                s = D.add(s, D.mul(x, B[l * m + j]))
            out.append(s)
    return out


def ids_bmm(a, b):
    bt, n, k = a.shape
    m = b.shape[2]
    if b.shape[0] != bt or b.shape[1] != k:
        raise RuntimeError('batch1 and batch2 must have the same number of batches / matching inner dim, got %s and %s'
                           % (tuple(a.shape), tuple(b.shape)))
    out = []
    for t in range(bt):
        out += mm_lists(idlist(a[t]), idlist(b[t]), n, k, m)
    return from_list(out, (bt, n, m))


def _same_dtype(*ts):
    d = {t.dtype for t in ts}
    if len(d) > 1:
        raise RuntimeError('expected scalar types to match but found ' + ', '.join(str(x) for x in d))
    return d.pop()


def linear(base, args, kwargs):
    if base in ('mm', 'bmm', 'mv', 'dot', 'vdot'):
        a, b = args[0], args[1]
        dt = _same_dtype(a, b)
        ia, ib = lift_ids(a), lift_ids(b)
        if base == 'bmm':
            return Sym(ids_bmm(ia, ib), dt)
        if base == 'mm':
            return Sym(ids_bmm(ia[None], ib[None])[0], dt)
        if base == 'mv':
            return Sym(ids_bmm(ia[None], ib[None, :, None])[0, :, 0], dt)
        return Sym(ids_bmm(ia[None, None], ib[None, :, None])[0, 0, 0], dt)
    if base in ('addmm', 'baddbmm', 'addbmm', 'addmv'):
        c, a, b = args[:3]
        dt = _same_dtype(a, b)
        be, al = sc(kwargs.get('beta', 1)), sc(kwargs.get('alpha', 1))
        ia, ib = lift_ids(a), lift_ids(b)
        if base == 'addmm':
            p = ids_bmm(ia[None], ib[None])[0]
        elif base == 'baddbmm':
            p = ids_bmm(ia, ib)
        elif base == 'addmv':
            p = ids_bmm(ia[None], ib[None, :, None])[0, :, 0]
        else:
            raise EngineError(base)
        return Sym(emap(lambda x, y: D.add(D.mul(be, x), D.mul(al, y)), c, Sym(p, dt)), dt)
    raise EngineError(base)


def cross(args, kwargs, func):
    a = _argn(func, args, kwargs)
    x, y = a['self'], a['other']
    dt = _same_dtype(x, y)
    ix, iy = torch.broadcast_tensors(lift_ids(x), lift_ids(y))
    dim = a.get('dim', -1)
    if dim is None:
        dim = next(d for d in range(ix.dim()) if ix.shape[d] == 3)
    ix, iy = ix.movedim(dim, -1), iy.movedim(dim, -1)
    shp = ix.shape
    if shp[-1] != 3:
        raise RuntimeError('inputs dimension %d must have length 3' % dim)
    out = []
    fx, fy = ix.reshape(-1, 3).tolist(), iy.reshape(-1, 3).tolist()
    for p, q in zip(fx, fy):
        for i, j in ((1, 2), (2, 0), (0, 1)):
            out.append(D.sub(D.mul(p[i], q[j]), D.mul(p[j], q[i])))
    return Sym(from_list(out, shp).movedim(-1, dim), dt)


def det_list(M, n):
    if n == 1:
        return M[0][0]
    if n == 2:
        return D.sub(D.mul(M[0][0], M[1][1]), D.mul(M[0][1], M[1][0]))
    s = D.ZERO
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        t = D.mul(M[0][j], det_list(minor, n - 1))
        s = D.add(s, t) if j % 2 == 0 else D.sub(s, t)
    return s


def det_ids(ids):
    n = ids.shape[-1]
    flat = ids.reshape(-1, n, n).tolist()
    return from_list([det_list(m, n) for m in flat], ids.shape[:-2])


def solve_ids(A, B):
    """Solution X of A X = B, as fresh symbols with that defining equation (A nonsingular)."""
    n = A.shape[-1]
    if B.shape[-2] != n:
        raise RuntimeError('linalg.solve: incompatible shapes')
    bs = torch.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = A.expand(bs + A.shape[-2:])
    B = B.expand(bs + B.shape[-2:])
    k = B.shape[-1]
    fa, fb = A.reshape(-1, n, n).tolist(), B.reshape(-1, n, k).tolist()
    out = []
    for a, b in zip(fa, fb):
        cols = [[b[i][j] for i in range(n)] for j in range(k)]
        xs = [ctx().linsolve(a, c) for c in cols]
        out += [xs[j][i] for i in range(n) for j in range(k)]
    return from_list(out, B.shape)


def try_linalg(base, args, kwargs, func):
    a = _argn(func, args, kwargs)
    if base in ('_linalg_solve_ex', 'linalg_solve', 'linalg_solve_ex'):
        A, B = a['A'], a['B']
        dt = _same_dtype(A, B)
        left = a.get('left', True)
        iA, iB = lift_ids(A), lift_ids(B)
        vec = iB.dim() == 1 or (iA.dim() - 1 == iB.dim() and iB.shape == iA.shape[:-1])
        if vec:
            iB = iB.unsqueeze(-1)
        if not left:
            X = solve_ids(iA.transpose(-1, -2), iB.transpose(-1, -2)).transpose(-1, -2)
        else:
            X = solve_ids(iA, iB)
        if vec:
            X = X.squeeze(-1)
        r = Sym(X.contiguous(), dt)
        info = torch.zeros(iA.shape[:-2], dtype=torch.int32)
        if base == '_linalg_solve_ex':
            return (r, Sym(iA.clone(), dt), torch.zeros(iA.shape[:-1], dtype=torch.int32), info)
        if base == 'linalg_solve_ex':
            return (r, info)
        return r
    if base in ('linalg_inv_ex', 'linalg_inv', 'inverse'):
        A = a.get('A', a.get('self'))
        iA = lift_ids(A)
        n = iA.shape[-1]
        I = torch.eye(n, dtype=torch.int64).expand(iA.shape).contiguous()
        X = Sym(solve_ids(iA, I), A.dtype)
        return (X, torch.zeros(iA.shape[:-2], dtype=torch.int32)) if base == 'linalg_inv_ex' else X
    if base in ('_linalg_det', 'linalg_det', 'det'):
        A = a.get('A', a.get('self'))
        r = Sym(det_ids(lift_ids(A)), A.dtype)
        if base == '_linalg_det':
            return (r, Sym(lift_ids(A).clone(), A.dtype), torch.zeros(A.shape[:-1], dtype=torch.int32))
        return r
    if base in ('_linalg_svd', 'linalg_svd'):
        A = a['A']
        full = a.get('full_matrices', False)
        U, S, V = ctx().svd(lift_ids(A), full)
        return (Sym(U, A.dtype), Sym(S, A.dtype), Sym(V, A.dtype))
    if base in ('linalg_cholesky_ex', 'linalg_cholesky', 'cholesky'):
        A = a.get('self', a.get('A'))
        L = Sym(ctx().cholesky(lift_ids(A)), A.dtype)
        if base == 'linalg_cholesky_ex':
            return (L, torch.zeros(A.shape[:-2], dtype=torch.int32))
        return L
    if base == 'cholesky_solve':
        B, L = a['self'], a['input2']
        iL, iB = lift_ids(L), lift_ids(B)
        if a.get('upper'):
            iA = Sym(iL, L.dtype).transpose(-1, -2) @ Sym(iL, L.dtype)
        else:
            iA = Sym(iL, L.dtype) @ Sym(iL, L.dtype).transpose(-1, -2)
        return Sym(solve_ids(iA.ids, iB), B.dtype)
    if base in ('linalg_solve_triangular', 'triangular_solve'):
        if base == 'linalg_solve_triangular':
            A, B = a['self'], a['B']
            iA, iB = lift_ids(A), lift_ids(B)
            iA = torch.triu(iA) if a.get('upper') else torch.tril(iA)
            if a.get('left', True):
                return Sym(solve_ids(iA, iB), B.dtype)
            return Sym(solve_ids(iA.transpose(-1, -2), iB.transpose(-1, -2)).transpose(-1, -2).contiguous(), B.dtype)
    return None


# ---- indexing
@reg(aten.index, aten._unsafe_index)
def _index(func, args, kwargs):
    x, idx = args[0], args[1]
    idx = [concretise_bool(i) if isinstance(i, torch.Tensor) else i for i in idx]
    if not isinstance(x, Sym) and not x.dtype.is_floating_point and x.dtype != torch.bool:
        return func(x, idx)
    return wrap(aten.index(lift_ids(x), idx), x.dtype)


@reg(aten.index_put_, aten.index_put, aten._index_put_impl_, aten._unsafe_index_put)
def _index_put(func, args, kwargs):
    a = _argn(func, args, kwargs)
    x, idx, v = a['self'], list(a['indices']), a['values']
    acc = a.get('accumulate', False)
    inplace = _packet(func) in (aten.index_put_, aten._index_put_impl_)
    if not isinstance(x, Sym):
        if x.dtype.is_floating_point or x.dtype == torch.bool:
            raise EngineError('index_put into plain tensor')
        return func(x, [concretise_bool(i) if isinstance(i, torch.Tensor) else i for i in idx], _toplain_int(v), acc)
    vid = cast_ids(lift_ids(v), v.dtype, x.dtype)
    tgt = x.ids if inplace else x.ids.clone()
    if len(idx) == 1 and isinstance(idx[0], Sym) and idx[0].dtype == torch.bool and vid.numel() == 1 and not acc:
        m = idx[0].ids
        mm = m.reshape(list(m.shape) + [1] * (tgt.dim() - m.dim())).expand(tgt.shape)
        val = int(vid.reshape(()).item())
        new = from_list([D.ite(D.tobool(c), val, o) for c, o in zip(idlist(mm), idlist(tgt))], tgt.shape)
        tgt.copy_(new)
    else:
        idx = [concretise_bool(i) if isinstance(i, torch.Tensor) else i for i in idx]
        if acc:
            # sequential accumulate: positions via native index arithmetic
            pos = torch.arange(tgt.numel()).reshape(tgt.shape)
            p = aten.index(pos, idx)
            vv = vid.expand(p.shape).reshape(-1).tolist()
            flat = idlist(tgt)
            for q, y in zip(p.reshape(-1).tolist(), vv):
                flat[q] = D.add(flat[q], y)
            tgt.copy_(from_list(flat, tgt.shape))
        else:
            aten.index_put_(tgt, idx, vid, False)
    return x if inplace else Sym(tgt, x.dtype)


def select_by(index_node, cands):
    """cands[k] where index_node is an integer-valued node (ite tree with constant leaves)."""
    if D.OPS[index_node] == 'const':
        k = int(D.ARGS[index_node])
        if not -len(cands) <= k < len(cands):
            raise IndexError('index out of range')
        return cands[k]
    if D.OPS[index_node] == 'ite':
        c, a, b = D.ARGS[index_node]
        return D.ite(c, select_by(a, cands), select_by(b, cands))
    r = cands[-1]
    for k in range(len(cands) - 2, -1, -1):
        r = D.ite(D.eq(index_node, D.const(k)), cands[k], r)
    return r


@reg(aten.gather)
def _gather(func, args, kwargs):
    x, dim, index = args[:3]
    ids = lift_ids(x)
    if not isinstance(index, Sym):
        return wrap(torch.gather(ids, dim, index), x.dtype)
    dim = dim % x.dim()
    ii = index.ids
    out = torch.zeros(ii.shape, dtype=torch.int64)
    src = ids.movedim(dim, -1)
    im = ii.movedim(dim, -1)
    sl = tuple(slice(0, s) for s in im.shape[:-1])
    src = src[sl]
    n = src.shape[-1]
    fs = src.reshape(-1, n).tolist()
    fi = im.reshape(-1, im.shape[-1]).tolist()
    res = [[select_by(k, c) for k in ks] for ks, c in zip(fi, fs)]
    return wrap(from_list(res, im.shape).movedim(-1, dim).contiguous(), x.dtype)


@reg(aten.scatter, aten.scatter_)
def _scatter(func, args, kwargs):
    x, dim, index, v = args[:4]
    index = _toplain_int(index)
    ids = lift_ids(x)
    if isinstance(v, torch.Tensor):
        r = ids.scatter(dim, index, lift_ids(v))
    else:
        r = ids.scatter(dim, index, sc(v))
    if _packet(func) is aten.scatter_:
        x.ids.copy_(r)
        return x
    return Sym(r, x.dtype)


def _scatter_add_sym(pk, x, dim, index, v):
    dim = dim % max(x.dim(), 1)
    pos = torch.arange(x.numel()).reshape(x.shape)
    v = v[tuple(slice(0, s) for s in index.shape)]
    flat = idlist(lift_ids(x))
    vi, ii = lift_ids(v).movedim(dim, -1), index.ids.movedim(dim, -1)
    rows = pos.movedim(dim, -1)[tuple(slice(0, s) for s in ii.shape[:-1])]
    n = rows.shape[-1]
    for r, ix, y in zip(rows.reshape(-1, n).tolist(), ii.reshape(-1, ii.shape[-1]).tolist(), vi.reshape(-1, ii.shape[-1]).tolist()):
        for i, a in zip(ix, y):
            for k in range(n):
                flat[r[k]] = D.add(flat[r[k]], D.ite(D.eq(i, D.const(k)), a, D.ZERO))
    r = from_list(flat, x.shape)
    if pk is aten.scatter_add_:
        x.ids.copy_(r)
        return x
    return Sym(r, x.dtype)


@reg(aten.scatter_add, aten.index_add, aten.scatter_add_, aten.index_add_)
def _scatter_add(func, args, kwargs):
    x, dim, index, v = args[:4]
    pk = _packet(func)
    if isinstance(index, Sym) and pk in (aten.scatter_add, aten.scatter_add_) and \
            any(D.OPS[i] != 'const' for i in idlist(index.ids)):
        return _scatter_add_sym(pk, x, dim, index, v)
    index = _toplain_int(index)
    pos = torch.arange(x.numel()).reshape(x.shape)
    if pk in (aten.index_add, aten.index_add_):
        p = pos.index_select(dim, index)
        al = sc(kwargs.get('alpha', 1))
    else:
        p = torch.gather(pos, dim, index)
        al = 1
        v = v[tuple(slice(0, s) for s in index.shape)]
    flat = idlist(lift_ids(x))
    for q, y in zip(p.reshape(-1).tolist(), idlist(lift_ids(v))):
        flat[q] = D.add(flat[q], D.mul(al, y))
    r = from_list(flat, x.shape)
    if pk in (aten.scatter_add_, aten.index_add_):
        x.ids.copy_(r)
        return x
    return Sym(r, x.dtype)


@reg(aten.masked_fill, aten.masked_fill_)
def _masked_fill(func, args, kwargs):
    x, m, v = args[:3]
    val = sc(v)
    if x.dtype == torch.bool:
        val = D.tobool(val)
    ids = emap(lambda a, c: D.ite(D.tobool(c), val, a), x, m)
    if _packet(func) is aten.masked_fill_:
        x.ids.copy_(ids)
        return x
    return Sym(ids, x.dtype)


@reg(aten.masked_select)
def _masked_select(func, args, kwargs):
    m = concretise_bool(args[1])
    return Sym(lift_ids(args[0])[m], args[0].dtype)


@reg(aten.nonzero)
def _nonzero(func, args, kwargs):
    t = args[0]
    b = Sym(emap(D.tobool, t), torch.bool)
    return torch.nonzero(concretise_bool(b))


@reg(aten.fill_, aten.fill)
def _fill_(func, args, kwargs):
    x, v = args[:2]
    n = sc(v)
    if x.dtype == torch.bool:
        n = D.tobool(n)
    if not isinstance(x, Sym):
        if x.dtype.is_floating_point or x.dtype == torch.bool:
            raise EngineError('fill_ into plain tensor')
        return func(x, int(D.cval(n)))
    if _packet(func) is aten.fill:
        return Sym(torch.full(x.shape, n, dtype=torch.int64), x.dtype)
    x.ids.fill_(n)
    return x


@reg(aten.zero_)
def _zero_(func, args, kwargs):
    args[0].ids.zero_()
    return args[0]


@reg(aten.set_, aten.set_data)
def _set_(func, args, kwargs):
    raise EngineError('set_')


@reg(aten.sort, aten.topk, aten.argsort)
def _sort(func, args, kwargs):
    x = args[0]
    ids = lift_ids(x)
    if all(D.isconst(i) for i in idlist(ids)):
        t = torch.tensor([float(D.cval(i)) for i in idlist(ids)], dtype=torch.float64).reshape(x.shape)
        v, i = torch.sort(t, *args[1:], **kwargs)
        return (Sym(lift_ids(v), x.dtype), i)
    raise EngineError('sort of symbolic values')


@reg(aten.cumsum)
def _cumsum(func, args, kwargs):
    x, dim = args[0], args[1]
    ids = lift_ids(x).movedim(dim, -1)
    out = []
    for r in ids.reshape(-1, ids.shape[-1]).tolist():
        s = D.ZERO
        for v in r:
            s = D.add(s, D.tonum(v))
            out.append(s)
    dt = x.dtype if x.dtype.is_floating_point else torch.int64
    return wrap(from_list(out, ids.shape).movedim(-1, dim).contiguous(), dt)


@reg(aten.equal)
def _equal(func, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    return ctx().decide(fand(idlist(emap(D.eq, a, b))))


def _close(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r, t = D.const(rtol), D.const(atol)
    return emap(lambda x, y: D.le(D.abs_(D.sub(x, y)), D.add(t, D.mul(r, D.abs_(y)))), a, b)


@reg(aten.allclose)
def _allclose(func, args, kwargs):
    return ctx().decide(fand(idlist(_close(*args, **kwargs))))


@reg(aten.isclose)
def _isclose(func, args, kwargs):
    return Sym(_close(*args, **kwargs), torch.bool)


@reg(aten.isin)
def _isin(func, args, kwargs):
    raise EngineError('isin')


@reg(aten.record_stream, aten._assert_async)
def _noop(func, args, kwargs):
    return None


@reg(aten.linalg_eigh, aten._linalg_eigh)
def _eigh(func, args, kwargs):
    raise EngineError('eigh')


# ------------------------------------------------------------------ central dispatch
def dispatch(func, args, kwargs):
    pk = _packet(func)
    name = pk.__name__ if hasattr(pk, '__name__') else str(pk)
    OPCOUNT[name] = OPCOUNT.get(name, 0) + 1
    if pk in FACT:
        return factory(FACT[pk], func, args, kwargs)
    anysym = any(isinstance(a, Sym) for a in tree_flatten((args, kwargs))[0])
    if not anysym:
        if pk in (aten.lift_fresh, aten.lift, aten.lift_fresh_copy):
            t = args[0]
            if t.dtype.is_floating_point or t.dtype == torch.bool:
                return Sym(lift_ids(t), t.dtype)
            return func(*args, **kwargs)
        out = func(*args, **kwargs)
        # ops on plain ints that create floats/bools become symbolic constants
        if isinstance(out, torch.Tensor) and not func._schema.is_mutable and pk not in MOVE \
                and (out.dtype.is_floating_point or out.dtype == torch.bool):
            return Sym(lift_ids(out), out.dtype)
        return out
    if pk in H:
        return H[pk](func, args, kwargs)
    if pk in MOVE:
        return run_move(func, args, kwargs)
    base = name
    inplace = False
    if name.endswith('_') and not name.endswith('__'):
        base, inplace = name[:-1], True
    elif name in ('__iand__', '__ior__', '__ixor__'):
        base, inplace = '__' + name[3:], True
    out = kwargs.pop('out', None) if 'out' in kwargs else None
    r = compute(base, func, args, kwargs)
    if r is None:
        return fallback(func, args, kwargs)
    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], torch.Tensor) and not isinstance(r[0], Sym) \
            and isinstance(r[1], torch.dtype):
        ids, dt = r
        if inplace:
            x = args[0]
            if not isinstance(x, Sym):
                raise EngineError('in-place %s of a symbolic value into a plain tensor' % name)
            if ids.shape != x.shape:
                raise RuntimeError('output with shape %s does not match the broadcast shape %s'
                                   % (list(x.shape), list(ids.shape)))
            x.ids.copy_(cast_ids(ids, dt, x.dtype))
            return x
        r = wrap(ids, dt)
    elif inplace:
        x = args[0]
        x.ids.copy_(cast_ids(lift_ids(r), r.dtype, x.dtype))
        return x
    if out is not None:
        out.ids.copy_(r.ids)
        return out
    return r


def compute(base, func, args, kwargs):
    if base in ('add', '__add__'):
        return e_add(args, kwargs)
    if base in ('sub', 'subtract'):
        return e_add(args, kwargs, -1)
    if base == 'rsub':
        return e_add(args, kwargs, -1, rev=True)
    if base in ('clamp', 'clip', 'clamp_min', 'clamp_max', 'hardtanh'):
        return e_clamp(base, args, kwargs)
    if base in ('pow', 'float_power'):
        return e_pow(args, kwargs)
    if base == 'where':
        r = e_where(args)
        if r is None:
            return torch.where(concretise_bool(args[0]))
        return r
    if base == 'round':
        return e_round(args, kwargs)
    if base in ('mm', 'bmm', 'mv', 'dot', 'vdot', 'addmm', 'baddbmm', 'addmv'):
        return linear(base, args, kwargs)
    if base in ('linalg_cross', 'cross'):
        return cross(args, kwargs, func)
    if base in RED:
        return reduction(base, func, args, kwargs)
    if base in EW:
        if base in ('nan_to_num',) or EW[base][0] is not None or base in ('addcmul', 'addcdiv'):
            return elementwise(base, func, args, kwargs)
    r = try_linalg(base, args, kwargs, func)
    if r is not None:
        return r
    return None


def fallback(func, args, kwargs):
    from torch._decomp import decomposition_table
    try:
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    except EngineError:
        raise
    except (NotImplementedError, RuntimeError):
        pass
    d = decomposition_table.get(func)
    if d is not None:
        with SymMode():
            return d(*args, **kwargs)
    raise EngineError('unsupported operator %s' % func)


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})
