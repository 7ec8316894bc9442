"""A second device for a machine that has none: tensors on it are wrappers labelled 'meta' around the tensor with the values
(plain or symbolic), and every operator checks PyTorch's rules about mixing devices before it runs on the values."""
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

aten = torch.ops.aten
LABEL = 'meta'


def is_label(d):
    return d is not None and torch.device(d).type == LABEL


class Dev(torch.Tensor):
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, inner):
        r = torch.Tensor._make_wrapper_subclass(
            cls, inner.size(), strides=inner.stride(), storage_offset=inner.storage_offset(), dtype=inner.dtype,
            device=LABEL, requires_grad=False)
        r.inner = inner
        return r

    def __init__(self, inner):
        pass

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return run(func, args, kwargs or {})

    def __bool__(self):
        return bool(self.inner)

    def item(self):
        return self.inner.item()

    def tolist(self):
        return self.inner.tolist()

    def __float__(self):
        return float(self.inner)

    def __int__(self):
        return int(self.inner)

    def __index__(self):
        return self.inner.__index__()

    def numpy(self, *a, **k):
        raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first."
                        % LABEL)

    def __array__(self, *a, **k):
        return self.numpy()

    def new_tensor(self, data, dtype=None, device=None, requires_grad=False):
        t = torch.tensor(data, dtype=dtype or self.dtype, device=device or LABEL)
        return t.requires_grad_() if requires_grad else t

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        import copy
        r = Dev(copy.deepcopy(self.inner, memo) if not isinstance(self.inner, torch.Tensor) else self.inner.clone())
        if self.requires_grad:
            r.requires_grad_()
        memo[id(self)] = r
        return r

    def __repr__(self, *a, **k):
        return 'Dev(%r)' % (self.inner,)

    def __format__(self, spec):
        return repr(self)


STRICT = ('mm', 'bmm', 'mv', 'dot', 'vdot', 'addmm', 'baddbmm', 'addmv', 'matmul', 'cat', 'stack', 'concat', 'hstack', 'vstack',
          'gather', 'scatter', 'scatter_', 'scatter_add', 'scatter_add_', 'index_select', 'index_add', 'index_add_', 'index_copy',
          'index_copy_', 'index_fill', 'index_fill_', 'take', 'masked_select', 'cross', 'linalg_cross', 'searchsorted', 'bucketize',
          'isin', 'equal', 'cdist', 'embedding', 'linear', 'lerp', 'masked_scatter', 'masked_scatter_')
FREE = ('copy_', 'copy', '_to_copy', 'lift_fresh', 'lift', 'lift_fresh_copy', 'set_', 'is_same_size', 'detach')
INDEX = ('index', '_unsafe_index', 'index_put_', 'index_put', '_index_put_impl_', '_unsafe_index_put')


def mixed(name, what=''):
    raise RuntimeError('Expected all tensors to be on the same device, but found at least two devices, %s and cpu! (%s%s)'
                       % (LABEL, name, what))


def check(name, func, args, kwargs):
    ts = [t for t in tree_flatten((args, kwargs))[0] if isinstance(t, torch.Tensor)]
    if not any(isinstance(t, Dev) for t in ts) or name in FREE:
        return
    if name in INDEX:
        idx = [t for t in args[1] if isinstance(t, torch.Tensor)]
        if not isinstance(args[0], Dev):
            if any(isinstance(t, Dev) for t in idx) or isinstance(args[2], Dev):
                mixed(name, ': a host tensor indexed by or assigned from the device')
        elif len(args) > 2 and isinstance(args[2], torch.Tensor) and not isinstance(args[2], Dev) and args[2].dim() > 0:
            mixed(name, ': values on the host')
        return
    strict = name in STRICT or name.startswith(('linalg_', '_linalg_'))
    for t in ts:
        if not isinstance(t, Dev) and (strict or t.dim() > 0):
            mixed(name)
    if func._schema.is_mutable and not isinstance(args[0], Dev):
        mixed(name, ' in place')


def unwrap(t):
    return t.inner if isinstance(t, Dev) else t


def run(func, args, kwargs):
    name = func.overloadpacket.__name__
    check(name, func, args, kwargs)
    ts = [t for t in tree_flatten((args, kwargs))[0] if isinstance(t, torch.Tensor)]
    on = any(isinstance(t, Dev) for t in ts)
    kw = dict(kwargs)
    if kw.get('device') is not None:
        on = is_label(kw['device'])
        if on:
            kw['device'] = torch.device('cpu')
    if kw.get('pin_memory'):
        kw['pin_memory'] = None
    a, k = tree_map(unwrap, (args, kw))
    if name == '_to_copy':      # a move that changes nothing else is still a copy
        out = func(*a, **k)
        out = out.clone() if out is a[0] else out
    else:
        out = func(*a, **k)
    if func._schema.is_mutable and args and isinstance(args[0], torch.Tensor) and isinstance(out, torch.Tensor):
        return args[0]
    if not on:
        return out
    return tree_map(lambda t: Dev(t) if isinstance(t, torch.Tensor) and not isinstance(t, Dev) else t, out)


class DevMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return run(func, args, kwargs or {})


class Device:
    """with Device(): tensors may be moved to, and made on, the second device"""

    def __enter__(self):
        self.mode = DevMode()
        self.mode.__enter__()
        self.saved = torch.tensor, torch.as_tensor, torch.asarray
        make, plain = torch.tensor, unwrap_data

        def tensor(data, *a, dtype=None, device=None, requires_grad=False, **k):
            if device is None and isinstance(data, Dev):
                device = LABEL
            if not is_label(device):
                return make(plain(data), dtype=dtype, device=device, requires_grad=requires_grad, **k)
            r = Dev(make(plain(data), dtype=dtype, **k))
            return r.requires_grad_() if requires_grad else r

        def as_tensor(data, dtype=None, device=None):
            if isinstance(data, torch.Tensor):
                return data.to(dtype=data.dtype if dtype is None else dtype, device=data.device if device is None else device)
            if not is_label(device):
                return self.saved[1](plain(data), dtype=dtype, device=device)
            return Dev(self.saved[1](plain(data), dtype=dtype))
        torch.tensor, torch.as_tensor = tensor, as_tensor
        return self

    def __exit__(self, *e):
        torch.tensor, torch.as_tensor, torch.asarray = self.saved
        self.mode.__exit__(*e)

    @staticmethod
    def put(x):
        return Dev(x)


def unwrap_data(d):
    if isinstance(d, Dev):
        return d.inner
    if isinstance(d, (list, tuple)):
        return type(d)(unwrap_data(x) for x in d)
    return d


def host(x):
    """the values of a tensor wherever it is"""
    x = x.detach() if x.requires_grad else x
    return x.inner if isinstance(x, Dev) else x
