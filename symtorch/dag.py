"""Hash-consed expression DAG over the reals / booleans.

Every scalar of a symbolic tensor is an integer id into this table.  Id 0 is the
constant 0 (also False) and id 1 the constant 1 (also True), so that tensors whose
ids are produced by zero-filling data-movement kernels are correct by construction.
"""
import math
from fractions import Fraction

import numpy as np

F = Fraction


class EngineError(Exception):
    """The engine cannot encode this; never a verdict about the code."""


OPS = []      # op name
ARGS = []     # tuple of args (ids, or payload)
SPECIAL = []  # node contains inf/nan somewhere at value level (not below an op)
BOOL = []
_tab = {}

INF_V, NINF_V, NAN_V = 'inf', '-inf', 'nan'


def _mk(op, args, isbool=False, special=False):
    key = (op, args)
    i = _tab.get(key)
    if i is None:
        i = len(OPS)
        _tab[key] = i
        OPS.append(op)
        ARGS.append(args)
        BOOL.append(isbool)
        SPECIAL.append(special)
    return i


def const(v):
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int):
        return _mk('const', F(v))
    if isinstance(v, Fraction):
        return _mk('const', v)
    v = float(v)
    if v != v:
        return NAN
    if v == math.inf:
        return INF
    if v == -math.inf:
        return NINF
    m = _magic.get(v)
    if m is not None:
        return m
    m = _magic.get(-v)
    if m is not None:
        return neg(m)
    if v != 0.0:
        r = _pi_multiple(v)
        if r is not None:
            return mul(_mk('const', r), PI)
    return _mk('const', F(v))


_PIM = {}
for _d in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 18, 36, 45, 60, 90, 180, 360):
    for _n in list(range(1, 37)):
        _r = F(_n, _d)
        if _r <= 24 or _r == 180:
            _PIM[round(float(_r) * math.pi, 10)] = _r
# reciprocal 1/pi and friends are not recognised: they stay rational constants


def _pi_multiple(v):
    a = abs(v)
    r = _PIM.get(round(a, 10))
    if r is None:
        r = _PIM.get(round(a, 10) + 0.0)
    if r is None:
        return None
    ref = float(r) * math.pi
    if abs(a - ref) <= 1e-14 * ref or (np.float32(ref) == np.float32(a) and np.float32(a) == a):
        return r if v > 0 else -r
    return None


_magic = {}        # float value -> node
_magic_next = [4194305]
_magic_pending = []
_magic_falling = [False]


class falling:
    """Later numbers are smaller, and negative: what orders the numbers of a text or tests their sign is seen both ways."""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        self.was, _magic_falling[0] = _magic_falling[0], self.on

    def __exit__(self, *a):
        _magic_falling[0] = self.was


def magic(node):
    """A unique, exactly-float32-representable number standing for `node`."""
    v = -float(_magic_next[0]) if _magic_falling[0] else float(_magic_next[0])
    _magic_next[0] += 2
    if _magic_next[0] >= 16777215:
        raise EngineError('out of magic numbers')
    _magic[v] = node
    return v


ZERO = const(0)
ONE = const(1)
assert ZERO == 0 and ONE == 1
INF = _mk('special', INF_V, special=True)
NINF = _mk('special', NINF_V, special=True)
NAN = _mk('special', NAN_V, special=True)
PI = _mk('pi', ())
NEG1 = const(-1)
TWO = const(2)

SYMS = {}      # name -> node


def sym(name, isbool=False):
    i = _mk('bsym' if isbool else 'sym', name, isbool=isbool)
    SYMS[name] = i
    return i


def isconst(i):
    return OPS[i] == 'const'


def cval(i):
    return ARGS[i]


def is_numeric_const(i):
    return OPS[i] in ('const', 'special', 'pi')


# ---------------------------------------------------------------- specials
def _lift_special(fn, args):
    """If an argument is an ite containing special leaves, push fn into it."""
    for k, a in enumerate(args):
        if SPECIAL[a] and OPS[a] == 'ite':
            c, x, y = ARGS[a]
            l1 = list(args)
            l1[k] = x
            l2 = list(args)
            l2[k] = y
            return ite(c, fn(*l1), fn(*l2))
    return None


def _spec(i):
    return OPS[i] == 'special'


def add(a, b):
    if SPECIAL[a] or SPECIAL[b]:
        r = _lift_special(add, (a, b))
        if r is not None:
            return r
        if _spec(a) and _spec(b):
            return a if a == b else NAN
        return a if _spec(a) else b
    if a == 0:
        return b
    if b == 0:
        return a
    oa, ob = OPS[a], OPS[b]
    if oa == 'const' and ob == 'const':
        return const(ARGS[a] + ARGS[b])
    # x + (-x)
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ra == rb:
        return mul(const(ca + cb), ra)
    if a > b:
        a, b = b, a
    return _mk('add', (a, b))


def _coef(a):
    if OPS[a] == 'mul':
        x, y = ARGS[a]
        if OPS[x] == 'const':
            return ARGS[x], y
    return F(1), a


def neg(a):
    return mul(NEG1, a)


def sub(a, b):
    if SPECIAL[a] or SPECIAL[b]:
        return add(a, neg(b))
    if a == b:
        return 0
    return add(a, neg(b))


def mul(a, b):
    if SPECIAL[a] or SPECIAL[b]:
        r = _lift_special(mul, (a, b))
        if r is not None:
            return r
        if a == NAN or b == NAN:
            return NAN
        sa, sb = _constsign(a), _constsign(b)
        if sa is None or sb is None:
            # sign unknown: decide by case on the finite factor
            s, x = (a, b) if _spec(a) else (b, a)
            pos, ng = (INF, NINF) if s == INF else (NINF, INF)
            return ite(lt(ZERO, x), pos, ite(lt(x, ZERO), ng, NAN))
        if sa * sb == 0:
            return NAN
        return INF if sa * sb > 0 else NINF
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    oa, ob = OPS[a], OPS[b]
    if oa == 'const' and ob == 'const':
        return const(ARGS[a] * ARGS[b])
    if BOOL[a]:
        return ite(a, b, ZERO)
    if BOOL[b]:
        return ite(b, a, ZERO)
    if ob == 'const':
        a, b = b, a
        oa, ob = ob, oa
    if oa == 'const':
        if ob == 'mul':
            x, y = ARGS[b]
            if OPS[x] == 'const':
                return mul(const(ARGS[a] * ARGS[x]), y)
        return _mk('mul', (a, b))
    # pull constants outwards
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(const(ca * cb), mul(ra, rb))
    if a > b:
        a, b = b, a
    return _mk('mul', (a, b))


def _constsign(i):
    if OPS[i] == 'const':
        return (ARGS[i] > 0) - (ARGS[i] < 0)
    if OPS[i] == 'pi':
        return 1
    if i == INF:
        return 1
    if i == NINF:
        return -1
    c, r = _coef(i)
    if r == PI:
        return (c > 0) - (c < 0)
    if OPS[i] == 'mul' and ARGS[i][0] == ARGS[i][1]:
        return None
    return None


def div(a, b):
    if SPECIAL[a] or SPECIAL[b]:
        r = _lift_special(div, (a, b))
        if r is not None:
            return r
        if a == NAN or b == NAN:
            return NAN
        if _spec(b):
            return NAN if _spec(a) else ZERO
        # special / finite
        return mul(a, b) if _constsign(b) != 0 else a
    if b == 1:
        return a
    if OPS[b] == 'const':
        if ARGS[b] == 0:
            s = _constsign(a)
            if s is not None:
                return NAN if s == 0 else (INF if s > 0 else NINF)
            return _mk('div', (a, b))
        return mul(const(1 / ARGS[b]), a)
    if b == PI:
        c, r = _coef(a)
        if r == PI:
            return const(c)
    if OPS[a] == 'mul' and OPS[b] == 'mul':
        ca, ra = _coef(a)
        cb, rb = _coef(b)
        if rb == PI:
            # (c * x * PI) / (k PI)
            q = _div_pi(ra)
            if q is not None:
                return mul(const(ca / cb), q)
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(const(ca / cb), _mk('div', (ra, rb)))
    if a == 0:
        # 0/b: zero whenever defined; keep the node for definedness
        return _mk('div', (a, b))
    return _mk('div', (a, b))


def _div_pi(r):
    if r == PI:
        return ONE
    if OPS[r] == 'mul':
        x, y = ARGS[r]
        if x == PI:
            return y
        if y == PI:
            return x
    return None


def sqrt(a):
    if SPECIAL[a]:
        r = _lift_special(sqrt, (a,))
        if r is not None:
            return r
        return INF if a == INF else NAN
    if OPS[a] == 'const':
        v = ARGS[a]
        if v < 0:
            return NAN
        n, d = v.numerator, v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(F(rn, rd))
    return _mk('sqrt', (a,))


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def power(a, e):
    """a ** e with e a python number or const node value."""
    if isinstance(e, Fraction):
        fe = e
    else:
        fe = F(e)
    if fe.denominator == 1 and abs(fe) <= 64:
        return powi(a, int(fe))
    if fe == F(1, 2):
        return sqrt(a)
    if fe == F(-1, 2):
        return div(ONE, sqrt(a))
    return uf('pow', a, const(fe))


_TRIG0 = {}


def _unary_special(name, a):
    if SPECIAL[a]:
        f = globals()[name]
        r = _lift_special(f, (a,))
        return r if r is not None else NAN
    return None


def _pimult(a):
    c, r = _coef(a)
    if r == PI:
        return c
    if a == PI:
        return F(1)
    if a == 0:
        return F(0)
    return None


def sin(a):
    s = _unary_special('sin', a)
    if s is not None:
        return s
    if OPS[a] == 'ite':
        c, x, y = ARGS[a]
        return ite(c, sin(x), sin(y))
    p = _pimult(a)
    if p is not None and (2 * p).denominator == 1:
        return const([0, 1, 0, -1][int(2 * p) % 4])
    c, r = _coef(a)
    if c < 0:
        return neg(sin(mul(const(-c), r)))
    return _mk('sin', (a,))


def cos(a):
    s = _unary_special('cos', a)
    if s is not None:
        return s
    if OPS[a] == 'ite':
        c, x, y = ARGS[a]
        return ite(c, cos(x), cos(y))
    p = _pimult(a)
    if p is not None and (2 * p).denominator == 1:
        return const([1, 0, -1, 0][int(2 * p) % 4])
    c, r = _coef(a)
    if c < 0:
        return cos(mul(const(-c), r))
    return _mk('cos', (a,))


def tan(a):
    return div(sin(a), cos(a))


def atan2(y, x):
    for v in (y, x):
        if SPECIAL[v]:
            r = _lift_special(atan2, (y, x))
            return r if r is not None else NAN
    if y == 0 and OPS[x] == 'const':
        return ZERO if ARGS[x] >= 0 else PI
    if x == 0 and OPS[y] == 'const' and y != 0:
        return mul(const(F(1, 2)), PI) if ARGS[y] > 0 else mul(const(F(-1, 2)), PI)
    return _mk('atan2', (y, x))


def acos(a):
    s = _unary_special('acos', a)
    if s is not None:
        return s
    if a == 1:
        return ZERO
    if a == NEG1:
        return PI
    if a == 0:
        return mul(const(F(1, 2)), PI)
    return _mk('acos', (a,))


def asin(a):
    s = _unary_special('asin', a)
    if s is not None:
        return s
    if a == 0:
        return ZERO
    if a == 1:
        return mul(const(F(1, 2)), PI)
    if a == NEG1:
        return mul(const(F(-1, 2)), PI)
    return _mk('asin', (a,))


def uf(name, *args):
    for a in args:
        if SPECIAL[a]:
            r = _lift_special(lambda *xs: uf(name, *xs), args)
            return r if r is not None else NAN
    if name == 'exp' and args[0] == 0:
        return ONE
    return _mk('uf', (name,) + tuple(args))


def floor(a):
    if SPECIAL[a]:
        r = _lift_special(floor, (a,))
        return r if r is not None else a
    if OPS[a] == 'const':
        return const(ARGS[a].__floor__())
    return _mk('floor', (a,))


def ceil(a):
    return neg(floor(neg(a)))


def rnd(a):
    """round half to even"""
    if SPECIAL[a]:
        r = _lift_special(rnd, (a,))
        return r if r is not None else a
    if OPS[a] == 'const':
        return const(round(ARGS[a]))
    return _mk('round', (a,))


def rnd32(a):
    if OPS[a] in ('const', 'special', 'rnd32', 'pi'):
        return a
    if OPS[a] == 'ite':
        c, x, y = ARGS[a]
        return ite(c, rnd32(x), rnd32(y))
    return _mk('rnd32', (a,))


# ---------------------------------------------------------------- booleans
def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if OPS[c] == 'not':
        return ite(ARGS[c][0], b, a)
    isb = (BOOL[a] or a in (0, 1)) and (BOOL[b] or b in (0, 1))
    if isb:
        if a == 1 and b == 0:
            return c
        if a == 0 and b == 1:
            return not_(c)
        if BOOL[a] or BOOL[b]:
            return or_(and_(c, a), and_(not_(c), b))
    # ite(c, ite(c,x,_), y)
    if OPS[a] == 'ite' and ARGS[a][0] == c:
        return ite(c, ARGS[a][1], b)
    if OPS[b] == 'ite' and ARGS[b][0] == c:
        return ite(c, a, ARGS[b][2])
    return _mk('ite', (c, a, b), special=SPECIAL[a] or SPECIAL[b])


def tobool(a):
    """numeric -> bool"""
    if BOOL[a] or a in (0, 1):
        return a
    if OPS[a] == 'const':
        return 1 if ARGS[a] != 0 else 0
    if OPS[a] == 'special':
        return 1
    return not_(eq(a, ZERO))


def tonum(a):
    if BOOL[a]:
        return ite(a, ONE, ZERO)
    return a


def not_(a):
    if a == 0:
        return 1
    if a == 1:
        return 0
    if OPS[a] == 'not':
        return ARGS[a][0]
    return _mk('not', (a,), isbool=True)


def and_(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a == not_(b):
        return 0
    if a > b:
        a, b = b, a
    return _mk('and', (a, b), isbool=True)


def or_(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return a
    if a == not_(b):
        return 1
    if a > b:
        a, b = b, a
    return _mk('or', (a, b), isbool=True)


def xor(a, b):
    return or_(and_(a, not_(b)), and_(not_(a), b))


def _num2(fn, a, b):
    r = _lift_special(fn, (a, b))
    return r


_SV = {INF: math.inf, NINF: -math.inf}


def lt(a, b):
    a, b = tonum(a), tonum(b)
    if SPECIAL[a] or SPECIAL[b]:
        r = _lift_special(lt, (a, b))
        if r is not None:
            return r
        if a == NAN or b == NAN:
            return 0
        if a == b:
            return 0
        if a == NINF or b == INF:
            return 1
        return 0
    if a == b:
        return 0
    if OPS[a] == 'const' and OPS[b] == 'const':
        return 1 if ARGS[a] < ARGS[b] else 0
    if is_numeric_const(a) and is_numeric_const(b):
        return 1 if nfloat(a) < nfloat(b) else 0
    # push into ite with constant leaves
    r = _cmp_ite(lt, a, b)
    if r is not None:
        return r
    # normalise scale:  c*x < d*x etc. are left to the solver
    if a == 0 and OPS[b] == 'sqrt' and False:
        return 1
    return _mk('lt', (a, b), isbool=True)


def nfloat(i):
    if OPS[i] == 'const':
        return float(ARGS[i])
    if i == PI:
        return math.pi
    if i in _SV:
        return _SV[i]
    c, r = _coef(i)
    if r == PI:
        return float(c) * math.pi
    return math.nan


def _cmp_ite(fn, a, b):
    if OPS[a] == 'ite' and OPS[b] == 'const' and _leafconst(a):
        c, x, y = ARGS[a]
        return ite(c, fn(x, b), fn(y, b))
    if OPS[b] == 'ite' and OPS[a] == 'const' and _leafconst(b):
        c, x, y = ARGS[b]
        return ite(c, fn(a, x), fn(a, y))
    return None


_leafc = {}


def _leafconst(a):
    if OPS[a] == 'const':
        return True
    if OPS[a] != 'ite':
        return False
    v = _leafc.get(a)
    if v is None:
        v = _leafconst(ARGS[a][1]) and _leafconst(ARGS[a][2])
        _leafc[a] = v
    return v


def le(a, b):
    if SPECIAL[a] or SPECIAL[b]:
        r = _lift_special(le, (a, b))
        if r is not None:
            return r
        if a == NAN or b == NAN:
            return 0
        if a == b:
            return 1
    return not_(lt(b, a))


def eq(a, b):
    if (BOOL[a] or a in (0, 1)) and (BOOL[b] or b in (0, 1)):
        return not_(xor(a, b))
    a, b = tonum(a), tonum(b)
    if SPECIAL[a] or SPECIAL[b]:
        r = _lift_special(eq, (a, b))
        if r is not None:
            return r
        if a == NAN or b == NAN:
            return 0
        return 1 if a == b else 0
    if a == b:
        return 1
    if OPS[a] == 'const' and OPS[b] == 'const':
        return 1 if ARGS[a] == ARGS[b] else 0
    r = _cmp_ite(eq, a, b)
    if r is not None:
        return r
    if a > b:
        a, b = b, a
    return _mk('eq', (a, b), isbool=True)


def isnan(a):
    if not SPECIAL[a]:
        return 0
    r = _lift_special(isnan, (a,))
    if r is not None:
        return r
    return 1 if a == NAN else 0


def isinf(a):
    if not SPECIAL[a]:
        return 0
    r = _lift_special(isinf, (a,))
    if r is not None:
        return r
    return 1 if a in (INF, NINF) else 0


def abs_(a):
    if OPS[a] == 'const':
        return const(abs(ARGS[a]))
    if a in (INF, NINF):
        return INF
    if a == NAN:
        return a
    if a == PI or OPS[a] == 'sqrt':
        return a
    c, r = _coef(a)
    if c < 0:
        return abs_(mul(const(-c), r))
    if OPS[a] == 'mul' and ARGS[a][0] == ARGS[a][1]:
        return a
    return ite(lt(a, ZERO), neg(a), a)


def max_(a, b):
    if a == b:
        return a
    if a == NAN or b == NAN:
        return NAN
    return ite(lt(a, b), b, a)


def min_(a, b):
    if a == b:
        return a
    if a == NAN or b == NAN:
        return NAN
    return ite(lt(b, a), b, a)


def sign(a):
    if a == NAN:
        return ZERO
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), NEG1, ZERO))


# ---------------------------------------------------------------- traversal
CHILD = {'add', 'mul', 'div', 'sqrt', 'sin', 'cos', 'atan2', 'acos', 'asin', 'floor', 'round', 'rnd32',
         'ite', 'lt', 'eq', 'and', 'or', 'not'}


def children(i):
    op = OPS[i]
    if op in CHILD:
        return ARGS[i]
    if op == 'uf':
        return ARGS[i][1:]
    return ()


def topo(roots):
    """Nodes reachable from roots, children first."""
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        stack = [(r, 0)]
        while stack:
            n, st = stack.pop()
            if st:
                if n not in seen:
                    seen.add(n)
                    out.append(n)
                continue
            if n in seen:
                continue
            stack.append((n, 1))
            for c in children(n):
                if c not in seen:
                    stack.append((c, 0))
    return out


REBUILD = {
    'add': add, 'mul': mul, 'div': div, 'sqrt': sqrt, 'sin': sin, 'cos': cos, 'atan2': atan2, 'acos': acos,
    'asin': asin, 'floor': floor, 'round': rnd, 'rnd32': rnd32, 'ite': ite, 'lt': lt, 'eq': eq, 'and': and_,
    'or': or_, 'not': not_,
}


def subst(roots, mapping):
    """Rebuild roots with nodes in mapping replaced."""
    memo = dict(mapping)
    # children-first, but do not descend below replaced nodes
    order = []
    seen = set(memo)
    for r in roots:
        if r in seen:
            continue
        stack = [(r, 0)]
        while stack:
            n, st = stack.pop()
            if st:
                order.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            stack.append((n, 1))
            for c in children(n):
                if c not in seen:
                    stack.append((c, 0))
    pend = list(order)
    # `order` may list a node before a child when the child was pushed by two parents; iterate robustly
    for n in pend:
        _rebuild(n, memo)
    return [memo.get(r, r) for r in roots]


def _rebuild(n, memo):
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        ch = children(x)
        if not ch:
            memo[x] = x
            stack.pop()
            continue
        miss = [c for c in ch if c not in memo]
        if miss:
            stack.extend(miss)
            continue
        new = tuple(memo[c] for c in ch)
        if new == tuple(ch):
            memo[x] = x
        elif OPS[x] == 'uf':
            memo[x] = uf(ARGS[x][0], *new)
        else:
            memo[x] = REBUILD[OPS[x]](*new)
        stack.pop()


# ---------------------------------------------------------------- numeric evaluation
def evaluate(roots, env, nsamp, ufs=None):
    """Vectorised numeric evaluation. env: sym name -> array (nsamp,). Returns dict node->array."""
    val = {}
    with np.errstate(all='ignore'):
        for n in topo(roots):
            op = OPS[n]
            a = ARGS[n]
            if op == 'const':
                v = np.full(nsamp, float(a))
            elif op == 'special':
                v = np.full(nsamp, float(a))
            elif op == 'pi':
                v = np.full(nsamp, math.pi)
            elif op == 'sym':
                v = np.asarray(env[a], dtype=np.float64)
            elif op == 'bsym':
                v = np.asarray(env[a], dtype=np.float64) != 0
            elif op == 'add':
                v = _n(val[a[0]]) + _n(val[a[1]])
            elif op == 'mul':
                v = _n(val[a[0]]) * _n(val[a[1]])
            elif op == 'div':
                v = _n(val[a[0]]) / _n(val[a[1]])
            elif op == 'sqrt':
                v = np.sqrt(val[a[0]])
            elif op == 'sin':
                v = np.sin(val[a[0]])
            elif op == 'cos':
                v = np.cos(val[a[0]])
            elif op == 'atan2':
                v = np.arctan2(val[a[0]], val[a[1]])
            elif op == 'acos':
                v = np.arccos(val[a[0]])
            elif op == 'asin':
                v = np.arcsin(val[a[0]])
            elif op == 'floor':
                v = np.floor(val[a[0]])
            elif op == 'round':
                v = np.round(val[a[0]])
            elif op == 'rnd32':
                v = val[a[0]].astype(np.float32).astype(np.float64)
            elif op == 'ite':
                v = np.where(_b(val[a[0]]), val[a[1]], val[a[2]])
            elif op == 'lt':
                v = _n(val[a[0]]) < _n(val[a[1]])
            elif op == 'eq':
                v = _n(val[a[0]]) == _n(val[a[1]])
            elif op == 'and':
                v = _b(val[a[0]]) & _b(val[a[1]])
            elif op == 'or':
                v = _b(val[a[0]]) | _b(val[a[1]])
            elif op == 'not':
                v = ~_b(val[a[0]])
            elif op == 'uf':
                v = _eval_uf(a[0], [val[x] for x in a[1:]], ufs)
            else:
                raise EngineError('evaluate ' + op)
            val[n] = v
    return val


def _n(x):
    return x.astype(np.float64) if x.dtype == bool else x


def _b(x):
    return x if x.dtype == bool else x != 0


UF_EVAL = {
    'exp': np.exp, 'log': np.log, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh,
    'pow': np.power, 'log1p': np.log1p, 'expm1': np.expm1,
}


def _eval_uf(name, args, ufs):
    if ufs and name in ufs:
        return ufs[name](*args)
    f = UF_EVAL.get(name)
    if f is None:
        raise EngineError('no numeric meaning for ' + name)
    return f(*args)


def show(i, depth=6):
    op, a = OPS[i], ARGS[i]
    if op == 'const':
        return str(a) if a.denominator < 10 ** 6 else repr(float(a))
    if op in ('sym', 'bsym'):
        return a
    if op == 'special':
        return a
    if op == 'pi':
        return 'pi'
    if depth == 0:
        return '#%d' % i
    ch = [show(c, depth - 1) for c in children(i)]
    if op == 'add':
        return '(%s + %s)' % tuple(ch)
    if op == 'mul':
        return '%s*%s' % tuple(ch)
    if op == 'div':
        return '(%s)/(%s)' % tuple(ch)
    return '%s(%s)' % (a[0] if op == 'uf' else op, ', '.join(ch))
