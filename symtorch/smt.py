"""SMT-LIB2 encoding of DAG queries and the solver back ends."""
import sys
import math
import os
import re
import signal
import subprocess
import tempfile
import time
from fractions import Fraction as F

from . import dag as D
from .dag import EngineError

Z3 = 'z3-new'
STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0, 'by': {}}


def frac(v):
    v = F(v)
    if v < 0:
        return '(- %s)' % frac(-v)
    if v.denominator == 1:
        return '%d.0' % v.numerator
    return '(/ %d.0 %d.0)' % (v.numerator, v.denominator)

sys.setrecursionlimit(50000)


# ------------------------------------------------------------------ linear forms of angles
def lin(n, memo):
    """node -> (dict atom->coef, pi coefficient, rational constant)"""
    if n in memo:
        return memo[n]
    op, a = D.OPS[n], D.ARGS[n]
    if op == 'const':
        r = ({}, F(0), a)
    elif op == 'pi':
        r = ({}, F(1), F(0))
    elif op == 'add':
        x, y = lin(a[0], memo), lin(a[1], memo)
        d = dict(x[0])
        for k, v in y[0].items():
            d[k] = d.get(k, F(0)) + v
            if d[k] == 0:
                del d[k]
        r = (d, x[1] + y[1], x[2] + y[2])
    elif op == 'mul' and D.OPS[a[0]] == 'const':
        x = lin(a[1], memo)
        c = D.ARGS[a[0]]
        r = ({k: v * c for k, v in x[0].items()}, x[1] * c, x[2] * c)
    elif op == 'mul':
        # distribute over sums so that t*(a+b) and t*a + t*b agree
        x, y = lin(a[0], memo), lin(a[1], memo)
        nx, ny = (len(z[0]) + (z[1] != 0) + (z[2] != 0) for z in (x, y))
        if (nx > 1 or ny > 1) and nx * ny <= 40:
            tx = [(k, v) for k, v in x[0].items()] + ([(D.PI, x[1])] if x[1] else []) + ([(D.ONE, x[2])] if x[2] else [])
            ty = [(k, v) for k, v in y[0].items()] + ([(D.PI, y[1])] if y[1] else []) + ([(D.ONE, y[2])] if y[2] else [])
            d, p, c = {}, F(0), F(0)
            for k1, v1 in tx:
                for k2, v2 in ty:
                    m = D.mul(k1, k2)
                    co, rt = D._coef(m)
                    w = v1 * v2 * co
                    if rt == D.PI:
                        p += w
                    elif D.OPS[rt] == 'const':
                        c += w * D.ARGS[rt]
                    else:
                        d[rt] = d.get(rt, F(0)) + w
                        if d[rt] == 0:
                            del d[rt]
            r = (d, p, c)
        else:
            r = ({n: F(1)}, F(0), F(0))
    else:
        r = ({n: F(1)}, F(0), F(0))
    memo[n] = r
    return r


def _intvalued(n):
    op, a = D.OPS[n], D.ARGS[n]
    if op in ('floor', 'round'):
        return True
    if op == 'const':
        return a.denominator == 1
    if op in ('add', 'mul'):
        return all(_intvalued(x) for x in a)
    if op == 'ite':
        return _intvalued(a[1]) and _intvalued(a[2])
    return False


def _pi_period(atom):
    """atom == PI * integer-valued node?"""
    if D.OPS[atom] == 'mul':
        x, y = D.ARGS[atom]
        if x == D.PI and _intvalued(y):
            return True
        if y == D.PI and _intvalued(x):
            return True
    return False


PI_LO, PI_HI = F('3.14159265358979323846'), F('3.14159265358979323847')


def positive(n, pos=(), nn=(), memo=None):
    """syntactic x > 0, given nodes known to be positive (pos) or nonnegative (nn)"""
    memo = {} if memo is None else memo

    def ge(n):
        if n in nn or n in pos or nonneg(n):
            return True
        k = ('g', n)
        if k not in memo:
            memo[k] = False
            op, a = D.OPS[n], D.ARGS[n]
            if op == 'add':
                memo[k] = ge(a[0]) and ge(a[1])
            elif op in ('mul', 'div'):
                odd, stack = set(), [n]
                while stack:
                    x = stack.pop()
                    if x != n and (x in pos or x in nn):
                        continue
                    if D.OPS[x] in ('mul', 'div'):
                        stack += D.ARGS[x]
                    else:
                        odd ^= {x}
                memo[k] = all(ge(x) for x in odd)
            elif op == 'ite':
                memo[k] = ge(a[1]) and ge(a[2])
        return memo[k]

    def gt(n):
        if n in pos:
            return True
        if n in memo:
            return memo[n]
        memo[n] = False
        op, a = D.OPS[n], D.ARGS[n]
        r = False
        if op == 'const':
            r = a > 0
        elif op == 'pi':
            r = True
        elif op == 'sqrt':
            r = gt(a[0])
        elif op in ('mul', 'div'):
            r = (gt(a[0]) and gt(a[1])) or (op == 'mul' and a[0] == a[1] and gt(D.neg(a[0])))
        elif op == 'add':
            r = (gt(a[0]) and ge(a[1])) or (ge(a[0]) and gt(a[1]))
        elif op == 'ite':
            c, x, y = a
            r = gt(x) and gt(y)
            if not r and D.OPS[c] == 'lt':
                p, q = D.ARGS[c]
                # max(p, q): ite(p < q, q, p)
                r = x == q and y == p and (gt(p) or gt(q))
        memo[n] = r
        return r
    return gt(n)


def nonneg(n, depth=8):
    """syntactic x >= 0"""
    op, a = D.OPS[n], D.ARGS[n]
    if op == 'const':
        return a >= 0
    if op in ('sqrt', 'pi', 'acos'):
        return True
    if depth == 0:
        return False
    if op == 'atan2':
        return nonneg(a[0], depth - 1)
    if op == 'mul':
        if a[0] == a[1]:
            return True
        return nonneg(a[0], depth - 1) and nonneg(a[1], depth - 1)
    if op == 'add':
        return nonneg(a[0], depth - 1) and nonneg(a[1], depth - 1)
    if op == 'ite':
        c, x, y = a
        # clamp(x, min=c>=0):  ite(x < c, c, x)
        if D.OPS[c] == 'lt':
            p, q = D.ARGS[c]
            if y == p and nonneg(q, depth - 1) and (x == q or nonneg(x, depth - 1)):
                return True
            if x == q and nonneg(p, depth - 1) and (y == p or nonneg(y, depth - 1)):
                return True
            if q == D.ZERO and x == D.neg(p) and y == p:
                return True
        return nonneg(x, depth - 1) and nonneg(y, depth - 1)
    if op == 'div':
        return nonneg(a[0], depth - 1) and nonneg(a[1], depth - 1)
    return False


def _sign_known(n, pos):
    """n > 0 or n >= 0 is among the assumptions"""
    return n in pos


def choice(n, depth=4):
    """an if-then-else of constants"""
    if D.OPS[n] != 'ite' or depth == 0:
        return False
    return all(D.OPS[k] == 'const' or choice(k, depth - 1) for k in D.ARGS[n][1:])


class Encoder:
    """Encodes a set of boolean roots into one SMT-LIB script (declarations + definitions)."""

    def __init__(self, roots, facts=(), taylor=False):
        self.lines = []
        self.side = []          # side constraints
        self.names = {}
        self.base = {}          # atom -> (D, c, s)
        self.linmemo = {}
        self.real_syms = {}
        self.bool_syms = {}
        self.roots = list(roots)
        self.facts = set(facts)  # nodes whose definedness is established: encode unconditionally
        self.order = D.topo(self.roots)
        self.ints = False
        self.angle_cache = {}
        self.pow_cache = {}
        self.trig_value_atoms = set()
        self._collect_trig()
        if taylor:
            for n in self.order:
                if D.OPS[n] in ('atan2', 'acos', 'asin'):
                    self.den.setdefault(n, 1)
        self._encode()
        if taylor:
            self.taylor()

    # -- trig
    def _collect_trig(self):
        den = {}
        work = list(self.order)
        seen = set()
        # atoms of trig args may themselves contain nodes that must be encoded; topo includes them already
        for n in work:
            if D.OPS[n] in ('sin', 'cos'):
                l = self._parts(D.ARGS[n][0])
                for at, co in l[0].items():
                    if _pi_period(at) and co.numerator % 2 == 0 and co.denominator == 1:
                        continue
                    d = den.setdefault(at, 1)
                    den[at] = d * co.denominator // math.gcd(d, co.denominator)
                if l[1] and (2 * l[1]).denominator != 1:
                    d = den.setdefault(D.PI, 1)
                    den[D.PI] = d * l[1].denominator // math.gcd(d, l[1].denominator)
                if l[2]:
                    # rational constant angle: one base per absolute value
                    den.setdefault(D.const(abs(l[2])), 1)
        self.den = den

    def _parts(self, arg):
        """the angle as a sum of multiples of atoms; one with unwieldy multiples is taken as a single atom"""
        l = lin(arg, self.linmemo)
        if any(abs(co.numerator) > 64 or co.denominator > 720 for co in l[0].values()):
            return {arg: F(1)}, F(0), F(0)
        return l

    def _basevars(self, at):
        b = self.base.get(at)
        if b is None:
            d = self.den[at]
            c, s = 'c%d' % at, 's%d' % at
            self.lines.append('(declare-fun %s () Real)' % c)
            self.lines.append('(declare-fun %s () Real)' % s)
            self.side.append('(= (+ (* %s %s) (* %s %s)) 1.0)' % (c, c, s, s))
            self.base[at] = b = (d, c, s)
            if at == D.PI:
                v = math.pi / d
                for nm, x in ((c, math.cos(v)), (s, math.sin(v))):
                    self.side.append('(< %s %s)' % (frac(F(x) - F(1, 10 ** 12)), nm))
                    self.side.append('(< %s %s)' % (nm, frac(F(x) + F(1, 10 ** 12))))
                pc, ps = self._pow(at, d)
                self.side.append('(= %s (- 1.0))' % pc)
                self.side.append('(= %s 0.0)' % ps)
            elif D.OPS[at] == 'const':
                v = float(D.ARGS[at])
                for nm, x in ((c, math.cos(v)), (s, math.sin(v))):
                    self.side.append('(< %s %s)' % (frac(F(x) - F(1, 10 ** 12)), nm))
                    self.side.append('(< %s %s)' % (nm, frac(F(x) + F(1, 10 ** 12))))
        return b

    def _def(self, sort, body):
        nm = 'd%d' % len(self.lines)
        self.lines.append('(define-fun %s () %s %s)' % (nm, sort, body))
        return nm

    def _cmul(self, a, b):
        (ac, as_), (bc, bs) = a, b
        if ac == '1.0' and as_ == '0.0':
            return b
        if bc == '1.0' and bs == '0.0':
            return a
        return (self._def('Real', '(- (* %s %s) (* %s %s))' % (ac, bc, as_, bs)),
                self._def('Real', '(+ (* %s %s) (* %s %s))' % (as_, bc, ac, bs)))

    def _pow(self, at, n):
        """(cos, sin) of n * (atom / D)"""
        if n < 0:
            c, s = self._pow(at, -n)
            return c, '(- %s)' % s
        if n == 0:
            return ('1.0', '0.0')
        key = (at, n)
        r = self.pow_cache.get(key)
        if r is None:
            _, c, s = self._basevars(at)
            if n == 1:
                r = (c, s)
            else:
                h = n // 2
                r = self._cmul(self._pow(at, h), self._pow(at, n - h))
            self.pow_cache[key] = r
        return r

    def angle(self, argnode):
        r = self.angle_cache.get(argnode)
        if r is not None:
            return r
        d, p, c = self._parts(argnode)
        acc = ('1.0', '0.0')
        for at in sorted(d):
            co = d[at]
            if _pi_period(at) and co.numerator % 2 == 0 and co.denominator == 1:
                continue
            acc = self._cmul(acc, self._pow(at, int(co * self.den[at])))
        if c:
            at = D.const(abs(c))
            acc = self._cmul(acc, self._pow(at, 1 if c > 0 else -1))
        if p:
            if (2 * p).denominator == 1:
                k = int(2 * p) % 4
                cc, ss = acc
                acc = [(cc, ss), ('(- %s)' % ss, cc), ('(- %s)' % cc, '(- %s)' % ss), (ss, '(- %s)' % cc)][k]
            else:
                acc = self._cmul(acc, self._pow(D.PI, int(p * self.den[D.PI])))
        self.angle_cache[argnode] = acc
        return acc

    # -- nodes
    def nm(self, n):
        return self.names[n]

    def real(self, n):
        if D.BOOL[n]:
            return '(ite %s 1.0 0.0)' % self.names[n]
        return self.names[n]

    def bool(self, n):
        if n == 0:
            return 'false'
        if n == 1:
            return 'true'
        return self.names[n]

    def _encode(self):
        for n in self.order:
            self._enc(n)
        # inverse-trig atoms
        for at in list(self.den):
            op = D.OPS[at]
            if op in ('atan2', 'acos', 'asin'):
                self._inverse_angle(at)

    def _scaled(self, x, y):
        if D.OPS[y] == 'const':
            return '(* %s %s)' % (frac(D.ARGS[y]), x)
        c, p, q = D.ARGS[y]
        return '(ite %s %s %s)' % (self.bool(c), self._scaled(x, p), self._scaled(x, q))

    def _declare(self, nm, sort='Real'):
        self.lines.append('(declare-fun %s () %s)' % (nm, sort))
        return nm

    def _enc(self, n):
        if n in self.names:
            return
        op, a = D.OPS[n], D.ARGS[n]
        if op == 'const':
            self.names[n] = frac(a)
            return
        if op == 'special':
            raise EngineError('special value %s reached the solver' % a)
        if op == 'pi':
            self._declare('PI')
            self.side.append('(< %s PI)' % frac(PI_LO))
            self.side.append('(< PI %s)' % frac(PI_HI))
            self.names[n] = 'PI'
            return
        v = 'v%d' % n
        if op == 'sym':
            self._declare(v)
            self.real_syms[n] = v
        elif op == 'bsym':
            self._declare(v, 'Bool')
            self.bool_syms[n] = v
        elif op == 'add':
            self._d(v, 'Real', '(+ %s %s)' % (self.real(a[0]), self.real(a[1])))
        elif op == 'mul':
            x, y = (a[1], a[0]) if choice(a[1]) else a
            if choice(y):       # one of a few constants times a term: linear
                self._d(v, 'Real', self._scaled(self.real(x), y))
            else:
                self._d(v, 'Real', '(* %s %s)' % (self.real(a[0]), self.real(a[1])))
        elif op == 'div':
            self._declare(v)
            x, y = self.real(a[0]), self.real(a[1])
            if n in self.facts:
                self.side.append('(not (= %s 0.0))' % y)
                self.side.append('(= (* %s %s) %s)' % (v, y, x))
            else:
                self.side.append('(or (= %s 0.0) (= (* %s %s) %s))' % (y, v, y, x))
        elif op == 'sqrt':
            self._declare(v)
            x = self.real(a[0])
            if n in self.facts or nonneg(a[0]):
                self.side.append('(>= %s 0.0)' % v)
                self.side.append('(= (* %s %s) %s)' % (v, v, x))
            else:
                self.side.append('(or (< %s 0.0) (and (>= %s 0.0) (= (* %s %s) %s)))' % (x, v, v, v, x))
        elif op in ('sin', 'cos'):
            c, s = self.angle(a[0])
            self.names[n] = c if op == 'cos' else s
            return
        elif op == 'ite':
            self._d(v, 'Real', '(ite %s %s %s)' % (self.bool(a[0]), self.real(a[1]), self.real(a[2])))
        elif op == 'lt':
            self._d(v, 'Bool', '(< %s %s)' % (self.real(a[0]), self.real(a[1])))
        elif op == 'eq':
            self._d(v, 'Bool', '(= %s %s)' % (self.real(a[0]), self.real(a[1])))
        elif op == 'and':
            self._d(v, 'Bool', '(and %s %s)' % (self.bool(a[0]), self.bool(a[1])))
        elif op == 'or':
            self._d(v, 'Bool', '(or %s %s)' % (self.bool(a[0]), self.bool(a[1])))
        elif op == 'not':
            self._d(v, 'Bool', '(not %s)' % self.bool(a[0]))
        elif op in ('floor', 'round'):
            self.ints = True
            self._declare('i%d' % n, 'Int')
            x = self.real(a[0])
            if op == 'floor':
                self.side.append('(<= (to_real i%d) %s)' % (n, x))
                self.side.append('(< %s (+ (to_real i%d) 1.0))' % (x, n))
            else:
                self.side.append('(<= (- (to_real i%d) 0.5) %s)' % (n, x))
                self.side.append('(<= %s (+ (to_real i%d) 0.5))' % (x, n))
            self._d(v, 'Real', '(to_real i%d)' % n)
        elif op == 'atan2':
            self._declare(v)
            y, x = self.real(a[0]), self.real(a[1])
            pi = self._pi()
            self.side.append('(<= (- %s) %s)' % (pi, v))
            self.side.append('(<= %s %s)' % (v, pi))
            self.side.append('(=> (> %s 0.0) (and (> %s 0.0) (< %s %s)))' % (y, v, v, pi))
            self.side.append('(=> (< %s 0.0) (< %s 0.0))' % (y, v))
            self.side.append('(=> (= %s 0.0) (= %s (ite (< %s 0.0) %s 0.0)))' % (y, v, x, pi))
            # quadrant
            self.side.append('(=> (> %s 0.0) (and (< (* 2.0 %s) %s) (< (- %s) (* 2.0 %s))))' % (x, v, pi, pi, v))
            self.side.append('(=> (and (= %s 0.0) (> %s 0.0)) (= (* 2.0 %s) %s))' % (x, y, v, pi))
        elif op == 'acos':
            self._declare(v)
            x = self.real(a[0])
            pi = self._pi()
            self.side.append('(and (<= 0.0 %s) (<= %s %s))' % (v, v, pi))
            self.side.append('(= (= %s 0.0) (= %s 1.0))' % (v, x))
            self.side.append('(=> (= %s (- 1.0)) (= %s %s))' % (x, v, pi))
            self.side.append('(=> (> %s 0.0) (< (* 2.0 %s) %s))' % (x, v, pi))
        elif op == 'asin':
            self._declare(v)
            x = self.real(a[0])
            pi = self._pi()
            self.side.append('(and (<= (- %s) (* 2.0 %s)) (<= (* 2.0 %s) %s))' % (pi, v, v, pi))
            self.side.append('(= (> %s 0.0) (> %s 0.0))' % (v, x))
            self.side.append('(= (= %s 0.0) (= %s 0.0))' % (v, x))
        elif op in ('uf', 'rnd32'):
            fn = ('uf_' + re.sub(r'\W', '_', a[0])) if op == 'uf' else 'uf_rnd32'
            args = a[1:] if op == 'uf' else a
            if not hasattr(self, 'ufd'):
                self.ufd = set()
            if fn not in self.ufd:
                self.ufd.add(fn)
                self.lines.append('(declare-fun %s (%s) Real)' % (fn, ' '.join(['Real'] * len(args))))
            self._d(v, 'Real', '(%s %s)' % (fn, ' '.join(self.real(x) for x in args)))
            if fn == 'uf_exp':
                self.side.append('(> %s 0.0)' % v)
        else:
            raise EngineError('encode ' + op)
        self.names[n] = v

    def _pi(self):
        if D.PI not in self.names:
            self._enc(D.PI)
        return 'PI'

    def _d(self, v, sort, body):
        self.lines.append('(define-fun %s () %s %s)' % (v, sort, body))

    def _inverse_angle(self, at):
        op, a = D.OPS[at], D.ARGS[at]
        d, c, s = self._basevars(at)
        C, S = self._pow(at, d)
        if op == 'atan2':
            y, x = self.real(a[0]), self.real(a[1])
            r = self._declare('r%d' % at)
            self.side.append('(>= %s 0.0)' % r)
            self.side.append('(= (* %s %s) (+ (* %s %s) (* %s %s)))' % (r, r, x, x, y, y))
            self.side.append('(= (* %s %s) %s)' % (r, C, x))
            self.side.append('(= (* %s %s) %s)' % (r, S, y))
            self.side.append('(or (> %s 0.0) (and (= %s 1.0) (= %s 0.0)))' % (r, C, S))
            if d == 2:
                self.side.append('(>= %s 0.0)' % c)
                self.side.append('(or (> %s 0.0) (= %s 1.0))' % (c, s))
                self.side.append('(=> (>= %s 0.0) (>= %s 0.0))' % (y, s))
                self.side.append('(=> (< %s 0.0) (< %s 0.0))' % (y, s))
            elif d > 2:
                self.side.append('(>= %s %s)' % (c, frac(F(math.cos(math.pi / d)) - F(1, 10 ** 9))))
                if d == 4:
                    self.side.append('(>= (* 2.0 (* %s %s)) 1.0)' % (c, c))
            if nonneg(a[0]):
                self.side.append('(>= %s 0.0)' % s)
        elif op == 'acos':
            x = self.real(a[0])
            self.side.append('(= %s %s)' % (C, x))
            self.side.append('(>= %s 0.0)' % S)
            self.side.append('(>= %s 0.0)' % s)
            if d >= 2:
                self.side.append('(>= %s 0.0)' % c)
        elif op == 'asin':
            x = self.real(a[0])
            self.side.append('(= %s %s)' % (S, x))
            self.side.append('(>= %s 0.0)' % C)
            if d >= 2:
                self.side.append('(>= %s 0.0)' % c)
                self.side.append('(>= (* 2.0 (* %s %s)) 1.0)' % (c, c))

    def taylor(self):
        """Bounds relating an angle to its sine and cosine (true for every real angle)."""
        for at, (d, c, s) in self.base.items():
            if D.OPS[at] in ('const', 'pi'):
                continue
            if at not in self.names:
                continue
            x = self._def('Real', '(/ %s %d.0)' % (self.real(at), d))
            xx = self._def('Real', '(* %s %s)' % (x, x))
            self.side.append('(>= %s (- 1.0 (/ %s 2.0)))' % (c, xx))
            self.side.append('(<= %s (+ (- 1.0 (/ %s 2.0)) (/ (* %s %s) 24.0)))' % (c, xx, xx, xx))
            self.side.append('(=> (>= %s 0.0) (and (<= %s %s) (>= %s (* %s (- 1.0 (/ %s 6.0))))))' % (x, s, x, s, x, xx))
            self.side.append('(=> (<= %s 0.0) (and (>= %s %s) (<= %s (* %s (- 1.0 (/ %s 6.0))))))' % (x, s, x, s, x, xx))
            self.side.append('(=> (>= %s 0.0) (<= %s (* %s (+ (- 1.0 (/ %s 6.0)) (/ (* %s %s) 120.0)))))' % (x, s, x, xx, xx, xx))
            self.side.append('(=> (<= %s 0.0) (>= %s (* %s (+ (- 1.0 (/ %s 6.0)) (/ (* %s %s) 120.0)))))' % (x, s, x, xx, xx, xx))
            self.side.append('(=> (and (< 0.0 %s) (< %s 3.141592)) (> %s 0.0))' % (x, x, s))
            self.side.append('(=> (and (> 0.0 %s) (> %s (- 3.141592))) (< %s 0.0))' % (x, x, s))

    def script(self, asserts, extra=()):
        out = list(self.lines)
        for s in self.side:
            out.append('(assert %s)' % s)
        for s in asserts:
            out.append('(assert %s)' % s)
        for s in extra:
            out.append('(assert %s)' % s)
        return out

    def value_names(self):
        names = list(self.real_syms.values()) + list(self.bool_syms.values())
        for at, (d, c, s) in self.base.items():
            names += [c, s]
        return names


def parse_values(text):
    """(get-value ...) output -> dict name -> float/bool"""
    out = {}
    toks = re.findall(r'\(|\)|[^\s()]+', text)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            l = []
            while toks[pos] != ')':
                l.append(parse())
            pos += 1
            return l
        return t
    try:
        tree = parse()
    except IndexError:
        return out

    def ev(x):
        if isinstance(x, str):
            if x == 'true':
                return True
            if x == 'false':
                return False
            return float(x.rstrip('?'))
        if x[0] == '-':
            return -ev(x[1]) if len(x) == 2 else ev(x[1]) - ev(x[2])
        if x[0] == '/':
            return float(F(str(x[1]).rstrip('?')) / F(str(x[2]).rstrip('?'))) if isinstance(x[1], str) \
                else ev(x[1]) / ev(x[2])
        if x[0] == '+':
            return sum(ev(y) for y in x[1:])
        if x[0] == '*':
            return math.prod(ev(y) for y in x[1:])
        raise ValueError(x)
    for p in tree:
        try:
            out[p[0]] = ev(p[1])
        except Exception:
            pass
    return out


def command(lines, names, timeout, engine):
    """(argv, script text)"""
    if engine.startswith('z3'):
        head = ['(set-option :pp.decimal true)', '(set-option :pp.decimal_precision 20)']
        tac = {'z3': '(check-sat)', 'z3nl': '(check-sat-using (then simplify purify-arith propagate-values '
                                           'solve-eqs simplify qfnra-nlsat))',
               'z3nra': '(check-sat-using qfnra)', 'z3smt': '(check-sat-using smt)',
               'z3som': '(check-sat-using (then (using-params simplify :som true) propagate-values solve-eqs '
                        '(using-params simplify :som true) smt))'}[engine]
        cmd = [Z3, '-in', '-T:%d' % max(1, int(math.ceil(timeout))), '-memory:4000']
        tail = [tac]
    else:
        head = ['(set-logic QF_NIRA)' if False else '(set-logic ALL)']
        cmd = ['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--produce-models']
        if engine == 'cvc5cov':
            cmd.append('--nl-cov')
        tail = ['(check-sat)']
    if names:
        tail.append('(get-value (%s))' % ' '.join(names))
    return cmd, '\n'.join(head + lines + tail) + '\n'


def classify(o):
    first = o.strip().split('\n', 1)
    v = first[0].strip()
    # an (error line before the verdict means the script was not understood
    if v.startswith('(error'):
        STATS['script_errors'] = STATS.get('script_errors', 0) + 1
    if v.startswith('(error') and os.environ.get('SYMTORCH_DEBUG'):
        print('SOLVER ERROR', o[:300])
    if v not in ('sat', 'unsat'):
        return 'unknown', {}
    return v, (parse_values(first[1]) if v == 'sat' and len(first) > 1 else {})


def account(engine, v, dt):
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS[v] += 1
    if v != 'unknown':
        STATS['by'][engine] = STATS['by'].get(engine, 0) + 1
    if os.environ.get('SYMTORCH_TRACE'):
        print('      q%d %s %s %.2f' % (STATS['queries'] - 1, engine, v, dt), flush=True)


def dump(text):
    if os.environ.get('SYMTORCH_DUMP'):
        with open(os.path.join(os.environ['SYMTORCH_DUMP'], 'q%06d.smt2' % STATS['queries']), 'w') as f:
            f.write(text)


TOK = re.compile(r'\(|\)|[^\s()]+')


def nonlinear(line):
    """does the expression multiply or divide two terms that are not numbers?"""
    if '(*' not in line and '(/' not in line:
        return False
    stack = []
    for t in TOK.findall(line):
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            num = len(x) > 1 and x[0] in ('-', '/', '+', '*') and all(y == '#' for y in x[1:])
            if x and x[0] in ('*', '/') and sum(y != '#' for y in x[1:]) > 1:
                return True
            if x and x[0] == '/' and len(x) > 2 and x[2] != '#':
                return True
            if stack:
                stack[-1].append('#' if num else 'e')
        elif stack:
            stack[-1].append('#' if t[0].isdigit() else t)
    return False


def linear_part(lines):
    """the script with every non-linear constraint dropped and every non-linear term made arbitrary; None if nothing is"""
    out, lost = [], False
    for l in lines:
        if l.startswith('(define-fun ') and nonlinear(l):
            nm, _, sort = l.split()[1:4]
            out.append('(declare-fun %s () %s)' % (nm, sort))
            lost = True
        elif l.startswith('(assert') and nonlinear(l):
            lost = True
        else:
            out.append(l)
    return out if lost else None


def run_solver(lines, names, timeout, engine):
    """returns (verdict, model dict)"""
    t0 = time.time()
    cmd, text = command(lines, names, timeout, engine)
    dump(text)
    try:
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout + 3)
        o = p.stdout
    except subprocess.TimeoutExpired:
        o = 'timeout'
    v, m = classify(o)
    account(engine, v, time.time() - t0)
    return v, m


def run_portfolio(lines, names, timeout, engines):
    """several engines on one query at the same time; the first verdict wins"""
    t0 = time.time()
    procs = []
    for e in engines:
        cmd, text = command(lines, names, timeout, e)
        if not procs:
            dump(text)
        f = tempfile.TemporaryFile('w+')
        f.write(text)
        f.flush()
        f.seek(0)
        out = tempfile.TemporaryFile('w+')
        procs.append([e, subprocess.Popen(cmd, stdin=f, stdout=out, stderr=subprocess.STDOUT), f, out])
    res, won = ('unknown', {}), engines[0]
    live = list(procs)
    nap = 0.005
    while live and time.time() - t0 < timeout + 3 and res[0] == 'unknown':
        time.sleep(nap)
        nap = min(nap * 1.5, 0.1)
        for pr in list(live):
            if pr[1].poll() is not None:
                live.remove(pr)
                pr[3].seek(0)
                v, m = classify(pr[3].read())
                if v != 'unknown':
                    res, won = (v, m), pr[0]
                    break
    for e, p, f, out in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
        f.close()
        out.close()
    account(won, res[0], time.time() - t0)
    return res
