"""Ring normalisation of DAG terms before they reach the solver.

Real-valued nodes become Laurent polynomials over atoms, reduced modulo the relations that hold
by construction: unit vectors (lead variable squared), cos^2+sin^2=1, sqrt(p)^2=p, |x|^2=x^2.
This is a simplifier: it only rewrites a query into an equivalent, smaller one.
"""
import math
from fractions import Fraction as F

from . import dag as D
from .dag import EngineError
from .smt import lin, _pi_period, nonneg, _sign_known

LIMIT = 1500
ONEP = {(): F(1)}


WORKLIMIT = 3000000
WORK = [0]


class TooBig(Exception):
    pass


class Exhausted(Exception):
    """the whole normalisation is given up; the query goes to the solver unnormalised"""


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        elif m in r:
            del r[m]
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _order(m):
    return (sum(e for _, e in m), m)


def pdivexact(q, y):
    """q / y if the division is exact (plain polynomials), else None"""
    ly = max(y, key=_order)
    cy = y[ly]
    inv = tuple((a, -e) for a, e in ly)
    out = {}
    q = dict(q)
    for _ in range(200):
        if not q:
            return out
        lq = max(q, key=_order)
        m = mmul(lq, inv)
        dq = dict(lq)
        if any(dq.get(a, 0) < e for a, e in ly if e > 0):
            return None
        k = q[lq] / cy
        out[m] = out.get(m, 0) + k
        for m2, c2 in y.items():
            mm = mmul(m, m2)
            v = q.get(mm, 0) - k * c2
            if v:
                q[mm] = v
            elif mm in q:
                del q[mm]
        if len(q) > 3 * LIMIT:
            return None
    return None


class Norm:
    def __init__(self, roots, units=(), facts=()):
        self.rules = {}          # atom -> polynomial for atom**2
        self.memo = {}
        self.bmemo = {}
        self.rmemo = {}
        self.facts = facts
        self.lead = {}
        self.linmemo = {}
        self.invof = {}          # inverse atom -> polynomial of its denominator
        self.den = {}
        self.pos = frozenset()
        self.bases = {}
        for g in units:
            p = {(): F(1)}
            for o in g[1:]:
                p[((o, 2),)] = F(-1)
            self.rules[g[0]] = p
        for n in D.topo(roots):
            if D.OPS[n] in ('sin', 'cos'):
                l = lin(D.ARGS[n][0], self.linmemo)
                for at, co in l[0].items():
                    if _pi_period(at) and co.numerator % 2 == 0 and co.denominator == 1:
                        continue
                    d = self.den.setdefault(at, 1)
                    self.den[at] = d * co.denominator // math.gcd(d, co.denominator)
                if l[1] and (2 * l[1]).denominator != 1:
                    d = self.den.setdefault(D.PI, 1)
                    self.den[D.PI] = d * l[1].denominator // math.gcd(d, l[1].denominator)
                if l[2]:
                    self.den.setdefault(D.const(abs(l[2])), 1)

    # ---- polynomial arithmetic modulo the rules
    def reduce(self, p):
        rules = self.rules
        work = p
        out = None
        while True:
            WORK[0] += len(work)
            bad = None
            for m in work:
                for a, e in m:
                    if e >= 2 and a in rules:
                        bad = True
                        break
                if bad:
                    break
            if not bad:
                return work
            out = {}
            for m, c in work.items():
                hit = None
                for k, (a, e) in enumerate(m):
                    if e >= 2 and a in rules:
                        hit = (k, a, e)
                        break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    elif m in out:
                        del out[m]
                    continue
                k, a, e = hit
                rest = m[:k] + ((() if e == 2 else ((a, e - 2),))) + m[k + 1:]
                for m2, c2 in rules[a].items():
                    mm = mmul(rest, m2)
                    v = out.get(mm, 0) + c * c2
                    if v:
                        out[mm] = v
                    elif mm in out:
                        del out[mm]
            if len(out) > 4 * LIMIT:
                raise TooBig()
            work = out

    def pmul(self, p, q):
        if len(p) * len(q) > 20 * LIMIT:
            raise TooBig()
        WORK[0] += len(p) * len(q)
        if WORK[0] > WORKLIMIT:
            raise Exhausted()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                elif m in r:
                    del r[m]
        r = self.reduce(r)
        if len(r) > LIMIT:
            raise TooBig()
        if self.rules or self.invof:
            r = self.tidy(r)
        return r

    def tidy(self, p):
        """cancel a^-2 * rule(a) and inverse atoms against their denominators"""
        for _ in range(4):
            cand = []
            for m in p:
                for a, e in m:
                    if e < 0 and a in self.rules and len(self.rules[a]) > 1:
                        cand.append((a, e, -2, self.rules[a]))
                    elif e > 0 and a in self.invof:
                        cand.append((a, e, 1, self.invof[a]))
            done = False
            for a, e, unit, y in dict.fromkeys((x[0], x[1], x[2], None) for x in cand):
                y = self.rules[a] if unit == -2 else self.invof[a]
                if unit == -2 and e > -2:
                    continue
                q = {}
                rest = {}
                for m, c in p.items():
                    if (a, e) in m:
                        q[tuple(t for t in m if t[0] != a)] = c
                    else:
                        rest[m] = c
                if len(q) < len(y):
                    continue
                d = pdivexact(q, y)
                if d is None:
                    continue
                ne = e - unit
                for m, c in d.items():
                    rest = padd(rest, {mmul(m, ((a, ne),)) if ne else m: c})
                p = rest
                done = True
                break
            if not done:
                return p
            p = self.reduce(p)
        return p

    def atom(self, n):
        return {((n, 1),): F(1)}

    # ---- trig
    def base(self, at):
        b = self.bases.get(at)
        if b is None:
            d = self.den[at]
            x = D.mul(D.const(F(1, d)), at) if at != D.PI else D.mul(D.const(F(1, d)), D.PI)
            op = D.OPS[at]
            cp = sp = None
            if op in ('acos', 'asin') and d in (1, 2) and (d == 1 or op == 'acos'):
                u = self.poly(D.ARGS[at][0])
                if op == 'acos' and d == 1:
                    cp, sp = u, self.psqrt(padd(ONEP, pscale(self.pmul(u, u), -1)))
                elif op == 'acos':
                    cp = self.psqrt(pscale(padd(ONEP, u), F(1, 2)))
                    sp = self.psqrt(pscale(padd(ONEP, pscale(u, -1)), F(1, 2)))
                else:
                    sp, cp = u, self.psqrt(padd(ONEP, pscale(self.pmul(u, u), -1)))
            if op == 'atan2' and d == 1:
                py, px = self.poly(D.ARGS[at][0]), self.poly(D.ARGS[at][1])
                rr = padd(self.pmul(py, py), self.pmul(px, px))
                if len(rr) == 1 and () in rr and rr[()] > 0:
                    k = self._sqrtc(dict(ONEP), 1 / rr[()])
                    cp, sp = self.pmul(px, k), self.pmul(py, k)
                elif at in self.pos:
                    # not at the origin (proven by the caller)
                    k = self.psqrt(rr)
                    if len(k) == 1:
                        (m, co), = k.items()
                        k = {tuple((a, -e) for a, e in m): 1 / co}
                        cp, sp = self.pmul(px, k), self.pmul(py, k)
            if cp is None:
                c, s = D.cos(x), D.sin(x)
                if D.OPS[c] == 'const':
                    cp = {(): D.ARGS[c]} if c else {}
                else:
                    cp = self.atom(c)
                if D.OPS[s] == 'const':
                    sp = {(): D.ARGS[s]} if s else {}
                else:
                    sp = self.atom(s)
                    if D.OPS[c] != 'const':
                        self.rules[s] = {(): F(1), ((c, 2),): F(-1)}
                        self.lead[s] = 1
            b = self.bases[at] = {0: (dict(ONEP), {}), 1: (cp, sp)}
        return b

    def cmul(self, x, y):
        return (padd(self.pmul(x[0], y[0]), pscale(self.pmul(x[1], y[1]), F(-1))),
                padd(self.pmul(x[1], y[0]), self.pmul(x[0], y[1])))

    def cpow(self, at, n):
        b = self.base(at)
        if n < 0:
            c, s = self.cpow(at, -n)
            return c, pscale(s, F(-1))
        r = b.get(n)
        if r is None:
            h = n // 2
            r = b[n] = self.cmul(self.cpow(at, h), self.cpow(at, n - h))
        return r

    def angle(self, arg):
        d, p, c = lin(arg, self.linmemo)
        acc = (dict(ONEP), {})
        for at in sorted(d):
            co = d[at]
            if _pi_period(at) and co.numerator % 2 == 0 and co.denominator == 1:
                continue
            acc = self.cmul(acc, self.cpow(at, int(co * self.den[at])))
        if c:
            acc = self.cmul(acc, self.cpow(D.const(abs(c)), 1 if c > 0 else -1))
        if p:
            if (2 * p).denominator == 1:
                cc, ss = acc
                k = int(2 * p) % 4
                n = lambda q: pscale(q, F(-1))
                acc = [(cc, ss), (n(ss), cc), (n(cc), n(ss)), (ss, n(cc))][k]
            else:
                acc = self.cmul(acc, self.cpow(D.PI, int(p * self.den[D.PI])))
        return acc

    # ---- roots
    def absatom(self, a):
        """|a| for an atom"""
        if nonneg(a) or _sign_known(a, self.pos):
            return self.atom(a)
        n = D.abs_(a)
        if D.OPS[n] != 'ite':
            return self.atom(n)
        self.rules.setdefault(n, self.reduce({((a, 2),): F(1)}))
        return self.atom(n)

    pos = frozenset()

    def psqrt(self, p):
        if not p:
            return {}
        # monomial content with even exponents
        mons = list(p)
        common = dict(mons[0])
        for m in mons[1:]:
            md = dict(m)
            for a in list(common):
                e = md.get(a, 0)
                if (e > 0) != (common[a] > 0) or e == 0:
                    del common[a]
                else:
                    common[a] = min(common[a], e) if e > 0 else max(common[a], e)
        out = dict(ONEP)
        div = ()
        for a, e in sorted(common.items()):
            k = int(e / 2)
            if k == 0:
                continue
            f = self.absatom(a)
            (mm, _), = f.items()
            fa = mm[0][0]
            out = self.pmul(out, {((fa, k),): F(1)})
            div = mmul(div, ((a, -2 * k),))
        rest = {mmul(m, div): c for m, c in p.items()} if div else p
        # numeric content
        nums = [abs(c) for c in rest.values()]
        g = F(math.gcd(*[c.numerator for c in nums]), math.lcm(*[c.denominator for c in nums]))
        lead = max(rest)   # deterministic
        rest = pscale(rest, 1 / g)
        if rest == ONEP:
            return self._sqrtc(out, g)
        # k * (atom^2) hidden by a rule
        for a in {a for m in rest for a, _ in m} | set(self.rules):
            r = self.rules.get(a)
            if r is not None and len(r) == len(rest) and r == rest:
                f = self.absatom(a)
                return self._sqrtc(self.pmul(out, f), g)
        # perfect square of a polynomial
        rt = self._perfect(rest)
        if rt is not None:
            n = self.rebuild(rt)
            if len(rt) == 1:
                n2 = None
            a = D.abs_(n)
            if D.OPS[a] == 'ite':
                q = self.atom(a)
                self.rules.setdefault(a, rest)
            else:
                q = self.poly(a)
            return self._sqrtc(self.pmul(out, q), g)
        n = D.sqrt(self.rebuild(rest))
        if D.OPS[n] == 'const':
            return self._sqrtc(pscale(out, D.ARGS[n]), g)
        self.rules.setdefault(n, rest)
        return self._sqrtc(self.pmul(out, self.atom(n)), g)

    def _sqrtc(self, p, g):
        n = D.sqrt(D.const(g))
        if D.OPS[n] == 'const':
            return pscale(p, D.ARGS[n])
        self.rules.setdefault(n, {(): g})
        return self.pmul(p, self.atom(n))

    def _perfect(self, p):
        """q with q^2 == p modulo the rules, for small p (linear-combination ansatz)."""
        if len(p) > 40 or len(p) < 2:
            return None
        # candidate leading terms: monomials with even exponents and square coefficients
        def root_mono(m):
            return tuple((a, e // 2) for a, e in m) if all(e % 2 == 0 for _, e in m) else None
        order = sorted(p, key=lambda m: (-sum(e for _, e in m), m))
        m0 = order[0]
        r0 = root_mono(m0)
        if r0 is None:
            return None
        c0 = p[m0]
        if c0 < 0:
            return None
        n = D.sqrt(D.const(c0))
        if D.OPS[n] != 'const':
            return None
        q = {r0: D.ARGS[n]}
        try:
            rem = padd(p, pscale(self.pmul(q, q), F(-1)))
            for _ in range(8):
                if not rem:
                    return q
                m = sorted(rem, key=lambda m: (-sum(e for _, e in m), m))[0]
                # divide by 2*lead
                mm = mmul(m, tuple((a, -e) for a, e in r0))
                if any(e < 0 for _, e in mm):
                    return None
                t = {mm: rem[m] / (2 * q[r0])}
                if mm in q:
                    return None
                q = padd(q, t)
                rem = padd(p, pscale(self.pmul(q, q), F(-1)))
        except TooBig:
            return None
        return None

    # ---- nodes
    def poly(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            op = D.OPS[x]
            ch = [c for c in D.children(x) if c not in self.memo and not D.BOOL[c] and op in
                  ('add', 'mul', 'div', 'sqrt', 'ite')]
            if ch:
                stack.extend(ch)
                continue
            try:
                r = self._poly(x)
                if len(r) > LIMIT:
                    raise TooBig()
            except TooBig:
                r = self.atom(self.opaque(x))
            self.memo[x] = r
            stack.pop()
        return self.memo[n]

    def opaque(self, x):
        op, a = D.OPS[x], D.ARGS[x]
        if op in ('add', 'mul', 'div'):
            return D._mk(op, tuple(self.re(c) for c in a)) if op != 'div' else D.div(*[self.re(c) for c in a])
        return x

    def re(self, n):
        if D.BOOL[n] or n in (0, 1):
            return self.boolean(n)
        return self.rebuild(self.poly(n))

    def _poly(self, n):
        op, a = D.OPS[n], D.ARGS[n]
        if op == 'const':
            return {(): a} if a else {}
        if D.BOOL[n]:
            b = self.boolean(n)
            if b in (0, 1):
                return {(): F(b)} if b else {}
            return self.atom(D.ite(b, D.ONE, D.ZERO))
        if op == 'add':
            return padd(self.poly(a[0]), self.poly(a[1]))
        if op == 'mul':
            return self.pmul(self.poly(a[0]), self.poly(a[1]))
        if op == 'div':
            x, y = self.poly(a[0]), self.poly(a[1])
            if len(y) == 1 and () in y:
                return pscale(x, 1 / y[()])
            if n in self.facts and y:
                if len(y) == 1:
                    (m, c), = y.items()
                    return self.pmul(x, {tuple((q, -e) for q, e in m): 1 / c})
                lead = y[min(y, key=lambda m: (-sum(e for _, e in m), m))]
                ym = pscale(y, 1 / lead)
                # x a multiple of y
                if len(x) == len(y) and x:
                    k = x[next(iter(x))] / y.get(next(iter(x)), F(0)) if next(iter(x)) in y else None
                    if k and pscale(y, k) == x:
                        return {(): k}
                iv = D._mk('div', (D.ONE, self.rebuild(ym)))
                self.facts = self.facts | {iv} if isinstance(self.facts, (set, frozenset)) else set(self.facts) | {iv}
                self.invof[iv] = ym
                return pscale(self.pmul(x, self.atom(iv)), 1 / lead)
            return self.atom(D.div(self.rebuild(x), self.rebuild(y)))
        if op == 'sqrt':
            p = self.poly(a[0])
            if n in self.facts or nonneg(a[0]):
                return self.psqrt(p)
            if p and not (len(p) == 1 and () in p):
                return self.atom(D.sqrt(self.rebuild(p)))
            s = D.sqrt(self.rebuild(p))
            if D.OPS[s] == 'const':
                return {(): D.ARGS[s]} if s else {}
            if D.isconst(self.rebuild(p)) and D.ARGS[self.rebuild(p)] > 0:
                self.rules.setdefault(s, p)
            return self.atom(s)
        if op in ('sin', 'cos'):
            return self.angle(a[0])[0 if op == 'cos' else 1]
        if op == 'ite':
            c = self.boolean(a[0])
            if c == 1:
                return self.poly(a[1])
            if c == 0:
                return self.poly(a[2])
            if D.SPECIAL[n]:
                return self.atom(D.ite(c, a[1], a[2]))
            x, y = self.poly(a[1]), self.poly(a[2])
            if x == y:
                return x
            # |x| for monomials
            v = D.ite(c, self.rebuild(x), self.rebuild(y))
            if D.OPS[v] != 'ite':
                return self.poly(v)
            if x == pscale(y, F(-1)):
                k = next(iter(sorted(y.items())))[1]
                # scale out the coefficient so that equal magnitudes share an atom
                g = abs(k)
                x1, y1 = pscale(x, 1 / g), pscale(y, 1 / g)
                v = D.ite(c, self.rebuild(x1), self.rebuild(y1))
                if D.OPS[v] == 'ite':
                    self.rules.setdefault(v, self.pmul(x1, x1))
                    return pscale(self.atom(v), g)
                return pscale(self.poly(v), g)
            return self.atom(v)
        if op in ('sym', 'pi', 'special'):
            return self.atom(n)
        if op in ('atan2', 'acos', 'asin', 'floor', 'round', 'rnd32'):
            new = tuple(self.re(c) for c in a)
            v = D.REBUILD[op](*new)
            return self.atom(v) if D.OPS[v] not in ('const',) else self._poly(v)
        if op == 'uf':
            v = D.uf(a[0], *[self.re(c) for c in a[1:]])
            return self.atom(v) if D.OPS[v] not in ('const',) else self._poly(v)
        return self.atom(n)

    def rebuild(self, p):
        key = tuple(sorted(p.items()))
        r = self.rmemo.get(key)
        if r is None:
            r = D.ZERO
            for m, c in key:
                r = D.add(r, D.mul(D.const(c), self._mono(m)))
            self.rmemo[key] = r
        return r

    def _mono(self, m):
        num, den = D.ONE, D.ONE
        for a, e in m:
            if e > 0:
                num = D.mul(num, D.powi(a, e))
            else:
                den = D.mul(den, D.powi(a, -e))
        if den == D.ONE:
            return num
        r = D._mk('div', (num, den))
        self.facts = set(self.facts) | {r}
        return r

    def clear(self, p):
        """multiply out inverse atoms and negative powers (all denominators are known to be nonzero)"""
        for _ in range(6):
            neg = {}
            inv = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        neg[a] = max(neg.get(a, 0), -e)
                    elif a in self.invof:
                        inv[a] = max(inv.get(a, 0), e)
            if neg:
                p = self.pmul(p, {tuple(sorted(neg.items())): F(1)})
                continue
            if not inv:
                return p
            a, k = sorted(inv.items())[-1]
            y = self.invof[a]
            ys = [dict(ONEP)]
            for _i in range(k):
                ys.append(self.pmul(ys[-1], y))
            out = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                rest = tuple(t for t in m if t[0] != a)
                out = padd(out, self.pmul({rest: c}, ys[k - e]))
            p = self.reduce(out)
        return p

    def as_square(self, d):
        """(k, a) with d == k * a^2 for an atom a eliminated by a rule"""
        for a, r in self.rules.items():
            if len(r) == len(d):
                m = next(iter(r))
                if m in d:
                    k = d[m] / r[m]
                    if all(d.get(x) == k * c for x, c in r.items()):
                        return k, a
        return None

    def boolean(self, n):
        if n in (0, 1):
            return n
        r = self.bmemo.get(n)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self.bmemo or x in (0, 1):
                stack.pop()
                continue
            op, a = D.OPS[x], D.ARGS[x]
            if op in ('and', 'or', 'not'):
                ch = [c for c in a if c not in (0, 1) and c not in self.bmemo]
                if ch:
                    stack.extend(ch)
                    continue
                g = lambda c: c if c in (0, 1) else self.bmemo[c]
                r = D.REBUILD[op](*[g(c) for c in a])
            elif op in ('lt', 'eq'):
                r = self._cmp(x, op, a)
            elif op == 'ite':
                r = D.ite(self.boolean(a[0]), self.boolean(a[1]), self.boolean(a[2]))
            else:
                r = x
            self.bmemo[x] = r
            stack.pop()
        return self.bmemo.get(n, n)

    def _cmp(self, x, op, a):
        if D.SPECIAL[a[0]] or D.SPECIAL[a[1]]:
            return x
        p, q = self.poly(a[0]), self.poly(a[1])
        d = padd(q, pscale(p, F(-1)))
        if not d:
            return 0 if op == 'lt' else 1
        if len(d) == 1 and () in d:
            return (1 if d[()] > 0 else 0) if op == 'lt' else 0
        if op == 'eq':
            try:
                dc = self.clear(d)
                if not dc:
                    return 1
                if len(dc) == 1:
                    (m, c), = dc.items()
                    if not m:
                        return 0
                    if len(m) == 1 or True:
                        r = 0
                        for at, e in m:
                            r = D.or_(r, D.eq(D.ZERO, at))
                        return r
                d = dc
            except TooBig:
                pass
        sq = self.as_square(d)
        if sq is not None:
            k, at = sq
            if op == 'eq':
                return D.eq(D.ZERO, at)
            return 0 if k < 0 else D.not_(D.eq(D.ZERO, at))
        k = d[min(d, key=lambda m: (-sum(e for _, e in m), m))]
        if op == 'eq':
            d = pscale(d, 1 / k)
            return D.eq(D.ZERO, self.rebuild(d))
        d = pscale(d, 1 / abs(k))
        # x_even monomial times something keeps its sign: c * m with m even
        if len(d) == 1:
            (m, c), = d.items()
            if all(e % 2 == 0 or nonneg(at) for at, e in m):
                if c < 0:
                    return 0
                r = 1
                for at, e in m:
                    if e > 0:
                        r = D.and_(r, D.not_(D.eq(D.ZERO, at)))
                return r
        if k < 0 and len(d) == 1:
            return D.lt(self.rebuild(pscale(d, F(-1))), D.ZERO)
        return D.lt(D.ZERO, self.rebuild(d))


_SIMPLE = {'const', 'pi', 'sym', 'add', 'mul'}


def simple_arg(n):
    return all(D.OPS[x] in _SIMPLE for x in D.topo([n]))


def map_facts(facts, order, mapping):
    fs = [f for f in order if f in facts]
    if not fs or not mapping:
        return set(facts)
    new = D.subst(fs, mapping)
    return set(facts) | {n for n in new if D.OPS[n] in ('div', 'sqrt')} | \
        {D._coef(n)[1] for n in new if D.OPS[n] == 'mul' and D.OPS[D._coef(n)[1]] in ('div', 'sqrt')}


def trig_args(nodes, units, facts, pos):
    """rewrite the arguments of sin/cos into normal form, innermost first"""
    order = D.topo(nodes)
    mapping = {}
    for n in order:
        if D.OPS[n] not in ('sin', 'cos') or simple_arg(D.ARGS[n][0]):
            continue
        a = D.ARGS[n][0]
        sub = D.topo([a])
        f2 = map_facts(facts, sub, mapping)
        a1 = D.subst([a], mapping)[0]
        nm = Norm([a1], units, f2)
        nm.pos = pos
        a2 = nm.re(a1)
        facts = set(facts) | set(nm.facts)
        new = D.sin(a2) if D.OPS[n] == 'sin' else D.cos(a2)
        if new != n:
            mapping[n] = new
    if not mapping:
        return nodes, facts
    return D.subst(nodes, mapping), map_facts(facts, order, mapping)


def normalise(nodes, units=(), facts=(), pos=frozenset()):
    """returns (normalised boolean nodes, facts extended, Norm)"""
    facts = set(facts)
    WORK[0] = 0
    try:
        nodes, facts = trig_args(list(nodes), units, facts, pos)
    except TooBig:
        pass
    nm = Norm(nodes, units, facts)
    nm.pos = pos
    out = [nm.boolean(n) for n in nodes]
    return out, set(nm.facts), nm
