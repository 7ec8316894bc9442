"""Symbolic / concrete execution contexts, path exploration and discharge of obligations.

A harness body is one Python function body(ctx).  It is run
  * symbolically (mode 'sym'): inputs are symbols, every data-dependent branch of the real
    code forks, and each claim becomes a query for the solver;
  * concretely (mode 'conc'): same body on plain float64 tensors, used to replay
    counterexamples and to validate the encoding.
"""
import math
import os
import random as _random
import re
import time
import traceback
from fractions import Fraction as F

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import dag as D
from . import norm
from . import smt
from . import tensor as T
from .dag import EngineError
from .tensor import Sym, SymMode, SymNum

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NSAMP = 48
BUDGET = {'unsat': 10.0, 'sat': 6.0}


class PathLimit(EngineError):
    pass


class Infeasible(Exception):
    pass


class Obl:
    __slots__ = ('name', 'goal', 'pairs', 'pc', 'cut', 'use', 'tol', 'npc', 'given', 'engines', 'lemma', 'split')

    def __init__(self, name, goal, pairs, npc, cut=None, use=(), tol=None, given=(), engines=None, split=()):
        self.name, self.goal, self.pairs, self.npc = name, goal, pairs, npc
        self.cut, self.use, self.tol, self.given = cut, use, tol, given
        self.engines = engines
        self.split = split


def ids_of(x):
    if isinstance(x, torch.Tensor):
        return T.lift_ids(x)
    n = T.node_of_number(x)
    if n is not None:
        return torch.tensor(n)
    if isinstance(x, (list, tuple)):
        return torch.stack([ids_of(v) for v in x])
    if isinstance(x, np.ndarray):
        return T.lift_ids(torch.tensor(x))
    raise TypeError(type(x))


def plain(x):
    if isinstance(x, torch.Tensor):
        return x.detach().to(torch.float64) if x.dtype != torch.bool else x
    if isinstance(x, (list, tuple)):
        return torch.stack([plain(v) for v in x]) if len(x) else torch.zeros(0, dtype=torch.float64)
    return torch.as_tensor(x, dtype=torch.float64) if not isinstance(x, bool) else torch.tensor(x)


class Base:
    """Shared input constructors."""
    sym = False
    on_random = None

    def scalar(self, name, lo=None, hi=None, near=None):
        raise NotImplementedError

    def real(self, name, shape=(), lo=None, hi=None, near=None, dtype=torch.float64):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        vals = [self._real('%s_%d' % (name, i) if shape else name, lo, hi, near) for i in range(n)]
        return self._mk(vals, shape, dtype)

    def unit(self, name, batch=(), dim=4, dtype=torch.float64, assume=True):
        """unit vectors / quaternions"""
        batch = tuple(batch)
        n = int(np.prod(batch)) if batch else 1
        vals = []
        for b in range(n):
            vals += self._unit('%s_%d' % (name, b), dim)
        return self._mk(vals, batch + (dim,), dtype)

    def rotation(self, name, batch=(), dtype=torch.float64):
        """arbitrary rotation matrices, as the image of all unit quaternions"""
        return quat_to_mat(self, self.unit(name, batch, 4, dtype))

    def pose(self, name, batch=(), dtype=torch.float64):
        R = self.rotation(name, batch, dtype)
        t = self.real(name + 't', tuple(batch) + (3,), dtype=dtype)
        return make44(R, t)

    def tensor(self, v, dtype=torch.float64):
        return torch.tensor(v, dtype=dtype)


def quat_to_mat(ctx, q):
    w, x, y, z = q.unbind(-1)
    R = torch.stack([
        1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
        2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1)
    return R.reshape(q.shape[:-1] + (3, 3))


def make44(R, t):
    z = torch.zeros(R.shape[:-2] + (1, 3), dtype=R.dtype)
    o = torch.ones(R.shape[:-2] + (1, 1), dtype=R.dtype)
    return torch.cat([torch.cat([R, t.unsqueeze(-1)], -1), torch.cat([z, o], -1)], -2)


# ------------------------------------------------------------------ symbolic
class SymCtx(Base):
    sym = True

    def __init__(self, prefix, seed, session):
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []                 # nodes
        self.assumptions = []
        self.obls = []
        self.facts = []              # python-level truths that failed: (name, detail, npc)
        self.inputs = {}             # sym name -> (node, sampler kind)
        self.samples = {}            # name -> list of Fraction (NSAMP)
        self.derived = []            # (names, dep nodes, fn)
        self.pending = []            # alternative prefixes
        self.rng = _random.Random(seed)
        self.nrand = 0
        self.session = session
        self.solvecache = {}
        self.mask = np.ones(NSAMP, dtype=bool)
        self.evalcache = {}
        self.pcset = set()
        self.randnames = []
        self.polymemo = {}
        self.defs = []               # defining constraints of derived symbols (always true)
        self.npaths_unknown = 0
        self.units = []              # unit-vector groups (nodes)
        self.unit_assumptions = []

    # ---- inputs
    def _decl(self, name, vals):
        if name in self.inputs:
            raise EngineError('duplicate input ' + name)
        n = D.sym(name)
        self.inputs[name] = n
        self.samples[name] = vals
        return n

    def _real(self, name, lo, hi, near):
        vals = []
        for k in range(NSAMP):
            vals.append(self._draw(lo, hi, near, k))
        n = self._decl(name, vals)
        if lo is not None:
            self.assume_node(D.le(D.const(lo), n))
        if hi is not None:
            self.assume_node(D.le(n, D.const(hi)))
        return n

    def _draw(self, lo, hi, near, k):
        r = self.rng
        if near is not None:
            v = near + r.uniform(-1, 1) * (10.0 ** -r.randint(0, 3))
        elif lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            if k % 8 == 7:
                v = r.choice([lo, hi, (lo + hi) / 2])
            else:
                v = r.uniform(lo, hi)
        elif lo is not None:
            v = float(lo) + abs(r.gauss(0, 1))
        elif hi is not None:
            v = float(hi) - abs(r.gauss(0, 1))
        elif k % 8 == 7:
            v = r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
        elif k % 8 == 6:
            v = r.uniform(-8, 8)
        else:
            v = r.uniform(-2, 2)
        f = F(round(v * 4096), 4096)
        if lo is not None and f < lo:
            f = F(lo)
        if hi is not None and f > hi:
            f = F(hi)
        return f

    def _unit(self, name, dim):
        cols = [[] for _ in range(dim)]
        for k in range(NSAMP):
            if k == 0:
                q = [F(1)] + [F(0)] * (dim - 1)
            elif k <= dim * 2:
                q = [F(0)] * dim
                q[(k - 1) % dim] = F(1 if k <= dim else -1)
            else:
                while True:
                    p = [self.rng.randint(-6, 6) for _ in range(dim)]
                    s = sum(v * v for v in p)
                    if s:
                        break
                # reflection of e0 in the hyperplane normal to p: a rational unit vector
                q = [F(1 if i == 0 else 0) - F(2 * p[0] * p[i], s) for i in range(dim)]
                if self.rng.random() < 0.5:
                    q = [-v for v in q]
            self_q = list(q)
            for i in range(dim):
                cols[i].append(self_q[i])
        nodes = [self._decl('%s_%d' % (name, i), cols[i]) for i in range(dim)]
        s = D.ZERO
        for n in nodes:
            s = D.add(s, D.mul(n, n))
        self.assume_node(D.eq(s, D.ONE))
        self.units.append(tuple(nodes))
        self.unit_assumptions.append(D.eq(s, D.ONE))
        return nodes

    def _mk(self, vals, shape, dtype):
        return Sym(torch.tensor(vals, dtype=torch.int64).reshape(shape), dtype)

    def scalar(self, name, lo=None, hi=None, near=None):
        return SymNum(self._real(name, lo, hi, near))

    def bools(self, name, shape=()):
        n = int(np.prod(shape)) if shape else 1
        ids = []
        for i in range(n):
            nm = '%s_%d' % (name, i)
            b = D.sym(nm, True)
            self.inputs[nm] = b
            self.samples[nm] = [F(self.rng.randint(0, 1)) for _ in range(NSAMP)]
            ids.append(b)
        return Sym(torch.tensor(ids, dtype=torch.int64).reshape(tuple(shape)), torch.bool)

    def random(self, kind, shape, dtype):
        k = self.nrand
        self.nrand += 1
        if self.on_random is not None:      # a harness that parametrises the draws itself
            t = self.on_random(k, kind, tuple(shape), dtype)
            if t is not None:
                return t
        nm = '%s%d' % (kind, k)
        return self.real(nm, shape, lo=0, hi=1, dtype=dtype) if kind == 'rand' else self.real(nm, shape, dtype=dtype)

    # ---- derived symbols
    def _fresh(self, tag):
        n = self.session.fresh
        self.session.fresh += 1
        return D.sym('%s!%d' % (tag, n))

    def identically(self, pairs):
        """True if every pair of terms is equal by ring normalisation alone (under the unit vector relations)"""
        nodes = [D.eq(x, y) for x, y in pairs]
        if any(n == 0 for n in nodes):
            return False
        nodes = [n for n in nodes if n != 1]
        if not nodes:
            return True
        try:
            env = self.env()
            for x, y in pairs:
                v = D.evaluate([x, y], env, NSAMP)
                d = np.abs(np.asarray(v[x], dtype=float) - np.asarray(v[y], dtype=float))
                if np.nanmax(d) > 1e-6 * (1 + np.nanmax(np.abs(np.asarray(v[x], dtype=float)))):
                    return False
            out, _, _ = norm.normalise(nodes, self.units, (), frozenset())
        except (EngineError, norm.Exhausted):
            return False
        return all(n == 1 for n in out)

    def closed_inverse(self, a):
        """inverse of a matrix of known form (rows or columns orthogonal, affine), as terms; None if not of that form"""
        key = ('inv', tuple(tuple(r) for r in a))
        if key in self.solvecache:
            return self.solvecache[key]
        n = len(a)
        r = None
        if n == 1:
            r = None
        elif n == 4 and [x for x in a[3]] == [D.ZERO, D.ZERO, D.ZERO, D.ONE]:
            R = self.closed_inverse([row[:3] for row in a[:3]])
            if R is not None:
                r = []
                for i in range(3):
                    t = D.ZERO
                    for k in range(3):
                        t = D.add(t, D.mul(R[i][k], a[k][3]))
                    r.append(R[i] + [D.neg(t)])
                r.append(list(a[3]))
        elif n == 3:
            def gram(rows):
                g = [[D.ZERO] * 3 for _ in range(3)]
                for i in range(3):
                    for j in range(3):
                        for k in range(3):
                            g[i][j] = D.add(g[i][j], D.mul(rows[i][k], rows[j][k]))
                return g
            for rows, left in ((a, False), ([list(x) for x in zip(*a)], True)):
                g = gram(rows)
                off = [(g[i][j], D.ZERO) for i in range(3) for j in range(i)]
                if not self.identically(off):
                    continue
                if self.identically([(g[i][i], D.ONE) for i in range(3)]):
                    r = [list(x) for x in zip(*a)]
                else:
                    inv = [D.div(D.ONE, g[i][i]) for i in range(3)]
                    # rows orthogonal: A^-1 = A^T D^-1; columns orthogonal: A^-1 = D^-1 A^T
                    r = [[D.mul(a[j][i], inv[i] if left else inv[j]) for j in range(3)] for i in range(3)]
                break
        self.solvecache[key] = r
        return r

    def polykey(self, n, limit=3000):
        """equal for nodes that are the same polynomial in their sub-terms other than sums and products"""
        memo = self.polymemo

        def go(n):
            if n in memo:
                return memo[n]
            op, a = D.OPS[n], D.ARGS[n]
            r = None
            if op == 'const':
                r = {(): a} if a != 0 else {}
            elif op == 'add':
                x, y = go(a[0]), go(a[1])
                r = dict(x)
                for k, v in y.items():
                    r[k] = r.get(k, F(0)) + v
                    if r[k] == 0:
                        del r[k]
            elif op == 'mul':
                x, y = go(a[0]), go(a[1])
                if len(x) * len(y) <= limit:
                    r = {}
                    for k1, v1 in x.items():
                        for k2, v2 in y.items():
                            k = tuple(sorted(k1 + k2))
                            r[k] = r.get(k, F(0)) + v1 * v2
                            if r[k] == 0:
                                del r[k]
            if r is None or len(r) > limit:
                r = {(n,): F(1)}
            memo[n] = r
            return r
        return frozenset(go(n).items())

    def linsolve(self, a, c):
        r = self.closed_inverse(a)
        if r is not None:
            out = []
            for i in range(len(c)):
                s = D.ZERO
                for j in range(len(c)):
                    s = D.add(s, D.mul(r[i][j], c[j]))
                out.append(s)
            return out
        key = ('ls', tuple(tuple(self.polykey(x) for x in r) for r in a), tuple(self.polykey(x) for x in c))
        r = self.solvecache.get(key)
        if r is not None:
            return r
        n = len(c)
        xs = [self._fresh('ls') for _ in range(n)]
        for i in range(n):
            s = D.ZERO
            for j in range(n):
                s = D.add(s, D.mul(a[i][j], xs[j]))
            self.defs.append(D.eq(s, c[i]))
        deps = [x for r_ in a for x in r_] + list(c)

        def fn(vals):
            A = np.stack(vals[:n * n], -1).reshape(-1, n, n)
            C = np.stack(vals[n * n:], -1)
            out = np.full(C.shape, np.nan)
            for k in range(len(C)):
                try:
                    out[k] = np.linalg.solve(A[k], C[k])
                except np.linalg.LinAlgError:
                    pass
            return [out[:, i] for i in range(n)]
        self.derived.append(([D.ARGS[x] for x in xs], deps, fn))
        self.solvecache[key] = xs
        return xs

    def svd(self, ids, full):
        *b, m, n = ids.shape
        k = min(m, n)
        flat = ids.reshape(-1, m * n).tolist()
        Us, Ss, Vs = [], [], []
        for a in flat:
            key = ('svd', tuple(self.polykey(x) for x in a), full)
            r = self.solvecache.get(key)
            if r is None:
                nu = m if full else k
                nv = n if full else k
                U = [[self._fresh('U') for _ in range(nu)] for _ in range(m)]
                S = [self._fresh('S') for _ in range(k)]
                V = [[self._fresh('V') for _ in range(n)] for _ in range(nv)]
                for i in range(m):
                    for j in range(n):
                        s = D.ZERO
                        for l in range(k):
                            s = D.add(s, D.mul(D.mul(U[i][l], S[l]), V[l][j]))
                        self.defs.append(D.eq(s, a[i * n + j]))
                for p in range(nu):
                    for q in range(p, nu):
                        s = D.ZERO
                        for i in range(m):
                            s = D.add(s, D.mul(U[i][p], U[i][q]))
                        self.defs.append(D.eq(s, D.const(1 if p == q else 0)))
                for p in range(nv):
                    for q in range(p, nv):
                        s = D.ZERO
                        for i in range(n):
                            s = D.add(s, D.mul(V[p][i], V[q][i]))
                        self.defs.append(D.eq(s, D.const(1 if p == q else 0)))
                for l in range(k):
                    self.defs.append(D.le(S[l + 1] if l + 1 < k else D.ZERO, S[l]))

                def fn(vals, m=m, n=n, full=full):
                    A = np.stack(vals, -1).reshape(-1, m, n)
                    A = np.nan_to_num(A)
                    u, s_, v = np.linalg.svd(A, full_matrices=full)
                    return list(u.reshape(len(A), -1).T) + list(s_.T) + list(v.reshape(len(A), -1).T)
                names = [D.ARGS[x] for r_ in U for x in r_] + [D.ARGS[x] for x in S] + [D.ARGS[x] for r_ in V for x in r_]
                self.derived.append((names, list(a), fn))
                r = self.solvecache[key] = (U, S, V)
            Us.append(r[0])
            Ss.append(r[1])
            Vs.append(r[2])
        tt = lambda x, s: torch.tensor(x, dtype=torch.int64).reshape(tuple(b) + s)
        return tt(Us, (m, len(Us[0][0]))), tt(Ss, (k,)), tt(Vs, (len(Vs[0]), n))

    def cholesky(self, ids):
        *b, m, n = ids.shape
        out = []
        for a in ids.reshape(-1, n, n).tolist():
            L = [[D.ZERO] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    s = a[i][j]
                    for k in range(j):
                        s = D.sub(s, D.mul(L[i][k], L[j][k]))
                    L[i][j] = D.sqrt(s) if i == j else D.div(s, L[j][j])
            out.append(L)
        return torch.tensor(out, dtype=torch.int64).reshape(ids.shape)

    # ---- numeric side
    def env(self):
        e = {k: np.array([float(v) for v in vs]) for k, vs in self.samples.items()}
        for names, deps, fn in self.derived:
            v = D.evaluate(deps, e, NSAMP)
            outs = fn([v[d] if v[d].dtype != bool else v[d].astype(float) for d in deps])
            for nm, o in zip(names, outs):
                e[nm] = o
        return e

    def update_mask(self, node):
        try:
            v = D.evaluate([node], self.env(), NSAMP)[node]
            v = v if v.dtype == bool else v != 0
            return v
        except EngineError:
            return np.zeros(NSAMP, dtype=bool)

    # ---- assumptions and branches
    def assume_node(self, n):
        if n == 1:
            return
        if n == 0:
            raise Infeasible()
        self.assumptions.append(n)

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        for n in T.idlist(ids_of(cond)):
            n = D.tobool(n)
            self.assume_node(n)
            if D.OPS[n] == 'eq':
                self.mask &= self._approx(n)
            else:
                self.mask &= self.update_mask(n)

    def _approx(self, n):
        a, b = D.ARGS[n]
        v = D.evaluate([a, b], self.env(), NSAMP)
        with np.errstate(all='ignore'):
            return np.abs(v[a].astype(float) - v[b].astype(float)) < 1e-9

    def lt0(self, a, b):
        return D.lt(a, b)

    def decide(self, n):
        if n == 1:
            return True
        if n == 0:
            return False
        if D.OPS[n] == 'not':
            return not self.decide(D.ARGS[n][0])
        if n in self.pcset:
            return True
        if D.not_(n) in self.pcset:
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            if k > self.session.max_depth:
                raise PathLimit('more than %d decisions on one path' % self.session.max_depth)
            tv = self.update_mask(n)
            t = bool((tv & self.mask).any())
            f = bool((~tv & self.mask).any())
            if not t:
                t = self.session.feasible(self, n)
            if not f:
                f = self.session.feasible(self, D.not_(n))
            if t and f:
                self.pending.append(self.decisions + [False])
                v = True
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise Infeasible()
        self.decisions.append(v)
        m = n if v else D.not_(n)
        self.pc.append(m)
        self.pcset.add(m)
        self.mask &= self.update_mask(m)
        return v

    def pick_int(self, n):
        leaves = []

        def rec(x):
            if D.OPS[x] == 'const':
                if D.ARGS[x] not in leaves:
                    leaves.append(D.ARGS[x])
            elif D.OPS[x] == 'ite':
                rec(D.ARGS[x][1])
                rec(D.ARGS[x][2])
            elif D.OPS[x] == 'add':
                raise EngineError('symbolic integer used as a Python int')
            else:
                raise EngineError('symbolic integer used as a Python int')
        rec(n)
        for v in leaves[:-1]:
            if self.decide(D.eq(n, D.const(v))):
                return int(v)
        return int(leaves[-1])

    # ---- claims
    def eq(self, name, a, b, tol=None, cut=None, use=(), given=(), engines=None, split=()):
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape != b.shape:
            self.true(name, False, 'shape %s vs %s' % (tuple(a.shape), tuple(b.shape)))
            return
        ia, ib = ids_of(a), ids_of(b)
        if ia.shape != ib.shape:
            ia, ib = torch.broadcast_tensors(ia, ib)
        pairs = list(zip(T.idlist(ia), T.idlist(ib)))
        cutn = None
        if cut is not None:
            cutn = []
            for c in cut:
                cutn += T.idlist(ids_of(c))
        goal = 1
        for p, q in pairs:
            goal = D.and_(goal, _eqn(p, q))
        self.obls.append(Obl(name, goal, pairs, len(self.pc), cutn, use, tol, given, engines,
                             tuple(self._nodes(split))))

    def _nodes(self, conds):
        out = []
        for c in conds:
            out += [D.tobool(i) for i in T.idlist(ids_of(c))]
        return out

    def holds(self, name, cond, cut=None, use=(), given=(), engines=None, split=()):
        if isinstance(cond, bool):
            return self.true(name, cond)
        goal = 1
        for n in T.idlist(ids_of(cond)):
            goal = D.and_(goal, D.tobool(n))
        cutn = None
        if cut is not None:
            cutn = []
            for c in cut:
                cutn += T.idlist(ids_of(c))
        self.obls.append(Obl(name, goal, None, len(self.pc), cutn, use, None, given, engines,
                             tuple(self._nodes(split))))

    def true(self, name, cond, detail=''):
        if isinstance(cond, torch.Tensor):
            return self.holds(name, cond)
        if not cond:
            self.obls.append(Obl(name + (' [' + detail + ']' if detail else ''), 0, None, len(self.pc)))
        else:
            self.obls.append(Obl(name, 1, None, len(self.pc)))

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except EngineError:
            raise
        except Infeasible:
            raise
        except exc:
            self.true(name, True)
            return True
        self.true(name, False, 'no exception raised')
        return False


def live_divs(roots):
    """Divisions and roots evaluated unconditionally.  Each one stems from a node whose definedness was an
    obligation of its own under exactly the conditions assumed by now."""
    out, seen, stack = set(), set(), list(roots)
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        op = D.OPS[n]
        if op == 'ite':
            stack.append(D.ARGS[n][0])
            continue
        if op in ('div', 'sqrt'):
            out.add(n)
        stack.extend(D.children(n))
    return out


def _positive(a):
    """nodes known to be >= 0 because of the assumption a"""
    op, g = D.OPS[a], D.ARGS[a]
    if op == 'lt' and g[0] == D.ZERO:
        return (g[1],)
    if op == 'lt' and D.isconst(g[0]) and D.cval(g[0]) >= 0:
        return (g[1],)
    if op == 'not' and D.OPS[g[0]] == 'lt':
        x, y = D.ARGS[g[0]]
        if D.isconst(y) and D.cval(y) >= 0:
            return (x,)
    return ()


def _eqn(p, q):
    if D.SPECIAL[p] or D.SPECIAL[q]:
        # NaN == NaN counts as the same result; infinities compare by value
        if p == q:
            return 1
    return D.eq(p, q)


# ------------------------------------------------------------------ concrete
class ConcMode(TorchDispatchMode):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        pk = T._packet(func)
        n = T.FACT.get(pk)
        if n in ('rand', 'randn'):
            return self.ctx.random(n, list(args[0]), kwargs.get('dtype') or torch.get_default_dtype())
        if n in ('rand_like', 'randn_like'):
            return self.ctx.random(n[:-5], list(args[0].shape), kwargs.get('dtype') or args[0].dtype)
        if n in ('normal_', 'uniform_'):
            lo = args[1] if len(args) > 1 else kwargs.get('mean' if n == 'normal_' else 'from', 0.0)
            hi = args[2] if len(args) > 2 else kwargs.get('std' if n == 'normal_' else 'to', 1.0)
            r = self.ctx.random('randn' if n == 'normal_' else 'rand', list(args[0].shape), args[0].dtype)
            args[0].copy_(r * hi + lo if n == 'normal_' else r * (hi - lo) + lo)
            return args[0]
        if n == 'normal':
            if len(args) >= 3 and not isinstance(args[2], torch.Tensor):
                r = self.ctx.random('randn', list(args[2]), kwargs.get('dtype') or torch.get_default_dtype())
                return r * args[1] + args[0]
            m = args[0]
            s = args[1] if len(args) > 1 else 1.0
            shp = torch.broadcast_shapes(*[a.shape for a in (m, s) if isinstance(a, torch.Tensor)])
            r = self.ctx.random('randn', list(shp), (m if isinstance(m, torch.Tensor) else s).dtype)
            return r * s + m
        return func(*args, **kwargs)


class ConcCtx(Base):
    sym = False

    def __init__(self, values, default=0.0, tol=1e-6):
        self.values = values
        self.default = default
        self.fails = []
        self.record = {}
        self.nrand = 0
        self.tol = tol
        self.skipped = False

    def _real(self, name, lo, hi, near):
        v = float(self.values.get(name, self.default))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def _unit(self, name, dim):
        v = [float(self.values.get('%s_%d' % (name, i), 1.0 if i == 0 else 0.0)) for i in range(dim)]
        n = math.sqrt(sum(x * x for x in v)) or 1.0
        return [x / n for x in v]

    def _mk(self, vals, shape, dtype):
        return torch.tensor(vals, dtype=dtype).reshape(shape)

    def scalar(self, name, lo=None, hi=None, near=None):
        return self._real(name, lo, hi, near)

    def bools(self, name, shape=()):
        n = int(np.prod(shape)) if shape else 1
        return torch.tensor([bool(self.values.get('%s_%d' % (name, i), 0)) for i in range(n)]).reshape(tuple(shape))

    def random(self, kind, shape, dtype):
        k = self.nrand
        self.nrand += 1
        if self.on_random is not None:      # a harness that parametrises the draws itself
            t = self.on_random(k, kind, tuple(shape), dtype)
            if t is not None:
                return t
        nm = '%s%d' % (kind, k)
        return self.real(nm, shape, lo=0 if kind == 'rand' else None, hi=1 if kind == 'rand' else None, dtype=dtype)

    def assume_node(self, n):
        raise EngineError('assume_node in concrete mode')

    def assume(self, cond):
        if isinstance(cond, bool):
            ok = cond
        else:
            t = plain(cond)
            ok = bool((t if t.dtype == torch.bool else t != 0).all())
        if not ok:
            raise Infeasible()

    def _rec(self, name, a, ok, detail=''):
        self.record.setdefault(name, []).append(a)
        if not ok:
            self.fails.append((name, detail))

    def eq(self, name, a, b, tol=None, cut=None, use=(), given=(), engines=None, split=()):
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape != b.shape:
            self._rec(name, None, False, 'shape %s vs %s' % (tuple(a.shape), tuple(b.shape)))
            return
        x, y = plain(a), plain(b)
        if x.dtype == torch.bool or y.dtype == torch.bool:
            x, y = x.to(torch.float64), y.to(torch.float64)
        tol = tol or self.tol
        x, y = torch.broadcast_tensors(x, y)
        same = (x == y) | (torch.isnan(x) & torch.isnan(y))
        ok = same | (torch.isfinite(x) & torch.isfinite(y) & ((x - y).abs() <= tol * (1 + x.abs() + y.abs())))
        bad = ~ok
        d = ''
        if bad.any():
            i = bad.reshape(-1).nonzero()[0].item()
            d = 'element %d: got %r expected %r' % (i, x.reshape(-1)[i].item(), y.reshape(-1)[i].item())
        self._rec(name, x.reshape(-1).clone(), not bool(bad.any()), d)

    def holds(self, name, cond, cut=None, use=(), given=(), engines=None, split=()):
        if isinstance(cond, bool):
            return self._rec(name, None, cond)
        t = plain(cond)
        t = t if t.dtype == torch.bool else t != 0
        self._rec(name, t.reshape(-1).clone(), bool(t.all()))

    def true(self, name, cond, detail=''):
        if isinstance(cond, torch.Tensor):
            return self.holds(name, cond)
        self._rec(name + (' [' + detail + ']' if detail and not cond else ''), None, bool(cond), detail)

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except Infeasible:
            raise
        except exc:
            self.true(name, True)
            return True
        self.true(name, False, 'no exception raised')
        return False


def run_concrete(body, values, tol=1e-6):
    """returns (ctx, exception or None)"""
    c = ConcCtx(values, tol=tol)
    try:
        with ConcMode(c):
            body(c)
    except Infeasible:
        c.skipped = True
        return c, None
    except EngineError:
        raise
    except Exception as e:
        if internal_missing(e):
            raise EngineError('the harness uses an internal name of the code that is not there: %s' % e)
        return c, e
    return c, None


def internal_missing(e):
    """an internal (underscored) function or attribute the harness itself names was renamed or takes other arguments:
    nothing a user could observe"""
    if not isinstance(e, (AttributeError, TypeError)) or e.__traceback__ is None:
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(VERIF, 'props')):
        return False
    return bool(re.search(r"(attribute '_[a-z]|^_[a-z]\w*\(\)|\._[a-z]\w*\(\))", str(e)))


# ------------------------------------------------------------------ session
class Session:
    """Explores one harness configuration and discharges its obligations."""

    def __init__(self, name, body, seed=1, max_paths=64, max_depth=40, timeout=10.0, deadline=None, inject=True,
                 tol=1e-6, round32=False, samples_check=True, defined=True):
        self.defined = defined
        self.name, self.body, self.seed = name, body, seed
        self.max_paths, self.max_depth, self.timeout = max_paths, max_depth, timeout
        self.deadline = deadline
        self.fresh = 0
        self.tol = tol
        self.round32 = round32
        self.res = {'config': name, 'paths': 0, 'obligations': 0, 'structural': 0, 'smt': 0, 'discharged': 0,
                    'infeasible': 0, 'witnessed': 0, 'validated': 0, 'violations': [], 'errors': [], 'definedness': 0,
                    'notes': []}
        self.facts_proven = {}

    # feasibility of ctx.pc + n
    def feasible(self, ctx, n):
        asserts = ctx.assumptions + ctx.pc + [n]
        try:
            asserts, _, f2 = self.prep(ctx, asserts, None)
            if 0 in asserts:
                return False
            v, _ = self.query(ctx, asserts, None, timeout=min(2.0, self.timeout), engines=('z3',), facts=f2)
        except EngineError:
            return True
        return v != 'unsat'

    def query(self, ctx, asserts, goal, timeout=None, engines=('z3', 'z3nl', 'cvc5'), pins=None, facts=(), taylor=False):
        """check asserts ∧ ¬goal"""
        roots = [a for a in asserts if a != 1]
        if 0 in roots:
            return 'unsat', {}
        if goal is not None:
            if goal == 1:
                return 'unsat', {}
            ng = D.not_(goal)
            roots = roots + ([] if ng == 1 else [ng])
        defs = self.relevant_defs(ctx, roots)
        roots = roots + defs
        enc = smt.Encoder(roots, facts, taylor)
        al = [enc.bool(r) for r in roots]
        extra = []
        if pins is not None:
            for n, v in enc.real_syms.items():
                if D.ARGS[n] in pins[0]:
                    extra.append('(= %s %s)' % (v, smt.frac(pins[0][D.ARGS[n]])))
            for n, v in enc.bool_syms.items():
                if D.ARGS[n] in pins[0]:
                    extra.append(v if pins[0][D.ARGS[n]] else '(not %s)' % v)
            for at, (d, c, s) in enc.base.items():
                if D.OPS[at] == 'sym' and D.ARGS[at] in pins[0]:
                    cc, ss = pins[1](D.ARGS[at], d)
                    extra.append('(= %s %s)' % (c, smt.frac(cc)))
                    extra.append('(= %s %s)' % (s, smt.frac(ss)))
        lines = enc.script(al, extra)
        names = enc.value_names()
        T_ = timeout or self.timeout
        if goal is not None and pins is None and not taylor:
            ll = smt.linear_part(lines)
            if ll is not None and smt.run_solver(ll, (), 1.0, 'z3')[0] == 'unsat':
                return 'unsat', {}
        v, m = smt.run_solver(lines, names, T_ if len(engines) == 1 else min(T_, 1.0), engines[0])
        if v == 'unknown' and len(engines) > 1:
            v, m = smt.run_portfolio(lines, names, T_, engines)
        if v == 'sat':
            return v, self.decode(enc, m)
        return v, {}

    def prep(self, c, asserts, goal, facts=()):
        """Normalise a query; returns (asserts, goal, facts) equivalent to the input."""
        ua = set(c.unit_assumptions)
        rest = [a for a in asserts if a not in ua]
        defs = []
        if c.defs:
            defs = self.relevant_defs(c, rest + ([goal] if goal is not None else []))
        roots = rest + ([goal] if goal is not None else [])
        pos = frozenset(x for a in asserts for x in _positive(a))
        if goal is not None:
            pos |= self.off_origin(c, asserts, goal, facts)
        try:
            out, facts, nm = norm.normalise(roots, c.units, facts, pos)
            if os.environ.get('SYMTORCH_TRACE') == '2' and goal is not None:
                print('NORM', [D.show(x, 9)[:1500] for x in out])
        except (EngineError, norm.Exhausted):
            self.res['notes'].append('normalisation given up')
            return asserts, goal, set(facts)
        g = out.pop() if goal is not None else None
        keep = [a for a in out if a != 1]
        syms = {x for x in D.topo(keep + ([g] if g is not None else []) + defs) if D.OPS[x] == 'sym'}
        for u, grp in zip(c.unit_assumptions, c.units):
            if u in asserts and any(x in syms for x in grp):
                keep.append(u)
        return keep, g, facts

    def off_origin(self, c, asserts, goal, facts):
        """the atan2 terms below a sine or cosine whose arguments are never both zero"""
        out = []
        for n in D.topo([goal]):
            if D.OPS[n] not in ('sin', 'cos'):
                continue
            for at in D.topo([D.ARGS[n][0]]):
                if D.OPS[at] != 'atan2' or at in out:
                    continue
                key = ('off', at, tuple(asserts))
                r = c.solvecache.get(key)
                if r is None:
                    y, x = D.ARGS[at]
                    rr = D.add(D.mul(y, y), D.mul(x, x))
                    r = False
                    if not any(D.OPS[m] in ('sin', 'cos', 'atan2', 'acos', 'asin') for m in D.topo([rr])):
                        asr, g, f2 = self.prep(c, asserts, D.lt(D.ZERO, rr), facts)
                        v, _ = self.query(c, asr, g, timeout=4, facts=f2)
                        r = v == 'unsat'
                    c.solvecache[key] = r
                if r:
                    out.append(at)
        return frozenset(out)

    def relevant_defs(self, ctx, roots):
        """defining equations of derived symbols that occur in roots"""
        if not ctx.defs:
            return []
        have = set(D.topo(roots))
        out = []
        todo = list(ctx.defs)
        changed = True
        while changed:
            changed = False
            rest = []
            for d in todo:
                t = D.topo([d])
                if any(D.OPS[x] == 'sym' and '!' in D.ARGS[x] and x in have for x in t):
                    out.append(d)
                    have.update(t)
                    changed = True
                else:
                    rest.append(d)
            todo = rest
        return out

    def decode(self, enc, m):
        """solver model -> list of candidate input assignments (name -> float)"""
        v1 = {}
        for n, v in list(enc.real_syms.items()) + list(enc.bool_syms.items()):
            if v in m:
                v1[D.ARGS[n]] = float(m[v])
        v2 = dict(v1)
        for at, (d, c, s) in enc.base.items():
            if D.OPS[at] == 'sym' and c in m and s in m:
                base = d * math.atan2(m[s], m[c])
                cur = v1.get(D.ARGS[at])
                v2[D.ARGS[at]] = base
                if cur is not None:
                    per = 2 * math.pi * d
                    v2[D.ARGS[at]] = base + per * round((cur - base) / per)
        return {'a': v2, 'b': v1}

    # ---- main loop
    def run(self):
        T.CUR[0] = None
        work = [[]]
        t0 = time.time()
        while work:
            if self.res['paths'] >= self.max_paths:
                self.res['errors'].append('path bound %d exceeded' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.res['errors'].append('time budget exceeded with %d paths pending' % len(work))
                break
            prefix = work.pop()
            c = SymCtx(prefix, self.seed, self)
            exc = None
            self.res['paths'] += 1
            T.CUR[0] = c
            T.ROUND32[0] = self.round32
            try:
                with patched_modules():
                    with SymMode():
                        self.body(c)
            except Infeasible:
                work.extend(c.pending)
                self.res['infeasible'] += 1
                continue
            except EngineError as e:
                exc = e
                tb = traceback.format_exc()
            except RecursionError:
                raise
            except Exception as e:
                exc = e
                tb = traceback.format_exc()
            finally:
                T.CUR[0] = None
            work.extend(c.pending)
            T.CUR[0] = c
            try:
                if exc is not None:
                    self.handle_exception(c, exc, tb)
                    if self.res['violations']:
                        return self.res
                    if not isinstance(exc, EngineError):
                        continue
                    continue
                self.discharge(c)
            except EngineError as e:
                self.engine_fallback(c, e, traceback.format_exc())
            finally:
                T.CUR[0] = None
            if self.res['violations']:
                break
        if not self.res['violations'] and not self.res['errors'] and self.res['witnessed'] == 0:
            self.res['errors'].append('vacuous: no satisfiable path in this configuration')
        self.res['time'] = time.time() - t0
        return self.res

    def sample_values(self, c, k):
        return {n: float(v[k]) for n, v in c.samples.items()}

    def live_samples(self, c):
        mask = np.ones(NSAMP, dtype=bool)
        env = c.env()
        for n in c.assumptions + c.pc:
            try:
                v = D.evaluate([n], env, NSAMP)[n]
            except EngineError:
                return np.zeros(NSAMP, dtype=bool), env
            v = v if v.dtype == bool else v != 0
            if D.OPS[n] == 'eq':
                v = v | c._approx(n)
            mask &= v
        return mask, env

    def handle_exception(self, c, exc, tb):
        """The real code raised under symbolic execution: does it raise on a concrete input of this path?"""
        mask, _ = self.live_samples(c)
        idx = list(np.nonzero(mask)[0])[:6]
        if not idx and not isinstance(exc, EngineError):
            try:
                v, model = self.query(c, c.assumptions + c.pc, 0, timeout=5)
                if v == 'unsat':
                    self.res['infeasible'] += 1
                    return
                cands = [model[k] for k in ('a', 'b') if v == 'sat']
            except EngineError:
                cands = []
        else:
            cands = [self.sample_values(c, k) for k in idx]
        if isinstance(exc, EngineError):
            self.engine_fallback(c, exc, tb)
            return
        for vals in cands:
            try:
                cc, e2 = run_concrete(self.body, vals, self.tol)
            except EngineError as x:
                self.res['errors'].append('engine: %s' % x)
                return
            if e2 is not None:
                self.violation('exception', vals, '%s: %s' % (type(e2).__name__, str(e2)[:200]))
                return
            if cc.fails:
                self.violation(cc.fails[0][0], vals, cc.fails[0][1])
                return
        self.res['errors'].append('symbolic run raised %s: %s (not reproduced concretely)\n%s'
                                  % (type(exc).__name__, exc, tb[-1500:]))

    def engine_fallback(self, c, exc, tb):
        """Engine limitation.  Never a pass; a concrete failing input is still a violation."""
        for k in range(NSAMP):
            vals = self.sample_values(c, k)
            try:
                cc, e2 = run_concrete(self.body, vals, self.tol)
            except EngineError:
                continue
            if cc.skipped:
                continue
            if e2 is not None:
                self.violation('exception', vals, '%s: %s' % (type(e2).__name__, str(e2)[:200]))
                return
            if cc.fails:
                self.violation(cc.fails[0][0], vals, cc.fails[0][1])
                return
        self.res['errors'].append('engine: %s\n%s' % (exc, tb[-1500:]))

    def violation(self, obl, values, detail):
        self.res['violations'].append({'config': self.name, 'obligation': obl, 'values': values, 'detail': detail})

    # ---- discharge
    def pins(self, c, k):
        """exact rational pins for sample k, with trig bases on the unit circle"""
        vals = {n: v[k] for n, v in c.samples.items()}
        adj = {}

        def trig(name, d):
            v = float(vals[name])
            x = v / d
            # rational point near angle x
            kk = round(x / (2 * math.pi))
            y = x - 2 * math.pi * kk
            if abs(abs(y) - math.pi) < 1e-9:
                return F(-1), F(0)
            t = F(math.tan(y / 2)).limit_denominator(64)
            cc, ss = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            adj[name] = d * (2 * math.atan(float(t)) + 2 * math.pi * kk)
            return cc, ss
        return (vals, trig), adj

    def discharge(self, c):
        mask, env = self.live_samples(c)
        res = self.res
        # reachability witness
        wit = list(np.nonzero(mask)[0])
        asserts_all = c.assumptions + c.pc
        feasible_known = False
        if wit:
            ok = False
            for k in wit[:3]:
                p, adj = self.pins(c, k)
                try:
                    v, _ = self.query(c, asserts_all, None, timeout=3, engines=('z3',), pins=p)
                except EngineError as e:
                    v = 'unknown'
                if v == 'sat' or not asserts_all:
                    ok = True
                    break
            if not ok:
                # the sample is adjusted to the unit circle by pinning; fall back to an unpinned query
                v, _ = self.query(c, asserts_all, None, timeout=4, engines=('z3', 'z3nl'))
                ok = v == 'sat'
                if v == 'unsat':
                    res['infeasible'] += 1
                    return
            if ok:
                res['witnessed'] += 1
                feasible_known = True
        else:
            v, model = self.query(c, asserts_all, None, timeout=4, engines=('z3', 'z3nl'))
            if v == 'unsat':
                res['infeasible'] += 1
                return
            if v == 'sat':
                res['witnessed'] += 1
                feasible_known = True
        # encoding validation: the DAG against the real code at a concrete point of this path
        if wit:
            self.validate(c, env, wit)
            if res['violations']:
                return
        # definedness
        # (defined=False: configurations that only compare with runs whose definedness others decide)
        facts = self.definedness(c, env, mask) if self.defined else set()
        if res['violations']:
            return
        proven = {}
        for o in c.obls:
            res['obligations'] += 1
            if self.deadline and time.time() > self.deadline:
                res['errors'].append('time budget exceeded at obligation ' + o.name)
                return
            st = self.prove(c, o, env, mask, facts, proven)
            if st == 'ok':
                res['discharged'] += 1
                proven.setdefault(o.name, []).append(o.goal)
            elif st == 'violation':
                return
            elif st == 'infeasible':
                res['infeasible'] += 1
                return
            else:
                res['errors'].append('inconclusive: %s' % o.name)

    def validate(self, c, env, wit):
        k = wit[len(wit) // 2]
        vals = self.sample_values(c, k)
        cc, e = run_concrete(self.body, vals, self.tol)
        if e is not None:
            self.violation('exception', vals, '%s: %s' % (type(e).__name__, str(e)[:200]))
            return
        if cc.fails:
            self.violation(cc.fails[0][0], vals, cc.fails[0][1])
            return
        by = {}
        for o in c.obls:
            if o.pairs is not None:
                by.setdefault(o.name, []).append(o)
        bad = None
        for name, os_ in by.items():
            rec = cc.record.get(name)
            if rec is None or len(rec) != len(os_):
                continue
            for o, r in zip(os_, rec):
                if r is None or len(r) != len(o.pairs):
                    continue
                nodes = [p for p, _ in o.pairs]
                try:
                    v = D.evaluate(nodes, env, NSAMP)
                except EngineError:
                    continue
                for j, p in enumerate(nodes):
                    x, y = float(v[p][k]), float(r[j])
                    if math.isnan(x) and math.isnan(y) or x == y:
                        continue
                    if math.isinf(x) or math.isinf(y) or not abs(x - y) <= max(1e-4, self.tol * 10) * (1 + abs(x) + abs(y)):
                        bad = '%s[%d]: encoding %r, real code %r' % (name, j, x, y)
        if bad:
            # never silently trust a diverging encoding
            self.res['errors'].append('encoding diverges from the real code: ' + bad)
        else:
            self.res['validated'] += 1

    def definedness(self, c, env, mask):
        """Every division / root / inverse-trig on a live branch must be defined."""
        roots = []
        for o in c.obls:
            if o.pairs is not None:
                for p, q in o.pairs:
                    if p != q or True:
                        roots += [p, q]
            else:
                roots.append(o.goal)
        roots += c.pc
        order = D.topo(roots)
        guard = {}
        for r in roots:
            guard[r] = 1
        for n in reversed(order):
            g = guard.get(n, 0)
            op, a = D.OPS[n], D.ARGS[n]
            if op == 'ite':
                guard[a[0]] = D.or_(guard.get(a[0], 0), g)
                guard[a[1]] = D.or_(guard.get(a[1], 0), D.and_(g, a[0]))
                guard[a[2]] = D.or_(guard.get(a[2], 0), D.and_(g, D.not_(a[0])))
            else:
                for ch in D.children(n):
                    guard[ch] = D.or_(guard.get(ch, 0), g)
        facts = set()
        pos, nn = set(), set()
        for x in c.assumptions + c.pc:
            for y in self.conjuncts(x):
                strict = D.OPS[y] == 'lt'
                if strict or D.OPS[y] == 'le':
                    p, q = D.ARGS[y]
                elif D.OPS[y] == 'not' and D.OPS[D.ARGS[y][0]] in ('lt', 'le'):
                    q, p = D.ARGS[D.ARGS[y][0]]
                    strict = D.OPS[D.ARGS[y][0]] == 'le'
                else:
                    continue
                if D.OPS[p] == 'const' and (D.ARGS[p] > 0 or D.ARGS[p] == 0 and strict):
                    pos.add(q)
                elif p == D.ZERO:
                    nn.add(q)
        memo = {}
        for n in order:
            op, a = D.OPS[n], D.ARGS[n]
            if op == 'div' and smt.positive(a[1], pos, nn, memo) or op == 'sqrt' and smt.positive(a[0], pos, nn, memo):
                facts.add(n)
                continue
            if op == 'div':
                if D.OPS[a[1]] == 'const' and D.ARGS[a[1]] != 0:
                    facts.add(n)
                    continue
                cond = D.not_(D.eq(a[1], D.ZERO))
            elif op == 'sqrt':
                if smt.nonneg(a[0]):
                    continue
                cond = D.le(D.ZERO, a[0])
            elif op in ('acos', 'asin'):
                cond = D.and_(D.le(a[0], D.ONE), D.le(D.NEG1, a[0]))
            else:
                continue
            g = guard.get(n, 0)
            key = (n, g)
            self.res['definedness'] += 1
            asserts = c.assumptions + c.pc + ([g] if g != 1 else [])
            o = Obl('defined#%d:%s' % (n, op), cond, None, len(c.pc))
            if self.light(c, cond, g):
                facts.add(n)
                continue
            st = self.prove(c, o, env, mask, facts, {}, extra=[g] if g != 1 else [], quiet=True)
            if st == 'ok':
                if g == 1:
                    facts.add(n)
            elif st == 'violation':
                return facts
            elif st == 'unknown':
                self.res['notes'].append('definedness of %s node not established' % op)
                self.res['errors'].append('inconclusive: definedness of %s: %s' % (op, D.show(n, int(os.environ.get('SYMTORCH_SHOW', 3)))))
        return facts

    def light(self, c, cond, g):
        """proof of a definedness condition from its guard alone, the arguments of atan2 taken as anything of their sign"""
        mp, asr = {}, []
        for n in D.topo([cond] + ([g] if g != 1 else [])):
            if D.OPS[n] == 'atan2':
                for x in D.ARGS[n]:
                    if D.OPS[x] not in ('const', 'sym') and x not in mp:
                        mp[x] = D.sym('any!%d' % x)
                        if smt.nonneg(x):
                            asr.append(D.le(D.ZERO, mp[x]))
        if not mp:
            return False
        new = D.subst([cond] + ([g] if g != 1 else []), mp)
        goal, asserts = new[0], new[1:] + asr
        if len(D.topo([goal] + asserts)) > 400:
            return False
        try:
            v, _ = self.query(c, asserts, goal, timeout=3, engines=('z3',))
        except EngineError:
            return False
        return v == 'unsat'

    def prove(self, c, o, env, mask, facts, proven, extra=(), quiet=False):
        res = self.res
        if o.goal == 1:
            res['structural'] += not quiet
            return 'ok'
        # 1. a concrete candidate from the sample pool, decided by a pinned solver query, then replayed
        cand = self.falsify(c, o, env, mask, extra)
        if cand is not None:
            return cand
        res['smt'] += 1
        asserts = c.assumptions + c.pc + list(extra) + list(o.given)
        for u in o.use:
            for g in proven.get(u, []):
                asserts.append(g)
        engines = o.engines or ('z3', 'z3nl', 'cvc5')
        if o.goal == 0:
            v, model = self.query(c, asserts, None, timeout=self.timeout, engines=engines, facts=facts)
            if v == 'unsat':
                return 'infeasible'
            if v == 'sat':
                return self.replay_model(c, o, model)
            return 'unknown'
        # 2. with cuts: generalise shared sub-results to fresh variables
        if o.cut:
            goals = self.cut_goals(c, o, asserts)
            ok, bynorm = True, 0
            for g, asr, f2 in goals:
                asr, g, f2 = self.prep(c, asr, g, facts | f2)
                if g == 1:
                    bynorm += 1
                    continue
                v, _ = self.query(c, asr, g, timeout=self.timeout, engines=engines, facts=facts | f2)
                if v != 'unsat':
                    ok = False
                    break
            if ok:
                if not quiet and bynorm == len(goals):
                    res['normalised'] = res.get('normalised', 0) + 1
                return 'ok'
        # 3. normalised query
        a2, g2, f2 = self.prep(c, asserts, o.goal, facts)
        if g2 == 1:
            res['normalised'] = res.get('normalised', 0) + (not quiet)
            return 'ok'
        if 0 in a2:
            return 'ok'
        return self.prove_split(c, o, a2, g2, f2, engines)

    def conjuncts(self, g):
        out, stack = [], [g]
        while stack:
            x = stack.pop()
            if D.OPS[x] == 'and':
                stack += list(D.ARGS[x])
            elif x not in out and x != 1:
                out.append(x)
        return out

    def leaf(self, c, o, asserts, goal, facts, engines):
        """a goal without remaining case distinctions: each conjunct against every engine"""
        for g in self.conjuncts(goal):
            v, model = self.query(c, asserts, g, engines=engines[:1], timeout=min(4.0, self.timeout), facts=facts)
            if v == 'unsat':
                continue
            if v == 'sat':
                st = self.replay_model(c, o, model)
                if st == 'violation':
                    return st
            # the abstraction of sin/cos may be too weak here: add Taylor bounds
            v, model = self.query(c, asserts, g, engines=engines, facts=facts, taylor=True)
            if v == 'unsat':
                continue
            if v == 'sat':
                return self.replay_model(c, o, model)
            return 'unknown'
        return 'ok'

    def conditions(self, goal):
        conds = []
        for n in reversed(D.topo([goal])):
            if D.OPS[n] == 'ite':
                cn = D.ARGS[n][0]
                if cn not in conds:
                    conds.append(cn)
        return conds

    def prove_split(self, c, o, asserts, goal, facts, engines, depth=0):
        """case split on the ite conditions of the goal"""
        if self.deadline and time.time() > self.deadline:
            return 'unknown'
        conds = self.conditions(goal)
        if not conds:
            return self.leaf(c, o, asserts, goal, facts, engines)
        if len(conds) <= 8 or depth == 0:
            v, model = self.query(c, asserts, goal, timeout=2 if depth == 0 else 1, engines=engines[:1], facts=facts)
            if v == 'unsat':
                return 'ok'
            if v == 'sat':
                st = self.replay_model(c, o, model)
                if st == 'violation':
                    return st
        if depth > 16:
            return 'unknown'
        cn = self.atom_of(conds[0])
        if os.environ.get('SYMTORCH_TRACE'):
            print('  ' * depth, 'split', len(conds), D.show(cn, 4)[:100], smt.STATS['queries'], '%.1f' % smt.STATS['time'], flush=True)
        for val in (1, 0):
            lit = cn if val else D.not_(cn)
            v, _ = self.query(c, asserts + [lit], None, timeout=2, engines=('z3',), facts=facts)
            if v == 'unsat':
                continue
            mp = {cn: val}
            new = D.subst([goal] + asserts, mp)
            g2, a2 = new[0], [x for x in new[1:] if x != 1] + [lit]
            if g2 == 1 or 0 in a2:
                continue
            f2 = norm.map_facts(facts, D.topo([goal] + asserts), mp) | live_divs(a2 + [g2])
            a2, g2, f2 = self.prep(c, a2, g2, f2)
            if g2 == 1 or 0 in a2:
                continue
            st = self.prove_split(c, o, a2, g2, f2, engines, depth + 1)
            if st != 'ok':
                return st
        return 'ok'

    def atom_of(self, b):
        """an atomic condition inside a boolean"""
        while D.OPS[b] in ('and', 'or', 'not', 'ite'):
            b = D.ARGS[b][0]
        return b

    def cut_goals(self, c, o, asserts):
        mp = {}
        for n in o.cut:
            if D.OPS[n] in ('const', 'special', 'pi', 'sym', 'bsym'):
                continue
            mp[n] = D.sym('cut!%d' % n)
        goal = 1
        out = []
        gs = [_eqn(p, q) for p, q in dict.fromkeys(o.pairs)] if o.pairs else [o.goal]
        new = D.subst(gs + list(asserts), mp)
        ng, na = new[:len(gs)], new[len(gs):]
        # assumptions that no longer share symbols with the goal are kept out
        g = 1
        for x in ng:
            g = D.and_(g, x)
        syms = {s for s in D.topo([g]) if D.OPS[s] in ('sym', 'bsym')}
        keep = [a for a in na if any(s in syms for s in D.topo([a]))]
        return [(g, keep, set())]

    def falsify(self, c, o, env, mask, extra=()):
        m = mask.copy()
        for e in extra:
            v = D.evaluate([e], env, NSAMP)[e]
            m &= v if v.dtype == bool else v != 0
        if not m.any():
            return None
        with np.errstate(all='ignore'):
            if o.pairs is not None:
                nodes = list({x for p in o.pairs for x in p})
                try:
                    val = D.evaluate(nodes, env, NSAMP)
                except EngineError:
                    return None
                bad = np.zeros(NSAMP, dtype=bool)
                for p, q in o.pairs:
                    x, y = val[p].astype(float), val[q].astype(float)
                    same = (x == y) | (np.isnan(x) & np.isnan(y))
                    ok = same | (np.isfinite(x) & np.isfinite(y) & (np.abs(x - y) <= (o.tol or self.tol) * (1 + np.abs(x) + np.abs(y))))
                    bad |= ~ok
            else:
                try:
                    v = D.evaluate([o.goal], env, NSAMP)[o.goal]
                except EngineError:
                    return None
                bad = ~(v if v.dtype == bool else v != 0)
        bad &= m
        idx = list(np.nonzero(bad)[0])
        for k in idx[:3]:
            p, adj = self.pins(c, k)
            asserts = c.assumptions + c.pc + list(extra)
            try:
                v, _ = self.query(c, asserts, o.goal if o.goal != 0 else None, timeout=4, engines=('z3', 'z3nl'),
                                  pins=p)
            except EngineError:
                v = 'unknown'
            if v == 'unsat':
                continue
            vals = self.sample_values(c, k)
            vals.update(adj)
            st = self.try_replay(c, o, vals)
            if st:
                return 'violation'
            vals = self.sample_values(c, k)
            if adj and self.try_replay(c, o, vals):
                return 'violation'
        return None

    def try_replay(self, c, o, vals):
        try:
            cc, e = run_concrete(self.body, vals, self.tol)
        except EngineError:
            return False
        if e is not None:
            self.violation('exception', vals, '%s: %s' % (type(e).__name__, str(e)[:200]))
            return True
        if cc.skipped:
            return False
        if cc.fails:
            f = next((f for f in cc.fails if f[0] == o.name), cc.fails[0])
            self.violation(f[0], vals, f[1])
            return True
        return False

    def replay_model(self, c, o, model):
        for k in ('a', 'b'):
            vals = model.get(k, {})
            full = {n: float(v[0]) for n, v in c.samples.items()}
            # inputs the query did not mention keep an arbitrary admissible value
            full.update({n: v for n, v in vals.items() if n in c.samples})
            if self.try_replay(c, o, full):
                return 'violation'
        self.res['notes'].append('spurious model for %s' % o.name)
        return 'unknown'


# ------------------------------------------------------------------ module patching (symbolic mode only)
PK_MODULES = None


def pk_modules():
    import sys
    return [m for n, m in list(sys.modules.items()) if n.startswith('pytorch_kinematics') and m is not None]


class patched_modules:
    """Inject the symbol-preserving `float` into the modules under test while running symbolically."""

    def __enter__(self):
        self.mods = pk_modules()
        self.saved = []
        for m in self.mods:
            self.saved.append((m, m.__dict__.get('float', None), 'float' in m.__dict__))
            m.__dict__['float'] = T.symfloat
        return self

    def __exit__(self, *a):
        for m, v, had in self.saved:
            if had:
                m.__dict__['float'] = v
            else:
                m.__dict__.pop('float', None)
        return False
