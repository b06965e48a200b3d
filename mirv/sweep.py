"""Equality of bit-level terms that the normal form does not decide.

Random evaluation refutes; otherwise equivalence sweeping: both terms are
rebuilt bottom-up, internal nodes that agree on all samples are shown equal by
z3 (bit-vectors, cones cut at already merged nodes) and merged, and the result
is accepted only when the two roots become the same node.  Nothing but z3's
`unsat` (or the normal form) merges nodes."""
import random
import time
import z3
import terms as tm
from terms import C

NS = 12


class Samples:
    """atom values for one random world, consistent with atom ranges"""

    def __init__(self, seed):
        self.seed = seed
        self.m = {}

    def __call__(self, t, args):
        r = self.m.get((t, _k(args)))
        if r is None:
            r = self.make(t, args)
            self.m[(t, _k(args))] = r
        return r

    def make(self, t, args):
        rd = random.Random('%s|%s|%s' % (self.seed, t.id if args is None else t.a[0], _k(args)))
        if t.kind == 'b':
            return rd.random() < 0.5
        lo = t.lo if t.lo is not None else 0
        hi = t.hi if t.hi is not None else lo + (1 << 20)
        if t.kind == 'a':
            s = rd.random()
            memo = {}

            def f(i):
                if i not in memo:
                    memo[i] = random.Random('%s/%s' % (s, i)).randint(lo, hi)
                return memo[i]
            return f
        return rd.randint(lo, hi)


def _k(args):
    if args is None:
        return None
    return tuple(x if isinstance(x, (int, bool, str)) else tuple(y if isinstance(y, (int, bool)) else id(y) for y in x) if isinstance(x, tuple) else id(x) for x in args)


def equal(eng, st, a, b, budget=20.0):
    key = (a, b)
    memo = eng.__dict__.setdefault('sweepmemo', {})
    if key in memo:
        return memo[key]
    memo[key] = r = _equal(eng, st, a, b, budget)
    return r


def size(ts):
    return len(tm.topo(ts))


def _equal(eng, st, a, b, budget):
    t0 = time.time()
    sig = None
    for i in range(NS):
        try:
            va, vb = tm.evaluate([a, b], Samples(i))
        except Exception:
            return False
        if callable(va) or callable(vb):
            return False
        if va != vb:
            return False
    if not hasattr(eng, 'sweeps'):
        eng.sweeps = 0
    eng.sweeps += 1
    # all subterm values under the samples
    order = tm.topo([a, b])
    if len(order) > 60000:
        return False
    vals = {}
    for i in range(NS):
        vs = tm.evaluate(order, Samples(i))
        for t, v in zip(order, vs):
            vals.setdefault(t, []).append(v if isinstance(v, (int, bool)) else None)
    rep = {}
    groups = {}
    for t in order:
        if time.time() - t0 > budget:
            return False
        ch = list(tm.children(t))
        if any(rep[c] is not c for c in ch):
            x = tm.subst([t], {c: rep[c] for c in ch if rep[c] is not c})[0]
        else:
            x = t
        rep[t] = x
        if t.kind != 'i' or any(v is None for v in vals[t]):
            continue
        g = groups.setdefault(tuple(vals[t]), [])
        if x in g:
            continue
        done = False
        if x.op not in ('c', 'v'):
            for y in g[:4]:
                if prove_bv(x, y, eng):
                    rep[t] = y
                    done = True
                    break
        if not done:
            g.append(x)
    return rep[a] is rep[b]


def prove_bv(x, y, eng, maxnodes=40, timeout=3000):
    if x is y:
        return True
    for depth in (2, 4, 7):
        w = 8
        try:
            s = z3.SolverFor('QF_BV')
            s.set('timeout', timeout)
            tr = BV(depth)
            zx, zy = tr.go(x, depth), tr.go(y, depth)
            s.add(zx != zy)
            s.add(tr.sides)
            t0 = time.time()
            r = s.check()
            eng.pr.stats.queries += 1
            eng.pr.stats.time += time.time() - t0
            if r == z3.unsat:
                eng.pr.stats.byz3 += 1
                return True
        except NoBV:
            return False
    return False


class NoBV(Exception):
    pass


N = 160   # working width: every term value fits (checked by ranges)


class BV:
    def __init__(self, depth):
        self.memo = {}
        self.sides = []

    def atom(self, t):
        k = ('atom', t)
        if k not in self.memo:
            if t.lo is None or t.hi is None or t.lo < -(1 << 120) or t.hi > (1 << 120):
                raise NoBV()
            v = z3.BitVec('t%d' % t.id, N)
            self.sides += [v >= t.lo, v <= t.hi]
            self.memo[k] = v
        return self.memo[k]

    def go(self, t, d):
        if t.op == 'c':
            return z3.BitVecVal(t.a[0], N)
        k = (t, d)
        if k in self.memo:
            return self.memo[k]
        r = self.node(t, d)
        self.memo[k] = r
        return r

    def node(self, t, d):
        o, a = t.op, t.a
        if d <= 0:
            return self.atom(t)
        if o == 'p':
            s = z3.BitVecVal(a[0], N)
            for m, k in a[1]:
                if len(m) != 1 or abs(k) >= 1 << 90:
                    return self.atom(t)
                x = m[0]
                if x.lo is None or x.hi is None or max(abs(x.lo), abs(x.hi)) * abs(k) >= 1 << 150:
                    return self.atom(t)
                s = s + self.go(x, d) * k
            return s
        if o == 'w':
            if not bounded(a[1]):
                return self.atom(t)
            return self.go(a[1], d - 1) & ((1 << a[0]) - 1)
        if o == 'd' and a[1] & (a[1] - 1) == 0:
            if not bounded(a[0]):
                return self.atom(t)
            return self.go(a[0], d - 1) >> (a[1].bit_length() - 1)
        if o in ('xor', 'or', 'and'):
            r = z3.BitVecVal(a[2], N)
            for x in a[1]:
                y = self.go(x, d - 1)
                r = r ^ y if o == 'xor' else r | y if o == 'or' else r & y
            return r
        if o == 'rot':
            w, x, n = a
            y = self.go(x, d - 1)
            return ((y << n) & ((1 << w) - 1)) | z3.LShR(y, w - n)
        return self.atom(t)


def bounded(t):
    return t.lo is not None and t.hi is not None and t.lo > -(1 << 150) and t.hi < (1 << 150)
