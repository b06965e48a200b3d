"""Obligation prover.  Integer goals go to z3 over mathematical integers, with
bit-level terms kept opaque up to the instances of the lemmas in LEMMAS (which
lemmas.py has z3 / Verus prove separately).  Data equalities that the normal
form does not decide go through random evaluation (refutation) and
bit-vector sweeping (equivalence) in sweep.py."""
import time
import z3
import terms as tm
from terms import T


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.byz3 = 0
        self.syntactic = 0
        self.cached = 0


class Prover:
    def __init__(self, timeout_ms=10000):
        self.stats = Stats()
        self.cache = {}
        self.timeout = timeout_ms
        self.zmemo = {}
        self.sides = {}
        self.solvers = {}
        self.fresh = 0
        self.deadline = None
        self.submemo = {}
        self.keep_eqs = True

    # ------------------------------------------------------------ translation
    def z(self, t):
        """z3 term; side conditions of t's atoms are in self.sides[t]"""
        m = self.zmemo
        for x in tm.topo_int([t]):
            if x in m:
                continue
            m[x] = self._z1(x)
        return m[t]

    def _opaque(self, x):
        v = z3.Int('a%d' % x.id)
        s = []
        if x.lo is not None:
            s.append(v >= x.lo)
        if x.hi is not None:
            s.append(v <= x.hi)
        self.sides[x] = s
        return v

    def _z1(self, x):
        o, a, m = x.op, x.a, self.zmemo
        if o == 'c':
            return z3.IntVal(a[0])
        if o == 'p':
            s = z3.IntVal(a[0])
            for mono, k in a[1]:
                if len(mono) == 1:
                    p = m[mono[0]]
                else:
                    p = self.mono(mono)
                s = s + (p if k == 1 else k * p)
            return s
        if o == 'tt':
            return z3.BoolVal(True)
        if o == 'ff':
            return z3.BoolVal(False)
        if o == 'le':
            return m[a[0]] <= 0
        if o == 'eq':
            return m[a[0]] == 0
        if o == 'not':
            return z3.Not(m[a[0]])
        if o == 'andb':
            return z3.And([m[y] for y in a])
        if o == 'beq':
            return m[a[0]] == m[a[1]]
        if o == 'bv' or x.kind == 'b' and o == 'app':
            return z3.Bool('b%d' % x.id)
        if o == 'pow2':
            return z3.Bool('p%d' % x.id)
        if o == 'ite' and x.kind == 'i':
            return z3.If(m[a[0]], m[a[1]], m[a[2]])
        if o == 'w':
            v = self._opaque(x)
            q = z3.Int('q%d' % x.id)
            self.sides[x].append(m[a[1]] == v + (1 << a[0]) * q)
            return v
        if o == 'sw':
            v = self._opaque(x)
            q = z3.Int('q%d' % x.id)
            self.sides[x].append(m[a[1]] == v + (1 << a[0]) * q)
            return v
        if o == 'd':
            v = self._opaque(x)
            c = a[1]
            self.sides[x] += [m[a[0]] >= c * v, m[a[0]] < c * v + c]
            return v
        if o == 'and':
            v = self._opaque(x)
            for y in a[1]:
                self.sides[x].append(v <= m[y])
            return v
        if o in ('sh', 'st', 'cp', 'la', 'ca', 'av'):
            return None
        return self._opaque(x)

    def mono(self, mono):
        key = ('mono', mono)
        if key not in self.zmemo:
            self.zmemo[key] = z3.Int('m' + '_'.join(str(y.id) for y in mono))
        return self.zmemo[key]

    def gather(self, ts):
        """side conditions + lemma instances for everything in ts"""
        out = []
        monos = set()
        ands = []
        pows = set()
        for x in tm.topo_int(ts):
            if x.op == 'p':
                for mono, k in x.a[1]:
                    if len(mono) > 1:
                        monos.add(mono)
            if x in self.sides:
                out += self.sides[x]
            if x.op == 'and' and len(x.a[1]) == 2:
                ands.append(x)
            if x.op == 'pow2':
                pows.add(x)
        out += self.mono_lemmas(monos)
        # x & (W-1) for a power of two W
        extra = []
        for t in ands:
            full = t.a[2] == (1 << t.a[0]) - 1
            if not full:
                continue
            for i in (0, 1):
                mk_, x = t.a[1][i], t.a[1][1 - i]
                W = tm.add(mk_, tm.ONE)
                # wrap(64,y) with y >= 0 small is y: handled by construction
                p = tm.pow2(W)
                extra.append(tm.implies(tm.andb(p, tm.lt(x, W)), tm.eq(t, x)))
                extra.append(tm.implies(tm.andb(p, tm.ge(x, W), tm.lt(x, tm.scale(W, 2))), tm.eq(t, tm.sub(x, W))))
                pows.add(p) if p.op == 'pow2' else None
        for p in list(pows):
            W = p.a[0]
            # pow2(W) => W >= 1; pow2(2h) <=> pow2(h); pow2(W), W>=2 => W even
            extra.append(tm.implies(p, tm.ge(W, tm.ONE)))
            if W.op == 'p' and all(k % 2 == 0 for _, k in W.a[1]) and W.a[0] % 2 == 0:
                h = tm._mkpoly(W.a[0] // 2, {m: k // 2 for m, k in W.a[1]})
                extra.append(tm.beq(p, tm.pow2(h)))
            elif not isinstance(W, tuple):
                extra.append(tm.implies(tm.andb(p, tm.ge(W, tm.C(2))), tm.eq(tm.wrap(1, W), tm.ZERO)))
        if extra:
            new = []
            for e in extra:
                new.append(self.z(e))
            for x in tm.topo_int(extra):
                if x in self.sides:
                    out += self.sides[x]
                if x.op == 'p':
                    for mono, k in x.a[1]:
                        if len(mono) > 1 and mono not in monos:
                            monos.add(mono)
            out += new
        return out

    def mono_lemmas(self, monos):
        out = []
        zm = self.z
        monos = [m for m in monos]
        byf = {}
        for m in monos:
            if len(m) == 2:
                for i in (0, 1):
                    f, x = m[i], m[1 - i]
                    if f.lo is not None and f.lo >= 0:
                        byf.setdefault(f, []).append((x, self.mono(m)))
            for y in m:
                zm(y)
                if y in self.sides:
                    out += self.sides[y]
            if all(y.lo is not None and y.lo >= 0 for y in m):
                out.append(self.mono(m) >= 0)
        for f, xs in byf.items():
            F = zm(f)
            for i, (x, px) in enumerate(xs):
                X = zm(x)
                for k in (0, 1, 2, 3):
                    out.append(z3.Implies(X >= k, px >= k * F))
                    out.append(z3.Implies(X <= k, px <= k * F))
                for y, py in xs[i + 1:]:
                    Y = zm(y)
                    out.append(z3.Implies(X < Y, px + F <= py))
                    out.append(z3.Implies(Y < X, py + F <= px))
                    out.append(z3.Implies(X == Y, px == py))
        return out

    # ------------------------------------------------------------ queries
    def propagate(self, fs):
        """facts of the form variable = literal are substituted into the others"""
        eqs = {}
        for f in fs:
            if f.op == 'eq':
                p = f.a[0]
                if p.op == 'v':
                    eqs[p] = tm.ZERO
                elif p.op == 'p' and len(p.a[1]) == 1:
                    (mono, k), = p.a[1]
                    if len(mono) == 1 and mono[0].op == 'v' and p.a[0] % k == 0:
                        eqs[mono[0]] = tm.C(-p.a[0] // k)
        if not eqs:
            return fs
        mk = tuple(sorted((v.id, c.a[0]) for v, c in eqs.items()))
        memo = self.submemo.setdefault(mk, dict(eqs))
        out = tm.subst(fs, memo, shared=True, topo=tm.topo_int)
        out = [f for f in out if f is not tm.TT]
        # the substituted variables keep their (literal) values within range
        for v, c in eqs.items():
            if v.lo is not None and c.a[0] < v.lo or v.hi is not None and c.a[0] > v.hi:
                return [tm.FF]
        return out + ([tm.eq(v, c) for v, c in eqs.items()] if self.keep_eqs else [])

    def sat(self, facts, goal=None, want_model=False):
        """is facts & goal satisfiable?  True/False/None"""
        fs = [f for f in facts if f is not tm.TT]
        if goal is not None:
            if goal is tm.FF:
                return False
            fs = fs + [goal]
        fs = self.propagate(fs)
        if any(f is tm.FF for f in fs):
            return False
        key = frozenset(fs)
        if not want_model and key in self.cache:
            self.stats.cached += 1
            return self.cache[key]
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise TimeoutError('prover budget')
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for f in fs:
            s.add(self.z(f))
        s.add(self.gather(fs))
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        res = True if r == z3.sat else False if r == z3.unsat else None
        if res is None:
            self.stats.unknown += 1
        if want_model:
            return res, (s.model() if res else None)
        self.cache[key] = res
        return res

    def model(self, facts, goal, names):
        """values of the named variables in a model of facts & goal"""
        fs = [f for f in tuple(facts) + (goal,) if f is not tm.TT]
        vs = {x.a[0]: x for x in tm.topo_int(fs) if x.op == 'v' and x.a[0] in names}
        if not vs:
            return None
        s = z3.Solver()
        s.set('timeout', 2000)
        for f in fs:
            s.add(self.z(f))
        s.add(self.gather(fs))
        # small values first
        for cap in (20, 200, 5000, None):
            s.push()
            if cap is not None:
                s.add([self.z(x) <= cap for x in vs.values()])
            if s.check() == z3.sat:
                m = s.model()
                return {n: m.eval(self.z(x), model_completion=True).as_long() for n, x in vs.items()}
            s.pop()
        return None

    def prove(self, facts, goal):
        if goal is tm.TT:
            self.stats.syntactic += 1
            return True
        if goal in facts:
            self.stats.syntactic += 1
            return True
        if goal is tm.FF:
            return self.sat(facts) is False
        r = self.sat(facts, tm.not_(goal))
        if r is False:
            self.stats.byz3 += 1
        return r is False

    def decide(self, facts, cond):
        if cond is tm.TT:
            return True
        if cond is tm.FF:
            return False
        if self.prove(facts, cond):
            return True
        if self.prove(facts, tm.not_(cond)):
            return False
        return None
