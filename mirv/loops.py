"""Loops with a symbolic trip count.

A loop of the code is cut at its head.  In *matched* mode it runs in lockstep
with a loop of the specification program: every leaf of the program state that
the loop modifies is replaced by an expression over the specification's ghost
variables (the coupling invariant), the ghosts are havocked under the
specification loop's own invariant, one iteration is executed, and the
obligations are: the coupling and the invariant hold on entry, they are
re-established by every path back to the head, the two guards agree, and the
specification loop's variant decreases.  Couplings are guessed (from concrete
traces of both programs, or from equal entry values) and then checked like any
other obligation; a guess that fails is dropped, so guessing is not trusted.

In *unmatched* mode there is no specification loop: leaves become affine in the
iteration counter or unconstrained, and only safety and termination obligations
are produced."""
import terms as tm
from terms import T, C
from values import *


# ------------------------------------------------------------------ spec programs
class SDo:
    def __init__(self, f):
        self.f = f


class SLoop:
    def __init__(self, name, vars, guard, body, inv=None, variant=None, lemma=None, need=()):
        self.name = name
        self.vars = vars            # {ghost: ('i', lo, hi) | ('a', lo, hi)}
        self.guard = guard          # env -> bool term ('#n' is the iteration counter)
        self.body = body
        self.inv = inv or (lambda e: [])
        self.variant = variant
        self.lemma = lemma
        self.need = need            # ghosts that must be coupled to something


class Ctx:
    """what a specification step may ask: path facts"""

    def __init__(self, eng, st):
        self.eng = eng
        self.st = st

    def decide(self, c):
        if self.st is None:
            return True if c is tm.TT else False if c is tm.FF else None
        return self.eng.pr.decide(self.st.facts, c)

    def ite(self, c, a, b):
        if c is tm.TT:
            return a
        if c is tm.FF:
            return b
        r = self.decide(c)
        return a if r is True else b if r is False else tm.ite(c, a, b)

    def u64(self, x):
        """x as u64 (two's complement)"""
        y = tm.wrap(64, x)
        if y.op != 'w' or self.st is None:
            return y
        ok = tm.andb(tm.ge(x, tm.ZERO), tm.le(x, C((1 << 64) - 1)))
        return x if self.decide(ok) is True else y

    def sel(self, a, i):
        return tm.select(a, i, self.decide)


class Mismatch(Exception):
    pass


def advance(eng, st):
    """run the specification's straight-line steps up to the next loop / end of
    the current block; returns the SLoop or None"""
    nodes, i, status = st.pos[-1]
    while i < len(nodes) and isinstance(nodes[i], SDo):
        env = dict(st.env)
        nodes[i].f(env, Ctx(eng, st))
        st.env = env
        i += 1
    st.pos = st.pos[:-1] + ((nodes, i, None),)
    return nodes[i] if i < len(nodes) else None


def spec_concrete(nodes, env, rec, limit=2000000):
    """run a specification program on literal values, recording loop heads"""
    ctx = Ctx(None, None)
    for nd in nodes:
        if isinstance(nd, SDo):
            nd.f(env, ctx)
            continue
        act = []
        rec.setdefault(nd.name, []).append(act)
        env['#n'] = tm.ZERO
        n = 0
        saved = env.get('#n')
        while True:
            env['#n'] = C(n)
            act.append({k: env[k] for k in list(nd.vars) + ['#n'] if k in env})
            g = nd.guard(env)
            assert g in (tm.TT, tm.FF), (nd.name, g)
            if g is tm.FF:
                break
            inner = dict(env)
            inner['#n:' + nd.name] = C(n)
            spec_concrete(nd.body, inner, rec)
            for k in inner:
                if not k.startswith('#n'):
                    env[k] = inner[k]
            n += 1
            if n > limit:
                raise Exception('spec loop does not end')
        env.pop('#n', None)
    return env


# ------------------------------------------------------------------ leaves
def walk_state(st):
    """(depth, local, value) of every local of every frame"""
    for d, fr in enumerate(st.stack):
        for l, v in st.frames[fr.fid].items():
            yield d, l, v


def clv(t):
    return t.a[0] if t.op == 'c' else True if t is tm.TT else False if t is tm.FF else None


def cleaves(v, path=()):
    """concrete leaves; literal sequences are one leaf ('seq')"""
    if isinstance(v, Seq) and v.items is not None and all(isinstance(x, T) for x in v.items):
        yield path + ('arr',), tuple(clv(x) for x in v.items)
        yield path + ('len',), len(v.items)
        return
    if isinstance(v, T):
        c = clv(v)
        if c is not None:
            yield path, c
    elif isinstance(v, (Agg, Iter)):
        for i, x in enumerate(v.f):
            yield from cleaves(x, path + (i,))
    elif isinstance(v, Enum):
        c = clv(v.tag)
        if c is not None:
            yield path + ('tag',), c
        for k in sorted(v.pay):
            for i, x in enumerate(v.pay[k]):
                yield from cleaves(x, path + ('v', k, i))
    elif isinstance(v, Arr):
        for i, x in enumerate(v.items):
            yield from cleaves(x, path + (i,))
    elif isinstance(v, Seq) and v.items is not None:
        for i, x in enumerate(v.items):
            yield from cleaves(x, path + (i,))
    elif isinstance(v, Ref):
        for j, p in enumerate(v.proj):
            if p[0] == 'i' and clv(p[1]) is not None:
                yield path + ('p', j), clv(p[1])
        if v.len is not None:
            if clv(v.off) is not None:
                yield path + ('off',), clv(v.off)
            if clv(v.len) is not None:
                yield path + ('slen',), clv(v.len)
    elif isinstance(v, Box):
        yield from cleaves(v.v, path + ('box',))
    elif isinstance(v, Opaque) and v.data is not None:
        yield from cleaves(v.data, path + ('o',))


def snapshot(eng, st):
    out = {}
    for d, l, v in walk_state(st):
        for p, c in cleaves(v):
            out[(d, l, p)] = c
    return out


def diff(a, b, path=()):
    """events between the value at the head and at the back edge"""
    if a is b:
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                yield from diff(x, y, path + (i,))
            return
        if a.items is None and b.items is None:
            if a.arr is not b.arr:
                yield 'leaf', path + ('arr',), a.arr, b.arr
            if a.len is not b.len:
                yield 'leaf', path + ('len',), a.len, b.len
            return
        if a.items is None:
            # same sequence, literal representation on the way back
            if not all(isinstance(x, T) for x in b.items):
                yield 'drop', path, a, b
                return
            yield 'leaf', path + ('arr',), a.arr, tm.larr(b.items)
            yield 'leaf', path + ('len',), a.len, b.len
            return
        if not all(isinstance(x, T) for x in a.items):
            yield 'drop', path, a, b
            return
        yield 'seq', path, a, b
        return
    if isinstance(a, T) and isinstance(b, T):
        if a.kind != b.kind:
            yield 'drop', path, a, b
        elif a is not b:
            yield 'leaf', path, a, b
        return
    if type(a) is not type(b):
        yield 'drop', path, a, b
        return
    if isinstance(a, Agg):
        if len(a.f) != len(b.f) or a.name != b.name:
            yield 'drop', path, a, b
            return
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            yield from diff(x, y, path + (i,))
        return
    if isinstance(a, Iter):
        if a.kind != b.kind or len(a.f) != len(b.f):
            yield 'drop', path, a, b
            return
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            yield from diff(x, y, path + (i,))
        return
    if isinstance(a, Enum):
        if set(a.pay) != set(b.pay) or any(len(a.pay[k]) != len(b.pay[k]) for k in a.pay):
            yield 'drop', path, a, b
            return
        if a.tag is not b.tag:
            yield 'leaf', path + ('tag',), a.tag, b.tag
        for k in sorted(a.pay):
            for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                yield from diff(x, y, path + ('v', k, i))
        return
    if isinstance(a, Arr):
        if len(a.items) != len(b.items):
            yield 'drop', path, a, b
            return
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            yield from diff(x, y, path + (i,))
        return
    if isinstance(a, Ref):
        if a.fid != b.fid or a.local != b.local or len(a.proj) != len(b.proj) or (a.len is None) != (b.len is None):
            yield 'drop', path, a, b
            return
        for j, (x, y) in enumerate(zip(a.proj, b.proj)):
            if x[0] != y[0] or x[0] != 'i' and x != y:
                yield 'drop', path, a, b
                return
            if x[0] == 'i' and x[1] is not y[1]:
                yield 'leaf', path + ('p', j), x[1], y[1]
        if a.len is not None:
            if a.off is not b.off:
                yield 'leaf', path + ('off',), a.off, b.off
            if a.len is not b.len:
                yield 'leaf', path + ('slen',), a.len, b.len
        return
    if isinstance(a, Box):
        yield from diff(a.v, b.v, path + ('box',))
        return
    if isinstance(a, Opaque):
        if a.what == b.what and a.data is not None and b.data is not None:
            yield from diff(a.data, b.data, path + ('o',))
        elif a.what != b.what:
            yield 'drop', path, a, b
        return
    if isinstance(a, FnItem):
        if a.ty != b.ty:
            yield 'drop', path, a, b
        return
    yield 'drop', path, a, b


def toarr(v, paths, path=()):
    """literal sequences at `paths` -> array + length"""
    if isinstance(v, Seq):
        if path in paths and v.items is not None:
            return Seq(None, tm.larr(v.items), v.len, v.lo, v.hi)
        if v.items is not None:
            return Seq([toarr(x, paths, path + (i,)) for i, x in enumerate(v.items)], lo=v.lo, hi=v.hi)
        return v
    if isinstance(v, Agg):
        return Agg([toarr(x, paths, path + (i,)) for i, x in enumerate(v.f)], v.name)
    if isinstance(v, Iter):
        return Iter(v.kind, [toarr(x, paths, path + (i,)) for i, x in enumerate(v.f)])
    if isinstance(v, Enum):
        return Enum(v.tag, {k: tuple(toarr(x, paths, path + ('v', k, i)) for i, x in enumerate(v.pay[k])) for k in v.pay}, v.name)
    if isinstance(v, Arr):
        return Arr([toarr(x, paths, path + (i,)) for i, x in enumerate(v.items)])
    if isinstance(v, Box):
        return Box(toarr(v.v, paths, path + ('box',)))
    if isinstance(v, Opaque) and v.data is not None:
        return Opaque(v.what, toarr(v.data, paths, path + ('o',)))
    return v


def leaf_range(eng, fn, local, path, old):
    """range of an unconstrained leaf, from its type"""
    if not isinstance(local, int) or local >= len(fn.localty):
        return None, None
    ty = fn.localty[local]
    for p in path:
        t = eng.p.types[ty]
        if t['k'] == 'array' and isinstance(p, int):
            ty = t['elem']
        elif t['k'] == 'tuple' and isinstance(p, int) and p < len(t['tys']):
            ty = t['tys'][p]
        elif t['k'] == 'adt' and t['adt'] == 'struct' and isinstance(p, int) and p < len(t['variants'][0]['fields']):
            if t['name'].endswith('vec::Vec'):
                ty = t['args'][0]['ty']
            else:
                ty = t['variants'][0]['fields'][p][1]
        elif t['k'] == 'adt' and t['name'].endswith('vec::Vec') and isinstance(p, int):
            ty = t['args'][0]['ty']
        elif p in ('len', 'slen', 'off') or p == 'p':
            return 0, (1 << 63) - 1
        else:
            return None, None
    r = eng.irange(ty)
    return r if r else (None, None)


class Plan:
    def __init__(self):
        self.drop = set()       # (d, l)
        self.seq = {}           # (d, l) -> set of paths
        self.choice = {}        # (d, l, path) -> choice
        self.idx = {}           # position in the candidate list
        self.cands = {}
        self.guard = True       # candidate: the spec guard holds at every head (do-while)
        self.fresh_tried = set()


# choice: ('eq', ghost) | ('late', ghost) | ('lin', ghost, K) | ('sat', K, bound) | ('fresh',) | ('bexp', 'g'|'ng'|'n0'|'n+')


def bexp(kind, L, env, n):
    """a flag of the code: the specification's guard, or 'first iteration'"""
    if kind[:1] in ('=', '!') and len(kind) > 1:
        g = tm.eq(env[kind[1:].split('@')[0]], C(int(kind.split('@')[1])))
        return g if kind[0] == '=' else tm.not_(g)
    if kind in ('g', 'ng'):
        g = L.guard(env)
        return g if kind == 'g' else tm.not_(g)
    g = tm.eq(n, tm.ZERO)
    return g if kind == 'n0' else tm.not_(g)


SATS = ('0', 'k', 'P', 'SL')


def satexp(c, t, n, env):
    """t + K*n, but no further than a bound"""
    lim = tm.ZERO if c[2] == '0' else env[c[2]]
    y = tm.add(t, tm.mul(c[1], n))
    up = c[1].op != 'c' or c[1].a[0] > 0
    g = tm.le(y, lim) if up else tm.le(lim, y)
    return tm.ite(g, y, lim)


def kset(env):
    """multipliers worth trying for a linear coupling"""
    ks = [C(x) for x in (1, 2, 8, 12, 96, 64, 4, 3, 32, -1, -12, -8, -96, -64, -32)]
    c = env.get('C')
    if c is not None:
        ks += [c, tm.scale(c, 12), tm.scale(c, 96), tm.scale(c, -12)]
    return ks


def trace_candidates(eng, key, L, env0, entry, leafkey):
    """candidate couplings of one leaf from the concrete traces"""
    if not eng.traces:
        return None
    m = 1
    if L is not None:
        ms = set()
        for tr in eng.traces:
            na, ns = len(tr['code'].get(key) or []), len(tr['spec'].get(L.name) or [])
            if not na or not ns or na % ns:
                return None
            ms.add(na // ns)
        if len(ms) != 1:
            return None
        m = ms.pop()
    # a loop inside one with a literal trip count runs m times per run of the specification's
    out = None
    for off in range(min(m, 4)):
        c = trace_candidates1(eng, key, L, env0, entry, leafkey, off, m)
        if c is not None:
            out = (out or []) + [x for x in c if x not in (out or [])]
    return out


def trace_candidates1(eng, key, L, env0, entry, leafkey, off, m):
    names = list(L.vars) + ['#n'] if L is not None else ['#n']
    ok = {}
    used = False
    isarr = leafkey[2][-1:] == ('arr',)
    combos = None
    for tr in eng.traces:
        ca = tr['code'].get(key)
        if not ca:
            return None
        if L is not None:
            sa = tr['spec'].get(L.name)
            ca = ca[off::m]
        else:
            sa = [[{'#n': C(j)} for j in range(len(a))] for a in ca]
        penv = tr['env']
        if combos is None:
            combos = {}
            for g in names:
                if isarr:
                    if g in L.vars and L.vars[g][0] == 'a' if L is not None else False:
                        combos[('eq', g)] = None
                else:
                    if g == '#n' or L.vars[g][0] == 'i':
                        if g != '#n':
                            combos[('eq', g)] = None
                            combos[('late', g)] = 0
                        for i, k in enumerate(kset(env0)):
                            combos[('lin', g, i)] = k
            combos[('lin', '#n', 'z')] = tm.ZERO
            if not isarr:
                for i, k in enumerate(kset(env0)):
                    for lim in SATS:
                        if lim == '0' or lim in env0:
                            combos[('sat', i, lim)] = k
        kv = [clv(x) for x in kset(penv)]
        for a, b in zip(ca, sa):
            base = None
            first = None
            for x, e in zip(a, b):
                if leafkey not in x:
                    continue
                used = True
                val = x[leafkey]
                if first is None:
                    first = (val, e)
                for cb in list(combos):
                    if cb[0] == 'late':
                        # equal to the ghost from the second iteration on
                        g = e.get(cb[1])
                        if g is None or isinstance(val, (tuple, bool)):
                            del combos[cb]
                            continue
                        if x is not a[0]:
                            if clv(g) != val:
                                del combos[cb]
                            else:
                                combos[cb] += 1
                        continue
                    if cb[0] == 'eq':
                        g = e.get(cb[1])
                        if g is None:
                            del combos[cb]
                            continue
                        if isarr:
                            n = len(val) if isinstance(val, tuple) else 0
                            good = isinstance(val, tuple) and tuple(clv(tm.select(g, C(i))) for i in range(n)) == val
                        else:
                            good = not isinstance(val, bool) and clv(g) == val
                    elif cb[0] == 'sat':
                        good = not isinstance(val, (tuple, bool))
                        if good:
                            k = kv[cb[1]]
                            lim = 0 if cb[2] == '0' else clv(penv[cb[2]])
                            y = first[0] + k * (clv(e['#n']) - clv(first[1]['#n']))
                            good = val == (min(y, lim) if k > 0 else max(y, lim))
                    else:
                        if isinstance(val, (tuple, bool)):
                            good = cb[2] == 'z' and val == first[0]
                        else:
                            k = 0 if cb[2] == 'z' else kv[cb[2]]
                            good = val - first[0] == k * (clv(e[cb[1]]) - clv(first[1][cb[1]]))
                    if not good:
                        del combos[cb]
    if not used:
        return None
    res = []
    for cb, k in combos.items():
        if cb[0] == 'eq':
            res.append(cb)
        elif cb[0] == 'late':
            if k and ('eq', cb[1]) not in combos:
                res.append(cb)
        elif cb[0] == 'sat':
            if not any(x in combos for x in combos if x[0] == 'lin'):
                res.append(('sat', k, cb[2]))
        else:
            res.append(('lin', cb[1], k))
    # prefer the constant, then exact ghosts, then affine in a ghost, then in the counter
    def rank(c):
        if c[0] == 'eq':
            return 0
        if c[0] in ('sat', 'late'):
            return 3
        if c[2] is tm.ZERO:
            return -1
        return 2 if c[1] == '#n' else 1
    res.sort(key=rank)
    return res


def trace_moved(eng, key):
    """leaves whose value changes between heads in some concrete trace, and the
    sequences that grow"""
    moved, seqs = set(), set()
    for tr in eng.traces or []:
        for a in tr['code'].get(key) or []:
            if not a:
                continue
            x0 = a[0]
            for x in a[1:]:
                for k, v in x.items():
                    if k in x0 and x0[k] != v and k not in moved:
                        moved.add(k)
                        if k[2][-1:] == ('len',):
                            seqs.add((k[0], k[1], k[2][:-1]))
    return moved, seqs


def static_candidates(eng, L, env0, entry, leafkey):
    out = []
    if L is not None:
        for g, (k, lo, hi) in L.vars.items():
            e = env0.get(g)
            if e is entry and (entry.kind == 'a') == (k == 'a'):
                out.append(('eq', g))
    return out


def bexp_refuted(eng, key, L, leafkey, kind):
    """some concrete trace contradicts the coupling"""
    for tr in eng.traces or []:
        ca = tr['code'].get(key) or []
        sa = tr['spec'].get(L.name) or [] if L is not None else [[{'#n': C(j)} for j in range(len(a))] for a in ca]
        if len(ca) != len(sa):
            continue
        for a, b in zip(ca, sa):
            for x, e in zip(a, b):
                if leafkey not in x:
                    continue
                try:
                    g = bexp(kind, L, dict(tr['env'], **e), e['#n'])
                except KeyError:
                    continue
                v = x[leafkey]
                if g in (tm.TT, tm.FF) and isinstance(v, (bool, int)) and bool(v) != (g is tm.TT):
                    return True
    return False


def guess(eng, key, L, env0, plan, leafkey, entry):
    if leafkey in plan.cands:
        return
    c = None
    if entry.kind in ('i', 'a'):
        c = trace_candidates(eng, key, L, env0, entry, leafkey)
    if c is None:
        c = static_candidates(eng, L, env0, entry, leafkey)
    elif entry.kind == 'a' and not c:
        c = static_candidates(eng, L, env0, entry, leafkey)
    if entry.kind == 'b':
        c = [('bexp', x) for x in (('g', 'ng') if L is not None else ()) + ('n0', 'n+')]
        for g, (k, lo, hi) in (L.vars.items() if L is not None else ()):
            e = env0.get(g)
            if k == 'i' and isinstance(e, T) and e.op == 'c':
                c += [('bexp', '=%s@%d' % (g, e.a[0])), ('bexp', '!%s@%d' % (g, e.a[0]))]
        c = [x for x in c if not bexp_refuted(eng, key, L, leafkey, x[1])]
    plan.cands[leafkey] = list(c) + [('fresh',)]
    plan.idx[leafkey] = 0


def next_choice(plan, k):
    plan.idx[k] += 1
    return plan.idx[k] < len(plan.cands[k])


def agree(eng, st, a, b, ln=None):
    """a == b; arrays only on [0, ln)"""
    if a is b:
        return True
    if a.kind == 'a':
        if ln is not None and ln.op == 'c' and ln.a[0] <= 64:
            return all(agree(eng, st, tm.select(a, C(i), eng.decide(st)), tm.select(b, C(i), eng.decide(st))) for i in range(ln.a[0]))
        return eng.arr_equal(st, a, b, ln)
    if a.kind == 'b':
        return eng.prove(st, tm.beq(a, b))
    return eng.equal(st, a, b)


def get_at(v, path):
    for p, t in leaves(v):
        if p == path:
            return t
    return None


def seqlen_for(v, path):
    """length leaf that goes with an 'arr' leaf"""
    if path and path[-1] == 'arr':
        return get_at(v, path[:-1] + ('len',))
    return None


def assigned_locals(eng, fn, head):
    memo = fn.__dict__.setdefault('assigned', {})
    if head in memo:
        return memo[head]
    out = set()
    for b in fn.loops[head]:
        blk = fn.blocks[b]
        for s in blk['statements']:
            k = s['kind']
            if isinstance(k, dict) and 'Assign' in k:
                pl = k['Assign'][0]
                if 'Deref' not in pl['projection']:
                    out.add(pl['local'])
                rv = k['Assign'][1]
                (n, a), = rv.items()
                if n == 'Ref' and 'Mut' in str(a[1]) and 'Deref' not in a[-1]['projection']:
                    out.add(a[-1]['local'])
        t = blk['terminator']['kind']
        if isinstance(t, dict) and 'Call' in t:
            pl = t['Call']['destination']
            if 'Deref' not in pl['projection']:
                out.add(pl['local'])
    memo[head] = out
    return out


def site(st, head):
    """a loop, by the calls that lead to it"""
    return tuple((f.fn.id, f.blk) for f in st.stack[:-1]) + ((st.stack[-1].fn.id, head),)


# ------------------------------------------------------------------ the rule
def loop_invariant(eng, s):
    fr = s.stack[-1]
    key = site(s, fr.blk)
    where = eng.where(s)
    L = None
    fails = []
    if eng.stop_at_end and s.pos is not None and len(s.pos) == 1 and s.pos[-1][2] is None:
        t = s.clone()
        if advance(eng, t) is None:
            eng.stopped.append(t)
            return []
    if s.pos is not None:
        for attempt in match_sites(eng, s):
            mark = len(eng.obs)
            try:
                res = attempt_loop(eng, attempt, key, attempt.pos[-1][0][attempt.pos[-1][1]])
                bad = [o for o in eng.obs[mark:] if not o.ok and o.kind in ('functional',)]
                if not bad:
                    return res
                fails += bad
            except Mismatch as e:
                fails.append(str(e))
            del eng.obs[mark:]
    r = attempt_loop(eng, s, key, None)
    if s.pos is not None:
        eng.loopfails.append((where, [str(f)[:2000] for f in fails]))
    return r


def match_sites(eng, s):
    """states with the specification advanced to a loop the code loop may be matched with"""
    t = s.clone()
    nodes, i, status = t.pos[-1]
    if status == 'head':
        L = nodes[i]
        if not any(isinstance(x, SLoop) for x in L.body):
            return
        if not eng.prove(t, L.guard(t.env)):
            return
        enter(t, L)
    nd = advance(eng, t)
    if isinstance(nd, SLoop):
        yield t


def enter(st, L):
    env = dict(st.env)
    env['#n:' + L.name] = env['#n']
    st.env = env
    nodes, i, status = st.pos[-1]
    st.pos = st.pos[:-1] + ((nodes, i, 'in'), (L.body, 0, None))


def finish_body(eng, st, depth):
    """the specification is inside the body of the loop at pos level `depth`: run it
    to the end of the body"""
    if len(st.pos) != depth + 1:
        raise Mismatch('the code leaves the loop while the specification is in a nested loop')
    nd = advance(eng, st)
    if nd is not None:
        raise Mismatch('specification loop %s has no counterpart in the code' % nd.name)
    st.pos = st.pos[:-1]
    nodes, i, _ = st.pos[-1]
    L = nodes[i]
    env = dict(st.env)
    env['#n'] = tm.add(env.pop('#n:' + L.name), tm.ONE)
    st.env = env
    st.pos = st.pos[:-1] + ((nodes, i, 'head'),)


def attempt_loop(eng, s, key, L):
    fn = s.stack[-1].fn
    head = s.stack[-1].blk
    body = fn.loops[head]
    fid = s.stack[-1].fid
    where = eng.where(s)
    ck = (key, L.name if L else None, eng.ctxname)
    plan = eng.plans.get(ck)
    if plan is None:
        plan = Plan()
        eng.plans[ck] = plan
    plan.L = L
    E0 = dict(s.env) if L is not None else s.env
    mark = len(eng.obs)
    nloop = 0
    while True:
        nloop += 1
        if nloop > 60:
            raise Mismatch('no inductive coupling found')
        del eng.obs[mark:]
        nfail = len(eng.loopfails)
        # ---- entry obligations of the specification's invariant
        ghosts = {}
        n = eng.fresh('n', 'i', 0, None)
        facts = []
        if L is not None:
            e0 = dict(E0)
            e0['#n'] = tm.ZERO
            for g in L.inv(e0):
                eng.check(s, 'functional', where, 'invariant of specification loop %s holds on entry' % L.name, g)
            env = dict(E0)
            for g, (k, lo, hi) in L.vars.items():
                ghosts[g] = eng.fresh('%s.%s' % (L.name, g), 'a' if k == 'a' else 'i', lo, hi)
                env[g] = ghosts[g]
            env['#n'] = n
            facts = list(L.inv(env))
            g0 = L.guard(e0)
            useguard = plan.guard and eng.prove(s, g0)
            if useguard:
                facts.append(L.guard(env))
        # ---- generalised head state
        h = s.clone()
        for (d, l) in plan.drop:
            h.frames[h.stack[d].fid].pop(l, None)
        for (d, l), ps in plan.seq.items():
            F = h.frames[h.stack[d].fid]
            if l in F:
                F[l] = toarr(F[l], ps)
        if not plan.cands:
            for l in assigned_locals(eng, fn, head):
                d = len(s.stack) - 1
                v = h.frames[fid].get(l)
                if v is None:
                    continue
                for p, t in leaves(v):
                    guess(eng, key, L, E0, plan, (d, l, p), t)
            moved, seqs = trace_moved(eng, key)
            for (d, l) in {(k[0], k[1]) for k in moved}:
                if d >= len(h.stack) or l not in h.frames[h.stack[d].fid]:
                    continue
                F = h.frames[h.stack[d].fid]
                ps = {p for (d2, l2, p) in seqs if (d2, l2) == (d, l)}
                if ps:
                    nv = toarr(F[l], ps)
                    if nv is not F[l] and shape(nv) != shape(F[l]):
                        plan.seq.setdefault((d, l), set()).update(ps)
                        F[l] = nv
                lvd = dict(leaves(F[l]))
                for k in moved:
                    if k[0] == d and k[1] == l and k[2] in lvd:
                        guess(eng, key, L, E0, plan, k, lvd[k[2]])
        entry_vals = {}
        bylocal = {}
        for k in list(plan.cands):
            d, l, p = k
            F = h.frames[h.stack[d].fid]
            if l not in F or (d, l) in plan.drop:
                continue
            bylocal.setdefault((d, l), []).append(p)
        fresh = {}
        headval = {}
        redo = False
        for (d, l), ps in bylocal.items():
            F = h.frames[h.stack[d].fid]
            v = F[l]
            lv = dict(leaves(v))
            m = {}
            for p in ps:
                k = (d, l, p)
                t = lv.get(p)
                if t is None:
                    continue
                while True:
                    c = plan.cands[k][plan.idx[k]]
                    if c[0] == 'eq':
                        # coupling on entry
                        if c[1] not in E0 or not agree(eng, s, t, E0[c[1]], lv.get(p[:-1] + ('len',)) if p[-1:] == ('arr',) else None):
                            if not next_choice(plan, k):
                                raise Mismatch('no coupling')
                            continue
                        m[p] = ghosts[c[1]]
                    elif c[0] == 'lin':
                        if c[2] is tm.ZERO:
                            m[p] = t
                        else:
                            if t.kind != 'i' or (c[1] != '#n' and c[1] not in E0):
                                next_choice(plan, k)
                                continue
                            g, g0_ = (n, tm.ZERO) if c[1] == '#n' else (ghosts[c[1]], E0[c[1]])
                            m[p] = tm.add(t, tm.mul(c[2], tm.sub(g, g0_)))
                    elif c[0] == 'late':
                        m[p] = tm.ite(tm.eq(n, tm.ZERO), t, ghosts[c[1]])
                        eng.satites.update((x, 1) for x in tm.topo([m[p]]) if x.op == 'ite')
                    elif c[0] == 'sat':
                        if t.kind != 'i':
                            next_choice(plan, k)
                            continue
                        m[p] = satexp(c, t, n, E0)
                        eng.satites.update((x, 1) for x in tm.topo([m[p]]) if x.op == 'ite')
                        if not agree(eng, s, t, satexp(c, t, tm.ZERO, E0)):
                            next_choice(plan, k)
                            continue
                    elif c[0] == 'bexp':
                        if not agree(eng, s, t, bexp(c[1], L, dict(E0, **{'#n': tm.ZERO}) if L is not None else None, tm.ZERO)):
                            next_choice(plan, k)
                            continue
                        m[p] = bexp(c[1], L, env if L is not None else None, n)
                    else:
                        lo, hi = (t.lo, t.hi) if t.kind == 'a' else leaf_range(eng, h.stack[d].fn, l, p, t)
                        x = eng.fresh('x', t.kind, lo, hi)
                        fresh[k] = x
                        m[p] = x
                    break
                entry_vals[k] = t
                headval[k] = m[p]
            if m:
                F[l] = rebuild(v, m)
        if L is not None:
            h.env = env
            nodes, i, _ = h.pos[-1]
            h.pos = h.pos[:-1] + ((nodes, i, 'head'),)
            plevel = len(h.pos)
        for f in facts:
            h.fact(f)
        if eng.pr.sat(h.facts) is False:
            # the loop is never entered with these facts: head unreachable
            raise Mismatch('invariant of the loop contradicts the path')
        h0 = h.clone()
        from engine import Stop
        stop = Stop(fid, head, body, 'inv', len(eng.stops))
        outs = eng.explore(h, stop)
        # ---- back edges: frame, couplings, invariant, variant
        again = False
        exits = []
        backs = []
        for o in outs:
            if o[0] == 'ret':
                raise Mismatch('return out of a loop')
            st = o[1]
            if o[0] == 'back':
                backs.append(st)
            else:
                exits.append(st)
        binfo = []
        for st in backs:
            if L is not None:
                if st.pos is None:
                    raise Mismatch('the specification was lost in the loop body')
                if len(st.pos) == plevel:
                    # body not entered yet
                    g = L.guard(st.env)
                    if not eng.check(st, 'functional', where, 'the code iterates only when specification loop %s does' % L.name, g):
                        return_fail = True
                        raise Mismatch('guard of specification loop %s does not follow: %s' % (L.name, eng.describe(st)))
                    enter(st, L)
                finish_body(eng, st, plevel)
                if useguard and not eng.prove(st, L.guard(st.env)):
                    plan.guard = False
                    again = True
            for d, l, v in list(walk_state(h0)):
                fid2 = h0.stack[d].fid
                F2 = st.frames.get(fid2)
                if F2 is None:
                    raise Mismatch('frame gone')
                if l not in F2:
                    if (d, l) not in plan.drop:
                        plan.drop.add((d, l))
                        again = True
                    continue
                w = F2[l]
                if v is w:
                    # unchanged, but a ghost-coupled leaf still has to follow its ghost
                    evs = []
                else:
                    evs = list(diff(v, w))
                seen = set()
                for ev in evs:
                    if ev[0] == 'drop':
                        plan.drop.add((d, l))
                        again = True
                        break
                    if ev[0] == 'seq':
                        plan.seq.setdefault((d, l), set()).add(ev[1])
                        for k in [k for k in plan.cands if k[0] == d and k[1] == l and k[2][:len(ev[1])] == ev[1]]:
                            del plan.cands[k]
                            del plan.idx[k]
                        F = h0.frames[fid2]
                        nv = toarr(s.frames[s.stack[d].fid][l], {ev[1]})
                        for p, t in leaves(nv):
                            if p[:len(ev[1])] == ev[1]:
                                guess(eng, key, L, E0, plan, (d, l, p), t)
                        again = True
                        continue
                    k = (d, l, ev[1])
                    seen.add(k)
                    if k not in plan.cands:
                        guess(eng, key, L, E0, plan, k, ev[2])
                        again = True
                        continue
                    if again:
                        continue
                    if not follows(eng, st, plan, k, ghosts, n, E0, entry_vals, ev[3], w):
                        improve(eng, plan, k, fresh, ev[3], ghosts, n, entry_vals)
                        again = True
                if again:
                    continue
                lvs = None
                for k in headval:
                    if k[0] == d and k[1] == l and k not in seen:
                        c = plan.cands[k][plan.idx[k]]
                        if c[0] == 'fresh' or c[0] == 'lin' and c[2] is tm.ZERO:
                            continue
                        if lvs is None:
                            lvs = dict(leaves(w))
                        if not follows(eng, st, plan, k, ghosts, n, E0, entry_vals, lvs[k[2]], w):
                            improve(eng, plan, k, fresh, lvs[k[2]], ghosts, n, entry_vals)
                            again = True
        if not again and fresh:
            # an unconstrained leaf that moves by a loop-invariant amount is affine
            for k, x in fresh.items():
                if x.kind != 'i' or k in plan.fresh_tried:
                    continue
                ds = set()
                for st in backs:
                    w = st.frames[h0.stack[k[0]].fid].get(k[1])
                    t = get_at(w, k[2]) if w is not None else None
                    ds.add(tm.sub(t, x) if t is not None else None)
                plan.fresh_tried.add(k)
                if len(ds) == 1:
                    d_ = ds.pop()
                    if d_ is not None and not (tm.atoms_of(d_) & (set(fresh.values()) | set(ghosts.values()) | {n})):
                        plan.cands[k].insert(plan.idx[k], ('lin', '#n', d_))
                        again = True
        if again:
            continue
        # ---- everything is inductive; record
        if L is not None:
            have = {c[1] for k in headval for c in [plan.cands[k][plan.idx[k]]] if c[0] == 'eq'}
            miss = [g for g in L.need if g not in have]
            if miss:
                raise Mismatch('nothing in the code corresponds to %s of specification loop %s' % (','.join(miss), L.name))
        for k, v in headval.items():
            c = plan.cands[k][plan.idx[k]]
            if c[0] == 'eq' or c[0] == 'lin' and c[2] is not tm.ZERO:
                eng.ob('coupling', where, 'loop invariant: %s = %s' % (eng.leafname(s, k), c[1] if c[0] == 'eq' else 'affine in ' + c[1]), True, 'normal form / z3')
        if L is not None:
            for st in backs:
                for g in L.inv(st.env):
                    eng.check(st, 'functional', where, 'invariant of specification loop %s is preserved' % L.name, g)
                if L.variant is not None:
                    v0, v1 = L.variant(env), L.variant(st.env)
                    eng.check(st, 'termination', where, 'variant of specification loop %s decreases and is bounded' % L.name, tm.andb(tm.ge(v0, tm.ZERO), tm.lt(v1, v0)))
                elif L.lemma:
                    eng.lemmas.add(L.lemma)
                    eng.ob('termination', where, 'termination of specification loop %s by lemma %s' % (L.name, L.lemma), True, 'lemma')
                else:
                    eng.ob('termination', where, 'specification loop %s has a variant' % L.name, False)
            for st in exits:
                if st.pos is None:
                    raise Mismatch('the specification was lost in the loop body')
                if len(st.pos) == plevel:
                    if eng.prove(st, tm.not_(L.guard(st.env))):
                        pass
                    else:
                        g = L.guard(st.env)
                        if not eng.prove(st, g):
                            raise Mismatch('the code leaves the loop where specification loop %s may go on: %s' % (L.name, eng.describe(st)))
                        if any(isinstance(x, SLoop) for x in L.body):
                            raise Mismatch('the code leaves the loop without running the specification\'s inner loop')
                        enter(st, L)
                        finish_body(eng, st, plevel)
                        if not eng.prove(st, tm.not_(L.guard(st.env))):
                            raise Mismatch('the code leaves the loop where specification loop %s goes on' % L.name)
                else:
                    finish_body(eng, st, plevel)
                    if not eng.prove(st, tm.not_(L.guard(st.env))):
                        raise Mismatch('the code leaves the loop where specification loop %s goes on' % L.name)
                eng.ob('functional', where, 'the code and specification loop %s end together' % L.name, True, 'z3')
                nodes, i, _ = st.pos[-1]
                env2 = dict(st.env)
                env2.pop('#n', None)
                st.env = env2
                st.pos = st.pos[:-1] + ((nodes, i + 1, None),)
        else:
            if backs:
                ok = unmatched_variant(eng, h0, backs, headval, plan)
                eng.ob('termination', where, 'loop has a decreasing bounded variant', ok, 'z3' if ok else '')
            for st in exits:
                st.env = s.env
                st.pos = s.pos
        for st in exits:
            settle(eng, st, n)
        return exits


def replace(st, m):
    """substitute terms everywhere in the state"""
    ts, where = [], []
    for fid, F in st.frames.items():
        for l, v in F.items():
            for p_, t in leaves(v):
                ts.append(t)
                where.append((fid, l, p_))
    for k_, t in st.env.items():
        if isinstance(t, T):
            ts.append(t)
            where.append(k_)
    fs = list(st.facts)
    out = tm.subst(ts + fs, m)
    env = dict(st.env)
    by = {}
    for w, o, t in zip(where, out, ts):
        if o is t:
            continue
        if isinstance(w, tuple):
            by.setdefault(w[:2], {})[w[2]] = o
        else:
            env[w] = o
    for (fid, l), m_ in by.items():
        st.frames[fid][l] = rebuild(st.frames[fid][l], m_)
    st.env = env
    st.facts = ()
    for o in out[len(ts):]:
        st.fact(o)


def resolve(eng, st):
    """saturating couplings: once the path decides whether the bound is reached,
    replace the conditional by its value"""
    m = {}
    for x in eng.satites:
        d = eng.decide_u(st, x.a[0], tm.TT)
        if d is tm.TT or d is tm.FF:
            m[x] = x.a[1] if d is tm.TT else x.a[2]
    if m:
        replace(st, m)


def settle(eng, st, n):
    """the loop has ended: where the path facts fix its iteration counter, replace
    the counter by that value everywhere in the state"""
    for f in st.facts:
        if f.op != 'le' or f.a[0].op != 'p':
            continue
        c0, ms = f.a[0].a
        k = [c for m, c in ms if m == (n,)]
        if len(k) != 1 or k[0] not in (1, -1) or any(n in m for m, c in ms if m != (n,)):
            continue
        val = tm.sub(n, tm.scale(f.a[0], k[0]))
        if n in tm.atoms_of(val) or not eng.prove(st, tm.eq(n, val)):
            continue
        replace(st, {n: val})
        return


def follows(eng, st, plan, k, ghosts, n, E0, entry_vals, new, w):
    c = plan.cands[k][plan.idx[k]]
    if c[0] == 'fresh':
        return True
    if c[0] == 'eq':
        ln = None
        if k[2][-1:] == ('arr',):
            ln = get_at(w, k[2][:-1] + ('len',))
        return agree(eng, st, new, st.env[c[1]], ln)
    if c[0] == 'late':
        return c[1] in st.env and agree(eng, st, new, st.env[c[1]])
    if c[0] == 'sat':
        return agree(eng, st, new, satexp(c, entry_vals[k], tm.add(n, tm.ONE), E0))
    if c[0] == 'bexp':
        return agree(eng, st, new, bexp(c[1], plan.L, st.env, tm.add(n, tm.ONE)))
    t = entry_vals[k]
    if c[2] is tm.ZERO:
        return agree(eng, st, new, t)
    if c[1] == '#n':
        exp = tm.add(t, tm.mul(c[2], tm.add(n, tm.ONE)))
    else:
        exp = tm.add(t, tm.mul(c[2], tm.sub(st.env[c[1]], E0[c[1]])))
    return agree(eng, st, new, exp)


def improve(eng, plan, k, fresh, new, ghosts, n, entry_vals):
    if plan.idx[k] + 1 < len(plan.cands[k]):
        plan.idx[k] += 1
    else:
        raise Mismatch('no coupling')


def unmatched_variant(eng, h0, backs, headval, plan):
    """find y - x with x moving towards a fixed y"""
    hl = {}
    for d, l, v in walk_state(h0):
        for p, t in leaves(v):
            if t.kind == 'i':
                hl[(d, l, p)] = t
    moved = []
    for k in headval:
        c = plan.cands[k][plan.idx[k]]
        if c[0] in ('lin', 'fresh') and not (c[0] == 'lin' and c[2] is tm.ZERO) and k in hl:
            moved.append(k)
    cand = []
    for k in moved:
        x = hl[k]
        for k2, y in hl.items():
            if k2 in headval and not (plan.cands[k2][plan.idx[k2]][0] == 'lin' and plan.cands[k2][plan.idx[k2]][2] is tm.ZERO):
                continue
            if k2[0] == k[0]:
                cand.append((k, k2))
        cand.append((k, None))
    cand.sort(key=lambda c: 0 if c[1] and c[0][1] == c[1][1] else 1)
    for k, k2 in cand[:200]:
        for sign in (1, -1):
            good = True
            for st in backs:
                w = st.frames[h0.stack[k[0]].fid].get(k[1])
                x1 = get_at(w, k[2]) if w is not None else None
                y = hl[k2] if k2 is not None else tm.ZERO
                if x1 is None:
                    good = False
                    break
                v0 = tm.scale(tm.sub(y, hl[k]), sign)
                v1 = tm.scale(tm.sub(y, x1), sign)
                d = tm.sub(v1, v0)
                if d.op == 'c' and d.a[0] >= 0:
                    good = False
                    break
                if not eng.prove(st, tm.andb(tm.lt(v1, v0), tm.ge(v0, tm.ZERO))):
                    good = False
                    break
            if good:
                return True
    return False
