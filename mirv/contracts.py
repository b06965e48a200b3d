"""Contracts of the functions of /repo, and their verification.

A contract is found by function name and applies only if the function still has
the expected signature.  `verify` executes the function's MIR on unconstrained
arguments satisfying `requires` and checks `ensures`; only a verified contract is
used at call sites (the call site has to establish `requires`); otherwise callers
inline the body."""
import time
import terms as tm
from terms import T, C
from values import *
import engine as E
import loops
import spec
import models

# anything that keeps an obligation from being discharged (an internal error of the
# verifier included) means: not established
FAIL = (Exception,)

U8, U32, U64, USZ = 'u8', 'u32', 'u64', 'u64'


def u(name, bits=64):
    return tm.var(name, 0, (1 << bits) - 1)


def sig(p, fn):
    p.prep(fn)
    return tuple(p.tyname(t) for t in fn.localty[1:1 + fn.nargs]) + (p.tyname(fn.localty[0]),)


def flat(v):
    return [t for _, t in leaves(v)]


def why(x):
    if isinstance(x, (E.Unsupported, loops.Mismatch)):
        return str(x)
    import traceback
    tb = traceback.extract_tb(x.__traceback__)
    return '%s: %s (%s)' % (type(x).__name__, x, ' < '.join('%s:%d' % (f.name, f.lineno) for f in tb[-3:][::-1]))


class Contract:
    """straight-line helper: args -> list of result terms"""
    name = None
    kind = 'functional'

    def __init__(self, name, sigs, fresh, ensures, requires=None, wrap=None):
        self.name = name
        self.sigs = sigs
        self.fresh = fresh          # () -> args
        self.ensures = ensures      # args -> value
        self.requires = requires    # args -> [(what, cond)]
        self.verified = False

    def matches(self, p, fn):
        s = sig(p, fn)
        ss = self.sigs
        if callable(ss):
            return ss(s)
        return s in ss

    def apply(self, eng, st, fn, args):
        if not self.verified:
            return None
        a = self.view(eng, st, args)
        if a is None:
            return None
        if self.requires:
            for what, c in self.requires(a):
                if c is not tm.TT and not eng.prove(st, c):
                    return None
        DEC[0] = eng.decide(st)
        try:
            return self.ensures(a)
        finally:
            DEC[0] = None

    def view(self, eng, st, args):
        return args


def seqview(eng, st, v):
    """byte / word sequence argument: Seq value (through references)"""
    if isinstance(v, Ref):
        return models.seq_of(eng, st, v)
    if isinstance(v, Arr):
        return Seq(v.items)
    return v


DEC = [None]        # facts at the call site, for reading array arguments


def at(v, i):
    if v.items is not None:
        return v.items[i]
    return tm.select(v.arr, C(i), DEC[0])


def lenge(v, n):
    return tm.ge(v.len, C(n))


class SliceContract(Contract):
    """first argument kinds: 's' sequence, 'v' value"""

    def __init__(self, kinds, *a, **k):
        Contract.__init__(self, *a, **k)
        self.kinds = kinds

    def view(self, eng, st, args):
        return [seqview(eng, st, x) if k == 's' else x for k, x in zip(self.kinds, args)]


def arr64(n, pre='s'):
    return Arr([u('%s%d' % (pre, i)) for i in range(n)])


def vec64(n, pre='w'):
    return Seq(None, tm.avar(pre, 0, spec.M64), tm.var(pre + '.len', n, (1 << 60) - 1), 0, spec.M64)


def A16():
    return '[u64;16]'


def helper_contracts(p):
    cs = []
    V64 = 'std::vec::Vec<u64,std::alloc::Global>'
    for m in ('lyra2', 'lyra2mod'):
        q = 'lyra2::%s::' % m
        cs += [
            Contract(q + 'g', [('u64',) * 4 + ('[u64;4]',)], lambda: [u(x) for x in 'abcd'], lambda a: Arr(spec.G(*a))),
            Contract(q + 'init_state', [('[u64;16]',)], lambda: [], lambda a: Arr(spec.init_state())),
            Contract(q + 'round_lyra', [('[u64;16]',) * 2], lambda: [arr64(16)], lambda a: Arr(spec.rnd(a[0].items))),
            Contract(q + 'reduced_blake2b_lyra', [('[u64;16]',) * 2], lambda: [arr64(16)], lambda a: Arr(spec.F1(a[0].items))),
            Contract(q + 'blake2b_lyra', [('[u64;16]',) * 2], lambda: [arr64(16)], lambda a: Arr(spec.F12(a[0].items))),
            SliceContract('vs', q + 'absorb_block', lambda s: len(s) == 3 and s[0] == s[2] == '[u64;16]' and 'u64' in s[1] and (s[1].startswith('&[') or 'Vec' in s[1]),
                          lambda: [arr64(16), vec64(12)], lambda a: Arr(spec.F12(spec.xor_in(a[0].items, [at(a[1], i) for i in range(12)]))),
                          lambda a: [('the block has 12 words', lenge(a[1], 12))]),
            SliceContract('vs', q + 'absorb_block_blake2_safe', lambda s: len(s) == 3 and s[0] == s[2] == '[u64;16]' and 'u64' in s[1] and (s[1].startswith('&[') or 'Vec' in s[1]),
                          lambda: [arr64(16), vec64(8)], lambda a: Arr(spec.F12(spec.xor_in(a[0].items, [at(a[1], i) for i in range(8)]))),
                          lambda a: [('the block has 8 words', lenge(a[1], 8))]),
        ]
    for n, w in ((4, 'u32'), (8, 'u64')):
        cs.append(SliceContract('s', 'lyra2::utils::read_%s_le' % w, [('&[u8]', w)],
                                lambda n=n: [Seq(None, tm.avar('b', 0, 255), tm.var('b.len', n, (1 << 60) - 1), 0, 255)],
                                lambda a, n=n: tm.add(*[tm.scale(at(a[0], i), 256 ** i) for i in range(n)]),
                                lambda a, n=n: [('at least %d bytes' % n, lenge(a[0], n))]))
    # CubeHash: state is a struct of 32 words in order
    def cube(s):
        return Agg([u('x%d' % i, 32) for i in range(32)], 'CubeHash')

    def iscube(v):
        return isinstance(v, Agg) and len(v.f) == 32 and all(isinstance(x, T) for x in v.f)

    class Cube(SliceContract):
        def view(self, eng, st, args):
            a = SliceContract.view(self, eng, st, args)
            for k, x in zip(self.kinds, a):
                if k == 'v' and not iscube(x):
                    return None
            return a
    CH = 'lyra2::cubehash::CubeHash'
    VB = lambda s: s == '&[u8]' or 'Vec<u8' in s
    cs += [
        Cube('', 'lyra2::cubehash::new_cube_hash', [(CH,)], lambda: [], lambda a: Agg(spec.cube_iv(), CH)),
        Cube('sv', 'lyra2::cubehash::input_block', lambda s: len(s) == 3 and VB(s[0]) and s[1:] == (CH, CH),
             lambda: [Seq(None, tm.avar('d', 0, 255), tm.var('d.len', 32, (1 << 60) - 1), 0, 255), cube(0)],
             lambda a: Agg(spec.cube_absorb(a[1].f, [at(a[0], i) for i in range(32)]), CH),
             lambda a: [('the block has 32 bytes', lenge(a[0], 32))]),
        Cube('v', 'lyra2::cubehash::sixteen_rounds', [(CH, CH)], lambda: [cube(0)], lambda a: Agg(spec.cube_rounds(a[0].f, 16), CH)),
    ]
    return cs


class Result:
    """outcome of verifying one function"""

    def __init__(self, name):
        self.name = name
        self.obs = []
        self.fails = []
        self.unsupported = None
        self.loopfails = []
        self.time = 0.0
        self.inlined = set()
        self.used = set()
        self.assumed = set()
        self.lemmas = set()
        self.cex = []

    def ok(self, kinds=None):
        if self.unsupported:
            return False
        return not [o for o in self.obs if not o.ok and (kinds is None or o.kind in kinds)] and not ((kinds is None or 'functional' in kinds) and self.loopfails)


class Verifier:
    def __init__(self, prog, log=None):
        self.p = prog
        self.pr = __import__('prover').Prover()
        self.contracts = {}
        self.results = {}
        self.log = log or (lambda *a: None)
        self.deadline = None
        self.traces = {}
        self.sqz = {}
        self.kdf = {}          # name -> {profile: Result}
        self.sums = {}         # verified 'bmw' / 'cube' digests

    def fn(self, name):
        # a name with several instances (a generic function) has no contract of its own: it is executed
        l = self.p.bydef.get(name, [])
        return l[0] if len(l) == 1 and l[0].body is not None else None

    def engine(self):
        e = E.Engine(self.p, self.pr, self.contracts)
        e.deadline = self.deadline
        return e

    def finish(self, r, e, t0):
        r.obs += e.obs
        r.loopfails += e.loopfails
        r.inlined |= e.inlined
        r.used |= e.used_contracts
        r.assumed |= e.assumed
        r.lemmas |= e.lemmas
        r.cex += e.cex
        r.time += time.time() - t0

    # ------------------------------------------------------------ helpers
    def check_equal(self, e, st, got, want, where, what, kind='functional'):
        """value equality of got and want (same shape)"""
        if isinstance(got, Box):
            got = got.v
        gl, wl = self.lv(got), self.lv(want)
        if gl is None or wl is None or len(gl) != len(wl):
            return e.ob(kind, where, what, False, info='result has a different shape: %r' % (got,))
        good = True
        for i, (a, b) in enumerate(zip(gl, wl)):
            if a is b:
                continue
            if a.kind != b.kind or not loops.agree(e, st, a, b):
                e.ob(kind, where, what, False, info='component %d differs: code %s, specification %s' % (i, tm.show(a, 4)[:300], tm.show(b, 4)[:300]))
                good = False
                break
        if good:
            e.ob(kind, where, what, True, 'normal form / z3')
        return good

    def lv(self, v):
        if isinstance(v, (Arr, Seq)) and v.items is not None:
            out = []
            for x in v.items:
                l = self.lv(x)
                if l is None:
                    return None
                out += l
            return out
        if isinstance(v, Seq):
            return None
        if isinstance(v, T):
            return [v]
        if isinstance(v, Agg):
            out = []
            for x in v.f:
                l = self.lv(x)
                if l is None:
                    return None
                out += l
            return out
        return None

    def run(self, e, fn, args, facts=(), env=None, pos=None):
        st = e.new_state(facts)
        st.env = env or {}
        st.pos = pos
        # arguments passed by reference live in a pseudo frame
        vals = []
        fr = {}
        self.p.prep(fn)
        for i, a in enumerate(args):
            ty = self.p.types[fn.localty[i + 1]]
            if ty['k'] == 'ref' and not isinstance(a, Ref):
                fr[i] = a
                if isinstance(a, Seq):
                    vals.append(Ref('A', i, (), tm.ZERO, a.len))
                else:
                    vals.append(Ref('A', i))
            else:
                vals.append(a)
        st.frames['A'] = fr
        fid = e.push(st, fn, vals, None, None)
        return e.explore(st, E.Stop(fid))

    def verify_helper(self, c):
        fn = self.fn(c.name)
        r = Result(c.name)
        if fn is None:
            return None
        try:
            if not c.matches(self.p, fn):
                return None
            t0 = time.time()
            e = self.engine()
            args = c.fresh()
            st0 = []
            if c.requires:
                st0 = [x for _, x in c.requires(args)]
            outs = self.run(e, fn, args, st0)
            where = c.name
            if not outs:
                e.ob('functional', where, 'the function returns', False)
            for o in outs:
                self.check_equal(e, o[1], o[2], c.ensures(args), where, 'postcondition of ' + c.name)
            self.finish(r, e, t0)
        except FAIL as x:
            r.unsupported = why(x)
        c.verified = r.ok()
        self.results[c.name] = r
        if c.verified:
            self.contracts[c.name] = c
        self.log('%-45s %s %5.2fs %d obligations %s' % (c.name, 'ok' if r.ok() else 'FAILED', r.time, len(r.obs), r.unsupported or ''))
        return r

    def helpers(self):
        for c in helper_contracts(self.p):
            self.verify_helper(c)

    # ------------------------------------------------------------ squeeze
    def concrete(self, fn, args):
        """run fn on literals through the executor, recording loop heads"""
        e = self.engine()
        e.trace = {}
        outs = self.run(e, fn, args)
        if len(outs) != 1:
            raise E.Unsupported('concrete run has %d outcomes' % len(outs))
        return e.trace, outs[0][2]

    def squeeze(self, mod):
        name = 'lyra2::%s::squeeze' % mod
        fn = self.fn(name)
        if fn is None:
            return None
        s = sig(self.p, fn)
        if s[:2] != ('[u64;16]', 'u64') or 'Vec<u8' not in s[2]:
            return None
        best = None
        for variant in (0, 1, 2):
            r = Result(name)
            t0 = time.time()
            e = self.engine()
            try:
                traces = []
                for k in (192, 200, 500):
                    sv = [C((i * 0x9e3779b97f4a7c15 + k) & spec.M64) for i in range(16)]
                    try:
                        tr, out = self.concrete(fn, [Arr(sv), C(k)])
                    except E.Unsupported:
                        continue
                    env = {'k': C(k)}
                    spec.setS(env, sv)
                    rec = {}
                    loops.spec_concrete(spec.squeeze_program(variant), env, rec)
                    traces.append({'code': tr, 'spec': rec, 'env': {'k': C(k)}})
                e.traces = traces
                k = u('k')
                st = arr64(16)
                env = {'k': k}
                spec.setS(env, st.items)
                pre = [tm.le(k, C(KMAX))]
                outs = self.run(e, fn, [st, k], pre, env, ((spec.squeeze_program(variant), 0, None),))
                if not outs:
                    e.ob('functional', name, 'the function returns', False)
                for o in outs:
                    self.final(e, o[1], o[2], name, k)
            except FAIL as x:
                r.unsupported = why(x)
            self.finish(r, e, t0)
            if best is None or r.ok():
                best = r
            if r.ok():
                break
        self.results[name] = best
        if best.ok():
            self.contracts[name] = SqueezeContract(name)
        self.log('%-45s %s %5.2fs %d obligations %s' % (name, 'ok' if best.ok() else 'FAILED', best.time, len(best.obs), best.unsupported or best.loopfails or ''))
        return best

    def final(self, e, st, v, name, k):
        """result = first k bytes of the specification's out"""
        if isinstance(v, Box):
            v = v.v
        nd = loops.advance(e, st)
        if nd is not None or len(st.pos) != 1:
            e.ob('functional', name, 'the code performs specification loop %s' % (nd.name if nd else '?'), False)
        if not isinstance(v, Seq):
            e.ob('length', name, 'the result is a byte vector', False)
            return
        ok = e.check(st, 'length', name, 'the result has k bytes', tm.eq(v.len, k))
        if nd is not None:
            return
        a = models.v_arr(v)
        b = st.env['out']
        good = a is b or loops.agree(e, st, a, b, v.len)
        e.ob('shape', name, 'result = the squeeze stream of the final state, cut to k bytes', good or a.op == 'app' and a.a[0] == 'SQZ', 'normal form')
        e.ob('functional', name, 'result = the first k bytes of the specified output', good, 'normal form' if good else '', None if good else 'code %s, specification %s' % (tm.show(a, 4)[:300], tm.show(b, 4)[:300]))


KMAX = 1 << 62


class SqueezeContract:
    verified = True

    def __init__(self, name):
        self.name = name

    def apply(self, eng, st, fn, args):
        s, k = args
        if not eng.prove(st, tm.le(k, C(KMAX))):
            return None
        if k.op == 'c' and k.a[0] <= 4096:
            return Seq(spec.squeeze(s.items, k.a[0]), lo=0, hi=255)
        return Seq(None, spec.SQZ(s.items), k, 0, 255)


# ------------------------------------------------------------------ the KDF
PROFILES = {
    # name: (k, T, R, C, |pwd| = |salt| , same bytes)
    'gen': None,
    'z': (32, 8, 8, 8, 32),
    're': (32, 1, 8, 8, 32),
    'sum': (32, 1, 4, 4, (0, 743)),
    'v2': (32, 1, 4, 4, 32),
}
TRACES = {
    'gen': [(200, 26, 19, 3, 6, 3), (40, 64, 9, 2, 9, 2), (96, 70, 75, 2, 5, 2)],
    'z': [(32, 32, 32, 3, 8, 8)],
    're': [(32, 32, 32, 1, 8, 8)],
    'sum': [(32, 32, 32, 1, 4, 4), (32, 77, 77, 1, 4, 4)],
    'v2': [(32, 32, 32, 1, 4, 4)],
}
# further traces, used to tell guesses apart when the code meets the specification on them
EXTRA = {
    'z': [(32, 32, 32, 2, 11, 3)],
    're': [(32, 32, 32, 1, 11, 3), (32, 32, 32, 2, 9, 2)],
    'sum': [(32, 32, 32, 1, 11, 3), (32, 32, 32, 2, 9, 2)],
    'v2': [(32, 32, 32, 1, 11, 3), (32, 32, 32, 2, 9, 2)],
}


def kdf_sym(profile):
    """symbolic parameters and the precondition of the KDF"""
    k, T_, R, Cc = u('k'), u('T'), u('R'), u('C')
    P = tm.var('P', 0, (1 << 63) - 1)
    pwd = tm.avar('pwd', 0, 255)
    if PROFILES[profile] is None:
        SL = tm.var('SL', 0, (1 << 63) - 1)
        salt = tm.avar('salt', 0, 255)
    else:
        SL, salt = P, pwd
    e = {'k': k, 'T': T_, 'R': R, 'C': Cc, 'P': P, 'SL': SL, 'pwd': pwd, 'salt': salt}
    facts = kdf_pre(e)
    pf = PROFILES[profile]
    if pf is not None:
        facts += [tm.eq(k, C(pf[0])), tm.eq(T_, C(pf[1])), tm.eq(R, C(pf[2])), tm.eq(Cc, C(pf[3]))]
        if isinstance(pf[4], tuple):
            facts += [tm.ge(P, C(pf[4][0])), tm.le(P, C(pf[4][1]))]
        else:
            facts.append(tm.eq(P, C(pf[4])))
    return e, facts


def kdf_pre(e):
    RC = tm.mul(e['R'], e['C'])
    return [tm.ge(e['T'], tm.ONE), tm.ge(e['R'], C(3)), tm.ge(e['C'], tm.ONE), spec.kdf_fits(e),
            tm.le(tm.scale(RC, 96), C((1 << 63) - 1)), tm.le(e['k'], C(KMAX)),
            tm.le(tm.add(e['P'], e['SL']), C((1 << 63) - 1))]


def litbytes(n, salt):
    return [C((i * 37 + 11 * salt + (i * i) % 7) & 255) for i in range(n)]


def seqarg(a, n):
    return Seq(None, a, n, 0, 255)


def kdf_sig(s):
    return len(s) == 7 and s[0] == 'u64' and bytesty(s[1]) and bytesty(s[2]) and s[3:6] == ('u64',) * 3 and bytesty(s[6])


def bytesty(t):
    return 'Vec<u8' in t or t == '&[u8]'


class KDF:
    """verification of lyra2::lyra2 / lyra2mod::lyra2mod against the spec program"""

    def __init__(self, v, mod):
        self.v = v
        self.mod = mod
        self.m = 'lyra2mod' if mod else 'lyra2'
        self.name = 'lyra2::%s::%s' % (self.m, self.m)
        self.fn = v.fn(self.name)
        if self.fn is None:
            # renamed: the only function of the module with the KDF's signature
            l = [f for f in v.p.fns.values() if f.local and f.body is not None and f.dname.startswith('lyra2::%s::' % self.m) and kdf_sig(sig(v.p, f))]
            if len(l) == 1:
                self.fn = l[0]
                self.name = l[0].dname
        self.tr = {}
        self.ok = {}
        self.res = {}

    def sigok(self):
        if self.fn is None:
            return False
        s = sig(self.v.p, self.fn)
        return kdf_sig(s)

    def trace(self, prm, end, sq):
        key = (prm, end, sq)
        if key in self.tr:
            return self.tr[key]
        k, lp, ls, T_, R, Cc = prm
        pwd, salt = litbytes(lp, 1), litbytes(ls, 1 if lp == ls else 2)
        ck = ('code', prm)
        if ck not in self.tr:
            try:
                self.tr[ck] = self.v.concrete(self.fn, [C(k), Seq(pwd, lo=0, hi=255), Seq(salt, lo=0, hi=255), C(T_), C(R), C(Cc)])
            except FAIL as x:
                self.tr[ck] = None
        res = None
        if self.tr[ck] is not None:
            tr, out = self.tr[ck]
            env = {'k': C(k), 'P': C(lp), 'SL': C(ls), 'T': C(T_), 'R': C(R), 'C': C(Cc), 'pwd': tm.larr(pwd), 'salt': tm.larr(salt)}
            penv = dict(env)
            rec = {}
            loops.spec_concrete(spec.kdf_program(self.mod, end, sq), env, rec)
            res = {'code': tr, 'spec': rec, 'env': penv, 'same': self.same(prm, out)}
        self.tr[key] = res
        return res

    def same(self, prm, out):
        k, lp, ls, T_, R, Cc = prm
        ck = ('spec', prm)
        if ck not in self.tr:
            lit = lambda l: [x.a[0] for x in l]
            self.tr[ck] = spec.litkdf(k, lit(litbytes(lp, 1)), lit(litbytes(ls, 1 if lp == ls else 2)), T_, R, Cc, self.mod)
        if isinstance(out, Box):
            out = out.v
        try:
            return bytes(x.a[0] for x in out.items) == self.tr[ck]
        except Exception:
            return False

    def get(self, profile):
        if profile not in self.res:
            self.res[profile] = self.verify(profile)
        return self.res[profile]

    def verify(self, profile, panic_ok=False):
        v = self.v
        name = self.name
        best = None
        ends = [('app', 0)] if ('lyra2::%s::squeeze' % self.m) in v.contracts else []
        ends += [('loop', 0), ('loop', 1), ('loop', 2)]
        for end, sq in ends:
            r = Result(name)
            r.profile = profile
            t0 = time.time()
            e = v.engine()
            e.ctxname = profile
            try:
                if not self.sigok():
                    raise E.Unsupported('signature of %s changed' % name)
                tr = [self.trace(x, end, sq) for x in TRACES[profile]]
                ex = [self.trace(x, end, sq) for x in EXTRA.get(profile, [])]
                e.traces = [x for x in tr if x is not None] + [x for x in ex if x is not None and x['same']]
                env, facts = kdf_sym(profile)
                args = [env['k'], seqarg(env['pwd'], env['P']), seqarg(env['salt'], env['SL']), env['T'], env['R'], env['C']]
                outs = v.run(e, self.fn, args, facts, env, ((spec.kdf_program(self.mod, end, sq), 0, None),))
                if not outs:
                    e.ob('functional', name, 'the function returns', False)
                for o in outs:
                    v.final(e, o[1], o[2], name, env['k'])
            except FAIL as x:
                r.unsupported = why(x)
            v.finish(r, e, t0)
            r.end = (end, sq)
            r.eng = e
            if best is None or r.ok() or (best.unsupported and not r.unsupported):
                best = r
            if r.ok():
                break
            if end == 'app' and name_used(r, self.m) and not any('sqz' in str(x) for x in r.obs if not x.ok):
                # squeeze was used through its contract: other endings cannot do better
                break
        self.ok[profile] = best.ok()
        v.results[name + ('' if profile == 'gen' else '@' + profile)] = best
        v.log('%-45s %s %5.2fs %d obligations %s' % (name + '@' + profile, 'ok' if best.ok() else 'FAILED', best.time, len(best.obs), best.unsupported or best.loopfails or ''))
        return best


INVALID = {
    # C09: parameter sets on which no key may be returned
    'T=0': lambda e: [tm.eq(e['T'], tm.ZERO)],
    'R<3': lambda e: [tm.lt(e['R'], C(3))],
    'C=0': lambda e: [tm.eq(e['C'], tm.ZERO), tm.ge(e['R'], C(3))],
    # R <= R*C and 3*C <= R*C follow from C >= 1, R >= 3 (lemma mono)
    'too long': lambda e: [tm.ge(e['C'], tm.ONE), tm.ge(e['R'], C(3)), tm.not_(spec.kdf_fits(e)),
                           tm.le(e['R'], tm.mul(e['R'], e['C'])), tm.le(tm.scale(e['C'], 3), tm.mul(e['R'], e['C']))],
}


def _reject(self, which):
    """no path of the KDF returns on the invalid parameters `which`"""
    v = self.v
    name = self.name
    r = Result(name + '@' + which)
    t0 = time.time()
    e = v.engine()
    e.panic_ok = True
    e.ctxname = 'reject'
    try:
        if not self.sigok():
            raise E.Unsupported('signature of %s changed' % name)
        e.traces = [x for x in [self.trace(x, 'app', 0) for x in TRACES['gen']] if x is not None]
        env, _ = kdf_sym('gen')
        # both vectors live in one address space
        facts = INVALID[which](env) + [tm.le(tm.add(env['P'], env['SL']), C(1 << 62))]
        args = [env['k'], seqarg(env['pwd'], env['P']), seqarg(env['salt'], env['SL']), env['T'], env['R'], env['C']]
        outs = v.run(e, self.fn, args, facts, env, ((spec.kdf_program(self.mod, 'app', 0), 0, None),))
        e.obs = [o for o in e.obs if o.kind in ('termination', 'reject')]
        live = [o for o in outs if v.pr.sat(o[1].facts) is not False]
        if live:
            e.ob('reject', name, 'no path returns when %s' % which, False, info=e.describe(live[0][1]))
        else:
            e.ob('reject', name, 'no path returns when %s' % which, True, 'z3')
    except FAIL as x:
        r.unsupported = why(x)
    v.finish(r, e, t0)
    r.loopfails = []
    v.results[r.name] = r
    v.log('%-45s %s %5.2fs %d obligations %s' % (r.name, 'ok' if r.ok() else 'FAILED', r.time, len(r.obs), r.unsupported or ''))
    return r


KDF.reject = _reject


def _binding(self):
    """what the KDF absorbs is exactly the padded encoding of its arguments (C15)"""
    v = self.v
    name = self.name
    r = Result(name + '@absorb')
    t0 = time.time()
    e = v.engine()
    e.ctxname = 'absorb'
    e.stop_at_end = True
    try:
        if not self.sigok():
            raise E.Unsupported('signature of %s changed' % name)
        e.traces = [x for x in [self.trace(x, 'absorb', 0) for x in TRACES['gen']] if x is not None]
        env, facts = kdf_sym('gen')
        args = [env['k'], seqarg(env['pwd'], env['P']), seqarg(env['salt'], env['SL']), env['T'], env['R'], env['C']]
        outs = v.run(e, self.fn, args, facts, env, ((spec.kdf_program(self.mod, 'absorb', 0), 0, None),))
        good = not outs and bool(e.stopped) and not e.loopfails
        e.ob('functional', name, 'every path absorbs the padded encoding of all arguments before anything else', good, 'z3')
    except FAIL as x:
        r.unsupported = why(x)
    v.finish(r, e, t0)
    v.results[r.name] = r
    v.log('%-45s %s %5.2fs %d obligations %s' % (r.name, 'ok' if r.ok() else 'FAILED', r.time, len(r.obs), r.unsupported or r.loopfails or ''))
    return r


KDF.binding = _binding


def name_used(r, m):
    return ('lyra2::%s::squeeze' % m) in r.used


# ------------------------------------------------------------------ stages and chains
SAFETY = ('panic', 'termination', 'length')


def LYRA(mod, k, pwd, salt, T_, R, Cc):
    """k literal: the key as k byte terms"""
    a = ()
    for x in (pwd, salt):
        c = models.canon(x)
        a += c[1:]
    return [tm.app('LYRAMOD' if mod else 'LYRA', (C(i),) + a + (C(k), T_, R, Cc), 0, 255) for i in range(k)]


def stage(name, v, n=32):
    return [tm.app('STAGE:' + name, (C(i),) + models.canon(v)[1:], 0, 255) for i in range(n)]


class KDFContract:
    """call of the KDF inside the crate.  `results` is the list of verification runs
    (generic, or for a parameter profile) that may cover the call."""

    def __init__(self, kdf, results):
        self.k = kdf
        self.results = results

    def apply(self, eng, st, fn, args):
        k, pwd, salt, T_, R, Cc = args
        pwd, salt = models.content(eng, st, pwd), models.content(eng, st, salt)
        env = {'k': k, 'T': T_, 'R': R, 'C': Cc, 'P': pwd.len, 'SL': salt.len}
        if k.op != 'c' or k.a[0] > 4096:
            return None
        best = None
        for profile in self.results:
            if not self.covers(eng, st, profile, env, pwd, salt):
                continue
            r = self.k.get(profile)
            if best is None or sum(r.ok((x,)) for x in ALLK) > sum(best[1].ok((x,)) for x in ALLK):
                best = (profile, r)
            if r.ok():
                break
        where = eng.where(st)
        if best is None:
            eng.ob('panic', where, 'precondition of %s' % self.k.name, False, info='not shown at this call: %s' % tm.show(tm.andb(*kdf_pre(env)), 4))
            eng.ob('functional', where, 'precondition of %s' % self.k.name, False)
        else:
            eng.ob('panic', where, 'precondition of %s' % self.k.name, True, 'z3')
            for kind in ALLK:
                if not best[1].ok((kind,)):
                    eng.ob(kind, where, 'contract of %s (%s) is not established' % (self.k.name, best[0]), False)
            eng.lemmas |= best[1].lemmas
        return Seq(LYRA(self.k.mod, k.a[0], pwd, salt, T_, R, Cc), lo=0, hi=255)

    def covers(self, eng, st, profile, env, pwd, salt):
        pf = PROFILES[profile]
        pre = kdf_pre(env)
        if pf is not None:
            if models.canon(pwd) != models.canon(salt):
                return False
            pre = pre + [tm.eq(env['k'], C(pf[0])), tm.eq(env['T'], C(pf[1])), tm.eq(env['R'], C(pf[2])), tm.eq(env['C'], C(pf[3]))]
            if isinstance(pf[4], tuple):
                pre += [tm.ge(env['P'], C(pf[4][0])), tm.le(env['P'], C(pf[4][1]))]
            else:
                pre.append(tm.eq(env['P'], C(pf[4])))
        return all(eng.prove(st, c) for c in pre)


ALLK = ('functional', 'coupling', 'panic', 'termination', 'length')


class StageContract:
    """bmw::sum / cubehash::sum on a message of literal length"""

    def __init__(self, v, name, tag):
        self.v = v
        self.name = name
        self.tag = tag

    def apply(self, eng, st, fn, args):
        m = models.content(eng, st, args[0])
        if m.len.op != 'c':
            return None
        r = self.v.stage_result(self.tag, m.len.a[0])
        if r is None:
            return None
        where = eng.where(st)
        for kind in ALLK:
            if not r.ok((kind,)):
                eng.ob(kind, where, 'contract of %s for %d bytes is not established' % (self.name, m.len.a[0]), False)
        return Seq(stage(self.tag, m), lo=0, hi=255)


STAGES = {'BMW': ('lyra2::bmw::sum', spec.bmw256, 55), 'CUBE': ('lyra2::cubehash::sum', spec.cubehash256, 32)}


def _stage_result(self, tag, n):
    """verify the stage on n arbitrary bytes"""
    name, f, mx = STAGES[tag]
    if n > mx or tag == 'CUBE' and n != 32:
        return None
    key = '%s[%d]' % (name, n)
    if key in self.results:
        return self.results[key]
    fn = self.fn(name)
    if fn is None or len(sig(self.p, fn)) != 2 or not all(bytesty(t) for t in sig(self.p, fn)):
        return None
    r = Result(key)
    t0 = time.time()
    e = self.engine()
    m = [u('m%d' % i, 8) for i in range(n)]
    try:
        outs = self.run(e, fn, [Seq(m, lo=0, hi=255)])
        if not outs:
            e.ob('functional', name, 'the function returns', False)
        for o in outs:
            self.check_bytes(e, o[1], o[2], f(m), name)
    except FAIL as x:
        r.unsupported = why(x)
    self.finish(r, e, t0)
    self.results[key] = r
    self.log('%-45s %s %5.2fs %d obligations %s' % (key, 'ok' if r.ok() else 'FAILED', r.time, len(r.obs), r.unsupported or r.loopfails or ''))
    return r


def _check_bytes(self, e, st, v, want, name):
    """v is a vector of exactly the bytes `want`"""
    if isinstance(v, Box):
        v = v.v
    if isinstance(v, Arr):
        v = Seq(v.items)
    if not isinstance(v, Seq):
        return e.ob('length', name, 'the result is a byte vector', False)
    e.check(st, 'length', name, 'the result has %d bytes' % len(want), tm.eq(v.len, C(len(want))))
    got = list(v.items) if v.items is not None else [tm.select(v.arr, C(i), e.decide(st)) for i in range(len(want))]
    return self.check_equal(e, st, Arr(got), Arr(want), name, 'result bytes are the specified ones')


def _stages(self):
    for tag, (name, f, mx) in STAGES.items():
        if self.fn(name) is not None:
            self.contracts[name] = StageContract(self, name, tag)


def _kdfs(self, profiles):
    """make the KDF contracts usable at call sites; verified on demand"""
    for mod in (False, True):
        k = self.kdf.setdefault(mod, KDF(self, mod))
        if k.fn is not None and k.sigok():
            self.contracts[k.name] = KDFContract(k, profiles)


def _chain(self, which):
    """public hash `which` on an arbitrary byte string"""
    name = 'lyra2::%s::sum' % which
    fn = self.fn(name)
    r = Result(name)
    t0 = time.time()
    e = self.engine()
    n = tm.var('n', 0, (1 << 63) - 1)
    x = Seq(None, tm.avar('x', 0, 255), n, 0, 255)
    facts = [tm.le(n, C(743))] if which in ('lyra2', 'lyra2mod') else []
    try:
        if fn is None or sig(self.p, fn) != ('std::vec::Vec<u8,std::alloc::Global>',) * 2:
            raise E.Unsupported('%s is not a public fn(Vec<u8>) -> Vec<u8>' % name)
        outs = self.run(e, fn, [x], facts)
        if not outs:
            e.ob('functional', name, 'the function returns', False)
        used = e.used_contracts

        def ST(tag, v):
            nm, f, _ = STAGES[tag]
            v = Seq(v, lo=0, hi=255) if isinstance(v, list) else v
            return stage(tag, v) if nm in used else list(f(list(v.items)))

        def H(nm, v):
            return models.digest_app(nm, Seq(v, lo=0, hi=255) if isinstance(v, list) else v)

        def L(mod, v, T_, R, Cc):
            v = Seq(v, lo=0, hi=255) if isinstance(v, list) else v
            return LYRA(mod, 32, v, v, C(T_), C(R), C(Cc))
        for o in outs:
            if which in ('lyra2', 'lyra2mod'):
                w = L(which == 'lyra2mod', x, 1, 4, 4)
            elif which == 'lyra2z':
                w = L(False, H('BLAKE256', x), 8, 8, 8)
            elif which == 'lyra2re':
                w = H('GROESTL256', H('SKEIN512_256', L(False, H('KECCAK256', H('BLAKE256', x)), 1, 8, 8)))
            elif which == 'lyra2rev2':
                w = ST('BMW', ST('CUBE', H('SKEIN512_256', L(False, ST('CUBE', H('KECCAK256', H('BLAKE256', x))), 1, 4, 4))))
            else:
                w = ST('BMW', L(True, ST('CUBE', L(True, H('BLAKE256', x), 1, 4, 4)), 1, 4, 4))
            self.check_bytes(e, o[1], o[2], w, name)
    except FAIL as ex:
        r.unsupported = why(ex)
    self.finish(r, e, t0)
    self.results[name] = r
    self.log('%-45s %s %5.2fs %d obligations %s' % (name, 'ok' if r.ok() else 'FAILED', r.time, len(r.obs), r.unsupported or r.loopfails or ''))
    return r


Verifier.stage_result = _stage_result
Verifier.check_bytes = _check_bytes
Verifier.stages = _stages
Verifier.kdfs = _kdfs
Verifier.chain = _chain
