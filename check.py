#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current tree.

1. extract: rustc's MIR of the current source (mirdump), every run.
2. prove: every contract the property rests on is discharged over that MIR (mirv/), and
   the mathematical lemmas used are discharged by Verus (lemmas/lemmas.rs).
3. differential run of the real code against an independent oracle; short when the proof
   succeeds (it also guards the verifier itself), long when it does not, to turn the failed
   obligation into a failing input."""
import hashlib, json, multiprocessing, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'mirv'))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('VP_REEXEC'):
    os.environ['VP_REEXEC'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.setrecursionlimit(100000)
import mir, contracts, effects, extract, harness, spec

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
ALL = contracts.ALLK
SAFE = ('panic', 'termination', 'length')

TITLE = {}
try:
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        d = json.loads(l)
        TITLE[d['id']] = d['title']
except OSError:
    pass


# ---------------------------------------------------------------- proof tasks
# task: (name, function(Verifier) -> [(Result, kinds)])
def base(v, *squeezes):
    v.helpers()
    for m in squeezes:
        v.squeeze(m)


def t_kdf(mod, profile, kinds):
    def f(v):
        base(v, 'lyra2mod' if mod else 'lyra2')
        return [(contracts.KDF(v, mod).verify(profile), kinds)]
    return f


def t_chain(which, profiles, kinds):
    def f(v):
        base(v, 'lyra2', 'lyra2mod')
        v.stages()
        v.kdfs(profiles)
        r = v.chain(which)
        out = [(r, kinds)]
        return out
    return f


def t_squeeze(mod):
    m = 'lyra2mod' if mod else 'lyra2'

    def f(v):
        v.helpers()
        r = v.squeeze(m)
        k = contracts.KDF(v, mod)
        q = k.verify('gen')
        if r is not None and r.ok():
            if q.ok(('length', 'shape')) and any(o.kind == 'shape' for o in q.obs):
                return [(r, ALL), (q, ('length', 'shape'))]
            return [(r, ALL), (q, ALL + ('shape',))]
        # no squeeze contract: the KDF with the squeeze loop spelt out
        return [(q, ALL + ('shape',))]
    return f


def t_reject(mod, which):
    def f(v):
        base(v, 'lyra2mod' if mod else 'lyra2')
        return [(contracts.KDF(v, mod).reject(which), ('termination', 'reject'))]
    return f


def t_stage(tag, lens):
    def f(v):
        v.helpers()
        out = []
        for n in lens:
            r = v.stage_result(tag, n)
            if r is None:
                r = contracts.Result('%s[%d]' % (contracts.STAGES[tag][0], n))
                r.unsupported = 'the function is missing or has another signature'
            out.append((r, ALL))
        return out
    return f


def t_binding(mod):
    def f(v):
        v.helpers()
        return [(contracts.KDF(v, mod).binding(), ('functional', 'coupling'))]
    return f


def t_frame(v):
    r = contracts.Result('frame of every reachable function')
    t0 = time.time()
    r.obs, r.assumed = effects.analyse(v.p)
    r.time = time.time() - t0
    return [(r, ('frame',))]


def tasks(pid):
    if pid == 'C01':
        return [('lyra2 gen', t_kdf(False, 'gen', ALL))]
    if pid == 'C13':
        return [('lyra2mod gen', t_kdf(True, 'gen', ALL))]
    ch = {'C02': ('lyra2', ['sum', 'gen']), 'C03': ('lyra2z', ['z', 'gen']), 'C04': ('lyra2re', ['re', 'gen']), 'C05': ('lyra2rev2', ['v2', 'sum', 'gen']), 'C06': ('lyra2rev3', ['v2', 'sum', 'gen'])}
    if pid in ch:
        return [(ch[pid][0], t_chain(ch[pid][0], ch[pid][1], ALL))]
    if pid == 'C07':
        return [(w, t_chain(w, p, SAFE)) for w, p in (('lyra2z', ['z', 'gen']), ('lyra2re', ['re', 'gen']), ('lyra2rev2', ['v2', 'gen']), ('lyra2rev3', ['v2', 'gen']))]
    if pid == 'C08':
        return [('squeeze lyra2', t_squeeze(False)), ('squeeze lyra2mod', t_squeeze(True))]
    if pid == 'C09':
        return [('reject %s %s' % (m, w), t_reject(m, w)) for m in (False, True) for w in contracts.INVALID]
    if pid == 'C10':
        return [('lyra2 gen', t_kdf(False, 'gen', ('panic', 'termination'))), ('lyra2mod gen', t_kdf(True, 'gen', ('panic', 'termination')))]
    if pid == 'C11':
        return [('cubehash', t_stage('CUBE', [32]))]
    if pid == 'C12':
        ls = [32] + [n for n in range(56) if n != 32]
        return [('bmw %d' % i, t_stage('BMW', ls[i::7])) for i in range(7)]
    if pid == 'C14':
        return [('frame', t_frame)]
    if pid == 'C15':
        return [('absorb lyra2', t_binding(False)), ('absorb lyra2mod', t_binding(True))]
    raise SystemExit('unknown property ' + pid)


USES_LEMMAS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C13', 'C15')
DEBUG_TOO = ('C01', 'C07', 'C10', 'C13')     # checked again with debug assertions on, if that changes the code


def worker(q, name, fn, mirfile, budget, label):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        p = mir.Program(mirfile)
        v = contracts.Verifier(p)
        v.deadline = v.pr.deadline = time.time() + budget
        res = fn(v)
        out = []
        done = {id(r) for r, _ in res}
        for r, kinds in res:
            out.append(pack(r, kinds, label))
        # callee contracts verified on the way (reported; their failures show in the callers)
        for r in v.results.values():
            if id(r) not in done:
                out.append(pack(r, None, label))
        st = v.pr.stats
        q.put((name, out, {'queries': st.queries, 'z3_s': st.time, 'unknown': st.unknown, 'syntactic': st.syntactic}))
    except BaseException:
        q.put((name, [{'name': name, 'ok': False, 'selected': True, 'unsupported': 'verifier failed: ' + traceback.format_exc()[-1500:], 'obs': 0, 'proved': 0, 'fails': [], 'time': 0, 'how': {}, 'inlined': [], 'used': [], 'assumed': [], 'lemmas': [], 'cex': [], 'kinds': {}}], {}))


def pack(r, kinds, label):
    sel = [o for o in r.obs if kinds is None or o.kind in kinds]
    bad = [o for o in sel if not o.ok]
    how = {}
    kc = {}
    for o in sel:
        kc[o.kind] = kc.get(o.kind, 0) + 1
        if o.ok:
            how[o.how or 'normal form'] = how.get(o.how or 'normal form', 0) + 1
    fails = ['%s obligation at %s: %s -- %s' % (o.kind, o.where, o.what, str(o.info or '')[:600]) for o in bad[:20]]
    lf = []
    if kinds is None or 'functional' in kinds:
        for where, fs in r.loopfails[:6]:
            lf.append('functional obligation at %s: the loop keeps the specification\'s invariant -- %s' % (where, ' | '.join(x[:500] for x in fs[:3])))
    ok = r.ok(kinds) and bool(r.obs)
    if r.unsupported:
        fails.append('obligation generation stopped: ' + str(r.unsupported)[:1500])
    name = r.name + ('@' + r.profile if getattr(r, 'profile', None) else '')
    return {'name': name + label, 'ok': ok, 'selected': kinds is not None, 'unsupported': r.unsupported, 'obs': len(sel) + len(lf) + (1 if r.unsupported else 0), 'proved': len(sel) - len(bad),
            'fails': lf + fails, 'time': r.time, 'how': how, 'kinds': kc, 'inlined': sorted(r.inlined), 'used': sorted(r.used), 'assumed': sorted(r.assumed), 'lemmas': sorted(r.lemmas), 'cex': r.cex[:6]}


class Proof(threading.Thread):
    def __init__(self, todo, budget):
        threading.Thread.__init__(self, daemon=True)
        self.todo = todo
        self.budget = budget
        self.res = {}
        self.stats = {}
        self.procs = []
        self.ended = False

    def run(self):
        ctx = multiprocessing.get_context('fork')
        q = ctx.Queue()
        pend = list(self.todo)
        live = {}
        t0 = {}
        while pend or live:
            while pend and len(live) < 7:
                name, fn, mf, label = pend.pop(0)
                pr = ctx.Process(target=worker, args=(q, name + label, fn, mf, self.budget, label), daemon=True)
                pr.start()
                live[name + label] = pr
                t0[name + label] = time.time()
            try:
                name, out, st = q.get(timeout=0.5)
                self.res[name] = out
                for k, x in st.items():
                    self.stats[k] = self.stats.get(k, 0) + x
                pr = live.pop(name, None)
                if pr:
                    pr.join(1)
                continue
            except Exception:
                pass
            for name, pr in list(live.items()):
                over = time.time() - t0[name] > self.budget + 25
                if over or (not pr.is_alive() and time.time() - t0[name] > 2 and q.empty()):
                    if over:
                        pr.kill()
                    else:
                        time.sleep(0.5)
                        if not q.empty():
                            continue
                    live.pop(name)
                    self.res[name] = [{'name': name, 'ok': False, 'selected': True, 'unsupported': 'budget', 'obs': 1, 'proved': 0, 'fails': ['obligations not discharged within %d s' % self.budget if over else 'the verifier process died'], 'time': time.time() - t0[name], 'how': {}, 'kinds': {}, 'inlined': [], 'used': [], 'assumed': [], 'lemmas': [], 'cex': []}]
        self.ended = True

    def stop(self):
        for c in multiprocessing.active_children():
            c.kill()


def lemmas():
    """discharge lemmas/lemmas.rs with Verus"""
    t0 = time.time()
    r = subprocess.run(['verus', os.path.join(ROOT, 'lemmas', 'lemmas.rs')], cwd=tempfile.gettempdir(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', r.stdout)
    if not m or m.group(2) != '0' or r.returncode:
        raise RuntimeError('lemmas not discharged:\n' + r.stdout[-2000:])
    return int(m.group(1)), time.time() - t0


# ---------------------------------------------------------------- constants of the code, for the search
def constants(p):
    out = {}

    def add(v):
        out[v] = out.get(v, 0) + 1
    for f in p.fns.values():
        if not f.local or f.body is None:
            continue
        for y in effects.walk(f.body):
            if 'SwitchInt' in y:
                for val, _ in y['SwitchInt']['targets']['branches']:
                    add(int(val) & ((1 << 64) - 1))
            a = y.get('Allocated')
            if isinstance(a, dict):
                scalars(a, add)
    for a in p.allocs.values():
        for y in effects.walk(a):
            if 'bytes' in y and len(y.get('bytes') or []) <= 4096:
                scalars(y, add, table=True)
    return out


def scalars(a, add, table=False):
    bs = a.get('bytes')
    if not bs or any(x is None for x in bs):
        return
    if not table and len(bs) in (1, 2, 4, 8, 16):
        add(int.from_bytes(bytes(bs), 'little') & ((1 << 64) - 1))
    elif len(bs) > 8:
        for w in (4, 8):
            for i in range(0, len(bs) - w + 1, w):
                add(int.from_bytes(bytes(bs[i:i + w]), 'little'))


def hints(p, work, cex, wide=None):
    old = set()
    try:
        old = {int(x) for x in open(os.path.join(ROOT, 'harness', 'consts.txt')).read().split()}
    except OSError:
        pass
    cs = constants(p) if p is not None else {}
    new = [c for c in cs if c not in old]
    l = []
    # constants that the pinned tree does not have come up more often
    w = sorted(cs) + new * max(1, (2 * len(cs)) // max(1, len(new)))
    for i in range(0, len(w), 200):
        l.append('const ' + ' '.join(map(str, w[i:i + 200])))
    for m in cex:
        if all(k in m for k in ('R', 'C')):
            l.append('param %d %d %d %d %d %d' % (m.get('k', 32), m.get('P', 32), m.get('SL', m.get('P', 32)), m.get('T', 1), m['R'], m['C']))
        if 'k' in m:
            l.append('param %d %d %d %d %d %d' % (m['k'], m.get('P', 32) % 200, m.get('SL', 32) % 200, 1, 4, 4))
        if 'n' in m:
            l.append('len %d' % m['n'])
    if wide:
        l.append('wide %d' % wide)
    path = os.path.join(work, 'hints')
    open(path, 'w').write('\n'.join(l) + '\n')
    return path, len(new)


# ---------------------------------------------------------------- differential runs
def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_search(binary, pid, secs, hpath, work, seed, threads=8):
    """(found dict or None, cases)"""
    if pid == 'C14':
        return histories(binary, secs, hpath, seed)
    cmd = [binary, 'search', pid, str(seed), str(secs), str(threads), hpath]
    for attempt in (0, 1):
        e = dict(os.environ)
        log = os.path.join(work, 'hlog')
        if attempt:
            e['HLOG'] = log
            cmd[5] = '1'
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 200, env=e, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            return None, 0
        m = re.search(r'^NONE .*cases=(\d+)', r.stdout, re.M)
        if m:
            return None, int(m.group(1))
        m = re.search(r'^FOUND .*cases=(\d+)', r.stdout, re.M)
        if m:
            d = {}
            for l in r.stdout.splitlines():
                k, _, v = l.partition(' ')
                if k in ('CASE', 'CASE2', 'GOT', 'WANT'):
                    d[k.lower()] = v
            return d, int(m.group(1))
        if attempt:
            # the process itself died (abort, stack overflow, memory)
            try:
                c = open(log + '.0').read()
            except OSError:
                c = ''
            if c:
                return {'case': c, 'got': 'the process dies with status %d' % r.returncode, 'want': 'no crash'}, 1
    return None, 0


def hist(binary, seed, n, order, hpath, timeout=120):
    try:
        r = subprocess.run([binary, 'history', str(seed), str(n), order, hpath], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return None
    out = []
    for l in r.stdout.splitlines():
        f = l.split()
        if f and f[0] == 'R':
            out.append((int(f[1]), f[2]))
    return out if r.returncode == 0 else None


def histories(binary, secs, hpath, seed):
    t0 = time.time()
    n = 150
    rounds = 0
    total = 0
    while time.time() - t0 < secs or rounds == 0:
        sd = seed * 1000 + rounds
        rounds += 1
        a = hist(binary, sd, n, 'seq', hpath)
        if a is None:
            continue
        total += len(a)
        ref = {}
        src = {}
        runs = [('seq', a)]
        for o in ('perm:1', 'perm:2', 'thr:1', 'thr:2'):
            b = hist(binary, sd, n, o, hpath)
            if b is not None:
                runs.append((o, b))
                total += len(b)
        # fresh processes: a sample, and whatever disagrees
        fresh = {}

        def one(i):
            if i not in fresh:
                f = hist(binary, sd, n, 'one:%d' % i, hpath)
                fresh[i] = f[0][1] if f else None
            return fresh[i]
        seen = {}
        bad = []
        for o, l in runs:
            for i, d in l:
                if seen.setdefault(i, d) != d:
                    bad.append(i)
        sample = list(range(rounds % 7, n, 7)) if rounds < 4 else []
        for i in sorted(set(bad))[:10] + sample:
            f = one(i)
            total += 1
            for o, l in runs:
                for pos, (j, d) in enumerate(l):
                    if j == i and f is not None and d != f:
                        c = subprocess.run([binary, 'casenr', str(sd), str(n), str(i), hpath], stdout=subprocess.PIPE, text=True).stdout.strip()
                        return {'case': c, 'got': '%s (as call number %d of history seed=%d n=%d order=%s)' % (d, pos, sd, n, o), 'want': f + ' (first call in a fresh process)', 'history': [sd, n, o, pos, i]}, total
        if bad:
            i = bad[0]
            c = subprocess.run([binary, 'casenr', str(sd), str(n), str(i), hpath], stdout=subprocess.PIPE, text=True).stdout.strip()
            return {'case': c, 'got': 'different results in different histories of seed=%d n=%d' % (sd, n), 'want': 'one result', 'history': [sd, n, 'seq', 0, i]}, total
    return None, total


def validate(binary):
    """the contract specification (spec.py), the oracle and the known answers agree"""
    r = subprocess.run([binary, 'selftest'], stdout=subprocess.PIPE, text=True)
    if 'OK' not in r.stdout:
        raise RuntimeError('oracle self-test: ' + r.stdout)
    n = 0
    import random
    rnd = random.Random(SEED)

    def want(case):
        o = subprocess.run([binary, 'oracle'] + case.split(), stdout=subprocess.PIPE, text=True).stdout
        return re.search(r'^WANT (\S*)', o, re.M).group(1)
    for md in (False, True):
        for k, lp, ls, T, R, C_ in ((32, 32, 32, 1, 4, 4), (100, rnd.randrange(70), rnd.randrange(70), 3, 5, 3)):
            pw = [rnd.randrange(256) for _ in range(lp)]
            sa = [rnd.randrange(256) for _ in range(ls)]
            a = spec.litkdf(k, pw, sa, T, R, C_, md).hex()
            b = want('fn=%s k=%d pwd=%s salt=%s T=%d R=%d C=%d' % ('lyra2mod' if md else 'lyra2', k, bytes(pw).hex(), bytes(sa).hex(), T, R, C_))
            if a != b:
                raise RuntimeError('specification and oracle disagree on the KDF')
            n += 1
    import terms as tm
    for fn, f, ln in (('bmw', spec.bmw256, 32), ('bmw', spec.bmw256, rnd.randrange(56)), ('cube', spec.cubehash256, 32)):
        m = [rnd.randrange(256) for _ in range(ln)]
        a = bytes(t.a[0] for t in f([tm.C(x) for x in m])).hex()
        r = subprocess.run([binary, 'oracle', 'fn=%s' % fn, 'x=%s' % bytes(m).hex()], stdout=subprocess.PIPE, text=True).stdout
        b = re.search(r'^WANT (\S*)', r, re.M).group(1)
        if a != b:
            raise RuntimeError('specification and oracle disagree on ' + fn)
        n += 1
    return n


def known(pid):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(l.strip())
    except OSError:
        pass
    return out


TRUST = [
    'rustc front end (MIR construction), MIR semantics as implemented in mirv/engine.py, models of std functions in mirv/models.py',
    'term normaliser mirv/terms.py (exact integer arithmetic; rewriting rules cross-checked by random evaluation, tools/selftest.py)',
    'executor and library models mirv/engine.py, mirv/models.py (cross-checked against compiled code on the functions of modeltest/, tools/modeltest.py, thorough tier)',
    'z3 4.x (integer and bit-vector queries), Verus/z3 for lemmas/lemmas.rs',
    'specification mirv/spec.py (cross-checked every run against an independent Rust oracle and the published vectors)',
]
ASSUME = {
    'ext': 'BLAKE-256, Keccak-256, Skein-512-256, Groestl-256 of the dependency crates: assumed pure, total, 32-byte functions (their bodies are outside this repository)',
    'mem': 'allocation succeeds; sizes fit in memory (96*R*C <= 2^63-1, k <= 2^62, |pwd|+|salt| <= 2^63-1); usize is 64 bits',
    'stack': 'the call stack does not overflow',
}


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = TIER if TIER in ('quick', 'thorough') else 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-', dir=os.path.join(ROOT, '.build'))
    try:
        return check(pid, tier, t0, work)
    finally:
        for c in multiprocessing.active_children():
            c.kill()
        shutil.rmtree(work, ignore_errors=True)


def local_bodies(p):
    return {f.name: json.dumps([(b['statements'] and len(b['statements']), [x if isinstance(x, str) else list(x)[0] for x in [b['terminator']['kind']]]) for b in f.body['blocks']]) for f in p.fns.values() if f.local and f.body is not None}


def check(pid, tier, t0, work):
    say = lambda s: print('[%6.1fs] %s' % (time.time() - t0, s), flush=True)
    mf = extract.extract(REPO, work)
    prog = mir.Program(mf)
    say('extracted MIR of %d functions (%d of the crate)' % (len(prog.fns), len([f for f in prog.fns.values() if f.local])))
    todo = [(n, fn, mf, '') for n, fn in tasks(pid)]
    if pid in DEBUG_TOO and debug_sensitive():
        md = extract.extract(REPO, work, 'on')
        if local_bodies(mir.Program(md)) != local_bodies(prog):
            todo += [(n, fn, md, '[debug assertions]') for n, fn in tasks(pid)]
            say('the code differs with debug assertions on: both variants are checked')
    budget = 230 if tier == 'quick' else 900
    proof = Proof(todo, budget)
    proof.start()
    nlem, tlem = (0, 0.0)
    # harness while the proof runs
    found, cases, hbin, acc, herr = None, 0, None, [], None
    try:
        hbin, acc = harness.build(prog, REPO, work, say)
    except Exception as x:
        herr = str(x)
        say('no differential run: ' + herr[-1500:])
    if pid in USES_LEMMAS:
        nlem, tlem = lemmas()
        say('%d lemma obligations discharged by Verus' % nlem)
    norm = subprocess.Popen([sys.executable, os.path.join(ROOT, 'tools', 'selftest.py'), '3' if tier == 'quick' else '60', str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    model = None
    if tier != 'quick':
        model = subprocess.Popen([sys.executable, os.path.join(ROOT, 'tools', 'modeltest.py'), os.path.join(work, 'mt')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hpath, nnew = hints(prog, work, [])
    nval = 0
    if hbin:
        nval = validate(hbin)
        secs = 6 if tier == 'quick' else 240
        found, cases = run_search(hbin, pid, secs, hpath, work, SEED)
        say('differential run: %d cases, %s' % (cases, 'FAILING CASE' if found else 'none fails'))
    nout = norm.communicate()[0].strip()
    if norm.returncode:
        raise RuntimeError('normaliser self-test: ' + nout[-1500:])
    say(nout)
    mout = 'thorough tier only'
    if model is not None:
        mout = model.communicate()[0].strip()
        if model.returncode:
            raise RuntimeError('models against compiled code: ' + mout[-1500:])
        mout = mout.splitlines()[-1]
        say('models against compiled code: ' + mout)
    while not proof.ended:
        proof.join(1)
        if found and time.time() - t0 > 90 and not proof.ended:
            say('a failing case is known: not waiting for the remaining obligations')
            break
    res = [x for l in list(proof.res.values()) for x in l]
    sel = [x for x in res if x['selected']]
    ok = proof.ended and bool(sel) and all(x['ok'] for x in sel) and all(n + lb in proof.res for n, _, _, lb in todo)
    # findings of a proof that did not go through
    fails = [f for x in sel if not x['ok'] for f in x['fails']]
    for x in res:
        if not x['selected'] and not x['ok']:
            fails += ['(callee contract %s) %s' % (x['name'], f) for f in x['fails'][:3]]
    say('proof: %d obligations, %d discharged, %s' % (sum(x['obs'] for x in sel), sum(x['proved'] for x in sel), 'all contracts established' if ok else 'NOT established'))
    for f in fails[:12]:
        print('    ' + f[:400], flush=True)
    proof.stop()
    if not ok and not found and hbin:
        cex = [c for x in res for c in x['cex']]
        hpath, nnew = hints(prog, work, cex, 20)
        left = 820 - (time.time() - t0)
        secs = max(20, min(300 if tier == 'quick' else 1800, left - 60)) if tier == 'quick' else 1800
        say('looking for a failing input for %d s (%d parameter hints from the verifier, %d new constants)' % (secs, len(cex), nnew))
        found, n2 = run_search(hbin, pid, secs, hpath, work, SEED + 7)
        cases += n2
    violated = bool(found) or not ok
    wall = time.time() - t0
    evidence(pid, tier, res, sel, ok, found, cases, wall, nlem, tlem, proof, acc, nval, herr, violated, nout, mout)
    if not violated:
        for k in known(pid):
            print(k)
        say('%s holds' % pid)
        return 0
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    d = {'property': pid, 'title': TITLE.get(pid), 'failed_obligations': fails[:40], 'verifier': [{k: x[k] for k in ('name', 'ok', 'obs', 'proved', 'time', 'unsupported', 'cex')} for x in res], 'failing_case': found}
    h = hashlib.sha256(json.dumps(d['failing_case'] or d['failed_obligations'], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(ROOT, 'replay', '%s-%s.json' % (pid, h))
    json.dump(d, open(path, 'w'), indent=1)
    if found:
        print('failing case: %s\n  got  %s\n  want %s' % (found.get('case', '')[:600], found.get('got', '')[:300], found.get('want', '')[:300]))
        if ok:
            print('note: every obligation was discharged all the same; the failing case above contradicts the proof or one of its assumptions')
        print('replay with: python3 %s/check.py --replay %s' % (ROOT, path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    return 1


def incomplete(pid, why):
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    path = os.path.join(ROOT, 'replay', '%s-incomplete.json' % pid)
    json.dump({'property': pid, 'title': TITLE.get(pid), 'failed_obligations': ['the verification run did not complete: ' + why[-3000:]], 'verifier': [], 'failing_case': None}, open(path, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    return 1


def debug_sensitive():
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs') and re.search(r'debug_assert|cfg!?\s*\(', re.sub(r'#\[cfg\(test\)\]', '', open(os.path.join(d, f), errors='replace').read())):
                return True
    return False


def evidence(pid, tier, res, sel, ok, found, cases, wall, nlem, tlem, proof, acc, nval, herr, violated, nout, mout):
    how, kinds = {}, {}
    for x in sel:
        for k, n in x['how'].items():
            how[k] = how.get(k, 0) + n
        for k, n in x['kinds'].items():
            kinds[k] = kinds.get(k, 0) + n
    under = sorted({x['name'] for x in res})
    used = sorted({u for x in res for u in x['used']})
    inl = sorted({u for x in res for u in x['inlined'] if u.startswith('lyra2::')})
    std = sorted({u for x in res for u in x['inlined'] if not u.startswith('lyra2::')})
    assumed = sorted({u for x in res for u in x['assumed']})
    cov = {
        'obligations': sum(x['obs'] for x in sel) + nlem,
        'discharged': sum(x['proved'] for x in sel) + nlem,
        'checker_cmd': 'python3 /verif/check.py ' + pid,
        'trusted_base': TRUST,
        'functions_under_contract': under,
        'callee_contracts_used': used,
        'crate_functions_executed_inline': inl,
        'std_functions_executed_inline': len(std),
        'by_kind': kinds,
        'by_backend': how,
        'z3': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in proof.stats.items()},
        'verus_lemmas': {'discharged': nlem, 'seconds': round(tlem, 2), 'used': sorted({u for x in res for u in x['lemmas']})},
        'contracts': [{'name': x['name'], 'established': x['ok'], 'obligations': x['obs'], 'discharged': x['proved'], 'seconds': round(x['time'], 2)} for x in res],
        'normaliser_selftest': nout,
        'models_against_compiled_code': mout,
        'differential': {'note': 'guards the verifier and its assumptions; not counted as proof', 'cases': cases, 'seed': SEED, 'spec_vs_oracle_vectors': nval, 'private_entry_points': acc, 'error': herr and herr[-300:]},
    }
    a = [ASSUME['mem'], ASSUME['stack']]
    if pid in ('C03', 'C04', 'C05', 'C06', 'C07', 'C14'):
        a.append(ASSUME['ext'])
    a += ['assumed contract: ' + x for x in assumed]
    if pid == 'C14':
        a.append('functions of core, alloc and the digest crates whose MIR is not available do not keep state')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': a, 'wall_s': round(wall, 2), 'violations': 1 if violated else 0},
              open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)


def replay(path):
    d = json.load(open(path))
    f = d.get('failing_case')
    print('property %s: %s' % (d['property'], d['title']))
    for x in d['failed_obligations'][:20]:
        print('  ' + x[:500])
    if not f:
        print('no failing input is known; re-run the check to see whether the obligations still fail')
        return 1
    os.makedirs(os.path.join(ROOT, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(ROOT, '.build'))
    try:
        prog = mir.Program(extract.extract(REPO, work))
        b, _ = harness.build(prog, REPO, work)
        hp, _ = hints(prog, work, [])
        if f.get('history'):
            sd, n, o, pos, i = f['history']
            a = hist(b, sd, n, o, hp)
            c = hist(b, sd, n, 'one:%d' % i, hp)
            print('in the history:', [x for j, x in a if j == i], 'fresh process:', c)
            return 1 if any(x != c[0][1] for j, x in a if j == i) else 0
        outs = []
        for k in ('case', 'case2'):
            if k in f:
                print('CASE ' + f[k])
                try:
                    r = subprocess.run([b, 'run'] + f[k].split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                    print(r.stdout.rstrip() + ('' if r.returncode == 0 else '\nexit status %d' % r.returncode))
                    outs.append(r.stdout)
                except subprocess.TimeoutExpired:
                    print('does not return within 60 s')
                    outs.append('hang')
        g = [re.search(r'^GOT (\S*)', o, re.M) for o in outs]
        w = [re.search(r'^WANT (\S*)', o, re.M) for o in outs]
        if len(outs) == 2:
            n = min(len(x.group(1)) for x in g)
            bad = g[0].group(1)[:n] == g[1].group(1)[:n]
        else:
            bad = not g[0] or not w[0] or g[0].group(1) != w[0].group(1)
            if g[0] and w[0] and w[0].group(1) == 'panic' and g[0].group(1).startswith('panic'):
                bad = False
        print('violated' if bad else 'not reproduced on this tree')
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        # a check that cannot be completed has not established its property
        traceback.print_exc()
        rc = 2
        try:
            if len(sys.argv) > 1 and sys.argv[1] in TITLE and not isinstance(sys.exc_info()[1], KeyboardInterrupt):
                rc = incomplete(sys.argv[1], traceback.format_exc())
        except BaseException:
            traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)
