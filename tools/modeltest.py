"""Cross-check of the executor and its models of std against the compiled code.

modeltest/src/lib.rs holds small functions written with the std items the models describe. Each
is compiled and run natively on concrete inputs, and its MIR is executed by mirv with (a) the same
inputs as literals and (b) symbolic words, whose result terms are then evaluated at the inputs, and (c) a vector of symbolic
length and contents and a symbolic n (what needs a loop invariant is out of reach there and skipped).
Results have to agree, and a native panic has to be a failed obligation (and, with literals, the
other way round).  usage: modeltest.py WORKDIR [NAME...]
"""
import os, random, shutil, signal, subprocess, sys, json, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'mirv'))
sys.setrecursionlimit(20000)
import extract, mir, contracts, terms as tm, engine as E
from values import *

NS = (0, 1, 3, 5, 8)


def inputs(rd):
    M = (1 << 64) - 1
    return [list(range(1, 9)), [rd.getrandbits(64) for _ in range(8)], [rd.choice((0, 1, 2, 7, 255, 1 << 63, M, M - 1, rd.getrandbits(32))) for _ in range(8)],
            [rd.randrange(4) for _ in range(8)]]


def dump(work):
    e = extract.cargo_env()
    b = extract.driver()
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
    os.makedirs(work, exist_ok=True)
    stop = os.path.join(work, 'stop')
    open(stop, 'w').write('\n'.join(extract.STOP) + '\n')
    out = os.path.join(work, 'modeltest.json')
    src = os.path.join(work, 'modeltest')
    shutil.copytree(os.path.join(ROOT, 'modeltest'), src, dirs_exist_ok=True)
    n = dict(e, CARGO_TARGET_DIR=os.path.join(work, 'mt-native'))
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=src, env=n, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(r.stdout[-2000:])
    shutil.rmtree(os.path.join(work, 'mt-mir'), ignore_errors=True)
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', CARGO_TARGET_DIR=os.path.join(work, 'mt-mir'), RUSTC_WORKSPACE_WRAPPER=b, MIRDUMP_CRATE='modeltest', MIRDUMP_OUT=out, MIRDUMP_STOP=stop, MIRDUMP_DA='off')
    r = subprocess.run(['cargo', 'check', '--lib', '--offline'], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError(r.stdout[-2000:])
    return out, os.path.join(work, 'mt-native', 'debug', 'modeltest')


def native(exe, cases):
    r = subprocess.run([exe], input=''.join('%s %d %s\n' % (nm, n, ' '.join(map(str, v))) for nm, n, v in cases), stdout=subprocess.PIPE, text=True, timeout=60)
    out = []
    for l in r.stdout.splitlines():
        w = l.split()
        out.append(None if w[0] == 'panic' else [int(x) for x in w[1:]])
    assert len(out) == len(cases), (cases[0], r.returncode, len(out))
    return out


class Unknown(Exception):
    pass


def env(v, n=None):
    def f(t, args):
        if t.op == 'v' and t.a[0] == 'n' and n is not None:
            return n
        if t.op == 'v' and t.a[0] == 'L' and n is not None:
            return len(v)
        if t.op == 'av' and t.a[0] == 'in' and n is not None:
            return lambda i: v[i] if 0 <= i < len(v) else 0x5555
        if t.op == 'v' and t.a[0].startswith('in'):
            return v[int(t.a[0][2:])]
        raise Unknown(tm.show(t, 3))
    return f


def value(ver, r):
    if isinstance(r, Box):
        r = r.v
    l = ver.lv(r)
    if l is None and isinstance(r, Seq) and r.arr is not None:
        n = tm.cval(r.len) if hasattr(tm, 'cval') else (r.len.a[0] if r.len.op == 'c' else None)
        if n is not None:
            return [tm.select(r.arr, tm.C(i)) for i in range(n)]
    return l


def new():
    return {'functions': 0, 'agree': 0, 'panic_agree': 0, 'symlen_agree': 0, 'symlen_skipped': 0, 'unsupported': {}, 'undetermined': {}, 'mismatch': []}


def one(a):
    """all runs of one function"""
    nm, prog, exe, budget, seed = a[0], PROG[0], a[1], a[2], a[3]
    rd = random.Random('%s %s' % (seed, nm))
    stats = new()
    def late(*_):
        raise TimeoutError('%d s' % (3 * budget))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(3 * budget)
    try:
        runs(nm, prog, exe, budget, rd, stats)
    except (RecursionError, TimeoutError) as x:
        stats['unsupported'].setdefault(nm, 'gave up: %s %s' % (type(x).__name__, x))
    signal.alarm(0)
    if os.environ.get('MT_PROGRESS'):
        print('done', nm, file=sys.stderr, flush=True)
    return stats


PROG = []


def runs(nm, prog, exe, budget, rd, stats):
    stats['functions'] += 1
    for n in NS:
        vs = inputs(rd)
        nat = native(exe, [(nm, n, v) for v in vs])
        # literals
        for v, want in zip(vs, nat):
            ver = contracts.Verifier(prog)
            ver.deadline = time.time() + budget
            e = ver.engine()
            try:
                outs = ver.run(e, ver.fn('modeltest::t_' + nm), [Seq(items=[tm.C(x) for x in v]), tm.C(n)])
            except contracts.FAIL as x:
                stats['unsupported'].setdefault(nm, 'n=%d literal: %s' % (n, contracts.why(x)[:200]))
                return
            bad = [o for o in e.obs if not o.ok]
            if want is None:
                if bad or not outs:
                    stats['panic_agree'] += 1
                else:
                    stats['mismatch'].append('%s n=%d v=%s: the code panics, the executor does not' % (nm, n, v))
                continue
            if bad:
                stats['undetermined'].setdefault(nm, 'n=%d literal: obligation %s %s not discharged' % (n, bad[0].kind, bad[0].what))
                continue
            if len(outs) != 1:
                stats['undetermined'].setdefault(nm, 'n=%d literal: %d outcomes' % (n, len(outs)))
                continue
            l = value(ver, outs[0][2])
            if l is None or any(t.op != 'c' for t in l):
                stats['undetermined'].setdefault(nm, 'n=%d literal: result %r' % (n, outs[0][2]))
                continue
            if [t.a[0] for t in l] != want:
                stats['mismatch'].append('%s n=%d v=%s: code %s, executor %s' % (nm, n, v, want, [t.a[0] for t in l]))
            else:
                stats['agree'] += 1
        # symbols
        ver = contracts.Verifier(prog)
        ver.deadline = time.time() + budget
        e = ver.engine()
        try:
            outs = ver.run(e, ver.fn('modeltest::t_' + nm), [Seq(items=[contracts.u('in%d' % i) for i in range(8)]), tm.C(n)])
        except contracts.FAIL as x:
            stats['unsupported'].setdefault(nm, 'n=%d symbolic: %s' % (n, contracts.why(x)[:200]))
            return
        bad = [o for o in e.obs if not o.ok]
        for v, want in zip(vs, nat):
            try:
                hit = []
                for o in outs:
                    fs = list(o[1].facts)
                    if all(tm.evaluate(fs, env(v))) if fs else True:
                        l = value(ver, o[2])
                        if l is None:
                            raise Unknown('result %r' % (o[2],))
                        hit.append(list(tm.evaluate(l, env(v))))
                if want is None:
                    if bad or not outs:
                        stats['panic_agree'] += 1
                    else:
                        stats['mismatch'].append('%s n=%d v=%s: the code panics, the executor (symbolic) does not' % (nm, n, v))
                elif hit and all(h == want for h in hit):
                    stats['agree'] += 1
                elif not hit and bad:
                    stats['undetermined'].setdefault(nm, 'n=%d symbolic: obligation %s %s not discharged' % (n, bad[0].kind, bad[0].what))
                else:
                    stats['mismatch'].append('%s n=%d v=%s: code %s, executor (symbolic) %s' % (nm, n, v, want, hit))
            except Unknown as x:
                stats['undetermined'].setdefault(nm, 'n=%d symbolic: %s' % (n, str(x)[:150]))
    # symbolic lengths
    ver = contracts.Verifier(prog)
    ver.deadline = time.time() + budget
    e = ver.engine()
    N, L = tm.var('n', 0, 12), tm.var('L', 0, 12)
    try:
        outs = ver.run(e, ver.fn('modeltest::t_' + nm), [Seq(None, tm.avar('in', 0, (1 << 64) - 1), L, 0, (1 << 64) - 1), N])
    except contracts.FAIL as x:
        stats['symlen_skipped'] += 1
        return
    bad = [o for o in e.obs if not o.ok]
    cases = [(nm, n, v[:l]) for n in (0, 1, 2, 3, 5, 8, 11) for l in (0, 1, 2, 3, 4, 7, 8) for v in inputs(rd)[1:3]]
    for (_, n, v), want in zip(cases, native(exe, cases)):
        if want is None:
            if bad or not outs:
                stats['panic_agree'] += 1
            else:
                stats['mismatch'].append('%s n=%d v=%s: the code panics, the executor (symbolic length) does not' % (nm, n, v))
            continue
        try:
            hit = []
            for o in outs:
                fs = list(o[1].facts)
                if all(tm.evaluate(fs, env(v, n))) if fs else True:
                    r = o[2].v if isinstance(o[2], Box) else o[2]
                    if not isinstance(r, Seq):
                        raise Unknown('result %r' % (r,))
                    l = list(r.items) if r.items is not None else None
                    if l is None:
                        k, = tm.evaluate([r.len], env(v, n))
                        l = [tm.select(r.arr, tm.C(i)) for i in range(k)]
                    hit.append(list(tm.evaluate(l, env(v, n))))
            if hit and all(h == want for h in hit):
                stats['symlen_agree'] += 1
            elif not hit and bad:
                pass
            else:
                stats['mismatch'].append('%s n=%d v=%s: code %s, executor (symbolic length) %s' % (nm, n, v, want, hit))
        except Unknown as x:
            stats['undetermined'].setdefault(nm, 'symbolic length: %s' % str(x)[:150])


def main(work, names, budget=8):
    import multiprocessing
    f, exe = dump(work)
    PROG.append(mir.Program(f))
    fns = sorted(d.split('::t_')[1] for d in PROG[0].bydef if d.startswith('modeltest::t_') and d.count('::') == 1)
    tot = new()
    seed = os.environ.get('VERIF_SEED', '1')
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('MT_JOBS', '6'))) as pool:
        for s in pool.imap_unordered(one, [(nm, exe, budget, seed) for nm in fns if not names or nm in names], 1):
            for k, v in s.items():
                if isinstance(v, int):
                    tot[k] += v
                elif isinstance(v, list):
                    tot[k] += v
                else:
                    tot[k].update(v)
    return tot


if __name__ == '__main__':
    s = main(sys.argv[1], sys.argv[2:])
    for k in ('unsupported', 'undetermined'):
        for a, b in s[k].items():
            print(k, a, b)
    for m in s['mismatch']:
        print('MISMATCH', m)
    print(json.dumps({k: v if isinstance(v, int) else len(v) for k, v in s.items()}))
    sys.exit(1 if s['mismatch'] else 0)
