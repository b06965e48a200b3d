"""Contracts assumed for the standard library and the external digest crates.

Everything here is part of the trusted base and is listed in the evidence
("assumed").  A function that is neither modelled nor under contract is executed
from its own MIR body."""
import re
import terms as tm
from terms import T, C
from values import *

LITMAX = 4096           # sequences up to this literal length are kept as lists
ISIZE = (1 << 63) - 1


class Unsupported(Exception):
    pass


def _uns(msg):
    from engine import Unsupported as U
    raise U(msg)


PANICS = ('core::panicking::', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'std::option::expect_failed', 'std::option::unwrap_failed',
          'std::result::unwrap_failed', 'core::slice::index::slice_', 'std::slice::index::slice_', 'core::str::slice_error_fail',
          'std::alloc::handle_alloc_error', 'alloc::raw_vec::', 'std::process::abort', 'core::panicking', 'std::panicking::')


def is_panic(fn):
    return fn.dname.startswith(PANICS) or 'panic_const' in fn.dname or fn.dname.endswith(('::copy_from_slice_impl::len_mismatch_fail', '::len_mismatch_fail'))


# ---------------------------------------------------------------- helpers
def rng(eng, ty):
    r = eng.irange(ty)
    return r if r else (None, None)


def cont(r):
    """the container a slice reference points into"""
    return Ref(r.fid, r.local, r.proj)


def as_slice(eng, st, r):
    """normalise a reference (to array, Vec, slice, or a reference to one) to a slice Ref"""
    n = 0
    while isinstance(r, Ref) and r.len is None:
        v = eng.read(st, r)
        if isinstance(v, (Arr, Seq)):
            return Ref(r.fid, r.local, r.proj, tm.ZERO, eng.vlen(v))
        if isinstance(v, Ref):
            r = v
        elif isinstance(v, Box):
            r = Ref(r.fid, r.local, r.proj + (('box',),))
        else:
            _uns('not a sequence: %r' % (v,))
        n += 1
        if n > 8:
            _uns('reference chain')
    if not isinstance(r, Ref):
        _uns('not a slice reference: %r' % (r,))
    return r


def s_get(eng, st, r, i):
    return eng.read(st, eng.elem(r, i))


def s_list(eng, st, r):
    """elements of a slice of literal length"""
    if r.len.op != 'c' or r.len.a[0] > LITMAX:
        return None
    c = eng.read(st, cont(r))
    n = r.len.a[0]
    if isinstance(c, (Arr, Seq)) and c.items is not None and r.off.op == 'c':
        o = r.off.a[0]
        return list(c.items[o:o + n])
    return [eng.index(st, c, tm.add(r.off, C(i))) for i in range(n)]


def s_arr(eng, st, r):
    """array term whose index 0 is the first element of the slice"""
    c = eng.read(st, cont(r))
    if isinstance(c, Seq) and c.items is None:
        a = c.arr
    else:
        if not all(isinstance(x, T) for x in c.items):
            _uns('symbolic slice of aggregates')
        a = tm.larr(c.items)
    return tm.shift(a, r.off)


def seq_of(eng, st, r, ty=None):
    """owned copy of a slice"""
    r = as_slice(eng, st, r)
    c = eng.read(st, cont(r))
    lo, hi = (c.lo, c.hi) if isinstance(c, Seq) else (None, None)
    if ty is not None:
        lo, hi = rng(eng, ty)
    l = s_list(eng, st, r)
    if l is not None:
        return Seq(l, lo=lo, hi=hi)
    return Seq(None, s_arr(eng, st, r), r.len, lo, hi)


def v_arr(v):
    """array term of a sequence value"""
    if isinstance(v, Seq) and v.items is None:
        return v.arr
    if not all(isinstance(x, T) for x in v.items):
        _uns('symbolic sequence of aggregates')
    return tm.larr(v.items)


def concat(eng, a, b):
    """sequence value a ++ b (values)"""
    lo, hi = (a.lo, a.hi) if isinstance(a, Seq) else (None, None)
    if a.items is not None and b.items is not None:
        if len(a.items) + len(b.items) <= LITMAX * 4:
            return Seq(tuple(a.items) + tuple(b.items), lo=lo, hi=hi)
    la, lb = eng.vlen(a), eng.vlen(b)
    if la is tm.ZERO and isinstance(b, Seq):
        return Seq(b.items, b.arr, b.len, lo, hi)
    n = tm.add(la, lb)
    if b.items is not None:
        arr = v_arr(a)
        if not all(isinstance(x, T) for x in b.items):
            _uns('symbolic sequence of aggregates')
        for i, x in enumerate(b.items):
            arr = tm.store(arr, tm.add(la, C(i)), x)
        return Seq(None, arr, n, lo, hi)
    return Seq(None, tm.copy(v_arr(a), la, b.arr, tm.ZERO, lb), n, lo, hi)


def s_write(eng, st, r, src):
    """overwrite slice r with the elements of src (a sequence value of the same length)"""
    c = eng.read(st, cont(r))
    n = r.len
    if src.items is not None and n.op == 'c':
        k = n.a[0]
        if isinstance(c, (Arr, Seq)) and c.items is not None and r.off.op == 'c':
            o = r.off.a[0]
            it = c.items[:o] + tuple(src.items[:k]) + c.items[o + k:]
            eng.write(st, cont(r), Arr(it) if isinstance(c, Arr) else Seq(it, lo=c.lo, hi=c.hi))
            return
        for i in range(k):
            eng.write(st, eng.elem(r, C(i)), src.items[i])
        return
    if isinstance(c, Arr):
        _uns('symbolic-length write into an array')
    cl = eng.vlen(c)
    if r.off is tm.ZERO and (cl is n or eng.prove(st, tm.eq(cl, n))):
        new = v_arr(src)
    else:
        new = tm.copy(v_arr(c), r.off, v_arr(src), tm.ZERO, n)
    eng.write(st, cont(r), Seq(None, new, cl, c.lo, c.hi))


def bytes_of(x, n, be=False):
    l = [tm.wrap(8, tm.shr(x, 8 * i)) for i in range(n)]
    return l[::-1] if be else l


def merge(cond, a, b):
    """value that is a if cond else b (same shape)"""
    if cond is tm.TT or a is b:
        return a
    if cond is tm.FF:
        return b
    if shape(a) != shape(b):
        _uns('merge of different shapes')
    la, lb = dict(leaves(a)), dict(leaves(b))
    m = {}
    for k in la:
        if la[k] is not lb[k]:
            m[k] = tm.ite(cond, la[k], lb[k])
    return rebuild(a, m)


def size_ob(eng, st, n, ty, what='allocation size does not overflow'):
    sz = eng.p.types[ty]['size'] or 0
    if sz == 0:
        return True
    return eng.require(st, 'panic', what, tm.le(tm.scale(n, sz), C(ISIZE)))


def mkrange_ref(eng, st, r, lo, hi, what):
    """&r[lo..hi] with the bounds obligations"""
    if not eng.require(st, 'panic', 'slice start is not after its end' + what, tm.le(lo, hi)):
        return []
    if not eng.require(st, 'panic', 'slice end in range' + what, tm.le(hi, r.len)):
        return []
    return Ref(r.fid, r.local, r.proj, tm.add(r.off, lo), tm.sub(hi, lo))


def do_index(eng, st, r, ix, rangename):
    """r: slice Ref, ix: index value"""
    if isinstance(ix, T):
        if not eng.require(st, 'panic', 'index in bounds', tm.lt(ix, r.len)):
            return []
        return eng.elem(r, ix)
    n = rangename
    if 'RangeFull' in n:
        return r
    if 'RangeToInclusive' in n:
        return mkrange_ref(eng, st, r, tm.ZERO, tm.add(ix.f[0], tm.ONE), '')
    if 'RangeTo' in n:
        return mkrange_ref(eng, st, r, tm.ZERO, ix.f[0], '')
    if 'RangeFrom' in n:
        return mkrange_ref(eng, st, r, ix.f[0], r.len, '')
    if isinstance(ix, Iter) and ix.kind == 'rinc':
        return mkrange_ref(eng, st, r, ix.f[0], tm.add(ix.f[1], tm.ONE), '')
    if 'Range' in n:
        return mkrange_ref(eng, st, r, ix.f[0], ix.f[1], '')
    _uns('index by ' + n)


# ---------------------------------------------------------------- iterators
def split_opt(eng, st, o):
    """states in which the option is literally Some / None"""
    if o.tag.op == 'c':
        return [(st, o)]
    c = tm.eq(o.tag, tm.ONE)
    out = []
    for cond, val in ((c, 1), (tm.not_(c), 0)):
        if eng.pr.sat(st.facts, cond) is False:
            continue
        s = st.clone()
        s.fact(cond)
        out.append((s, Enum(C(val), o.pay, o.name)))
    return out


def adv(cond, a, b):
    return tm.ite(cond, a, b)


def whole(x, n):
    """x is a multiple of n for all values of its atoms"""
    if x.op == 'c':
        return x.a[0] % n == 0
    if x.op == 'p':
        return x.a[0] % n == 0 and all(k % n == 0 for m, k in x.a[1])
    return n == 1


def it_len(v):
    """number of items left in an iterator of exact size, or None"""
    if isinstance(v, Iter):
        if v.kind in ('sit', 'vit'):
            return tm.sub(v.f[2], v.f[1])
        if v.kind in ('chx', 'chb') and v.f[3].op == 'c':
            return tm.div(tm.sub(v.f[2], v.f[1]), v.f[3].a[0])
        if v.kind == 'ch' and v.f[3].op == 'c' and whole(tm.sub(v.f[2], v.f[1]), v.f[3].a[0]):
            return tm.div(tm.sub(v.f[2], v.f[1]), v.f[3].a[0])
        return None
    if isinstance(v, Agg):
        nm = v.name
        if nm.endswith('ops::Range') and tm.sub(v.f[1], v.f[0]).op == 'c':
            return C(max(0, tm.sub(v.f[1], v.f[0]).a[0]))
        if nm.endswith(('iter::Copied', 'iter::Cloned', 'iter::Map', 'iter::Enumerate', 'iter::Rev')):
            return it_len(v.f[0])
        if nm.endswith(('iter::Take', 'iter::Zip')):
            a = it_len(v.f[0])
            b = v.f[1] if nm.endswith('iter::Take') else it_len(v.f[1])
            if a is None or b is None:
                return None
            return tm.ite(tm.le(a, b), a, b)
    return None


def it_trim(v, n):
    """the first n items of an iterator of exact size, or None"""
    if isinstance(v, Iter) and v.kind in ('sit', 'vit'):
        return Iter(v.kind, (v.f[0], v.f[1], tm.add(v.f[1], n)))
    if isinstance(v, Iter) and v.kind in ('chx', 'chb', 'ch'):
        return Iter(v.kind, (v.f[0], v.f[1], tm.add(v.f[1], tm.mul(n, v.f[3])), v.f[3]))
    if isinstance(v, Agg):
        nm = v.name
        if nm.endswith('ops::Range'):
            return Agg((v.f[0], tm.add(v.f[0], n)), nm)
        if nm.endswith(('iter::Copied', 'iter::Cloned', 'iter::Map', 'iter::Enumerate')):
            w = it_trim(v.f[0], n)
            return None if w is None else Agg((w,) + tuple(v.f[1:]), nm)
        if nm.endswith('iter::Take'):
            return Agg((v.f[0], n), nm)
        if nm.endswith('iter::Zip'):
            x, y = it_trim(v.f[0], n), it_trim(v.f[1], n)
            return None if x is None or y is None else Agg((x, y) + tuple(v.f[2:]), nm)
    return None


def it_next(eng, st, v, back=False):
    """list of (state, advanced iterator, Option)"""
    if isinstance(v, Iter):
        k, f = v.kind, v.f
        if k == 'rinc':
            a, b = f
            c = tm.le(a, b)
            if back:
                return [(st, Iter(k, (a, tm.ite(c, tm.sub(b, tm.ONE), b))), opt(c, b))]
            return [(st, Iter(k, (tm.ite(c, tm.add(a, tm.ONE), a), b)), opt(c, a))]
        if k == 'sit':
            r, a, b = f
            c = tm.lt(a, b)
            if back:
                i = tm.sub(b, tm.ONE)
                return [(st, Iter(k, (r, a, tm.ite(c, i, b))), opt(c, Ref(r.fid, r.local, r.proj + (('i', i),))))]
            return [(st, Iter(k, (r, tm.ite(c, tm.add(a, tm.ONE), a), b)), opt(c, Ref(r.fid, r.local, r.proj + (('i', a),))))]
        if k == 'vit':
            s, a, b = f
            c = tm.lt(a, b)
            if c is tm.FF:
                return [(st, v, none())]
            i = tm.sub(b, tm.ONE) if back else a
            x = eng.index(st, s, i)
            n = (s, a, tm.ite(c, i, b)) if back else (s, tm.ite(c, tm.add(a, tm.ONE), a), b)
            return [(st, Iter(k, n), opt(c, x))]
        if k in ('chx', 'chb', 'ch') and back:
            r, a, b, n = f
            ln = it_len(v)
            if ln is None:
                _uns('next_back on Chunks')
            c = tm.gt(ln, tm.ZERO)
            if c is tm.FF:
                return [(st, v, none())]
            e = tm.add(a, tm.mul(tm.sub(ln, tm.ONE), n))
            return [(st, Iter('chb' if k == 'chx' and not whole(tm.sub(b, a), n.a[0]) else k, (r, a, tm.ite(c, e, b), n)), opt(c, Ref(r.fid, r.local, r.proj, e, n)))]
        if k in ('chx', 'chb') and not back:
            r, a, b, n = f
            c = tm.le(tm.add(a, n), b)
            return [(st, Iter(k, (r, tm.ite(c, tm.add(a, n), a), b, n)), opt(c, Ref(r.fid, r.local, r.proj, a, n)))]
        if k == 'win':
            r, a, b, n = f
            c = tm.le(tm.add(a, n), b)
            if back:
                return [(st, Iter(k, (r, a, tm.ite(c, tm.sub(b, tm.ONE), b), n)), opt(c, Ref(r.fid, r.local, r.proj, tm.sub(b, n), n)))]
            return [(st, Iter(k, (r, tm.ite(c, tm.add(a, tm.ONE), a), b, n)), opt(c, Ref(r.fid, r.local, r.proj, a, n)))]
        if k == 'ch' and not back:
            r, a, b, n = f
            c = tm.lt(a, b)
            rest = tm.sub(b, a)
            full = tm.le(n, rest)
            d = full if full in (tm.TT, tm.FF) else eng.decide_u(st, full, c)
            ln = n if d is tm.TT else rest if d is tm.FF else tm.ite(full, n, rest)
            # the position may pass the end by less than n: then the iterator is spent
            return [(st, Iter(k, (r, tm.ite(c, tm.add(a, n), a), b, n)), opt(c, Ref(r.fid, r.local, r.proj, a, ln)))]
        if k == 'rep':
            return [(st, v, some(f[0]))]
        if k == 'stepr':         # (a..b).step_by(n); exact, a may pass b when spent
            a, b, n = f
            c = tm.lt(a, b)
            if back:
                _uns('next_back on StepBy')
            return [(st, Iter(k, (tm.ite(c, tm.add(a, n), a), b, n)), opt(c, a))]
        _uns('iterator ' + k)
    if isinstance(v, Ref):       # &mut I
        out = []
        for s, n, o in it_next(eng, st, eng.read(st, v), back):
            eng.write(s, v, n)
            out.append((s, v, o))
        return out
    if not isinstance(v, Agg):
        _uns('next on %r' % (v,))
    nm = v.name
    if nm.endswith('ops::Range'):
        a, b = v.f
        c = tm.lt(a, b)
        if back:
            i = tm.sub(b, tm.ONE)
            return [(st, Agg((a, tm.ite(c, i, b)), nm), opt(c, i))]
        return [(st, Agg((tm.ite(c, tm.add(a, tm.ONE), a), b), nm), opt(c, a))]
    if nm.endswith('ops::RangeFrom') and not back:
        return [(st, Agg((tm.add(v.f[0], tm.ONE),), nm), some(v.f[0]))]
    if nm.endswith(('iter::Once', 'option::IntoIter', 'option::Item')) and len(v.f) == 1:
        if isinstance(v.f[0], Enum):
            return [(st, Agg((none(v.f[0].name),), nm), v.f[0])]
        return [(s, Agg((n,), nm), o) for s, n, o in it_next(eng, st, v.f[0], back)]
    if nm.endswith('iter::Repeat'):
        return [(st, v, some(v.f[0]))]
    if nm.endswith('iter::Rev'):
        return [(s, Agg((n,), nm), o) for s, n, o in it_next(eng, st, v.f[0], not back)]
    if back and nm.endswith('iter::Take'):
        ln = it_len(v.f[0])
        if ln is None:
            _uns('next_back on Take')
        c = tm.le(v.f[1], ln)
        d = c if c in (tm.TT, tm.FF) else eng.decide_u(st, c, tm.TT)
        m = v.f[1] if d is tm.TT else ln if d is tm.FF else tm.ite(c, v.f[1], ln)
        w = it_trim(v.f[0], m)
        if w is None:
            _uns('next_back on Take')
        g = tm.gt(m, tm.ZERO)
        return [(s, Agg((n, tm.ite(g, tm.sub(m, tm.ONE), m)), nm), o) for s, n, o in it_next(eng, st, w, True)]
    if back and nm.endswith('iter::Enumerate'):
        ln = it_len(v.f[0])
        if ln is None:
            _uns('next_back on Enumerate')
        i = tm.sub(tm.add(v.f[1], ln), tm.ONE)
        out = []
        for s, n, o in it_next(eng, st, v.f[0], True):
            pay = {0: ()}
            if 1 in o.pay:
                pay[1] = (Agg((i, o.pay[1][0])),)
            out.append((s, Agg((n, v.f[1]), nm), Enum(o.tag, pay, o.name)))
        return out
    if back and nm.endswith('iter::Zip'):
        a, b = it_len(v.f[0]), it_len(v.f[1])
        if a is None or b is None:
            _uns('next_back on Zip')
        c = tm.le(a, b)
        d = c if c in (tm.TT, tm.FF) else eng.decide_u(st, c, tm.TT)
        m = a if d is tm.TT else b if d is tm.FF else tm.ite(c, a, b)
        x, y = it_trim(v.f[0], m), it_trim(v.f[1], m)
        if x is None or y is None:
            _uns('next_back on Zip')
        out = []
        for s, n, o in it_next(eng, st, x, True):
            for s2, n2, o2 in it_next(eng, s, y, True):
                if o.tag is tm.ZERO or o2.tag is tm.ZERO:
                    out.append((s2, Agg((n, n2) + v.f[2:], nm), none()))
                else:
                    out.append((s2, Agg((n, n2) + v.f[2:], nm), opt(tm.eq(o.tag, tm.ONE), Agg((o.pay[1][0], o2.pay[1][0])))))
        return out
    if nm.endswith('iter::Enumerate') and not back:
        out = []
        for s, n, o in it_next(eng, st, v.f[0]):
            c = tm.eq(o.tag, tm.ONE)
            pay = {0: ()}
            if 1 in o.pay:
                pay[1] = (Agg((v.f[1], o.pay[1][0])),)
            out.append((s, Agg((n, tm.ite(c, tm.add(v.f[1], tm.ONE), v.f[1])), nm), Enum(o.tag, pay, o.name)))
        return out
    if nm.endswith(('iter::Copied', 'iter::Cloned')):
        out = []
        for s, n, o in it_next(eng, st, v.f[0], back):
            if 1 in o.pay and o.tag is not tm.ZERO:
                o = Enum(o.tag, {0: (), 1: (eng.read(s, o.pay[1][0]),)}, o.name)
            out.append((s, Agg((n,), nm), o))
        return out
    if nm.endswith('iter::Zip') and not back:
        out = []
        for s, n, o in it_next(eng, st, v.f[0]):
            if o.tag is tm.ZERO:
                out.append((s, Agg((n,) + v.f[1:], nm), none()))
                continue
            ca = tm.eq(o.tag, tm.ONE)
            for s2, n2, o2 in it_next(eng, s, v.f[1]):
                cb = tm.eq(o2.tag, tm.ONE)
                if cb is tm.TT and ca is not tm.TT:
                    # a literal side: try to settle the other one
                    ca = eng.decide_u(s2, ca, tm.TT) or ca
                elif ca is tm.TT and cb is not tm.TT and cb is not tm.FF:
                    cb = eng.decide_u(s2, cb, tm.TT) or cb
                nb = merge(ca, n2, v.f[1])
                if o2.tag is tm.ZERO:
                    out.append((s2, Agg((n, nb) + v.f[2:], nm), none()))
                    continue
                out.append((s2, Agg((n, nb) + v.f[2:], nm), opt(tm.andb(ca, cb), Agg((o.pay[1][0], o2.pay[1][0])))))
        return out
    if nm.endswith('iter::Take') and not back:
        c = tm.gt(v.f[1], tm.ZERO)
        if c is tm.FF:
            return [(st, v, none())]
        out = []
        for s, n, o in it_next(eng, st, v.f[0]):
            n = merge(c, n, v.f[0])
            out.append((s, Agg((n, tm.ite(c, tm.sub(v.f[1], tm.ONE), v.f[1])), nm),
                        none() if o.tag is tm.ZERO else opt(tm.andb(c, tm.eq(o.tag, tm.ONE)), o.pay[1][0])))
        return out
    if nm.endswith('iter::Map'):
        out = []
        for s, n, o in it_next(eng, st, v.f[0], back):
            for s2, o2 in split_opt(eng, s, o):
                if o2.tag is tm.ZERO:
                    out.append((s2, Agg((n, v.f[1]), nm), none()))
                    continue
                for s3, cl, x in call_closure(eng, s2, v.f[1], [o2.pay[1][0]]):
                    out.append((s3, Agg((n, cl), nm), some(x)))
        return out
    if nm.endswith('iter::FromFn') and not back:
        return [(s, Agg((cl,), nm), o) for s, cl, o in call_closure(eng, st, v.f[0], [])]
    if nm.endswith('iter::Successors') and not back:
        out = []
        for s, o in split_opt(eng, st, v.f[0]):
            if o.tag is tm.ZERO:
                out.append((s, Agg((o, v.f[1]), nm), o))
                continue
            s.frames[s.stack[-1].fid]['succ'] = o.pay[1][0]
            for s2, cl, nx in call_closure(eng, s, v.f[1], [Ref(s.stack[-1].fid, 'succ')]):
                s2.frames[s2.stack[-1].fid].pop('succ', None)
                out.append((s2, Agg((nx, cl), nm), o))
        return out
    if nm.endswith('iter::Filter') and not back:
        cur = [(st, v)]
        out = []
        for _ in range(LITMAX):
            nxt = []
            for s, w in cur:
                for s1, n, o in it_next(eng, s, w.f[0]):
                    if o.tag.op != 'c':
                        _uns('symbolic filter')
                    if o.tag is tm.ZERO:
                        out.append((s1, Agg((n, w.f[1]), nm), none()))
                        continue
                    fr = s1.frames[s1.stack[-1].fid]
                    fr['flt'] = o.pay[1][0]
                    for s2, cl, x in call_closure(eng, s1, w.f[1], [Ref(s1.stack[-1].fid, 'flt')]):
                        if x is tm.TT:
                            out.append((s2, Agg((n, cl), nm), o))
                        elif x is tm.FF:
                            nxt.append((s2, Agg((n, cl), nm)))
                        else:
                            _uns('symbolic filter')
            cur = nxt
            if not cur:
                return out
        _uns('filter')
    if nm.endswith('iter::Skip') and not back:
        n = v.f[1]
        if n.op != 'c':
            _uns('symbolic skip')
        cur = [(st, v.f[0], None)]
        for _ in range(n.a[0]):
            cur = [y for s, w, _o in cur for y in it_next(eng, s, w)]
        out = []
        for s, w, _o in cur:
            for s2, w2, o in it_next(eng, s, w):
                out.append((s2, Agg((w2, tm.ZERO), nm), o))
        return out
    if nm.endswith('iter::StepBy') and not back:
        # fields: iter, step_minus_one, first_take
        inner, sm1, first = v.f
        if first.op not in ('tt', 'ff') or sm1.op != 'c':
            _uns('symbolic StepBy')
        k = 0 if first is tm.TT else sm1.a[0]
        cur = [(st, inner, None)]
        for _ in range(k):
            cur = [y for s, w, _o in cur for y in it_next(eng, s, w)]
        return [(s2, Agg((w2, sm1, tm.FF), nm), o) for s, w, _o in cur for s2, w2, o in it_next(eng, s, w)]
    if nm.endswith('iter::Chain') and not back:
        a, b = v.f
        if isinstance(a, Enum) and a.tag is tm.ONE:
            out = []
            for s, n, o in it_next(eng, st, a.pay[1][0]):
                for s2, o2 in split_opt(eng, s, o):
                    if o2.tag is tm.ONE:
                        out.append((s2, Agg((some(n), b), nm), o2))
                    else:
                        out += it_next(eng, s2, Agg((none(), b), nm))
            return out
        if isinstance(b, Enum) and b.tag is tm.ONE:
            return [(s, Agg((none(), some(n)), nm), o) for s, n, o in it_next(eng, st, b.pay[1][0])]
        return [(st, v, none())]
    if nm.endswith(('iter::TakeWhile', 'iter::SkipWhile')) and not back:
        it, flag, cl = v.f
        take = nm.endswith('TakeWhile')
        if flag.op not in ('tt', 'ff'):
            _uns('symbolic TakeWhile')
        if flag is tm.TT:
            if take:
                return [(st, v, none())]
            return [(s, Agg((n, flag, cl), nm), o) for s, n, o in it_next(eng, st, it)]
        out = []
        cur = [(st, it, cl)]
        for _ in range(LITMAX):
            nxt = []
            for s, w, c in cur:
                for s1, n, o in it_next(eng, s, w):
                    for s2, o2 in split_opt(eng, s1, o):
                        if o2.tag is tm.ZERO:
                            out.append((s2, Agg((n, tm.FF, c), nm), none()))
                            continue
                        for s3, c3, hit in test_closure(eng, s2, c, o2.pay[1][0]):
                            if take:
                                out.append((s3, Agg((n, tm.FF, c3), nm), o2) if hit else (s3, Agg((n, tm.TT, c3), nm), none()))
                            elif hit:
                                nxt.append((s3, n, c3))
                            else:
                                out.append((s3, Agg((n, tm.TT, c3), nm), o2))
            cur = nxt
            if not cur:
                return out
        _uns('SkipWhile')
    if nm.endswith(('iter::FlatMap', 'iter::Flatten')) and not back:
        inn = v.f[0]
        fuse, front, rear = inn.f[0], inn.f[1], inn.f[2]
        out = []
        cur = [(st, fuse, front)]
        mk = lambda fu, fr: Agg((Agg((fu, fr, rear), inn.name),), nm)
        for _ in range(LITMAX):
            nxt = []
            for s, fu, fr in cur:
                if fr.tag is tm.ONE:
                    for s1, n, o in it_next(eng, s, fr.pay[1][0]):
                        for s2, o2 in split_opt(eng, s1, o):
                            if o2.tag is tm.ONE:
                                out.append((s2, mk(fu, some(n)), o2))
                            else:
                                nxt.append((s2, fu, none()))
                    continue
                if fu.f[0].tag is tm.ZERO:
                    out.append((s, mk(fu, fr), none()))
                    continue
                for s1, n, o in it_next(eng, s, fu.f[0].pay[1][0]):
                    for s2, o2 in split_opt(eng, s1, o):
                        if o2.tag is tm.ZERO:
                            out.append((s2, mk(Agg((none(),), fu.name), fr), none()))
                        else:
                            nxt.append((s2, Agg((some(n),), fu.name), some(m_into_iter(eng, s2, None, [o2.pay[1][0]], None))))
            cur = nxt
            if not cur:
                return out
        _uns('FlatMap')
    if nm.endswith('iter::Fuse') and isinstance(v.f[0], Enum) and v.f[0].tag.op == 'c':
        if v.f[0].tag is tm.ZERO:
            return [(st, v, none())]
        return [(s2, Agg((some(n) if o2.tag is tm.ONE else none(),), nm), o2) for s, n, o in it_next(eng, st, v.f[0].pay[1][0], back) for s2, o2 in split_opt(eng, s, o)]
    _uns('next on ' + nm)


def test_closure(eng, st, cl, x, byref=True):
    """predicate closure on item x: [(state, closure, True/False)], forked where the answer is symbolic"""
    fr = st.frames[st.stack[-1].fid]
    fid = st.stack[-1].fid
    key = ('item', eng.nfid, len(st.stack))
    if byref:
        fr[key] = x
    out = []
    for s, c, r in call_closure(eng, st, cl, [Ref(fid, key) if byref else x]):
        if byref:
            s.frames[fid].pop(key, None)
        for val, cond in ((True, r), (False, tm.not_(r))):
            if cond is tm.FF or cond is not tm.TT and eng.pr.sat(s.facts, cond) is False:
                continue
            s2 = s.clone()
            s2.fact(cond)
            out.append((s2, c, val))
    return out


def same_mem(s0, s1):
    for f, d in s0.frames.items():
        e = s1.frames.get(f)
        if e is None:
            return False
        for k, v in d.items():
            if e.get(k) is not v:
                return False
    return True


def spent(eng, s, r):
    if isinstance(r, Ref):
        eng.write(s, r, Opaque('iterator after a search', None))


def m_search(mode):
    """any, all, position: one result term, the predicate evaluated under "not found so far" """
    def f(eng, st, fn, args, dty):
        it = eng.read(st, args[0]) if isinstance(args[0], Ref) else args[0]
        res = []
        for s, l in drain(eng, st, it):
            found = tm.FF
            pos = tm.ZERO
            cur = s
            done = False
            facts = s.facts
            for i, x in enumerate(l):
                q = cur.clone()
                if found is not tm.FF:
                    q.fact(tm.not_(found))
                rs = call_closure(eng, q, args[1], [x])
                if not rs:
                    # the predicate panics (an obligation has been recorded): only earlier hits go on
                    cur = cur.clone()
                    cur.fact(found)
                    done = True
                    break
                if len(rs) != 1 or not same_mem(cur, rs[0][0]):
                    _uns('predicate with effects or branches')
                r = rs[0][2]
                if mode == 'all':
                    r = tm.not_(r)
                pos = tm.ite(found, pos, C(i)) if found is not tm.FF else C(i)
                found = tm.orb(found, r)
                if found is tm.TT:
                    break
            spent(eng, cur, args[0])
            if mode == 'position':
                res.append((cur, none() if found is tm.FF else opt(found, pos)))
            else:
                res.append((cur, found if mode == 'any' else tm.not_(found)))
        return res
    return f


def m_find(eng, st, fn, args, dty):
    it = eng.read(st, args[0]) if isinstance(args[0], Ref) else args[0]
    out = []
    for s, l in drain(eng, st, it):
        cur = [(s, args[1])]
        for x in l:
            nxt = []
            for s2, c in cur:
                for s3, c3, hit in test_closure(eng, s2, c, x):
                    if hit:
                        spent(eng, s3, args[0])
                        out.append((s3, some(x)))
                    else:
                        nxt.append((s3, c3))
            cur = nxt
        for s2, c in cur:
            spent(eng, s2, args[0])
            out.append((s2, none()))
    return out


def flat_slice(eng, st, v):
    """slice reference with the same elements as the iterator v (plain copies of a slice), or None"""
    if isinstance(v, Iter) and v.kind == 'sit':
        r, a, b = v.f
        return Ref(r.fid, r.local, r.proj, a, tm.sub(b, a))
    if isinstance(v, Agg):
        if v.name.endswith(('iter::Copied', 'iter::Cloned')):
            return flat_slice(eng, st, v.f[0])
        if v.name.endswith('iter::Take'):
            r = flat_slice(eng, st, v.f[0])
            if r is None:
                return None
            c = tm.le(v.f[1], r.len)
            d = c if c in (tm.TT, tm.FF) else eng.decide_u(st, c, tm.TT)
            n = v.f[1] if d is tm.TT else r.len if d is tm.FF else tm.ite(c, v.f[1], r.len)
            return Ref(r.fid, r.local, r.proj, r.off, n)
        if v.name.endswith('iter::Skip'):
            r = flat_slice(eng, st, v.f[0])
            if r is None:
                return None
            c = tm.le(v.f[1], r.len)
            d = c if c in (tm.TT, tm.FF) else eng.decide_u(st, c, tm.TT)
            n = v.f[1] if d is tm.TT else r.len if d is tm.FF else tm.ite(c, v.f[1], r.len)
            return Ref(r.fid, r.local, r.proj, tm.add(r.off, n), tm.sub(r.len, n))
    return None


def flat_seq(eng, st, v, deref=False):
    """sequence value of an iterator that copies elements (symbolic length), or None"""
    if isinstance(v, Iter) and v.kind == 'vit':
        s, a, b = v.f
        if a is tm.ZERO and isinstance(s, Seq) and b is eng.vlen(s):
            return s
        return None
    if isinstance(v, Iter) and v.kind == 'sit' and not deref:
        return None
    if isinstance(v, Agg) and v.name.endswith('iter::Take') and isinstance(v.f[0], Iter) and v.f[0].kind == 'rep' and isinstance(v.f[0].f[0], T):
        return Seq(None, tm.carr(v.f[0].f[0]), v.f[1])
    if isinstance(v, Agg) and v.name.endswith('iter::Take') and isinstance(v.f[0], Iter) and v.f[0].kind == 'sit' and not deref:
        return None
    if isinstance(v, Agg) and v.name.endswith('iter::Take') and flat_slice(eng, st, v) is None:
        q = flat_seq(eng, st, v.f[0], deref)
        if q is None or q.arr is None:
            return None
        c = tm.le(v.f[1], q.len)
        d = c if c in (tm.TT, tm.FF) else eng.decide_u(st, c, tm.TT)
        n = v.f[1] if d is tm.TT else q.len if d is tm.FF else tm.ite(c, v.f[1], q.len)
        return Seq(None, q.arr, n, q.lo, q.hi)
    if isinstance(v, Agg) and v.name.endswith('iter::Chain'):
        a, b = v.f
        if isinstance(a, Enum) and isinstance(b, Enum) and a.tag is tm.ONE and b.tag is tm.ONE:
            x = flat_seq(eng, st, a.pay[1][0], deref)
            y = flat_seq(eng, st, b.pay[1][0], deref)
            return None if x is None or y is None else concat(eng, x, y)
        return None
    r = flat_slice(eng, st, v)
    return None if r is None else seq_of(eng, st, r)


def call_closure(eng, st, cl, args):
    """list of (state, closure value afterwards, result)"""
    if isinstance(cl, FnItem):
        fn = eng.item_fn(cl.ty)
        res = eng.dispatch(st, fn, list(args), eng.ret_ty(fn))
        if res is None:
            res = eng.call_fn(st, fn, list(args))
        return [(s, cl, v) for s, v in res]
    if not isinstance(cl, Agg):
        _uns('closure %r' % (cl,))
    fn = eng.closure_fn(cl.name)
    eng.p.prep(fn)
    self_ty = eng.p.types[fn.localty[1]]
    fid = st.stack[-1].fid
    key = ('cl', eng.nfid, len(st.stack))
    st.frames[fid][key] = cl
    a0 = Ref(fid, key) if self_ty['k'] in ('ref', 'ptr') else cl
    out = []
    for s, v in eng.call_fn(st, fn, [a0] + list(args)):
        c2 = s.frames[fid].pop(key)
        out.append((s, c2, v))
    return out


def m_stepby_new(eng, st, fn, args, dty):
    it, n = args
    if not eng.require(st, 'panic', 'step is not zero', tm.ne(n, tm.ZERO)):
        return []
    if isinstance(it, Agg) and it.name.endswith('ops::Range'):
        return Iter('stepr', (it.f[0], it.f[1], n))
    return Agg((it, tm.sub(n, tm.ONE), tm.TT), 'std::iter::StepBy')


def m_fmt(eng, st, fn, args, dty):
    return Opaque('fmt')


def m_next(eng, st, fn, args, dty, back=False):
    r = args[0]
    v = eng.read(st, r)
    out = []
    if isinstance(v, Agg) and v.name.endswith(('iter::Peekable', 'iter::Scan', 'iter::Repeat', 'iter::RepeatN', 'iter::SkipWhile', 'iter::MapWhile', 'iter::Inspect', 'iter::Fuse', 'iter::Once', 'iter::FromFn', 'iter::Successors')) and fn.body is not None:
        return NotImplemented    # std's own code is executed
    for s, n, o in it_next(eng, st, v, back):
        eng.write(s, r, n)
        out.append((s, o))
    return out


def m_next_back(eng, st, fn, args, dty):
    return m_next(eng, st, fn, args, dty, True)


def drain(eng, st, v, limit=LITMAX):
    """[(state, list of items)] of an iterator of literal length"""
    done = []
    cur = [(st, v, [])]
    for _ in range(limit):
        nxt = []
        for s, w, l in cur:
            for s2, n, o in it_next(eng, s, w):
                if o.tag.op != 'c':
                    _uns('iterator of symbolic length')
                if o.tag is tm.ZERO:
                    done.append((s2, l))
                else:
                    nxt.append((s2, n, l + [o.pay[1][0]]))
        cur = nxt
        if not cur:
            return done
    _uns('iterator too long')


def m_collect(eng, st, fn, args, dty):
    t = eng.p.types[dty]
    if t['k'] != 'adt' or not t['name'].endswith('vec::Vec'):
        _uns('collect into ' + eng.p.tyname(dty))
    lo, hi = rng(eng, t['args'][0]['ty'])
    q = flat_seq(eng, st, args[0])
    if q is not None:
        return Seq(q.items, q.arr, q.len, lo, hi)
    return [(s, Seq(l, lo=lo, hi=hi)) for s, l in drain(eng, st, args[0])]


def m_extend(eng, st, fn, args, dty):
    v = args[1]
    if isinstance(v, Enum) and v.name.endswith('Option'):
        v = Agg((v,), 'std::option::IntoIter')
    if isinstance(v, Ref):
        w = eng.read(st, v)
        if isinstance(w, (Arr, Seq)) or v.len is not None:
            return m_extend_from_slice(eng, st, fn, args, dty)
    if isinstance(v, (Arr, Seq)):
        eng.write(st, args[0], concat(eng, eng.read(st, args[0]), v))
        return UNIT
    q = flat_seq(eng, st, v, True)
    if q is not None:
        eng.write(st, args[0], concat(eng, eng.read(st, args[0]), q))
        return UNIT
    out = []
    for s, l in drain(eng, st, v):
        l = [eng.read(s, x) if isinstance(x, Ref) else x for x in l]
        eng.write(s, args[0], concat(eng, eng.read(s, args[0]), Seq(l)))
        out.append((s, UNIT))
    return out


def undecided(v):
    """is it open whether the iterator has a next item?"""
    if isinstance(v, Iter):
        k, f = v.kind, v.f
        if k in ('sit', 'vit'):
            return tm.lt(f[1], f[2]) not in (tm.TT, tm.FF)
        if k in ('chx', 'chb'):
            return tm.le(tm.add(f[1], f[3]), f[2]) not in (tm.TT, tm.FF)
        if k == 'ch':
            return tm.lt(f[1], f[2]) not in (tm.TT, tm.FF)
        if k == 'rinc':
            return tm.le(f[0], f[1]) not in (tm.TT, tm.FF)
        if k == 'stepr':
            return tm.lt(f[0], f[1]) not in (tm.TT, tm.FF)
        return False
    if isinstance(v, Agg):
        if v.name.endswith('ops::Range'):
            return isinstance(v.f[0], T) and tm.lt(v.f[0], v.f[1]) not in (tm.TT, tm.FF)
        if v.name.endswith('iter::Zip'):
            return undecided(v.f[0]) or undecided(v.f[1])
        return bool(v.f) and '::iter::' in v.name and undecided(v.f[0])
    return False


def by_next(fn, v):
    """std's own code of this fold is a plain loop over next(): followed in the concrete
    traces too, so that they show the loop that the symbolic run meets"""
    return isinstance(v, Agg) and v.name.endswith('ops::Range') or fn.dname.startswith('std::iter::Iterator::')


def m_fold(eng, st, fn, args, dty):
    if undecided(args[0]) or eng.trace is not None and by_next(fn, args[0]):
        return NotImplemented
    out = []
    for s, l in drain(eng, st, args[0]):
        cur = [(s, args[2], args[1])]
        for x in l:
            cur = [(s3, c3, a3) for s2, c2, a2 in cur for s3, c3, a3 in call_closure(eng, s2, c2, [a2, x])]
        out += [(s2, a2) for s2, c2, a2 in cur]
    return out


def m_for_each(eng, st, fn, args, dty):
    if undecided(args[0]) or eng.trace is not None and by_next(fn, args[0]):
        return NotImplemented
    out = []
    for s, l in drain(eng, st, args[0]):
        cur = [(s, args[1])]
        for x in l:
            cur = [(s3, c3) for s2, c2 in cur for s3, c3, _ in call_closure(eng, s2, c2, [x])]
        out += [(s2, UNIT) for s2, c2 in cur]
    return out


def m_sum(eng, st, fn, args, dty):
    out = []
    for s, l in drain(eng, st, args[0]):
        a = tm.ZERO
        ok = True
        for x in l:
            if isinstance(x, Ref):
                x = eng.read(s, x)
            a = tm.add(a, x)
            ok = ok and eng.require(s, 'panic', 'no overflow in sum', eng.inrange(dty, a))
        if ok:
            out.append((s, a))
    return out


def m_count(eng, st, fn, args, dty):
    return [(s, C(len(l))) for s, l in drain(eng, st, args[0])]


# ---------------------------------------------------------------- Vec and slices
def m_vec_new(eng, st, fn, args, dty):
    t = eng.p.types[dty]
    lo, hi = rng(eng, t['args'][0]['ty'])
    if args:
        if not size_ob(eng, st, args[0], t['args'][0]['ty']):
            return []
    return Seq((), lo=lo, hi=hi)


def m_from_elem(eng, st, fn, args, dty):
    v, n = args
    ty = fn.args[0]['ty']
    if not size_ob(eng, st, n, ty):
        return []
    lo, hi = rng(eng, ty)
    if n.op == 'c' and n.a[0] <= LITMAX:
        return Seq([v] * n.a[0], lo=lo, hi=hi)
    if not isinstance(v, T):
        _uns('vec![aggregate; symbolic]')
    return Seq(None, tm.carr(v), n, lo, hi)


def m_resize(eng, st, fn, args, dty):
    r, n, v = args
    s = eng.read(st, r)
    if not size_ob(eng, st, n, fn.args[0]['ty']):
        return []
    if s.len is n or eng.prove(st, tm.eq(s.len, n)):
        return UNIT
    if s.items is not None and n.op == 'c':
        k = n.a[0]
        it = s.items[:k] + (v,) * (k - len(s.items))
        eng.write(st, r, Seq(it, lo=s.lo, hi=s.hi))
        return UNIT
    d = eng.decide(st)(tm.le(n, s.len))
    if d is True:
        eng.write(st, r, Seq(None, v_arr(s), n, s.lo, s.hi))
    elif s.items is not None and not s.items:
        eng.write(st, r, Seq(None, tm.carr(v), n, s.lo, s.hi))
    elif d is False:
        eng.write(st, r, Seq(None, tm.copy(v_arr(s), s.len, tm.carr(v), tm.ZERO, tm.sub(n, s.len)), n, s.lo, s.hi))
    else:
        out = []
        for c in (tm.le(n, s.len), tm.gt(n, s.len)):
            z = st.clone()
            z.fact(c)
            out += [(z, UNIT)] if m_resize(eng, z, fn, args, dty) is UNIT else []
        return out
    return UNIT


def m_truncate(eng, st, fn, args, dty):
    r, n = args
    s = eng.read(st, r)
    if s.items is not None and n.op == 'c':
        eng.write(st, r, Seq(s.items[:n.a[0]], lo=s.lo, hi=s.hi))
        return UNIT
    d = eng.decide(st)(tm.le(n, s.len))
    ln = n if d is True else s.len if d is False else tm.ite(tm.le(n, s.len), n, s.len)
    eng.write(st, r, Seq(None, v_arr(s), ln, s.lo, s.hi))
    return UNIT


def m_clear(eng, st, fn, args, dty):
    s = eng.read(st, args[0])
    eng.write(st, args[0], Seq((), lo=s.lo, hi=s.hi))
    return UNIT


def m_push(eng, st, fn, args, dty):
    r, x = args
    s = eng.read(st, r)
    if not size_ob(eng, st, tm.add(s.len, tm.ONE), fn.args[0]['ty']):
        return []
    eng.write(st, r, concat(eng, s, Seq((x,))))
    return UNIT


def m_pop(eng, st, fn, args, dty):
    s = eng.read(st, args[0])
    if s.items is None:
        _uns('pop of symbolic Vec')
    if not s.items:
        return none()
    eng.write(st, args[0], Seq(s.items[:-1], lo=s.lo, hi=s.hi))
    return some(s.items[-1])


def m_append(eng, st, fn, args, dty):
    a, b = eng.read(st, args[0]), eng.read(st, args[1])
    eng.write(st, args[0], concat(eng, a, b))
    eng.write(st, args[1], Seq((), lo=b.lo, hi=b.hi))
    return UNIT


def m_extend_from_slice(eng, st, fn, args, dty):
    r, s = args
    sl = as_slice(eng, st, s)
    v = eng.read(st, r)
    src = seq_of(eng, st, sl)
    if not size_ob(eng, st, tm.add(v.len, sl.len), next(x['ty'] for x in fn.args if 'ty' in x)):
        return []
    eng.write(st, r, concat(eng, v, src))
    return UNIT


def m_insert(eng, st, fn, args, dty):
    r, i, x = args
    v = eng.read(st, r)
    if v.items is None or i.op != 'c':
        _uns('Vec::insert')
    if not eng.require(st, 'panic', 'insert index in range', tm.le(i, v.len)):
        return []
    k = i.a[0]
    eng.write(st, r, Seq(v.items[:k] + (x,) + v.items[k:], lo=v.lo, hi=v.hi))
    return UNIT


def m_len(eng, st, fn, args, dty):
    return as_slice(eng, st, args[0]).len


def m_is_empty(eng, st, fn, args, dty):
    return tm.eq(as_slice(eng, st, args[0]).len, tm.ZERO)


def m_deref(eng, st, fn, args, dty):
    return as_slice(eng, st, args[0])


def m_ident(eng, st, fn, args, dty):
    return args[0]


def m_unit(eng, st, fn, args, dty):
    return UNIT


def m_clone_ref(eng, st, fn, args, dty):
    return eng.read(st, args[0])


def m_to_vec(eng, st, fn, args, dty):
    return seq_of(eng, st, args[0])


def m_index(eng, st, fn, args, dty):
    # impl Index<I> for X: the index type is the last generic argument
    r = as_slice(eng, st, args[0])
    name = ''
    for a in fn.args:
        if 'ty' in a:
            t = eng.p.types[a['ty']]
            if t['k'] == 'adt' and 'Range' in t['name']:
                name = t['name']
    return do_index(eng, st, r, args[1], name)


def m_sliceindex(eng, st, fn, args, dty):
    # <usize/Range as SliceIndex<[T]>>::index(self, slice)
    r = as_slice(eng, st, args[1])
    m = re.match(r'<([A-Za-z:]*)', fn.name)
    return do_index(eng, st, r, args[0], m.group(1) if m else '')


def m_get(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    ix = args[1]
    if isinstance(ix, T):
        return opt(tm.lt(ix, r.len), eng.elem(r, ix))
    if isinstance(ix, Agg) and ix.name.endswith('ops::Range'):
        lo, hi = ix.f
    elif isinstance(ix, Agg) and ix.name.endswith('ops::RangeTo'):
        lo, hi = tm.ZERO, ix.f[0]
    elif isinstance(ix, Agg) and ix.name.endswith('ops::RangeFrom'):
        lo, hi = ix.f[0], r.len
    else:
        _uns('get')
    return opt(tm.andb(tm.le(lo, hi), tm.le(hi, r.len)), Ref(r.fid, r.local, r.proj, tm.add(r.off, lo), tm.sub(hi, lo)))


def m_split_at(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    m = args[1]
    if not eng.require(st, 'panic', 'split point in range', tm.le(m, r.len)):
        return []
    return Agg((Ref(r.fid, r.local, r.proj, r.off, m), Ref(r.fid, r.local, r.proj, tm.add(r.off, m), tm.sub(r.len, m))))


def m_iter(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    return Iter('sit', (cont(r), r.off, tm.add(r.off, r.len)))


def m_chunks(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    if not eng.require(st, 'panic', 'chunk size is not zero', tm.gt(args[1], tm.ZERO)):
        return []
    return Iter('ch', (cont(r), r.off, tm.add(r.off, r.len), args[1]))


def m_chunks_exact(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    if not eng.require(st, 'panic', 'chunk size is not zero', tm.gt(args[1], tm.ZERO)):
        return []
    return Iter('chx', (cont(r), r.off, tm.add(r.off, r.len), args[1]))


def m_remainder(eng, st, fn, args, dty):
    v = args[0]
    while isinstance(v, Ref):
        v = eng.read(st, v)
    if not isinstance(v, Iter) or v.kind != 'chx' or v.f[3].op != 'c':
        _uns('remainder')
    r, a, b, n = v.f
    m = tm.mod(tm.sub(b, a), n.a[0])
    return Ref(r.fid, r.local, r.proj, tm.sub(b, m), m)


def m_windows(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    if not eng.require(st, 'panic', 'window size is not zero', tm.gt(args[1], tm.ZERO)):
        return []
    return Iter('win', (cont(r), r.off, tm.add(r.off, r.len), args[1]))


def m_contains(eng, st, fn, args, dty):
    l = s_list(eng, st, as_slice(eng, st, args[0]))
    x = eng.read(st, args[1])
    if l is None or not isinstance(x, T):
        _uns('contains')
    return tm.orb(*[tm.eq(x, y) for y in l])


def m_startsends(ends):
    def f(eng, st, fn, args, dty):
        la, lb = (s_list(eng, st, as_slice(eng, st, x)) for x in args)
        if la is None or lb is None:
            _uns('starts_with')
        if len(lb) > len(la):
            return tm.FF
        la = la[len(la) - len(lb):] if ends else la[:len(lb)]
        return tm.andb(*[tm.eq(x, y) for x, y in zip(la, lb)])
    return f


def m_cmp(eng, st, fn, args, dty):
    a, b = (eng.read(st, x) if isinstance(x, Ref) else x for x in args)
    if not isinstance(a, T) or not isinstance(b, T) or a.kind != 'i' or b.kind != 'i':
        return NotImplemented
    o = Enum(tm.ite(tm.lt(a, b), tm.ZERO, tm.ite(tm.eq(a, b), tm.ONE, C(2))), {0: (), 1: (), 2: ()}, 'std::cmp::Ordering')
    return some(o) if fn.dname.endswith('partial_cmp') else o


def m_minmax_it(which):
    def f(eng, st, fn, args, dty):
        out = []
        for s, l in drain(eng, st, args[0]):
            v = [eng.read(s, x) if isinstance(x, Ref) else x for x in l]
            if not all(isinstance(x, T) and x.kind == 'i' for x in v):
                _uns('Iterator::' + which)
            if not v:
                out.append((s, none()))
                continue
            a = v[0]
            for x in v[1:]:
                a = tm.ite(tm.le(a, x), a, x) if which == 'min' else tm.ite(tm.le(a, x), x, a)
            if isinstance(l[0], Ref):
                key = ('mm', eng.nfid, len(s.stack), id(l) & 0xffff)
                s.frames[s.stack[-1].fid][key] = a
                out.append((s, some(Ref(s.stack[-1].fid, key))))
            else:
                out.append((s, some(a)))
        return out
    return f


def m_remove(eng, st, fn, args, dty):
    r, i = args
    v = eng.read(st, r)
    if v.items is None or i.op != 'c':
        _uns('Vec::remove')
    if not eng.require(st, 'panic', 'remove index in range', tm.lt(i, v.len)):
        return []
    k = i.a[0]
    eng.write(st, r, Seq(v.items[:k] + v.items[k + 1:], lo=v.lo, hi=v.hi))
    return v.items[k]


def m_split_off(eng, st, fn, args, dty):
    r, i = args
    v = eng.read(st, r)
    if not eng.require(st, 'panic', 'split_off index in range', tm.le(i, v.len)):
        return []
    if v.items is not None and i.op == 'c':
        k = i.a[0]
        eng.write(st, r, Seq(v.items[:k], lo=v.lo, hi=v.hi))
        return Seq(v.items[k:], lo=v.lo, hi=v.hi)
    q = seq_of(eng, st, Ref(r.fid, r.local, r.proj, i, tm.sub(v.len, i)))
    eng.write(st, r, Seq(None, v_arr(v), i, v.lo, v.hi))
    return q


def m_drain(eng, st, fn, args, dty):
    # what the range covers leaves the vector when the iterator is dropped, and the vector is borrowed till then
    r, g = args
    v = eng.read(st, r)
    if v.items is None or not isinstance(g, Agg):
        _uns('Vec::drain')
    n = v.len
    nm = g.name
    lo, hi = (g.f[0], g.f[1]) if nm.endswith('ops::Range') else (tm.ZERO, g.f[0]) if nm.endswith('ops::RangeTo') else (g.f[0], n) if nm.endswith('ops::RangeFrom') else (tm.ZERO, n) if nm.endswith('ops::RangeFull') else (None, None)
    if lo is None or lo.op != 'c' or hi.op != 'c':
        _uns('Vec::drain')
    if not eng.require(st, 'panic', 'drain range', tm.andb(tm.le(lo, hi), tm.le(hi, n))):
        return []
    i, j = lo.a[0], hi.a[0]
    eng.write(st, r, Seq(v.items[:i] + v.items[j:], lo=v.lo, hi=v.hi))
    return Iter('vit', (Seq(v.items[i:j], lo=v.lo, hi=v.hi), tm.ZERO, C(j - i)))


def m_nth(eng, st, fn, args, dty):
    r, n = args
    if n.op != 'c':
        return NotImplemented
    cur = [(st, None)]
    for i in range(min(n.a[0] + 1, LITMAX)):
        nxt = []
        for s, _ in cur:
            for s2, w, o in it_next(eng, s, eng.read(s, r)):
                if o.tag.op != 'c':
                    _uns('nth of an iterator of symbolic length')
                eng.write(s2, r, w)
                nxt.append((s2, o))
        cur = nxt
        if all(o.tag is tm.ZERO for _, o in cur):
            break
    return cur


def m_it_last(eng, st, fn, args, dty):
    return [(s, some(l[-1]) if l else none()) for s, l in drain(eng, st, args[0])]


def m_into_iter(eng, st, fn, args, dty):
    v = args[0]
    if isinstance(v, Enum) and v.name.endswith('Option'):
        return Agg((v,), 'std::option::IntoIter')
    if isinstance(v, (Seq, Arr)):
        return Iter('vit', (v, tm.ZERO, eng.vlen(v)))
    if isinstance(v, Agg) and v.name.endswith('RangeInclusive'):
        return Iter('rinc', (v.f[0], v.f[1]))
    if isinstance(v, Ref):
        try:
            w = eng.read(st, v) if v.len is None else None
        except Exception:
            w = None
        if v.len is not None or isinstance(w, (Seq, Arr)):
            return m_iter(eng, st, fn, args, dty)
    return v


def m_rinc_new(eng, st, fn, args, dty):
    return Iter('rinc', (args[0], args[1]))


def m_copy_from_slice(eng, st, fn, args, dty):
    d, s = as_slice(eng, st, args[0]), as_slice(eng, st, args[1])
    if not eng.require(st, 'panic', 'source and destination slices have the same length', tm.eq(d.len, s.len)):
        return []
    s_write(eng, st, d, seq_of(eng, st, Ref(s.fid, s.local, s.proj, s.off, d.len if d.len.op == 'c' else s.len)))
    return UNIT


def m_fill(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    if r.len.op == 'c' and r.len.a[0] <= LITMAX:
        s_write(eng, st, r, Seq([args[1]] * r.len.a[0]))
    else:
        s_write(eng, st, r, Seq(None, tm.carr(args[1]), r.len))
    return UNIT


def m_copy_within(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    name = eng.p.tyname(fn.args[1]['ty']) if len(fn.args) > 1 and 'ty' in fn.args[1] else ''
    src = do_index(eng, st, r, args[1], name)
    if src == []:
        return []
    if not eng.require(st, 'panic', 'copy_within destination in range', tm.le(tm.add(args[2], src.len), r.len)):
        return []
    s_write(eng, st, Ref(r.fid, r.local, r.proj, tm.add(r.off, args[2]), src.len), seq_of(eng, st, src))
    return UNIT


def m_swap(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    for i in args[1:]:
        if not eng.require(st, 'panic', 'index in bounds', tm.lt(i, r.len)):
            return []
    a, b = eng.elem(r, args[1]), eng.elem(r, args[2])
    x, y = eng.read(st, a), eng.read(st, b)
    eng.write(st, a, y)
    eng.write(st, b, x)
    return UNIT


def m_reverse(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    l = s_list(eng, st, r)
    if l is None:
        _uns('reverse of symbolic slice')
    s_write(eng, st, r, Seq(l[::-1]))
    return UNIT


def m_rotate(k):
    def f(eng, st, fn, args, dty):
        r = as_slice(eng, st, args[0])
        l = s_list(eng, st, r)
        if l is None or args[1].op != 'c':
            _uns('rotate of symbolic slice')
        n = args[1].a[0]
        if not eng.require(st, 'panic', 'rotate amount in range', tm.B(n <= len(l))):
            return []
        l = l[n:] + l[:n] if k == 'left' else l[len(l) - n:] + l[:len(l) - n]
        s_write(eng, st, r, Seq(l))
        return UNIT
    return f


def m_first(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    return opt(tm.gt(r.len, tm.ZERO), eng.elem(r, tm.ZERO))


def m_last(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    return opt(tm.gt(r.len, tm.ZERO), eng.elem(r, tm.sub(r.len, tm.ONE)))


def m_concat(eng, st, fn, args, dty):
    r = as_slice(eng, st, args[0])
    l = s_list(eng, st, r)
    if l is None:
        _uns('concat')
    acc = Seq(())
    for x in l:
        acc = concat(eng, acc, seq_of(eng, st, x) if isinstance(x, Ref) else x)
    t = eng.p.types[dty]
    lo, hi = rng(eng, t['args'][0]['ty']) if t['k'] == 'adt' and t['args'] else (None, None)
    return Seq(acc.items, acc.arr, acc.len, lo, hi)


def m_try_into_array(eng, st, fn, args, dty):
    """&[T] -> [T; N] / &[T; N];  Vec<T> -> [T; N]"""
    t = eng.p.types[dty]
    okty = eng.p.types[t['args'][0]['ty']]
    isref = okty['k'] == 'ref'
    if isref:
        okty = eng.p.types[okty['to']]
    if okty['k'] != 'array':
        return NotImplemented
    n = okty['len']
    v = args[0]
    if isinstance(v, Ref):
        r = as_slice(eng, st, v)
        ln = r.len
    elif isinstance(v, Seq):
        ln = v.len
    else:
        return NotImplemented
    c = tm.eq(ln, C(n))
    if c is not tm.TT and eng.prove(st, c):
        c = tm.TT
    if c is not tm.TT and c is not tm.FF:
        out = []
        for cond in (c, tm.not_(c)):
            z = st.clone()
            z.fact(cond)
            if eng.pr.sat(z.facts) is False:
                continue
            out.append((z, m_try_into_array(eng, z, fn, args, dty)))
        return out
    if c is tm.FF:
        return Enum(tm.ONE, {1: (Opaque('TryFromSliceError'),)}, 'Result')
    if isinstance(v, Ref):
        r = Ref(r.fid, r.local, r.proj, r.off, C(n))
        if isref:
            # a view; arrays behind references are read as slices of literal length
            return Enum(tm.ZERO, {0: (r,)}, 'Result')
        val = Arr(s_list(eng, st, r))
    else:
        val = Arr(v.items if v.items is not None else [eng.index(st, v, C(i)) for i in range(n)])
    return Enum(tm.ZERO, {0: (val,)}, 'Result')


def seq_eq(neg):
    def f(eng, st, fn, args, dty):
        a, b = as_slice(eng, st, args[0]), as_slice(eng, st, args[1])
        la, lb = s_list(eng, st, a), s_list(eng, st, b)
        if la is None or lb is None:
            _uns('comparison of symbolic slices')
        c = tm.FF if len(la) != len(lb) else tm.andb(*[tm.eq(x, y) for x, y in zip(la, lb)])
        return tm.not_(c) if neg else c
    return f


def m_boxarr_into_vec(eng, st, fn, args, dty):
    v = args[0]
    if isinstance(v, Box):
        v = v.v
    if isinstance(v, Agg) and v.name == 'MaybeUninit':
        v = v.f[1].f[0]
    if isinstance(v, (Arr, Seq)):
        t = eng.p.types[dty]
        lo, hi = rng(eng, t['args'][0]['ty'])
        return Seq(v.items, lo=lo, hi=hi) if v.items is not None else v
    _uns('into_vec of %r' % (v,))


def m_box_new_uninit(eng, st, fn, args, dty):
    # MaybeUninit<T> is a union of () and ManuallyDrop<T>
    return Box(Agg((UNDEF, Agg((UNDEF,), 'ManuallyDrop')), 'MaybeUninit'))


def m_box_new(eng, st, fn, args, dty):
    return Box(args[0])


def m_into_boxed(eng, st, fn, args, dty):
    return Box(args[0])


# ---------------------------------------------------------------- integers
def self_int(eng, fn):
    m = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>', fn.name)
    if not m:
        _uns('integer method ' + fn.name)
    n = m.group(1)
    b = 64 if n.endswith('size') else int(n[1:])
    return b, n[0] == 'i'


def nrm(eng, st, b, s, x):
    y = tm.swrap(b, x) if s else tm.wrap(b, x)
    if y.op in ('w', 'sw') and eng.controlish(x):
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        if eng.prove(st, tm.andb(tm.ge(x, C(lo)), tm.le(x, C(hi)))):
            return x
    return y


def inr(b, s, x):
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    return tm.andb(tm.ge(x, C(lo)), tm.le(x, C(hi)))


OPS = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}


def m_int(eng, st, fn, args, dty):
    b, s = self_int(eng, fn)
    op = fn.dname.rsplit('::', 1)[1]
    x = args[0]
    y = args[1] if len(args) > 1 else None
    if op.startswith('wrapping_') and op[9:] in OPS:
        if op == 'wrapping_add' and not s:
            r = tm.addw(b, x, y)
            return r if r.op != 'w' else nrm(eng, st, b, s, tm.add(x, y))
        return nrm(eng, st, b, s, OPS[op[9:]](x, y))
    if op == 'wrapping_neg':
        return nrm(eng, st, b, s, tm.neg(x))
    if op in ('wrapping_shl', 'wrapping_shr') and not s:
        k = tm.wrap(b.bit_length() - 1, y)
        return tm.shlv(b, x, k) if op == 'wrapping_shl' else tm.shrv(b, x, k)
    if op.startswith('checked_') and op[8:] in OPS:
        r = OPS[op[8:]](x, y)
        c = inr(b, s, r)
        if c is not tm.TT and eng.prove(st, c):
            c = tm.TT
        return opt(c, r)
    if op in ('checked_div', 'checked_rem') and not s:
        return opt(tm.ne(y, tm.ZERO), tm.gdiv('q' if op == 'checked_div' else 'r', x, y))
    if op.startswith('overflowing_') and op[12:] in OPS:
        r = OPS[op[12:]](x, y)
        return Agg((nrm(eng, st, b, s, r), tm.not_(inr(b, s, r))))
    if op.startswith('saturating_') and op[11:] in OPS:
        r = OPS[op[11:]](x, y)
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        return tm.ite(tm.lt(r, C(lo)), C(lo), tm.ite(tm.gt(r, C(hi)), C(hi), r))
    if op in ('rotate_left', 'rotate_right') and not s:
        if y.op != 'c':
            k = tm.wrap(b.bit_length() - 1, y)
            if op == 'rotate_left':
                return tm.or_(b, tm.shlv(b, x, k), tm.shrv(b, x, tm.wrap(b.bit_length() - 1, tm.neg(k))))
            return tm.or_(b, tm.shrv(b, x, k), tm.shlv(b, x, tm.wrap(b.bit_length() - 1, tm.neg(k))))
        k = y.a[0] % b
        return tm.rot(b, x, k if op == 'rotate_left' else b - k)
    if op in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes'):
        z = tm.wrap(b, x) if s else x
        return Arr(bytes_of(z, b // 8, op == 'to_be_bytes'))
    if op in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes'):
        v = args[0]
        if isinstance(v, Ref):
            v = Arr(s_list(eng, st, as_slice(eng, st, v)))
        it = v.items[::-1] if op == 'from_be_bytes' else v.items
        v = tm.add(*[tm.scale(i, 256 ** k) for k, i in enumerate(it)])
        return tm.swrap(b, v) if s else v
    if op in ('to_le', 'from_le'):
        return x
    if op in ('swap_bytes', 'to_be', 'from_be') and not s:
        return tm.add(*[tm.scale(i, 256 ** k) for k, i in enumerate(bytes_of(x, b // 8, True))])
    if op in ('min_value', 'max_value'):
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        return C(lo if op == 'min_value' else hi)
    if op == 'pow' and y.op == 'c' and y.a[0] < 70:
        r = tm.ONE
        for _ in range(y.a[0]):
            r = tm.mul(r, x)
            if not eng.require(st, 'panic', 'no overflow in pow', inr(b, s, r)):
                return []
        return r
    if op == 'is_power_of_two':
        return tm.pow2(x)
    if op == 'abs':
        if not eng.require(st, 'panic', 'no overflow in abs', tm.gt(x, C(-(1 << (b - 1))))):
            return []
        return tm.ite(tm.lt(x, tm.ZERO), tm.neg(x), x)
    if op in ('rem_euclid', 'div_euclid') and y.op == 'c' and y.a[0] > 0:
        return tm.mod(x, y.a[0]) if op == 'rem_euclid' else tm.div(x, y.a[0])
    if op == 'div_ceil' and not s:
        if not eng.require(st, 'panic', 'divisor not zero', tm.ne(y, tm.ZERO)):
            return []
        if y.op == 'c':
            return tm.div(tm.add(x, C(y.a[0] - 1)), y.a[0])
    if op in ('next_multiple_of',) and not s and y.op == 'c' and y.a[0]:
        r = tm.scale(tm.div(tm.add(x, C(y.a[0] - 1)), y.a[0]), y.a[0])
        if not eng.require(st, 'panic', 'no overflow in next_multiple_of', inr(b, s, r)):
            return []
        return r
    if op in ('count_ones', 'leading_zeros', 'trailing_zeros') and x.op == 'c':
        n = x.a[0] % (1 << b)
        if op == 'count_ones':
            return C(bin(n).count('1'))
        if op == 'leading_zeros':
            return C(b - n.bit_length())
        return C(b if n == 0 else (n & -n).bit_length() - 1)
    if op in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        r = OPS[op[10:]](x, y)
        eng.require(st, 'panic', 'unchecked arithmetic stays in range', inr(b, s, r))
        return r
    if op == 'abs_diff' and not s:
        return tm.ite(tm.lt(x, y), tm.sub(y, x), tm.sub(x, y))
    return NotImplemented


INTM = {'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg', 'wrapping_shl', 'wrapping_shr', 'checked_add', 'checked_sub',
        'checked_mul', 'checked_div', 'checked_rem', 'overflowing_add', 'overflowing_sub', 'overflowing_mul', 'saturating_add', 'saturating_sub', 'saturating_mul',
        'rotate_left', 'rotate_right', 'to_le_bytes', 'to_be_bytes', 'to_ne_bytes', 'from_le_bytes', 'from_be_bytes',
        'from_ne_bytes', 'to_le', 'from_le', 'to_be', 'from_be', 'swap_bytes', 'min_value', 'max_value', 'pow', 'is_power_of_two', 'abs',
        'rem_euclid', 'div_euclid', 'div_ceil', 'next_multiple_of', 'count_ones', 'leading_zeros', 'trailing_zeros',
        'unchecked_add', 'unchecked_sub', 'unchecked_mul', 'abs_diff'}


def m_min(eng, st, fn, args, dty):
    a, b = args
    if not isinstance(a, T):
        return NotImplemented
    c = tm.le(a, b)
    d = eng.decide(st)(c)
    return a if d is True else b if d is False else tm.ite(c, a, b)


def m_max(eng, st, fn, args, dty):
    a, b = args
    if not isinstance(a, T):
        return NotImplemented
    c = tm.le(a, b)
    d = eng.decide(st)(c)
    return b if d is True else a if d is False else tm.ite(c, b, a)


def m_from_int(eng, st, fn, args, dty):
    x = args[0]
    if isinstance(x, T) and eng.p.intty(dty):
        if x.kind == 'b':
            return tm.ite(x, C(1), C(0))
        return x
    return NotImplemented


def m_try_from_int(eng, st, fn, args, dty):
    t = eng.p.types[dty]
    if t['k'] != 'adt' or not t['args'] or 'ty' not in t['args'][0] or not eng.p.intty(t['args'][0]['ty']) or not isinstance(args[0], T):
        return m_try_into_array(eng, st, fn, args, dty)
    c = eng.inrange(t['args'][0]['ty'], args[0])
    if c is not tm.TT and eng.prove(st, c):
        c = tm.TT
    return Enum(tm.ite(c, tm.ZERO, tm.ONE), {0: (args[0],), 1: (Opaque('TryFromIntError'),)}, 'Result')


def m_mem_swap(eng, st, fn, args, dty):
    a, b = eng.read(st, args[0]), eng.read(st, args[1])
    eng.write(st, args[0], b)
    eng.write(st, args[1], a)
    return UNIT


def m_mem_replace(eng, st, fn, args, dty):
    a = eng.read(st, args[0])
    eng.write(st, args[0], args[1])
    return a


def m_mem_take(eng, st, fn, args, dty):
    a = eng.read(st, args[0])
    if isinstance(a, Seq):
        eng.write(st, args[0], Seq((), lo=a.lo, hi=a.hi))
        return a
    if isinstance(a, T) and a.kind == 'i':
        eng.write(st, args[0], tm.ZERO)
        return a
    return NotImplemented


def m_array_map(eng, st, fn, args, dty):
    cur = [(st, args[1], [])]
    for x in args[0].items:
        cur = [(s2, c2, l + [v]) for s, c, l in cur for s2, c2, v in call_closure(eng, s, c, [x])]
    return [(s, Arr(l)) for s, c, l in cur]


def m_array_from_fn(eng, st, fn, args, dty):
    n = eng.p.types[dty]['len']
    cur = [(st, args[0], [])]
    for i in range(n):
        cur = [(s2, c2, l + [v]) for s, c, l in cur for s2, c2, v in call_closure(eng, s, c, [C(i)])]
    return [(s, Arr(l)) for s, c, l in cur]


def m_default(eng, st, fn, args, dty):
    def d(ty):
        t = eng.p.types[ty]
        if eng.p.intty(ty):
            return tm.ZERO
        if t['k'] == 'bool':
            return tm.FF
        if t['k'] == 'array':
            return Arr([d(t['elem'])] * t['len'])
        if t['k'] == 'adt' and t['name'].endswith('vec::Vec'):
            lo, hi = rng(eng, t['args'][0]['ty'])
            return Seq((), lo=lo, hi=hi)
        return None
    v = d(dty)
    return NotImplemented if v is None else v


# ---------------------------------------------------------------- intrinsics
def m_intrinsic(eng, st, fn, args, dty):
    n = fn.intrinsic or fn.dname.rsplit('::', 1)[1]
    if n in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume'):
        return UNIT
    if n in ('black_box', 'likely', 'unlikely', 'transmute_unchecked') and args:
        return args[0]
    if n in ('is_val_statically_known', 'const_eval_select', 'ub_checks', 'contract_checks', 'overflow_checks'):
        if n == 'is_val_statically_known' or n in ('ub_checks', 'contract_checks'):
            return tm.FF
        if n == 'overflow_checks':
            return tm.TT
        return NotImplemented
    if n in ('size_of', 'align_of', 'min_align_of') and 'ty' in fn.args[0]:
        t = eng.p.types[fn.args[0]['ty']]
        if n == 'size_of' and t['size'] is not None:
            return C(t['size'])
    if n == 'needs_drop':
        return tm.FF
    ty = fn.args[0]['ty'] if fn.args and 'ty' in fn.args[0] else None
    it = eng.p.intty(ty) if ty is not None else None
    if it:
        b, s = it
        if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
            if n == 'wrapping_add' and not s:
                return tm.addw(b, args[0], args[1])
            return nrm(eng, st, b, s, OPS[n[9:]](args[0], args[1]))
        if n in ('rotate_left', 'rotate_right') and args[1].op == 'c' and not s:
            k = args[1].a[0] % b
            return tm.rot(b, args[0], k if n == 'rotate_left' else b - k)
        if n in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
            return OPS[n[10:]](args[0], args[1])
        if n == 'bswap' and not s:
            return tm.add(*[tm.scale(i, 256 ** k) for k, i in enumerate(bytes_of(args[0], b // 8, True))])
        if n == 'integer_max':
            return C(eng.irange(ty)[1])
        if n == 'integer_min':
            return C(eng.irange(ty)[0])
        if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
            r = OPS[n[:3]](args[0], args[1])
            c = inr(b, s, r)
            if c is not tm.TT and eng.prove(st, c):
                c = tm.TT
            return Agg((nrm(eng, st, b, s, r), tm.not_(c)))
        if n in ('saturating_add', 'saturating_sub'):
            r = OPS[n[11:]](args[0], args[1])
            lo, hi = eng.irange(ty)
            return tm.ite(tm.lt(r, C(lo)), C(lo), tm.ite(tm.gt(r, C(hi)), C(hi), r))
    if n == 'typed_swap_nonoverlapping':
        return m_mem_swap(eng, st, fn, args, dty)
    if n in ('discriminant_value',):
        v = eng.read(st, args[0])
        return eng.discr(v, ty)
    _uns('intrinsic ' + n)


# ---------------------------------------------------------------- digests
DIGESTS = [('blake_hash::Blake256', 'BLAKE256'), ('sha3::Keccak256Core', 'KECCAK256'), ('groestl::GroestlShortVarCore', 'GROESTL256'),
           ('skein_hash::Skein512', 'SKEIN512_256')]
OUT32 = ('UInt<digest::typenum::UInt', )


def digest_name(eng, fn):
    """which digest this instance belongs to (None: unknown algorithm)"""
    m = re.match(r'<(.*?) as ([a-z_0-9]+::)*(Digest|Update|FixedOutput|Default|Reset|Clone)', fn.name)
    self_ty = m.group(1) if m else fn.name
    for pat, nm in DIGESTS:
        if pat in self_ty:
            if nm in ('GROESTL256', 'SKEIN512_256') and typenum(self_ty) != 32:
                return nm + '/%s' % typenum(self_ty)
            return nm
    return 'DIGEST:' + re.sub(r'\s', '', self_ty)


def typenum(s):
    """value of the typenum integer UInt<UInt<UTerm,B1>,B0>... in s"""
    bits = re.findall(r'B([01])', s)
    if 'UTerm' not in s:
        return None
    v = 0
    for b in bits:
        v = v * 2 + int(b)
    return v


def content(eng, st, v):
    """byte sequence denoted by an AsRef<[u8]> argument, in canonical form"""
    if isinstance(v, Ref):
        v = seq_of(eng, st, v)
    if isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Box):
        v = v.v
    if isinstance(v, Arr):
        v = Seq(v.items)
    if not isinstance(v, Seq):
        _uns('digest of %r' % (v,))
    return v


def canon(v):
    """hashable canonical form of a byte sequence"""
    if v.items is None and v.len.op == 'c' and v.len.a[0] <= 256:
        return ('lit', tuple(tm.select(v.arr, C(i)) for i in range(v.len.a[0])))
    if v.items is not None:
        return ('lit', tuple(v.items))
    return ('sym', v.arr, v.len)


def digest_app(name, v, n=32):
    k = canon(v)
    if k[0] == 'lit':
        args = (k[1],)
    else:
        args = (k[1], k[2])
    return [tm.app('H:' + name, (C(i),) + args, 0, 255) for i in range(n)]


def m_digest(eng, st, fn, args, dty):
    op = fn.dname.rsplit('::', 1)[1]
    nm = digest_name(eng, fn)
    if op == 'digest':
        v = content(eng, st, args[0])
        eng.assumed.add('%s is a total, deterministic function of its input bytes with a 32-byte result' % nm)
        return Arr(digest_app(nm, v))
    if op in ('new', 'default'):
        return Opaque('hasher:' + nm, Seq((), lo=0, hi=255))
    if op in ('update', 'input'):
        h = eng.read(st, args[0])
        eng.write(st, args[0], Opaque(h.what, concat(eng, h.data, content(eng, st, args[1]))))
        return UNIT
    if op in ('chain', 'chain_update'):
        return Opaque(args[0].what, concat(eng, args[0].data, content(eng, st, args[1])))
    if op in ('finalize', 'result', 'finalize_fixed', 'fixed_result'):
        eng.assumed.add('%s is a total, deterministic function of its input bytes with a 32-byte result' % nm)
        return Arr(digest_app(args[0].what[7:], args[0].data))
    if op in ('finalize_reset', 'result_reset', 'reset'):
        h = eng.read(st, args[0])
        eng.write(st, args[0], Opaque(h.what, Seq((), lo=0, hi=255)))
        if op == 'reset':
            return UNIT
        eng.assumed.add('%s is a total, deterministic function of its input bytes with a 32-byte result' % nm)
        return Arr(digest_app(h.what[7:], h.data))
    _uns('digest method ' + op)


def m_ga_deref(eng, st, fn, args, dty):
    return as_slice(eng, st, args[0])


# ---------------------------------------------------------------- lookup
EXACT = {
    'std::vec::Vec::<T>::new': m_vec_new,
    'std::vec::Vec::<T>::with_capacity': m_vec_new,
    'std::vec::from_elem': m_from_elem,
    'std::vec::Vec::<T, A>::resize': m_resize,
    'std::vec::Vec::<T, A>::truncate': m_truncate,
    'std::vec::Vec::<T, A>::clear': m_clear,
    'std::vec::Vec::<T, A>::push': m_push,
    'std::vec::Vec::<T, A>::pop': m_pop,
    'std::vec::Vec::<T, A>::insert': m_insert,
    'std::vec::Vec::<T, A>::append': m_append,
    'std::vec::Vec::<T, A>::remove': m_remove,
    'std::vec::Vec::<T, A>::split_off': m_split_off,
    'std::vec::Vec::<T, A>::drain': m_drain,
    'std::iter::Iterator::max': m_minmax_it('max'),
    'std::iter::Iterator::min': m_minmax_it('min'),
    'std::iter::Iterator::last': m_it_last,
    'std::vec::Vec::<T, A>::extend_from_slice': m_extend_from_slice,
    'std::vec::Vec::<T, A>::len': m_len,
    'std::vec::Vec::<T, A>::is_empty': m_is_empty,
    'std::vec::Vec::<T, A>::reserve': m_unit,
    'std::vec::Vec::<T, A>::reserve_exact': m_unit,
    'std::vec::Vec::<T, A>::shrink_to_fit': m_unit,
    'std::vec::Vec::<T, A>::as_slice': m_deref,
    'std::vec::Vec::<T, A>::as_mut_slice': m_deref,
    'std::vec::Vec::<T, A>::into_boxed_slice': m_into_boxed,
    'std::boxed::Box::<T>::new': m_box_new,
    'std::boxed::Box::<T>::new_uninit': m_box_new_uninit,
    'std::slice::<impl [T]>::to_vec': m_to_vec,
    'std::slice::<impl [T]>::into_vec': m_boxarr_into_vec,
    'std::boxed::box_assume_init_into_vec_unsafe': m_boxarr_into_vec,
    'std::slice::<impl [T]>::concat': m_concat,
    'std::ops::RangeInclusive::<Idx>::new': m_rinc_new,
    'std::cmp::min': m_min,
    'std::cmp::max': m_max,
    'std::cmp::Ord::min': m_min,
    'std::cmp::Ord::max': m_max,
    'std::mem::swap': m_mem_swap,
    'std::mem::replace': m_mem_replace,
    'std::mem::take': m_mem_take,
    'std::mem::drop': m_unit,
    'std::hint::black_box': m_ident,
    'std::iter::Iterator::collect': m_collect,
    'std::iter::StepBy::<I>::new': m_stepby_new,
    'std::iter::Iterator::sum': m_sum,
    'std::iter::Iterator::count': m_count,
    'std::iter::Iterator::by_ref': m_ident,
    'core::array::<impl [T; N]>::map': m_array_map,
    'std::array::<impl [T; N]>::map': m_array_map,
    'std::array::from_fn': m_array_from_fn,
    'core::array::from_fn': m_array_from_fn,
    'core::array::<impl [T; N]>::as_slice': m_deref,
    'std::array::<impl [T; N]>::as_slice': m_deref,
    'std::array::<impl [T; N]>::as_mut_slice': m_deref,
    'std::array::<impl std::convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from': m_try_into_array,
}

SLICE = {'windows': m_windows, 'contains': m_contains, 'starts_with': m_startsends(False), 'ends_with': m_startsends(True), 'len': m_len, 'is_empty': m_is_empty, 'split_at': m_split_at, 'split_at_mut': m_split_at, 'iter': m_iter, 'iter_mut': m_iter,
         'chunks': m_chunks, 'chunks_mut': m_chunks, 'chunks_exact': m_chunks_exact, 'chunks_exact_mut': m_chunks_exact,
         'copy_from_slice': m_copy_from_slice, 'clone_from_slice': m_copy_from_slice, 'fill': m_fill, 'copy_within': m_copy_within,
         'swap': m_swap, 'reverse': m_reverse, 'first': m_first, 'last': m_last, 'first_mut': m_first, 'last_mut': m_last,
         'get': m_get, 'get_mut': m_get, 'to_vec': m_to_vec, 'concat': m_concat, 'rotate_left': m_rotate('left'), 'rotate_right': m_rotate('right'), 'to_owned': m_to_vec}

_cache = {}


def find(eng, fn):
    k = fn.id, id(eng.p)
    if k not in _cache:
        _cache[k] = _find(eng, fn)
    return _cache[k]


def _find(eng, fn):
    if fn.local:
        return None
    d = fn.dname
    if d in EXACT:
        return EXACT[d]
    last = d.rsplit('::', 1)[1]
    if fn.krate == 'generic_array' and last in ('into', 'from', 'to_vec', 'from_slice'):
        return m_ident
    if fn.intrinsic:
        return m_intrinsic
    if d.startswith(('core::slice::<impl [T]>::', 'std::slice::<impl [T]>::')) and last in SLICE:
        return SLICE[last]
    if d.startswith(('core::num::<impl ', 'std::num::<impl ')) and last in INTM:
        return m_int
    if 'std::iter::Iterator' in d or 'std::iter::DoubleEndedIterator' in d:
        if last == 'next':
            return m_next
        if last == 'next_back':
            return m_next_back
        if last == 'fold':
            return m_fold
        if last == 'for_each':
            return m_for_each
        if last in ('any', 'all', 'position'):
            return m_search(last)
        if last == 'find':
            return m_find
        if last == 'nth':
            return m_nth
        if last == 'count':
            return m_count
        if last == 'last':
            return m_it_last
        if last in ('max', 'min') and 'Ord' not in d:
            return m_minmax_it(last)
    if last == 'new' and 'zip::ZipImpl' in d:
        return lambda eng, st, fn, args, dty: Agg((args[0], args[1], tm.ZERO, tm.ZERO), 'std::iter::Zip')
    if d.endswith('as std::iter::IntoIterator>::into_iter') or 'std::iter::IntoIterator for' in d and last == 'into_iter':
        return m_into_iter
    if d.endswith('as std::iter::Extend<T>>::extend') or d.endswith("as std::iter::Extend<&'a T>>::extend"):
        return m_extend
    if last in ('index', 'index_mut'):
        if 'std::ops::Index' in d and ('std::vec::Vec' in d or 'for [T; N]' in d or 'for [T]' in d):
            return m_index
        if 'SliceIndex<[T]>' in d:
            return m_sliceindex
    if last in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'as_slice', 'as_mut_slice') and ('std::vec::Vec' in d or 'GenericArray' in d or '[T; N]' in d or '[T]' in d):
        return m_deref
    if last == 'clone' and 'std::clone::Clone' in d:
        return m_clone_ref
    if last == 'to_owned' and 'ToOwned' in d:
        return m_to_vec
    if last == 'from' and ('std::convert::From' in d) and ('num::' in d or 'convert::' in d and '<impl' in d):
        return m_from_int
    if last in ('try_from', 'try_into') and ('TryFrom' in d or 'TryInto' in d):
        return m_try_from_int
    if last == 'from' and 'std::vec::Vec' in d and 'std::convert::From' in d:
        def vec_from(eng, st, fn, args, dty):
            v = args[0]
            if isinstance(v, Ref):
                return seq_of(eng, st, v)
            if isinstance(v, (Arr, Seq)):
                t = eng.p.types[dty]
                lo, hi = rng(eng, t['args'][0]['ty'])
                return Seq(v.items, v.arr if isinstance(v, Seq) else None, eng.vlen(v), lo, hi)
            return m_boxarr_into_vec(eng, st, fn, args, dty)
        return vec_from
    if last == 'default':
        return m_default
    if last in ('remainder', 'into_remainder') and 'std::slice::ChunksExact' in d:
        return m_remainder
    if last in ('cmp', 'partial_cmp') and ('std::cmp::impls' in d or 'core::cmp::impls' in d):
        return m_cmp
    if last in ('eq', 'ne') and 'PartialEq' in d and ('[' in d or 'Vec' in d):
        return seq_eq(last == 'ne')
    if last in ('min', 'max') and 'std::cmp::Ord' in d:
        return m_min if last == 'min' else m_max
    if ('::Digest' in d or '::Update>' in d or '::FixedOutput' in d) and fn.krate not in ('core', 'std', 'alloc'):
        return m_digest
    if fn.body is None and d.startswith(('std::fmt::', 'core::fmt::')) and 'Argument' in d:
        return m_fmt
    if fn.body is None and last == 'drop_in_place':
        return m_unit
    return None
