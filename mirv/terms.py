"""Hash-consed terms.  Integer terms denote mathematical integers; machine
arithmetic appears as explicit wraps (mod 2^k).  Construction normalises:
polynomials are expanded, wraps are flattened, bitwise xor/or of values with
disjoint bits become sums, complementary shifts become rotations, and stores to
provably different residues are put in a fixed order.  Every rule is an identity
of integer / bit-vector arithmetic (tested against random evaluation by
selftest.py)."""
from math import gcd


class T:
    __slots__ = ('op', 'a', 'lo', 'hi', 'id', 'pm', 'kind')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, a, lo=None, hi=None, kind='i'):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.lo = lo
        t.hi = hi
        t.kind = kind
        t.pm = None
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d - 1) for x in t[:8]) + (',..' if len(t) > 8 else '') + ')'
        return repr(t)
    if t.op == 'c':
        return str(t.a[0]) if abs(t.a[0]) < 1 << 32 else hex(t.a[0])
    if t.op in ('v', 'av', 'bv'):
        return t.a[0]
    if d <= 0:
        return '#%d' % t.id
    if t.op == 'p':
        s = []
        for m, c in t.a[1]:
            s.append(('' if c == 1 else (str(c) if abs(c) < 1 << 32 else hex(c)) + '*') + '*'.join(show(x, d - 1) for x in m))
        if t.a[0]:
            s.append(str(t.a[0]) if abs(t.a[0]) < 1 << 32 else hex(t.a[0]))
        return '(' + ' + '.join(s) + ')'
    return t.op + '(' + ','.join(show(x, d - 1) for x in t.a) + ')'


def C(n):
    return mk('c', (n,), n, n)


ZERO = C(0)
ONE = C(1)


def var(name, lo=None, hi=None):
    return mk('v', (name, lo, hi), lo, hi)


def avar(name, lo=0, hi=None):
    return mk('av', (name, lo, hi), lo, hi, 'a')


def bvar(name):
    return mk('bv', (name,), kind='b')


def isc(t):
    return t.op == 'c'


# ---------------------------------------------------------------- polynomials
def _aspoly(t):
    """(const, {mono: coeff})"""
    if t.op == 'c':
        return t.a[0], ()
    if t.op == 'p':
        return t.a[0], t.a[1]
    return 0, (((t,), 1),)


def _monorange(m):
    lo, hi = 1, 1
    for x in m:
        if x.lo is None or x.lo < 0:
            if len(m) == 1:
                return x.lo, x.hi
            return None, None
        lo = lo * x.lo
        hi = None if hi is None or x.hi is None else hi * x.hi
    return lo, hi


def _mkpoly(c, d):
    items = [(m, k) for m, k in d.items() if k]
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda mk_: tuple(x.id for x in mk_[0]))
    key = ('p', (c, tuple(items)))
    t = _tab.get(key)
    if t is not None:
        return t
    lo = hi = c
    for m, k in items:
        ml, mh = _monorange(m)
        if k < 0:
            ml, mh = mh, ml
        lo = None if lo is None or ml is None else lo + k * ml
        hi = None if hi is None or mh is None else hi + k * mh
    return mk('p', (c, tuple(items)), lo, hi)


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        c0, its = _aspoly(t)
        c += c0
        for m, k in its:
            d[m] = d.get(m, 0) + k
    return _mkpoly(c, d)


def scale(t, k):
    if k == 1:
        return t
    if k == 0:
        return ZERO
    c0, its = _aspoly(t)
    return _mkpoly(c0 * k, {m: x * k for m, x in its})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == 'c':
        return scale(b, a.a[0])
    if b.op == 'c':
        return scale(a, b.a[0])
    ca, ia = _aspoly(a)
    cb, ib = _aspoly(b)
    d = {}
    for m, k in ia:
        if cb:
            d[m] = d.get(m, 0) + k * cb
        for m2, k2 in ib:
            mm = tuple(sorted(m + m2, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + k * k2
    for m2, k2 in ib:
        if ca:
            d[m2] = d.get(m2, 0) + k2 * ca
    return _mkpoly(ca * cb, d)


def wrap(k, x):
    """x mod 2^k (0 <= result < 2^k)"""
    M = 1 << k
    if x.op == 'c':
        return C(x.a[0] % M)
    if x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi < M:
        return x
    if x.op == 'w':
        return x if k >= x.a[0] else wrap(k, x.a[1])
    if x.op == 'sw' and x.a[0] >= k:
        return wrap(k, x.a[1])
    if x.op == 'p':
        c, its = x.a
        d = {}
        changed = False
        st = [(m, co % M) for m, co in its]
        c %= M
        while st:
            m, co = st.pop()
            if co == 0:
                changed = True
                continue
            if len(m) == 1 and m[0].op in ('w', 'sw') and (m[0].a[0] >= k or ((co << m[0].a[0]) % M) == 0):
                # co * (y mod 2^j) == co * y  (mod 2^k) when 2^j * co == 0 mod 2^k
                c2, i2 = _aspoly(m[0].a[1])
                c = (c + co * c2) % M
                for m2, k2 in i2:
                    st.append((m2, (co * k2) % M))
                changed = True
                continue
            d[m] = (d.get(m, 0) + co) % M
        y = _mkpoly(c, d)
        if y.op == 'c':
            return y
        if y.lo is not None and y.hi is not None and y.lo >= 0 and y.hi < M:
            return y
        if y.op in ('w', 'sw'):
            return wrap(k, y)
        if len(d) <= 8 and any(co > M >> 1 for co in d.values()):
            # the same residue with centred coefficients may need no reduction
            z = _mkpoly(c, {m: co - M if co > M >> 1 else co for m, co in d.items()})
            if z.lo is not None and z.hi is not None and z.lo // M == z.hi // M:
                return z if z.lo >= 0 and z.hi < M else add(z, C(-(z.lo // M) * M))
        return mk('w', (k, y), 0, M - 1)
    return mk('w', (k, x), 0, M - 1)


def swrap(k, x):
    H = 1 << (k - 1)
    if x.op == 'c':
        return C((x.a[0] + H) % (2 * H) - H)
    if x.lo is not None and x.hi is not None and x.lo >= -H and x.hi < H:
        return x
    if x.op in ('w', 'sw') and x.a[0] >= k:
        return swrap(k, x.a[1])
    return mk('sw', (k, x), -H, H - 1)


def div(x, c):
    """floor(x / c), c > 0 constant"""
    assert c > 0
    if c == 1:
        return x
    if x.op == 'c':
        return C(x.a[0] // c)
    if x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi < c:
        return ZERO
    if x.op == 'd':
        return div(x.a[0], x.a[1] * c)
    if x.op == 'p':
        c0, its = x.a
        q = {}
        r = {}
        for m, k in its:
            if k % c == 0:
                q[m] = k // c
            else:
                r[m] = k
        rest0 = _mkpoly(c0, r)
        # move multiples of c out of the constant only (rest keeps its residue)
        if q or (c0 // c):
            restp = _mkpoly(c0 % c, r)
            return add(_mkpoly(c0 // c, q), div(restp, c) if restp is not x else _mkd(restp, c))
        return _mkd(rest0, c)
    return _mkd(x, c)


def _mkd(x, c):
    if x.op == 'c':
        return C(x.a[0] // c)
    if x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi < c:
        return ZERO
    lo = None if x.lo is None else x.lo // c
    hi = None if x.hi is None else x.hi // c
    return mk('d', (x, c), lo, hi)


def mod(x, c):
    assert c > 0
    if c & (c - 1) == 0:
        return wrap(c.bit_length() - 1, x)
    if x.op == 'c':
        return C(x.a[0] % c)
    return sub(x, scale(div(x, c), c))


def pm(t):
    """mask of bits that may be set (None if t may be negative / unbounded)"""
    if t.pm is not None:
        return t.pm if t.pm >= 0 else None
    r = _pm(t)
    t.pm = -1 if r is None else r
    return r


def _pieces(t):
    """t as a list of terms with pairwise disjoint bits whose sum is t, or None"""
    if t.op != 'p':
        return [t]
    c0, its = t.a
    if c0 < 0:
        return None
    acc = c0
    out = [C(c0)] if c0 else []
    for m, k in its:
        if k < 0 or len(m) != 1:
            return None
        low = k & -k
        if k != low:
            return None
        p = pm(m[0])
        if p is None:
            return None
        p *= k
        if p & acc:
            return None
        acc |= p
        out.append(_mkpoly(0, {m: k}))
    return out


def _pm(t):
    if t.op == 'c':
        return t.a[0] if t.a[0] >= 0 else None
    if t.lo is None or t.lo < 0 or t.hi is None:
        return None
    full = (1 << t.hi.bit_length()) - 1
    if t.op == 'p':
        ps = _pieces(t)
        if ps is not None:
            if len(ps) == 1:
                m, k = t.a[1][0]
                return pm(m[0]) * k
            acc = 0
            for p in ps:
                acc |= pm(p)
            return acc & full
        # trailing zeros
        g = t.a[0]
        tz = None
        for m, k in t.a[1]:
            z = (k & -k).bit_length() - 1
            tz = z if tz is None else min(tz, z)
        if g:
            tz = min(tz, (g & -g).bit_length() - 1)
        return full & ~((1 << tz) - 1)
    if t.op == 'w':
        k, x = t.a
        p = None
        if x.op == 'p':
            tz = None
            for m, co in x.a[1]:
                z = (co & -co).bit_length() - 1
                tz = z if tz is None else min(tz, z)
            if x.a[0]:
                tz = min(tz, (x.a[0] & -x.a[0]).bit_length() - 1)
            # a single scaled piece keeps its own mask
            if len(x.a[1]) == 1 and x.a[0] == 0 and len(x.a[1][0][0]) == 1:
                q = pm(x.a[1][0][0][0])
                co = x.a[1][0][1]
                if q is not None and co & (co - 1) == 0:
                    return (q * co) & ((1 << k) - 1)
            return ((1 << k) - 1) & ~((1 << tz) - 1)
        q = pm(x)
        return q & ((1 << k) - 1) if q is not None else (1 << k) - 1
    if t.op == 'd':
        x, c = t.a
        q = pm(x)
        if q is not None and c & (c - 1) == 0:
            return q >> (c.bit_length() - 1)
        return full
    if t.op in ('xor', 'or'):
        acc = t.a[2]
        for x in t.a[1]:
            q = pm(x)
            if q is None:
                return full
            acc |= q
        return acc
    if t.op == 'and':
        acc = t.a[2]
        for x in t.a[1]:
            q = pm(x)
            if q is not None:
                acc &= q
        return acc
    return full


def shl(w, x, k):
    return wrap(w, scale(x, 1 << k))


def shr(x, k):
    return div(x, 1 << k)


def _rotpair(w, a, b):
    """a = x >> j and b = x << (w-j): returns rot"""
    if a.op == 'd':
        x, c = a.a
        if c & (c - 1) == 0 and x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < (1 << w):
            j = c.bit_length() - 1
            if 0 < j < w and shl(w, x, w - j) is b:
                return rot(w, x, w - j)
    return None


def rot(w, x, k):
    """rotate left by k"""
    k %= w
    if k == 0:
        return x
    if x.op == 'c':
        v = x.a[0]
        return C(((v << k) | (v >> (w - k))) & ((1 << w) - 1))
    if x.op == 'rot' and x.a[0] == w:
        return rot(w, x.a[1], k + x.a[2])
    if x.op == 'p':
        # disjoint bit fields, none of them split by the rotation
        fs = []
        k0 = x.a[0]
        if k0 < 0 or k0 >> w:
            fs = None
        else:
            for mono, c in x.a[1]:
                t = mono[0]
                if len(mono) > 1 or c <= 0 or c & (c - 1) or t.lo is None or t.lo < 0 or t.hi is None:
                    fs = None
                    break
                lo = c.bit_length() - 1
                fs.append((lo, lo + t.hi.bit_length(), t))
        if fs:
            fs.sort(key=lambda f: f[:2])
            ok = fs[-1][1] <= w and all(a[1] <= b[0] for a, b in zip(fs, fs[1:])) and all(hi <= w - k or lo >= w - k for lo, hi, _ in fs)
            if ok and k0:
                ok = all(k0 & ((1 << hi) - (1 << lo)) == 0 for lo, hi, _ in fs)
            if ok:
                kr = ((k0 << k) | (k0 >> (w - k))) & ((1 << w) - 1)
                return add(C(kr), *[scale(t, 1 << ((lo + k) % w)) for lo, hi, t in fs])
    return mk('rot', (w, x, k), 0, (1 << w) - 1)


def _bitargs(w, args, op):
    out = []
    for t in args:
        if t.op == op and t.a[0] == w:
            out.extend(t.a[1])
            if op == 'and' and t.a[2] == (1 << w) - 1:
                continue
            if t.a[2] or op == 'and':
                out.append(C(t.a[2]))
        else:
            out.append(t)
    return out


def _find_rots(w, xs):
    ds = [t for t in xs if t.op == 'd']
    if not ds:
        return xs
    xs = list(xs)
    ch = True
    while ch:
        ch = False
        for a in xs:
            if a.op != 'd':
                continue
            for b in xs:
                if b is a:
                    continue
                r = _rotpair(w, a, b)
                if r is not None:
                    xs.remove(a)
                    xs.remove(b)
                    xs.append(r)
                    ch = True
                    break
            if ch:
                break
    return _merge_rots(w, xs)


def _merge_rots(w, xs):
    """rot(y, k) next to a field z whose unrotated bits are free in y: rot(y + z', k)"""
    i = 0
    while i < len(xs):
        r = xs[i]
        if r.op == 'rot' and r.a[0] == w:
            y, k = r.a[1], r.a[2]
            p = pm(y)
            if p is not None and p != (1 << w) - 1:
                for z in xs:
                    if z is r or z.op in ('rot', 'w') or pm(z) is None or pm(z) >> w:
                        continue
                    zr = rot(w, z, w - k)
                    if zr.op == 'rot' or pm(zr) is None or pm(zr) & p:
                        continue
                    xs = [t for t in xs if t is not r and t is not z] + [rot(w, add(y, zr), k)]
                    i = -1
                    break
        i += 1
    return xs


def _disjoint(xs, c):
    acc = c
    for t in xs:
        p = pm(t)
        if p is None or p & acc:
            return False
        acc |= p
    return True


def xor(w, *args):
    c = 0
    cnt = {}
    st = _bitargs(w, args, 'xor')
    i = 0
    while i < len(st):
        t = st[i]
        i += 1
        if t.op == 'c':
            c ^= t.a[0]
            continue
        if t.op == 'xor':
            # narrower xor inside: its bits are within its own width, flatten
            st.extend(t.a[1])
            c ^= t.a[2]
            continue
        if t.op == 'p':
            ps = _pieces(t)
            if ps is not None and len(ps) > 1:
                st.extend(ps)
                continue
        if t in cnt:
            del cnt[t]
        else:
            cnt[t] = 1
    xs = _find_rots(w, list(cnt))
    if len(xs) != len(cnt):
        return xor(w, C(c), *xs)
    if not xs:
        return C(c)
    if len(xs) == 1 and c == 0:
        return xs[0]
    if len(xs) == 1 and xs[0].op == 'rot' and xs[0].a[0] == w:
        y, k = xs[0].a[1], xs[0].a[2]
        cr = rot(w, C(c), w - k)
        if pm(y) is not None and pm(y) & cr.a[0] == 0:
            return rot(w, add(y, cr), k)
    if _disjoint(xs, c):
        return add(C(c), *xs)
    xs.sort(key=lambda t: t.id)
    hi = (1 << w) - 1
    return mk('xor', (w, tuple(xs), c), 0, hi)


def or_(w, *args):
    c = 0
    seen = {}
    st = _bitargs(w, args, 'or')
    i = 0
    while i < len(st):
        t = st[i]
        i += 1
        if t.op == 'c':
            c |= t.a[0]
            continue
        if t.op == 'p':
            ps = _pieces(t)
            if ps is not None and len(ps) > 1:
                st.extend(ps)
                continue
        seen[t] = 1
    xs = _find_rots(w, list(seen))
    if len(xs) != len(seen):
        return or_(w, C(c), *xs)
    if not xs:
        return C(c)
    if len(xs) == 1 and c == 0:
        return xs[0]
    if len(xs) == 1 and xs[0].op == 'rot' and xs[0].a[0] == w:
        y, k = xs[0].a[1], xs[0].a[2]
        cr = rot(w, C(c), w - k)
        if pm(y) is not None and pm(y) & cr.a[0] == 0:
            return rot(w, add(y, cr), k)
    if _disjoint(xs, c):
        return add(C(c), *xs)
    xs.sort(key=lambda t: t.id)
    return mk('or', (w, tuple(xs), c), 0, (1 << w) - 1)


def and_(w, *args):
    full = (1 << w) - 1
    c = full
    seen = {}
    for t in _bitargs(w, args, 'and'):
        if t.op == 'c':
            c &= t.a[0]
        else:
            seen[t] = 1
    xs = list(seen)
    if c == 0:
        return ZERO
    if not xs:
        return C(c)
    if len(xs) == 1:
        x = xs[0]
        p = pm(x)
        if p is not None and p & ~c == 0:
            return x
        if c == full:
            return x
        low = c & -c
        j = low.bit_length() - 1
        m = c >> j
        if m & (m + 1) == 0:
            return scale(wrap(m.bit_length(), shr(x, j)), 1 << j)
        ps = _pieces(x)
        if ps is not None and len(ps) > 1:
            return add(*[and_(w, q, C(c)) for q in ps])
    xs.sort(key=lambda t: t.id)
    hi = c
    for x in xs:
        if x.hi is not None and x.hi < hi:
            hi = x.hi
    return mk('and', (w, tuple(xs), c), 0, hi)


def addw(w, a, b):
    """wrapping add of w-bit unsigned values"""
    if a.op == 'd' or b.op == 'd':
        r = _rotpair(w, a, b) or _rotpair(w, b, a)
        if r is not None:
            return r
    return wrap(w, add(a, b))


# ---------------------------------------------------------------- booleans
TT = mk('tt', (), kind='b')
FF = mk('ff', (), kind='b')


def B(x):
    return TT if x else FF


def _sgn(p):
    """normalise sign of an equality polynomial"""
    if p.op == 'p' and p.a[1][0][1] < 0:
        return neg(p)
    return p


def le0(p):
    if p.op == 'c':
        return B(p.a[0] <= 0)
    if p.hi is not None and p.hi <= 0:
        return TT
    if p.lo is not None and p.lo > 0:
        return FF
    if p.op == 'p':
        g = 0
        for m, k in p.a[1]:
            g = gcd(g, k)
        if g > 1:
            c = p.a[0]
            # g*q + c <= 0  <=>  q <= floor(-c/g)
            q = _mkpoly(0, {m: k // g for m, k in p.a[1]})
            return le0(sub(q, C((-c) // g)))
    return mk('le', (p,), kind='b')


def eq0(p):
    if p.op == 'c':
        return B(p.a[0] == 0)
    if p.lo is not None and p.lo > 0 or p.hi is not None and p.hi < 0:
        return FF
    if p.op == 'p':
        g = 0
        for m, k in p.a[1]:
            g = gcd(g, k)
        if g > 1:
            if p.a[0] % g:
                return FF
            return eq0(_mkpoly(p.a[0] // g, {m: k // g for m, k in p.a[1]}))
    return mk('eq', (_sgn(p),), kind='b')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TT
    if b.op == 'ite' and a.op == 'c':
        a, b = b, a
    if a.op == 'ite' and b.op == 'c' and a.a[1].op in ('c', 'ite') and a.a[2].op in ('c', 'ite'):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    return eq0(sub(a, b))


def not_(b):
    if b is TT:
        return FF
    if b is FF:
        return TT
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le':
        return le0(sub(ONE, b.a[0]))
    return mk('not', (b,), kind='b')


def ne(a, b):
    return not_(eq(a, b))


def andb(*bs):
    s = {}
    for b in bs:
        if b is FF:
            return FF
        if b is TT:
            continue
        if b.op == 'andb':
            for x in b.a:
                s[x] = 1
        else:
            s[b] = 1
    for b in s:
        if not_(b) in s:
            return FF
    if not s:
        return TT
    if len(s) == 1:
        return next(iter(s))
    return mk('andb', tuple(sorted(s, key=lambda t: t.id)), kind='b')


def orb(*bs):
    return not_(andb(*[not_(b) for b in bs]))


def implies(a, b):
    return orb(not_(a), b)


def beq(a, b):
    if a is b:
        return TT
    if a is TT:
        return b
    if b is TT:
        return a
    if a is FF:
        return not_(b)
    if b is FF:
        return not_(a)
    return mk('beq', (a, b) if a.id < b.id else (b, a), kind='b')


def pow2(x):
    if x.op == 'c':
        return B(x.a[0] > 0 and x.a[0] & (x.a[0] - 1) == 0)
    return mk('pow2', (x,), kind='b')


def ite(c, a, b):
    if c is TT:
        return a
    if c is FF:
        return b
    if a is b:
        return a
    if a.kind == 'b':
        return orb(andb(c, a), andb(not_(c), b))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    if c.op == 'le' and a.kind == 'i':
        # minimum and maximum have one form each
        d = sub(a, b)
        if c.a[0] is d or c.a[0] is add(d, ONE):
            x, y = (a, b) if a.id < b.id else (b, a)
            h = [z.hi for z in (a, b) if z.hi is not None]
            return mk('ite', (le(x, y), x, y), lo, min(h) if h else None, 'i')
        e = sub(b, a)
        if c.a[0] is e or c.a[0] is add(e, ONE):
            x, y = (a, b) if a.id < b.id else (b, a)
            l = [z.lo for z in (a, b) if z.lo is not None]
            return mk('ite', (le(x, y), y, x), max(l) if l else None, hi, 'i')
    return mk('ite', (c, a, b), lo, hi, a.kind)


# ---------------------------------------------------------------- arrays
def carr(v):
    return mk('ca', (v,), v.lo, v.hi, 'a')


def larr(items):
    items = tuple(items)
    lo = min([x.lo if x.lo is not None else -1 << 200 for x in items], default=0)
    hi = max([x.hi if x.hi is not None else 1 << 200 for x in items], default=0)
    return mk('la', (items,), lo, hi, 'a')


def _cls(i):
    """(gcd of the non-constant coefficients, constant)"""
    if i.op == 'c':
        return 0, i.a[0]
    if i.op == 'p':
        g = 0
        for m, k in i.a[1]:
            g = gcd(g, k)
        return g, i.a[0]
    return 1, 0


def distinct(i, j):
    """syntactically different for all values of the atoms"""
    if i.op == 'c' and j.op == 'c':
        return i is not j
    d = sub(i, j)
    if d.op == 'c':
        return d.a[0] != 0
    if d.lo is not None and d.lo > 0 or d.hi is not None and d.hi < 0:
        return True
    g, c = _cls(d)
    return g > 1 and c % g != 0


def store(a, i, v):
    """functional update, commuting independent stores into residue order"""
    if a.op == 'la' and i.op == 'c' and 0 <= i.a[0] < len(a.a[0]):
        k = i.a[0]
        return larr(a.a[0][:k] + (v,) + a.a[0][k + 1:])
    st = []
    g, c = _cls(i)
    while a.op == 'st':
        b, j, u = a.a
        if j is i:
            a = b
            break
        if not distinct(i, j):
            break
        g2, c2 = _cls(j)
        G = gcd(g, g2)
        k1, k2 = (c % G, c2 % G) if G else (c, c2)
        if k2 > k1:
            st.append((j, u))
            a = b
        else:
            break
    # an identical index further down is shadowed only if everything above commutes
    if st == [] and a.op == 'st':
        x = a
        above = []
        while x.op == 'st' and x.a[1] is not i and distinct(x.a[1], i):
            above.append(x)
            x = x.a[0]
        if x.op == 'st' and x.a[1] is i:
            r = mkst(x.a[0], i, v)
            for y in reversed(above):
                r = mkst(r, y.a[1], y.a[2])
            return r
    r = mkst(a, i, v)
    for j, u in reversed(st):
        r = mkst(r, j, u)
    return r


def mkst(a, i, v):
    if v.op == 'sel' and v.a[0] is a and v.a[1] is i:
        return a
    lo = None if a.lo is None or v.lo is None else min(a.lo, v.lo)
    hi = None if a.hi is None or v.hi is None else max(a.hi, v.hi)
    return mk('st', (a, i, v), lo, hi, 'a')


def select(a, i, decide=None):
    """decide(cond) -> True / False / None, may use path facts"""
    keep = []
    while True:
        if a.op == 'st':
            b, j, u = a.a
            if j is i:
                if not keep:
                    return u
                a = carr(u)
                break
            if distinct(i, j):
                a = b
                continue
            if decide is not None:
                r = decide(eq(i, j))
                if r is True:
                    if not keep:
                        return u
                    a = carr(u)
                    break
                if r is False:
                    a = b
                    continue
            keep.append(a)
            a = b
            continue
        if a.op == 'ca':
            if not keep:
                return a.a[0]
            break
        if a.op == 'la':
            if i.op == 'c' and not keep:
                if 0 <= i.a[0] < len(a.a[0]):
                    return a.a[0][i.a[0]]
            break
        if a.op == 'sh':
            if keep:
                break
            return select(a.a[0], add(i, a.a[1]), decide)
        if a.op == 'cp':
            if keep:
                break
            dst, d, src, s, n = a.a
            c = andb(le(d, i), lt(i, add(d, n)))
            r = True if c is TT else False if c is FF else (decide(c) if decide else None)
            if r is True:
                return select(src, add(sub(i, d), s), decide)
            if r is False:
                a = dst
                continue
            break
        if a.op == 'ite' and not keep and decide is not None:
            r = decide(a.a[0])
            if r is not None:
                a = a.a[1] if r else a.a[2]
                continue
        break
    for x in reversed(keep):
        a = mkst(a, x.a[1], x.a[2])
    return mk('sel', (a, i), a.lo, a.hi)


def shift(a, off):
    if off.op == 'c' and off.a[0] == 0:
        return a
    if a.op == 'sh':
        return shift(a.a[0], add(a.a[1], off))
    if a.op == 'ca':
        return a
    return mk('sh', (a, off), a.lo, a.hi, 'a')


def copy(dst, d, src, s, n):
    if n.op == 'c' and n.a[0] == 0:
        return dst
    lo = None if dst.lo is None or src.lo is None else min(dst.lo, src.lo)
    hi = None if dst.hi is None or src.hi is None else max(dst.hi, src.hi)
    return mk('cp', (dst, d, src, s, n), lo, hi, 'a')


def sellist(items, i):
    items = tuple(items)
    if i.op == 'c':
        return items[i.a[0]]
    if all(x is items[0] for x in items):
        return items[0]
    lo = min((x.lo if x.lo is not None else -(1 << 200)) for x in items)
    hi = max((x.hi if x.hi is not None else (1 << 200)) for x in items)
    return mk('sl', (items, i), lo, hi)


def app(name, args, lo=None, hi=None, kind='i'):
    return mk('app', (name,) + tuple(args), lo, hi, kind)


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z
                        elif isinstance(z, tuple):
                            for q in z:
                                if isinstance(q, T):
                                    yield q


def atoms_of(t, seen=None):
    """all variable leaves (iterative)"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('v', 'av', 'bv'):
            out.add(x)
        else:
            st.extend(children(x))
    return out


def topo(ts):
    """all subterms in dependency order"""
    out = []
    seen = set()
    st = [(t, False) for t in ts]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        st.append((t, True))
        for c in children(t):
            if c not in seen:
                st.append((c, False))
    return out


# ---------------------------------------------------------------- evaluation
def evaluate(ts, env):
    """env(term) gives the value of atoms: int, bool, or a function idx->int for arrays;
    apps are passed too, as env(t, args)."""
    val = {}

    def arrget(f, i):
        return f(i)
    for t in topo(ts):
        o = t.op
        a = t.a
        if o == 'c':
            v = a[0]
        elif o in ('v', 'av', 'bv'):
            v = env(t, None)
        elif o == 'p':
            v = a[0]
            for m, k in a[1]:
                p = k
                for x in m:
                    p *= val[x]
                v += p
        elif o == 'w':
            v = val[a[1]] % (1 << a[0])
        elif o == 'sw':
            H = 1 << (a[0] - 1)
            v = (val[a[1]] + H) % (2 * H) - H
        elif o == 'd':
            v = val[a[0]] // a[1]
        elif o == 'gd':
            v = gdiv_val(a[0], val[a[1]], val[a[2]])
        elif o == 'xor':
            v = a[2]
            for x in a[1]:
                v ^= val[x]
        elif o == 'or':
            v = a[2]
            for x in a[1]:
                v |= val[x]
        elif o == 'and':
            v = a[2]
            for x in a[1]:
                v &= val[x]
        elif o == 'rot':
            w, x, k = a
            y = val[x]
            v = ((y << k) | (y >> (w - k))) & ((1 << w) - 1)
        elif o == 'shv':
            w, x, k = a
            v = (val[x] << val[k]) % (1 << w) if val[k] < w else 0
        elif o == 'srv':
            w, x, k = a
            v = val[x] >> val[k] if val[k] < w else 0
        elif o == 'tt':
            v = True
        elif o == 'ff':
            v = False
        elif o == 'le':
            v = val[a[0]] <= 0
        elif o == 'eq':
            v = val[a[0]] == 0
        elif o == 'beq':
            v = val[a[0]] == val[a[1]]
        elif o == 'not':
            v = not val[a[0]]
        elif o == 'andb':
            v = all(val[x] for x in a)
        elif o == 'pow2':
            y = val[a[0]]
            v = y > 0 and y & (y - 1) == 0
        elif o == 'ite':
            v = val[a[1]] if val[a[0]] else val[a[2]]
        elif o == 'ca':
            v = (lambda q: lambda i: q)(val[a[0]])
        elif o == 'la':
            v = (lambda q: lambda i: q[i] if 0 <= i < len(q) else 0)([val[x] for x in a[0]])
        elif o == 'st':
            base = val[a[0]]
            # flatten chains into dicts so depth stays bounded
            dct = getattr(base, 'd', None)
            nd = dict(dct) if dct is not None else {}
            nd[val[a[1]]] = val[a[2]]
            root = getattr(base, 'root', base)

            def f(i, nd=nd, root=root):
                return nd[i] if i in nd else root(i)
            f.d = nd
            f.root = root
            v = f
        elif o == 'sh':
            v = (lambda q, o_: lambda i: q(i + o_))(val[a[0]], val[a[1]])
        elif o == 'cp':
            v = (lambda ds, d, s, so, n: lambda i: s(i - d + so) if d <= i < d + n else ds(i))(*[val[x] for x in a])
        elif o == 'sel':
            v = val[a[0]](val[a[1]])
        elif o == 'sl':
            v = val[a[0][val[a[1]] if 0 <= val[a[1]] < len(a[0]) else 0]]
        elif o == 'app':
            v = env(t, [val[x] if isinstance(x, T) else (tuple(val[y] for y in x) if isinstance(x, tuple) else x) for x in a[1:]])
        else:
            raise Exception('evaluate ' + o)
        val[t] = v
    return [val[t] for t in ts]


def gdiv_val(kind, x, y):
    if y == 0:
        return 0
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    return q if kind == 'q' else x - q * y


def gdiv(kind, x, y):
    """truncating quotient ('q') or remainder ('r') of arbitrary terms"""
    if y.op == 'c' and y.a[0] > 0 and x.lo is not None and x.lo >= 0:
        return div(x, y.a[0]) if kind == 'q' else mod(x, y.a[0])
    if x.op == 'c' and y.op == 'c' and y.a[0]:
        return C(gdiv_val(kind, x.a[0], y.a[0]))
    lo = hi = None
    if x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0:
        lo, hi = 0, x.hi
        if kind == 'r' and y.hi is not None:
            hi = y.hi if hi is None else min(hi, y.hi)
    return mk('gd', (kind, x, y), lo, hi)


def shlv(w, x, k):
    if k.op == 'c':
        return shl(w, x, k.a[0])
    return mk('shv', (w, x, k), 0, (1 << w) - 1)


def shrv(w, x, k):
    if k.op == 'c':
        return shr(x, k.a[0])
    return mk('srv', (w, x, k), 0, x.hi)


def subst(ts, m, decide=None, shared=False, topo=None):
    """substitute terms for atoms (m: {T: T}), rebuilding with normalisation;
    with `decide`, array reads and conditionals are resolved with path facts"""
    memo = m if shared else dict(m)
    tp = topo or globals()['topo']

    def R(x):
        return memo[x]
    for t in tp(ts):
        if t in memo:
            continue
        o, a = t.op, t.a
        if topo is not None and any(c not in memo for c in children(t)):
            memo[t] = t
            continue
        if not any(memo[c] is not c for c in children(t)) and not (decide is not None and (o == 'sel' or o == 'ite' or o == 'w' and a[1].op == 'p' and linlike(a[1]))):
            memo[t] = t
            continue
        if o == 'p':
            acc = [C(a[0])]
            for mono, k in a[1]:
                p = C(k)
                for x in mono:
                    p = mul(p, R(x))
                acc.append(p)
            r = add(*acc)
        elif o == 'w':
            r = wrap(a[0], R(a[1]))
            if decide is not None and r.op == 'w' and linlike(r.a[1]) and decide(andb(ge(r.a[1], ZERO), le(r.a[1], C((1 << r.a[0]) - 1)))):
                r = r.a[1]
        elif o == 'sw':
            r = swrap(a[0], R(a[1]))
        elif o == 'd':
            r = div(R(a[0]), a[1])
        elif o == 'gd':
            r = gdiv(a[0], R(a[1]), R(a[2]))
        elif o == 'xor':
            r = xor(a[0], C(a[2]), *[R(x) for x in a[1]])
        elif o == 'or':
            r = or_(a[0], C(a[2]), *[R(x) for x in a[1]])
        elif o == 'and':
            r = and_(a[0], C(a[2]), *[R(x) for x in a[1]])
        elif o == 'rot':
            r = rot(a[0], R(a[1]), a[2])
        elif o == 'shv':
            r = shlv(a[0], R(a[1]), R(a[2]))
        elif o == 'srv':
            r = shrv(a[0], R(a[1]), R(a[2]))
        elif o == 'le':
            r = le0(R(a[0]))
        elif o == 'eq':
            r = eq0(R(a[0]))
        elif o == 'beq':
            r = beq(R(a[0]), R(a[1]))
        elif o == 'not':
            r = not_(R(a[0]))
        elif o == 'andb':
            r = andb(*[R(x) for x in a])
        elif o == 'pow2':
            r = pow2(R(a[0]))
        elif o == 'ite':
            d = decide(R(a[0])) if decide is not None else None
            r = ite(R(a[0]), R(a[1]), R(a[2])) if d is None else R(a[1]) if d else R(a[2])
        elif o == 'ca':
            r = carr(R(a[0]))
        elif o == 'la':
            r = larr([R(x) for x in a[0]])
        elif o == 'st':
            r = store(R(a[0]), R(a[1]), R(a[2]))
        elif o == 'sh':
            r = shift(R(a[0]), R(a[1]))
        elif o == 'cp':
            r = copy(*[R(x) for x in a])
        elif o == 'sel':
            r = select(R(a[0]), R(a[1]), decide)
        elif o == 'sl':
            r = sellist([R(x) for x in a[0]], R(a[1]))
        elif o == 'app':
            r = mk('app', (a[0],) + tuple(R(x) if isinstance(x, T) else (tuple(R(y) for y in x) if isinstance(x, tuple) else x) for x in a[1:]), t.lo, t.hi, t.kind)
        else:
            raise Exception('subst ' + o)
        memo[t] = r
    return [memo[t] for t in ts]


def linlike(p):
    """an index-like polynomial: no bit-level atoms"""
    if p.op == 'v':
        return True
    if p.op != 'p' or len(p.a[1]) > 6:
        return False
    return all(x.op in ('v', 'd', 'c', 'w') and (x.op != 'w' or linlike(x.a[1])) for mono, k in p.a[1] for x in mono)


def topo_int(ts):
    """subterms in dependency order, not descending into bit-level data or arrays
    (those are opaque atoms for integer reasoning)"""
    out = []
    seen = set()
    st = [(t, False) for t in ts]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        st.append((t, True))
        if t.op in ('xor', 'or', 'rot', 'sel', 'sl', 'app', 'st', 'sh', 'cp', 'la', 'ca', 'shv', 'srv', 'gd'):
            continue
        if t.op == 'ite' and t.kind == 'a':
            continue
        if t.op == 'w' and data_like(t.a[1]):
            continue
        for c in children(t):
            if c not in seen:
                st.append((c, False))
    return out


def data_like(t):
    """sum of full-width words: the wrap is kept opaque"""
    if t.op in ('xor', 'or', 'rot', 'sel', 'sl', 'app', 'shv', 'srv'):
        return False
    return False
