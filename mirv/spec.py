"""Specifications, written from the published descriptions and independent of
the code under verification.  Every function here works on terms (symbolic or
literal), so the same text is used as contract and, on literals, tested against
the known-answer vectors (selftest.py)."""
import terms as tm
from terms import C
from loops import SDo, SLoop

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1


# ------------------------------------------------------------------ BLAKE2b
def _isqrt(n):
    x = n
    y = (x + 1) // 2
    while y < x:
        x, y = y, (y + n // y) // 2
    return x


def blake2b_iv():
    """fractional parts of the square roots of the first eight primes"""
    out = []
    for p in (2, 3, 5, 7, 11, 13, 17, 19):
        out.append(_isqrt(p << 128) & M64)
    return out


IV = blake2b_iv()


def rotr(w, x, n):
    return tm.rot(w, x, w - n)


def G(a, b, c, d):
    a = tm.addw(64, a, b)
    d = rotr(64, tm.xor(64, d, a), 32)
    c = tm.addw(64, c, d)
    b = rotr(64, tm.xor(64, b, c), 24)
    a = tm.addw(64, a, b)
    d = rotr(64, tm.xor(64, d, a), 16)
    c = tm.addw(64, c, d)
    b = rotr(64, tm.xor(64, b, c), 63)
    return a, b, c, d


def rnd(s):
    s = list(s)
    for i in range(4):
        s[i], s[4 + i], s[8 + i], s[12 + i] = G(s[i], s[4 + i], s[8 + i], s[12 + i])
    for i in range(4):
        a, b, c, d = i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4
        s[a], s[b], s[c], s[d] = G(s[a], s[b], s[c], s[d])
    return tuple(s)


def F1(s):
    return rnd(s)


def F12(s):
    for _ in range(12):
        s = rnd(s)
    return tuple(s)


def init_state():
    return tuple([tm.ZERO] * 8 + [C(x) for x in IV])


def xor_in(s, w):
    return tuple(tm.xor(64, s[i], w[i]) if i < len(w) else s[i] for i in range(16))


def le_bytes(x, n):
    return [tm.wrap(8, tm.shr(x, 8 * i)) for i in range(n)]


def squeeze_block(s):
    return [b for w in s[:12] for b in le_bytes(w, 8)]


def squeeze(s, k):
    """k literal: list of k bytes"""
    out = []
    while len(out) < k:
        out += squeeze_block(s)
        s = F12(s)
    return out[:k]


def SQZ(s):
    """the infinite squeeze stream of state s, as an (uninterpreted) byte array"""
    return tm.app('SQZ', (tuple(s),), 0, 255, 'a')


# ------------------------------------------------------------------ CubeHash
def cube_rounds(x, n):
    x = list(x)
    for _ in range(n):
        for i in range(16):
            x[16 + i] = tm.addw(32, x[i], x[16 + i])
        y = [x[i ^ 8] for i in range(16)]
        y = [tm.rot(32, v, 7) for v in [x[i] for i in range(16)]]
        y = [y[i ^ 8] for i in range(16)]
        x[:16] = [tm.xor(32, y[i], x[16 + i]) for i in range(16)]
        z = x[16:]
        x[16:] = [z[i ^ 2] for i in range(16)]
        for i in range(16):
            x[16 + i] = tm.addw(32, x[i], x[16 + i])
        y = [tm.rot(32, x[i], 11) for i in range(16)]
        y = [y[i ^ 4] for i in range(16)]
        x[:16] = [tm.xor(32, y[i], x[16 + i]) for i in range(16)]
        z = x[16:]
        x[16:] = [z[i ^ 1] for i in range(16)]
    return tuple(x)


_cubeiv = []


def cube_iv(h=32, b=32, r=16):
    """ten times r rounds from (h, b, r, 0, ...)"""
    if not _cubeiv:
        _cubeiv.append(cube_rounds(tuple([C(h), C(b), C(r)] + [tm.ZERO] * 29), 10 * r))
    return _cubeiv[0]


def word32(bs, i):
    return tm.add(*[tm.scale(bs[i + j], 256 ** j) for j in range(4)])


def cube_absorb(x, block):
    return tuple(tm.xor(32, x[i], word32(block, 4 * i)) if i < 8 else x[i] for i in range(32))


def cube_flip(x):
    return tuple(x[:31]) + (tm.xor(32, x[31], tm.ONE),)


def cubehash256(m, iv=None):
    """m: list of byte terms"""
    x = iv or cube_iv()
    p = list(m) + [C(0x80)]
    while len(p) % 32:
        p.append(tm.ZERO)
    for i in range(0, len(p), 32):
        x = cube_rounds(cube_absorb(x, p[i:i + 32]), 16)
    x = cube_flip(x)
    x = cube_rounds(x, 160)
    return [b for w in x[:8] for b in le_bytes(w, 4)]


# ------------------------------------------------------------------ BMW-256
def bmw_compress(h, m):
    R = lambda x, n: tm.rot(32, x, n)
    shl = lambda x, n: tm.shl(32, x, n)
    shr = lambda x, n: tm.shr(x, n)
    X = lambda *a: tm.xor(32, *a)

    def S(*ts):
        return tm.wrap(32, tm.add(*ts))

    def Sub(*ts):
        return tm.wrap(32, tm.add(*[tm.scale(t, s) for s, t in ts]))
    s0 = lambda x: X(shr(x, 1), shl(x, 3), R(x, 4), R(x, 19))
    s1 = lambda x: X(shr(x, 1), shl(x, 2), R(x, 8), R(x, 23))
    s2 = lambda x: X(shr(x, 2), shl(x, 1), R(x, 12), R(x, 25))
    s3 = lambda x: X(shr(x, 2), shl(x, 2), R(x, 15), R(x, 29))
    s4 = lambda x: X(shr(x, 1), x)
    s5 = lambda x: X(shr(x, 2), x)
    sf = [s0, s1, s2, s3, s4]
    r = [None, lambda x: R(x, 3), lambda x: R(x, 7), lambda x: R(x, 13), lambda x: R(x, 16), lambda x: R(x, 19), lambda x: R(x, 23), lambda x: R(x, 27)]
    x = [X(m[i], h[i]) for i in range(16)]
    W = [
        ((5, 1), (7, -1), (10, 1), (13, 1), (14, 1)),
        ((6, 1), (8, -1), (11, 1), (14, 1), (15, -1)),
        ((0, 1), (7, 1), (9, 1), (12, -1), (15, 1)),
        ((0, 1), (1, -1), (8, 1), (10, -1), (13, 1)),
        ((1, 1), (2, 1), (9, 1), (11, -1), (14, -1)),
        ((3, 1), (2, -1), (10, 1), (12, -1), (15, 1)),
        ((4, 1), (0, -1), (3, -1), (11, -1), (13, 1)),
        ((1, 1), (4, -1), (5, -1), (12, -1), (14, -1)),
        ((2, 1), (5, -1), (6, -1), (13, 1), (15, -1)),
        ((0, 1), (3, -1), (6, 1), (7, -1), (14, 1)),
        ((8, 1), (1, -1), (4, -1), (7, -1), (15, 1)),
        ((8, 1), (0, -1), (2, -1), (5, -1), (9, 1)),
        ((1, 1), (3, 1), (6, -1), (9, -1), (10, 1)),
        ((2, 1), (4, 1), (7, 1), (10, 1), (11, 1)),
        ((3, 1), (5, -1), (8, 1), (11, -1), (12, -1)),
        ((12, 1), (4, -1), (6, -1), (9, -1), (13, 1)),
    ]
    q = []
    for i in range(16):
        w = Sub(*[(s, x[j]) for j, s in W[i]])
        q.append(S(sf[i % 5](w), h[(i + 1) % 16]))

    def addel(i):
        a = lambda k: R(m[k % 16], (k % 16) + 1)
        k = C((i * 0x05555555) & M32)
        return X(Sub((1, a(i - 16)), (1, a(i - 13)), (-1, a(i - 6)), (1, k)), h[(i - 16 + 7) % 16])
    for i in range(16, 32):
        if i < 18:
            fs = [s1, s2, s3, s0]
            q.append(S(*[fs[j % 4](q[i - 16 + j]) for j in range(16)], addel(i)))
        else:
            ts = []
            for j in range(14):
                v = q[i - 16 + j]
                ts.append(v if j % 2 == 0 else r[j // 2 + 1](v))
            q.append(S(*ts, s4(q[i - 2]), s5(q[i - 1]), addel(i)))
    xl = X(*q[16:24])
    xh = X(xl, *q[24:32])
    o = [None] * 16
    o[0] = S(X(shl(xh, 5), shr(q[16], 5), m[0]), X(xl, q[24], q[0]))
    o[1] = S(X(shr(xh, 7), shl(q[17], 8), m[1]), X(xl, q[25], q[1]))
    o[2] = S(X(shr(xh, 5), shl(q[18], 5), m[2]), X(xl, q[26], q[2]))
    o[3] = S(X(shr(xh, 1), shl(q[19], 5), m[3]), X(xl, q[27], q[3]))
    o[4] = S(X(shr(xh, 3), q[20], m[4]), X(xl, q[28], q[4]))
    o[5] = S(X(shl(xh, 6), shr(q[21], 6), m[5]), X(xl, q[29], q[5]))
    o[6] = S(X(shr(xh, 4), shl(q[22], 6), m[6]), X(xl, q[30], q[6]))
    o[7] = S(X(shr(xh, 11), shl(q[23], 2), m[7]), X(xl, q[31], q[7]))
    o[8] = S(R(o[4], 9), X(xh, q[24], m[8]), X(shl(xl, 8), q[23], q[8]))
    o[9] = S(R(o[5], 10), X(xh, q[25], m[9]), X(shr(xl, 6), q[16], q[9]))
    o[10] = S(R(o[6], 11), X(xh, q[26], m[10]), X(shl(xl, 6), q[17], q[10]))
    o[11] = S(R(o[7], 12), X(xh, q[27], m[11]), X(shl(xl, 4), q[18], q[11]))
    o[12] = S(R(o[0], 13), X(xh, q[28], m[12]), X(shr(xl, 3), q[19], q[12]))
    o[13] = S(R(o[1], 14), X(xh, q[29], m[13]), X(shr(xl, 4), q[20], q[13]))
    o[14] = S(R(o[2], 15), X(xh, q[30], m[14]), X(shr(xl, 7), q[21], q[14]))
    o[15] = S(R(o[3], 16), X(xh, q[31], m[15]), X(shr(xl, 2), q[22], q[15]))
    return tuple(o)


BMW_IV = tuple(0x40414243 + 0x04040404 * i for i in range(16))
BMW_FINAL = tuple(0xaaaaaaa0 + i for i in range(16))


def bmw256(m):
    n = len(m)
    assert n <= 55
    p = list(m) + [C(0x80)] + [tm.ZERO] * (55 - n) + [C((8 * n >> 8 * i) & 255) for i in range(8)]
    h = bmw_compress([C(x) for x in BMW_IV], [word32(p, 4 * i) for i in range(16)])
    h = bmw_compress([C(x) for x in BMW_FINAL], h)
    return [b for w in h[8:] for b in le_bytes(w, 4)]


# ------------------------------------------------------------------ Lyra2
def W64(name='x'):
    return ('i', 0, M64)


SV = ['s%d' % i for i in range(16)]


def S(e):
    return tuple(e[v] for v in SV)


def setS(e, s):
    for v, x in zip(SV, s):
        e[v] = x


def word64(a, i, sel=tm.select):
    return tm.add(*[tm.scale(sel(a, tm.add(i, C(j))), 256 ** j) for j in range(8)])


def kdf_nb(P, SL):
    return tm.add(tm.div(tm.add(P, SL, C(48)), 64), tm.ONE)


def kdf_fits(e):
    """the padded input fits in the matrix"""
    return tm.le(tm.scale(kdf_nb(e['P'], e['SL']), 8), tm.scale(tm.mul(e['R'], e['C']), 12))


def kdf_program(mod=False, end='app', sq=0):
    """Lyra2 as a program over ghost variables.
    end: 'app' - the key is SQZ(s) cut to k bytes;  'loop' - the squeeze loop is spelt out"""
    sv = {v: ('i', 0, M64) for v in SV}
    MV = {'M': ('a', 0, M64)}

    def start(e, x):
        n = tm.scale(tm.mul(e['R'], e['C']), 12)
        e['M'] = tm.larr([tm.ZERO] * n.a[0]) if n.op == 'c' and n.a[0] <= 1 << 16 else tm.carr(tm.ZERO)
        e['p8'] = tm.div(e['P'], 8)
        e['l8'] = tm.div(e['SL'], 8)
        e['nb'] = kdf_nb(e['P'], e['SL'])

    def packp(e, x):
        n = e['#n:packp']
        e['M'] = tm.store(e['M'], n, word64(e['pwd'], tm.scale(n, 8), x.sel))

    def packs(e, x):
        n = e['#n:packs']
        e['M'] = tm.store(e['M'], tm.add(e['p8'], n), word64(e['salt'], tm.scale(n, 8), x.sel))

    def basil(e, x):
        w = tm.add(e['p8'], e['l8'])
        M = e['M']
        for i, v in enumerate((e['k'], e['P'], e['SL'], e['T'], e['R'], e['C'], C(0x80))):
            M = tm.store(M, tm.add(w, C(i)), v)
        last = tm.add(tm.scale(e['nb'], 8), C(-1))
        M = tm.store(M, last, tm.xor(64, x.sel(M, last), C(1 << 56)))
        e['M'] = M
        setS(e, init_state())

    def absorb(e, x):
        n = e['#n:absorb']
        w = [x.sel(e['M'], tm.add(tm.scale(n, 8), C(i))) for i in range(8)]
        setS(e, F12(xor_in(S(e), w)))

    def blk(e, row, col):
        """index of word 0 of block (row, col)"""
        return tm.add(tm.scale(col, 12), tm.scale(tm.mul(row, e['C']), 12))

    def rd(e, x, row, col):
        b = blk(e, row, col)
        return [x.sel(e['M'], tm.add(b, C(i))) for i in range(12)]

    def wr(e, row, col, ws):
        b = blk(e, row, col)
        M = e['M']
        for i in range(12):
            M = tm.store(M, tm.add(b, C(i)), ws[i])
        e['M'] = M

    def rev(e, n):
        return tm.sub(tm.sub(e['C'], n), tm.ONE)

    def row0(e, x):
        wr(e, tm.ZERO, rev(e, e['#n:row0']), S(e)[:12])
        setS(e, F1(S(e)))

    def row1(e, x):
        n = e['#n:row1']
        p = rd(e, x, tm.ZERO, n)
        setS(e, F1(xor_in(S(e), p)))
        s = S(e)
        wr(e, tm.ONE, rev(e, n), [tm.xor(64, p[i], s[i]) for i in range(12)])

    def rotw(s):
        return [s[11]] + list(s[:11])

    def setup0(e, x):
        e['row'], e['rowa'], e['step'], e['h'], e['gap'] = C(2), tm.ZERO, tm.ONE, tm.ONE, tm.ONE

    def setupcol(e, x):
        n = e['#n:setupcol']
        prev = tm.sub(e['row'], tm.ONE)
        p = rd(e, x, prev, n)
        a = rd(e, x, e['rowa'], n)
        setS(e, F1(xor_in(S(e), [tm.addw(64, p[i], a[i]) for i in range(12)])))
        s = S(e)
        wr(e, e['row'], rev(e, n), [tm.xor(64, p[i], s[i]) for i in range(12)])
        a = rd(e, x, e['rowa'], n)
        r = rotw(s)
        wr(e, e['rowa'], n, [tm.xor(64, a[i], r[i]) for i in range(12)])

    def setupend(e, x):
        W = tm.scale(e['h'], 2)
        a = tm.and_(64, x.u64(tm.add(e['rowa'], e['step'])), tm.sub(W, tm.ONE))
        z = tm.eq(a, tm.ZERO)
        e['rowa'] = a
        e['row'] = tm.add(e['row'], tm.ONE)
        e['step'], e['h'], e['gap'] = (x.ite(z, tm.add(W, e['gap']), e['step']), x.ite(z, W, e['h']), x.ite(z, tm.neg(e['gap']), e['gap']))

    def setupinv(e):
        h, row, rowa, step, gap = e['h'], e['row'], e['rowa'], e['step'], e['gap']
        j = tm.sub(row, tm.scale(h, 2))
        odd = tm.eq(tm.wrap(1, j), tm.ONE)
        even = tm.not_(odd)
        one = tm.eq(h, tm.ONE)
        neg = tm.eq(gap, C(-1))
        pos = tm.eq(gap, tm.ONE)
        return [
            tm.eq(row, tm.add(e['#n'], C(2))), tm.pow2(h), tm.ge(h, tm.ONE), tm.orb(neg, pos),
            tm.ge(j, tm.ZERO), tm.lt(row, tm.scale(h, 4)), tm.ge(row, C(2)), tm.le(row, e['R']),
            tm.ge(rowa, tm.ZERO), tm.lt(rowa, tm.scale(h, 2)),
            tm.implies(one, tm.andb(tm.eq(step, tm.ONE), pos, tm.eq(rowa, j))),
            tm.implies(tm.not_(one), tm.andb(tm.ge(h, C(2)), tm.eq(tm.wrap(1, h), tm.ZERO), tm.eq(step, tm.sub(h, gap)))),
            tm.implies(tm.andb(tm.not_(one), neg, even), tm.eq(rowa, j)),
            tm.implies(tm.andb(tm.not_(one), neg, odd), tm.orb(tm.eq(rowa, tm.add(h, j)), tm.eq(rowa, tm.sub(j, h)))),
            tm.implies(tm.andb(tm.not_(one), pos, even), tm.orb(tm.andb(tm.eq(j, tm.ZERO), tm.eq(rowa, tm.ZERO)), tm.andb(tm.gt(j, tm.ZERO), tm.eq(rowa, tm.sub(tm.scale(h, 2), j))))),
            tm.implies(tm.andb(tm.not_(one), pos, odd), tm.orb(tm.eq(rowa, tm.sub(h, j)), tm.eq(rowa, tm.sub(tm.scale(h, 3), j)))),
        ]

    def wander0(e, x):
        e['row'] = tm.ZERO
        e['prev'] = tm.sub(e['R'], tm.ONE)
        if mod:
            e['index'] = tm.ZERO

    def tau0(e, x):
        t = tm.add(e['#n:tau'], tm.ONE)
        odd = tm.eq(tm.wrap(1, t), tm.ONE)
        e['step'] = x.ite(odd, tm.add(tm.div(e['R'], 2), C(-1)), C(-1))

    def pick(e, x):
        s = S(e)
        if mod:
            i = tm.sellist(s, tm.wrap(4, e['index']))
            e['index'] = i
            v = tm.sellist(s, tm.wrap(4, i))
        else:
            v = s[0]
        e['rowa'] = tm.and_(64, v, tm.sub(e['R'], tm.ONE))

    def wcol(e, x):
        n = e['#n:wcol']
        p = rd(e, x, e['prev'], n)
        a = rd(e, x, e['rowa'], n)
        setS(e, F1(xor_in(S(e), [tm.addw(64, p[i], a[i]) for i in range(12)])))
        s = S(e)
        o = rd(e, x, e['row'], n)
        wr(e, e['row'], n, [tm.xor(64, o[i], s[i]) for i in range(12)])
        a = rd(e, x, e['rowa'], n)
        r = rotw(s)
        wr(e, e['rowa'], n, [tm.xor(64, a[i], r[i]) for i in range(12)])

    def rowend(e, x):
        e['prev'] = e['row']
        e['row'] = tm.and_(64, x.u64(tm.add(e['row'], e['step'])), tm.sub(e['R'], tm.ONE))

    def wrapup(e, x):
        setS(e, F12(xor_in(S(e), rd(e, x, e['rowa'], tm.ZERO))))
        if end == 'app':
            e['out'] = SQZ(S(e))
        else:
            e['out'] = tm.carr(tm.ZERO)

    def col(e, name):
        return lambda e: tm.lt(e['#n'], e['C'])

    guardC = lambda e: tm.lt(e['#n'], e['C'])
    invC = lambda e: [tm.le(e['#n'], e['C'])]
    varC = lambda e: tm.sub(e['C'], e['#n'])
    needS = tuple(SV) + ('M',)
    inR = lambda e, v: [tm.ge(e[v], tm.ZERO), tm.lt(e[v], e['R'])]
    wv = dict(MV, **sv)
    wi = {'row': ('i', None, None), 'prev': ('i', None, None), 'rowa': ('i', None, None)}
    if mod:
        wi['index'] = ('i', 0, M64)
    rowsinv = lambda e: inR(e, 'row') + inR(e, 'prev')
    prog = [
        SDo(start),
        SLoop('packp', MV, lambda e: tm.lt(e['#n'], e['p8']), [SDo(packp)], lambda e: [tm.le(e['#n'], e['p8'])], lambda e: tm.sub(e['p8'], e['#n']), need=('M',)),
        SLoop('packs', MV, lambda e: tm.lt(e['#n'], e['l8']), [SDo(packs)], lambda e: [tm.le(e['#n'], e['l8'])], lambda e: tm.sub(e['l8'], e['#n']), need=('M',)),
        SDo(basil),
        SLoop('absorb', sv, lambda e: tm.lt(e['#n'], e['nb']), [SDo(absorb)], lambda e: [tm.le(e['#n'], e['nb'])], lambda e: tm.sub(e['nb'], e['#n']), need=tuple(SV)),
        SLoop('row0', wv, guardC, [SDo(row0)], invC, varC, need=needS),
        SLoop('row1', wv, guardC, [SDo(row1)], invC, varC, need=needS),
        SDo(setup0),
        SLoop('setup', dict(wv, row=('i', 0, None), rowa=('i', 0, None), step=('i', None, None), h=('i', 1, None), gap=('i', -1, 1)),
              lambda e: tm.lt(e['row'], e['R']),
              [SLoop('setupcol', wv, guardC, [SDo(setupcol)], invC, varC, need=needS), SDo(setupend)],
              setupinv, lambda e: tm.sub(e['R'], e['row']), need=needS + ('row', 'rowa')),
        SDo(wander0),
        SLoop('tau', dict(wv, **wi), lambda e: tm.lt(e['#n'], e['T']),
              [SDo(tau0),
               SLoop('rows', dict(wv, **wi), lambda e: tm.orb(tm.eq(e['#n'], tm.ZERO), tm.ne(e['row'], tm.ZERO)),
                     [SDo(pick),
                      SLoop('wcol', wv, guardC, [SDo(wcol)], invC, varC, need=needS),
                      SDo(rowend)],
                     lambda e: rowsinv(e) + [tm.implies(tm.gt(e['#n'], tm.ZERO), tm.andb(*inR(e, 'rowa')))],
                     None, 'orbit', need=needS + ('row',))],
              lambda e: [tm.le(e['#n'], e['T']), tm.eq(e['row'], tm.ZERO)] + rowsinv(e) + [tm.implies(tm.gt(e['#n'], tm.ZERO), tm.andb(*inR(e, 'rowa')))],
              lambda e: tm.sub(e['T'], e['#n']), need=needS),
        SDo(wrapup),
    ]
    if end == 'absorb':
        return prog[:5]
    if end == 'loop':
        prog += squeeze_loop(sq)
    return prog


def squeeze_loop(variant=0):
    """number of blocks squeezed: floor(k/96)+1 (variant 0) or ceil(k/96) (variant 1,
    and variant 2, which cuts the last block); the first k bytes are the same"""
    def sq(e, x):
        n = e['#n:sqz']
        if variant == 2:
            rest = tm.sub(e['k'], tm.scale(n, 96))
            ln = x.ite(tm.le(C(96), rest), C(96), rest)
            e['out'] = tm.copy(e['out'], tm.scale(n, 96), tm.larr(squeeze_block(S(e))), tm.ZERO, ln)
            setS(e, F12(S(e)))
            return
        for i, b in enumerate(squeeze_block(S(e))):
            e['out'] = tm.store(e['out'], tm.add(tm.scale(n, 96), C(i)), b)
        setS(e, F12(S(e)))
    nblk = (lambda e: tm.add(tm.div(e['k'], 96), tm.ONE)) if variant == 0 else (lambda e: tm.div(tm.add(e['k'], C(95)), 96))
    return [SLoop('sqz', dict({v: ('i', 0, M64) for v in SV}, out=('a', 0, 255)),
                  lambda e: tm.lt(e['#n'], nblk(e)), [SDo(sq)],
                  lambda e: [tm.le(e['#n'], nblk(e))],
                  lambda e: tm.sub(nblk(e), e['#n']), need=('out',))]


def squeeze_program(variant=0):
    return [SDo(lambda e, x: e.__setitem__('out', tm.carr(tm.ZERO)))] + squeeze_loop(variant)


def litkdf(k, pwd, salt, T, R, Cc, mod=False, rec=None):
    """the specification on literal values: bytes"""
    import loops
    e = {'k': C(k), 'P': C(len(pwd)), 'SL': C(len(salt)), 'T': C(T), 'R': C(R), 'C': C(Cc),
         'pwd': tm.larr([C(x) for x in pwd]), 'salt': tm.larr([C(x) for x in salt])}
    env = loops.spec_concrete(kdf_program(mod, 'loop'), e, rec if rec is not None else {})
    return bytes(tm.select(env['out'], C(i)).a[0] for i in range(k))
