"""Cross-check of the term normaliser (mirv/terms.py) against plain evaluation.

Random expressions are built twice: as values, with Python's own integer
operations, and as terms, through the constructors that rewrite to normal form.
For every expression and several assignments of its atoms the normal form must
evaluate to the same value, lie within the bounds recorded on the term, and have
no bit set outside the bit mask claimed for it.  The same is done for substitution.

    selftest.py [seconds] [seed]
"""
import os
import random
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mirv'))
sys.setrecursionlimit(100000)
import terms as tm
from terms import C

NW = 6          # assignments evaluated at once


class World:
    def __init__(self, rd, tag):
        self.rd = rd
        self.u, self.s, self.b, self.a = [], [], [], []
        self.env = {}
        for i in range(4):
            for w in (8, 32, 64):
                t = tm.var('%su%d_%d' % (tag, w, i), 0, (1 << w) - 1)
                self.atom(t, [rd.choice((rd.getrandbits(w), rd.getrandbits(min(w, 5)), (1 << w) - 1, 0, 1 << rd.randrange(w))) for _ in range(NW)])
                self.u.append((t, self.env[t], w))
        for i in range(3):
            t = tm.var('%ss%d' % (tag, i), -(1 << 20), 1 << 20)
            self.atom(t, [rd.choice((rd.randint(-(1 << 20), 1 << 20), rd.randint(-3, 3))) for _ in range(NW)])
            self.s.append((t, self.env[t]))
        for i in range(3):
            t = tm.bvar('%sb%d' % (tag, i))
            self.atom(t, [rd.random() < .5 for _ in range(NW)])
            self.b.append((t, self.env[t]))
        for i in range(2):
            t = tm.avar('%sa%d' % (tag, i), 0, 255)
            ks = [rd.getrandbits(30) for _ in range(NW)]
            self.atom(t, [(lambda k: lambda j: (k * (j + 77) * 2654435761 >> 7) & 255)(k) for k in ks])
            self.a.append((t, self.env[t]))

    def atom(self, t, v):
        self.env[t] = v


def bits(g, d, w):
    """(term, values) of an unsigned w-bit expression"""
    rd = g.rd
    if d <= 0 or rd.random() < .08:
        r = rd.random()
        if r < .2:
            v = rd.choice((0, 1, (1 << w) - 1, rd.getrandbits(w), 1 << rd.randrange(w), (1 << rd.randrange(1, w + 1)) - 1))
            return C(v), [v] * NW
        c = [x for x in g.u if x[2] <= w]
        t, v, _ = rd.choice([x for x in c if x[2] == w] or c) if r < .9 else rd.choice(c)
        return t, v
    m = (1 << w) - 1
    o = rd.choice(('add', 'addw', 'sub', 'mul', 'xor', 'xor', 'or', 'and', 'not', 'shl', 'shr', 'rot', 'rotor', 'rotadd', 'trunc', 'zext', 'div', 'mod', 'ite', 'bytes', 'sel', 'min', 'shv', 'rots'))
    if o == 'ite':
        (c, cv), (x, xv), (y, yv) = boo(g, d - 1), bits(g, d - 1, w), bits(g, d - 1, w)
        return tm.ite(c, x, y), [b if a else e for a, b, e in zip(cv, xv, yv)]
    if o == 'trunc' and w < 64:
        x, xv = bits(g, d - 1, 64)
        return tm.wrap(w, x), [a & m for a in xv]
    if o == 'zext' and w > 8:
        return bits(g, d - 1, 8 if w == 32 else rd.choice((8, 32)))
    if o == 'sel' and rd.random() < .4:
        # a literal array; what lies beyond it is never read
        l = [bits(g, 0, 8) for _ in range(5)]
        i, iv = ints(g, d - 1)
        a, av = tm.larr([x for x, _ in l]), [[v[j] for _, v in l] for j in range(NW)]
        if rd.random() < .5:
            x, xv = bits(g, d - 2, 8)
            k = rd.randrange(5)
            a = tm.store(a, C(k), x)
            for j in range(NW):
                av[j][k] = xv[j]
        return tm.select(a, tm.mod(i, 5)), [q[j % 5] for q, j in zip(av, iv)]
    if o == 'sel':
        (a, av), (i, iv) = arr(g, d - 1), ints(g, d - 1)
        return tm.select(a, i), [f(j) for f, j in zip(av, iv)]
    x, xv = bits(g, d - 1, w)
    k = rd.choice((1, 7, 8, w // 2, w - 1, rd.randrange(1, w)))
    if o == 'not':
        return tm.xor(w, x, C(m)), [a ^ m for a in xv]
    if o == 'shl':
        return tm.shl(w, x, k), [(a << k) & m for a in xv]
    if o == 'shr':
        return tm.shr(x, k), [a >> k for a in xv]
    if o == 'rot':
        return tm.rot(w, x, k), [((a << k) | (a >> (w - k))) & m for a in xv]
    if o == 'rotor':
        f = rd.choice((tm.or_, tm.xor))
        return f(w, tm.shl(w, x, k), tm.shr(x, w - k)), [((a << k) | (a >> (w - k))) & m for a in xv]
    if o == 'rotadd':
        return tm.addw(w, tm.shl(w, x, k), tm.shr(x, w - k)), [((a << k) | (a >> (w - k))) & m for a in xv]
    if o == 'div':
        c = rd.choice((2, 3, 8, 12, 64, 96, 1 << k))
        return tm.div(x, c), [a // c for a in xv]
    if o == 'mod':
        c = rd.choice((2, 3, 8, 12, 64, 96, 1 << k))
        return tm.mod(x, c), [a % c for a in xv]
    if o == 'bytes':
        n = w // 8
        return tm.add(*[tm.scale(tm.wrap(8, tm.shr(x, 8 * i)), 1 << 8 * (n - 1 - i)) for i in range(n)]), [int.from_bytes(a.to_bytes(n, 'little'), 'big') for a in xv]
    if o == 'shv':
        i, iv = bits(g, 0, 8)
        if rd.random() < .5:
            return tm.shlv(w, x, i), [(a << j) & m if j < w else 0 for a, j in zip(xv, iv)]
        return tm.shrv(w, x, i), [a >> j if j < w else 0 for a, j in zip(xv, iv)]
    if o == 'rots':
        y, yv = bits(g, d - 1, w)
        z = tm.xor(w, tm.rot(w, x, k), tm.rot(w, y, k))
        return z, [((q << k) | (q >> (w - k))) & m for q in [a ^ b for a, b in zip(xv, yv)]]
    y, yv = bits(g, d - 1, w)
    if o == 'add':
        return tm.wrap(w, tm.add(x, y)), [(a + b) & m for a, b in zip(xv, yv)]
    if o == 'addw':
        return tm.addw(w, x, y), [(a + b) & m for a, b in zip(xv, yv)]
    if o == 'sub':
        return tm.wrap(w, tm.sub(x, y)), [(a - b) & m for a, b in zip(xv, yv)]
    if o == 'mul':
        return tm.wrap(w, tm.mul(x, y)), [(a * b) & m for a, b in zip(xv, yv)]
    if o == 'xor':
        return tm.xor(w, x, y), [a ^ b for a, b in zip(xv, yv)]
    if o == 'or':
        return tm.or_(w, x, y), [a | b for a, b in zip(xv, yv)]
    if o == 'and':
        return tm.and_(w, x, y), [a & b for a, b in zip(xv, yv)]
    f = rd.random()
    if f < .25:
        return tm.ite(tm.le(x, y), x, y), [min(a, b) for a, b in zip(xv, yv)]
    if f < .5:
        return tm.ite(tm.lt(x, y), y, x), [max(a, b) for a, b in zip(xv, yv)]
    if f < .75:
        return tm.ite(tm.ge(x, y), y, x), [min(a, b) for a, b in zip(xv, yv)]
    return tm.ite(tm.gt(x, y), x, y), [max(a, b) for a, b in zip(xv, yv)]


def ints(g, d):
    """mathematical integers"""
    rd = g.rd
    if d <= 0 or rd.random() < .1:
        r = rd.random()
        if r < .3:
            v = rd.choice((0, 1, -1, 12, 96, rd.randint(-500, 500)))
            return C(v), [v] * NW
        if r < .7:
            return rd.choice(g.s)
        t, v, _ = rd.choice([x for x in g.u if x[2] <= 32])
        return t, v
    o = rd.choice(('add', 'sub', 'mul', 'scale', 'neg', 'div', 'mod', 'swrap', 'wrap', 'ite', 'gdq', 'gdr', 'bits', 'app'))
    if o == 'bits':
        return bits(g, d - 1, rd.choice((8, 32)))
    x, xv = ints(g, d - 1)
    if o == 'scale':
        k = rd.choice((-12, -1, 2, 3, 8, 12, 96))
        return tm.scale(x, k), [a * k for a in xv]
    if o == 'neg':
        return tm.neg(x), [-a for a in xv]
    if o in ('div', 'mod'):
        c = rd.choice((2, 3, 8, 12, 64, 96))
        return (tm.div(x, c), [a // c for a in xv]) if o == 'div' else (tm.mod(x, c), [a % c for a in xv])
    if o == 'swrap':
        k = rd.choice((8, 32, 64))
        H = 1 << (k - 1)
        return tm.swrap(k, x), [(a + H) % (2 * H) - H for a in xv]
    if o == 'wrap':
        k = rd.choice((1, 8, 32, 64))
        return tm.wrap(k, x), [a % (1 << k) for a in xv]
    y, yv = ints(g, d - 1)
    if o == 'ite':
        c, cv = boo(g, d - 1)
        return tm.ite(c, x, y), [b if a else e for a, b, e in zip(cv, xv, yv)]
    if o in ('gdq', 'gdr'):
        return tm.gdiv(o[2], x, y), [tm.gdiv_val(o[2], a, b) for a, b in zip(xv, yv)]
    if o == 'mul' and d > 2:
        o = 'add'
    if o == 'mul':
        return tm.mul(x, y), [a * b for a, b in zip(xv, yv)]
    if o == 'sub':
        return tm.sub(x, y), [a - b for a, b in zip(xv, yv)]
    return tm.add(x, y), [a + b for a, b in zip(xv, yv)]


def boo(g, d):
    rd = g.rd
    if d <= 0 or rd.random() < .1:
        return rd.choice(g.b)
    o = rd.choice(('le', 'lt', 'ge', 'gt', 'eq', 'ne', 'ule', 'ueq', 'not', 'and', 'or', 'imp', 'beq', 'pow2', 'ite'))
    if o in ('not', 'and', 'or', 'imp', 'beq', 'ite'):
        x, xv = boo(g, d - 1)
        if o == 'not':
            return tm.not_(x), [not a for a in xv]
        y, yv = boo(g, d - 1)
        if o == 'and':
            return tm.andb(x, y), [a and b for a, b in zip(xv, yv)]
        if o == 'or':
            return tm.orb(x, y), [a or b for a, b in zip(xv, yv)]
        if o == 'imp':
            return tm.implies(x, y), [not a or b for a, b in zip(xv, yv)]
        if o == 'beq':
            return tm.beq(x, y), [a == b for a, b in zip(xv, yv)]
        c, cv = boo(g, d - 1)
        return tm.ite(c, x, y), [b if a else e for a, b, e in zip(cv, xv, yv)]
    if o == 'pow2':
        x, xv = bits(g, d - 1, 32)
        return tm.pow2(x), [a > 0 and a & (a - 1) == 0 for a in xv]
    if o in ('ule', 'ueq'):
        w = rd.choice((8, 64))
        (x, xv), (y, yv) = bits(g, d - 1, w), bits(g, d - 1, w)
        return (tm.le(x, y), [a <= b for a, b in zip(xv, yv)]) if o == 'ule' else (tm.eq(x, y), [a == b for a, b in zip(xv, yv)])
    (x, xv), (y, yv) = ints(g, d - 1), ints(g, d - 1)
    f = {'le': (tm.le, lambda a, b: a <= b), 'lt': (tm.lt, lambda a, b: a < b), 'ge': (tm.ge, lambda a, b: a >= b),
         'gt': (tm.gt, lambda a, b: a > b), 'eq': (tm.eq, lambda a, b: a == b), 'ne': (tm.ne, lambda a, b: a != b)}[o]
    return f[0](x, y), [f[1](a, b) for a, b in zip(xv, yv)]


def arr(g, d):
    rd = g.rd
    if d <= 0 or rd.random() < .15:
        return rd.choice(g.a)
    o = rd.choice(('store', 'store', 'store', 'carr', 'shift', 'copy', 'ite'))
    if o == 'carr':
        x, xv = bits(g, 0, 8)
        return tm.carr(x), [(lambda q: lambda i: q)(a) for a in xv]
    a, av = arr(g, d - 1)
    if o == 'store':
        i, iv = rd.choice((lambda: ints(g, 1), lambda: (lambda c: (C(c), [c] * NW))(rd.randrange(-2, 12)),
                           lambda: (lambda t, c: (tm.add(tm.scale(t[0], 12), C(c)), [12 * q + c for q in t[1]]))(rd.choice(g.s), rd.randrange(12))))()
        x, xv = bits(g, d - 2, 8)
        return tm.store(a, i, x), [(lambda f, j, q: lambda n: q if n == j else f(n))(f, j, q) for f, j, q in zip(av, iv, xv)]
    if o == 'shift':
        i, iv = ints(g, 1)
        return tm.shift(a, i), [(lambda f, j: lambda n: f(n + j))(f, j) for f, j in zip(av, iv)]
    b, bv = arr(g, d - 1)
    if o == 'ite':
        c, cv = boo(g, d - 1)
        return tm.ite(c, a, b), [p if k else q for k, p, q in zip(cv, av, bv)]
    (i, iv), (s, sv) = ints(g, 1), ints(g, 1)
    n, nv = bits(g, 1, 8)
    return tm.copy(a, i, b, s, n), [(lambda p, q, j, k, m: lambda z: q(z - j + k) if j <= z < j + m else p(z))(p, q, j, k, m) for p, q, j, k, m in zip(av, bv, iv, sv, nv)]


def check(g, t, v, what):
    for j in range(NW):
        env = lambda a, args, j=j: g.env[a][j]
        r, = tm.evaluate([t], env)
        if t.kind == 'a':
            for i in list(range(-3, 15)) + [g.rd.randint(-600, 600) for _ in range(6)]:
                if r(i) != v[j](i):
                    raise SystemExit('normaliser: %s at index %d: %r gives %r, want %r' % (what, i, t, r(i), v[j](i)))
            continue
        if r != v[j]:
            raise SystemExit('normaliser: %s: %s gives %r, want %r' % (what, tm.show(t, 30), r, v[j]))
        if t.kind == 'i':
            if t.lo is not None and r < t.lo or t.hi is not None and r > t.hi:
                raise SystemExit('normaliser: %s: %s = %r lies outside [%r, %r]' % (what, tm.show(t, 30), r, t.lo, t.hi))
            p = tm.pm(t)
            if p is not None and (r < 0 or r & ~p):
                raise SystemExit('normaliser: %s: %s = %r has bits outside %x' % (what, tm.show(t, 30), r, p))


def run(secs, seed):
    t0 = time.time()
    n = 0
    k = 0
    while time.time() - t0 < secs:
        rd = random.Random('%d/%d' % (seed, k))
        g = World(rd, 'z%d.%d.' % (seed, k))
        k += 1
        for _ in range(60):
            d = rd.randrange(1, 6)
            f, what = rd.choice(((lambda: bits(g, d, 64), 'u64'), (lambda: bits(g, d, 32), 'u32'), (lambda: bits(g, d, 8), 'u8'),
                                 (lambda: ints(g, d), 'int'), (lambda: boo(g, d), 'bool'), (lambda: arr(g, min(d, 4)), 'array')))
            t, v = f()
            check(g, t, v, what)
            n += 1
            # substitution of constants for some atoms
            at = [x for x in tm.atoms_of(t) if x in g.env and x.kind == 'i']
            if at and rd.random() < .5:
                sub = {x: C(g.env[x][0]) for x in at if rd.random() < .6}
                r, = tm.subst([t], sub)
                if t.kind != 'a':
                    e, = tm.evaluate([r], lambda a, args: g.env[a][0])
                    if e != v[0]:
                        raise SystemExit('substitution: %s: %s gives %r, want %r' % (what, tm.show(t, 30), e, v[0]))
                n += 1
    return n


if __name__ == '__main__':
    s = float(sys.argv[1]) if len(sys.argv) > 1 else 20
    sd = int(sys.argv[2]) if len(sys.argv) > 2 else int(os.environ.get('VERIF_SEED', '1'))
    print('normaliser: %d expressions agree with plain evaluation' % run(s, sd))
