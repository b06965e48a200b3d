"""Runtime values of the symbolic executor (all immutable)."""
import terms as tm
from terms import T


class Undef:
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class Agg:
    """struct / tuple / closure"""
    __slots__ = ('f', 'name')

    def __init__(self, f, name=''):
        self.f = tuple(f)
        self.name = name

    def __repr__(self):
        return '%s{%s}' % (self.name.split('::')[-1], ', '.join(map(repr, self.f)))


class Enum:
    """tag: term giving the variant index; pay: {variant: fields}"""
    __slots__ = ('tag', 'pay', 'name')

    def __init__(self, tag, pay, name=''):
        self.tag = tag
        self.pay = pay
        self.name = name

    def __repr__(self):
        return '%s[%r]%r' % (self.name.split('::')[-1], self.tag, self.pay)


class Arr:
    """fixed-size array"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Arr' + repr(self.items[:20])


class Seq:
    """growable sequence: Vec, Box<[T]>.  items (concrete length) or arr+len"""
    __slots__ = ('items', 'arr', 'len', 'lo', 'hi')

    def __init__(self, items=None, arr=None, len=None, lo=None, hi=None):
        self.items = tuple(items) if items is not None else None
        self.arr = arr
        self.len = tm.C(items.__len__()) if items is not None else len
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        if self.items is not None:
            return 'Seq' + repr(self.items[:12])
        return 'Seq<%r;%r>' % (self.arr, self.len)


class Ref:
    __slots__ = ('fid', 'local', 'proj', 'off', 'len')

    def __init__(self, fid, local, proj=(), off=None, len=None):
        self.fid = fid
        self.local = local
        self.proj = proj
        self.off = off
        self.len = len

    def key(self):
        return (self.fid, self.local, self.proj, self.off, self.len)

    def __repr__(self):
        return '&%s._%s%s%s' % (self.fid, self.local, self.proj or '', '' if self.len is None else '[%r;%r]' % (self.off, self.len))


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class FnItem:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class Iter:
    """library iterator: kind + fields (terms / values)"""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, f):
        self.kind = kind
        self.f = tuple(f)

    def __repr__(self):
        return 'Iter:%s%r' % (self.kind, self.f)


class Opaque:
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return 'Opaque(%s)' % self.what


UNIT = Agg(())


def none(name='Option'):
    return Enum(tm.ZERO, {0: ()}, name)


def some(v, name='Option'):
    return Enum(tm.ONE, {0: (), 1: (v,)}, name)


def opt(cond, v, name='Option'):
    if cond is tm.TT:
        return some(v)
    if cond is tm.FF:
        return none()
    return Enum(tm.ite(cond, tm.ONE, tm.ZERO), {0: (), 1: (v,)}, name)


# ---------------------------------------------------------------- leaves
def leaves(v, path=()):
    """yield (path, term) of every scalar/array term inside v"""
    if isinstance(v, T):
        yield path, v
    elif isinstance(v, (Agg, Iter)):
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (i,))
    elif isinstance(v, Enum):
        yield path + ('tag',), v.tag
        for k in sorted(v.pay):
            for i, x in enumerate(v.pay[k]):
                yield from leaves(x, path + ('v', k, i))
    elif isinstance(v, Arr):
        for i, x in enumerate(v.items):
            yield from leaves(x, path + (i,))
    elif isinstance(v, Seq):
        if v.items is not None:
            for i, x in enumerate(v.items):
                yield from leaves(x, path + (i,))
        else:
            yield path + ('arr',), v.arr
            yield path + ('len',), v.len
    elif isinstance(v, Ref):
        for j, p in enumerate(v.proj):
            if p[0] == 'i':
                yield path + ('p', j), p[1]
        if v.len is not None:
            yield path + ('off',), v.off
            yield path + ('slen',), v.len
    elif isinstance(v, Box):
        yield from leaves(v.v, path + ('box',))
    elif isinstance(v, Opaque) and v.data is not None:
        yield from leaves(v.data, path + ('o',))


def shape(v):
    if isinstance(v, T):
        return v.kind
    if isinstance(v, Agg):
        return ('agg',) + tuple(shape(x) for x in v.f)
    if isinstance(v, Iter):
        return ('it', v.kind) + tuple(shape(x) for x in v.f)
    if isinstance(v, Enum):
        return ('enum',) + tuple((k, tuple(shape(x) for x in v.pay[k])) for k in sorted(v.pay))
    if isinstance(v, Arr):
        return ('arr',) + tuple(shape(x) for x in v.items)
    if isinstance(v, Seq):
        return ('seq', None if v.items is None else tuple(shape(x) for x in v.items))
    if isinstance(v, Ref):
        return ('ref', v.fid, v.local, tuple(p if p[0] != 'i' else ('i',) for p in v.proj), v.len is None)
    if isinstance(v, Box):
        return ('box', shape(v.v))
    if isinstance(v, FnItem):
        return ('fn', v.ty)
    if isinstance(v, Opaque):
        return ('op', v.what, shape(v.data) if v.data is not None else None)
    return ('undef',)


def rebuild(v, m, path=()):
    """copy of v with leaves replaced according to m {path: term}"""
    if isinstance(v, T):
        return m.get(path, v)
    if isinstance(v, Agg):
        return Agg([rebuild(x, m, path + (i,)) for i, x in enumerate(v.f)], v.name)
    if isinstance(v, Iter):
        return Iter(v.kind, [rebuild(x, m, path + (i,)) for i, x in enumerate(v.f)])
    if isinstance(v, Enum):
        return Enum(m.get(path + ('tag',), v.tag), {k: tuple(rebuild(x, m, path + ('v', k, i)) for i, x in enumerate(v.pay[k])) for k in v.pay}, v.name)
    if isinstance(v, Arr):
        return Arr([rebuild(x, m, path + (i,)) for i, x in enumerate(v.items)])
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq([rebuild(x, m, path + (i,)) for i, x in enumerate(v.items)], lo=v.lo, hi=v.hi)
        return Seq(None, m.get(path + ('arr',), v.arr), m.get(path + ('len',), v.len), v.lo, v.hi)
    if isinstance(v, Ref):
        pr = tuple(p if p[0] != 'i' else ('i', m.get(path + ('p', j), p[1])) for j, p in enumerate(v.proj))
        if v.len is not None:
            return Ref(v.fid, v.local, pr, m.get(path + ('off',), v.off), m.get(path + ('slen',), v.len))
        return Ref(v.fid, v.local, pr)
    if isinstance(v, Box):
        return Box(rebuild(v.v, m, path + ('box',)))
    if isinstance(v, Opaque) and v.data is not None:
        return Opaque(v.what, rebuild(v.data, m, path + ('o',)))
    return v
