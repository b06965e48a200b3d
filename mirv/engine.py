"""Symbolic executor / verification-condition generator over MIR.

Executes the MIR of the real functions path by path.  Calls to functions with a
contract use the contract; loops whose trip count is not a literal are cut at
their head with an invariant (loops.py); everything that could panic is an
obligation."""
import time
import terms as tm
from terms import T, C
from values import *
import loops as _loops


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, stop):
        self.stop = stop


class Frame:
    __slots__ = ('fid', 'fn', 'blk', 'dest', 'target')

    def __init__(self, fid, fn, blk, dest, target):
        self.fid = fid
        self.fn = fn
        self.blk = blk
        self.dest = dest
        self.target = target

    def copy(self):
        return Frame(self.fid, self.fn, self.blk, self.dest, self.target)


class State:
    __slots__ = ('frames', 'stack', 'facts', 'env', 'pos', 'flags')

    def clone(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.stack = [f.copy() for f in self.stack]
        s.facts = self.facts
        s.env = self.env
        s.pos = self.pos
        s.flags = self.flags
        return s

    def fact(self, f):
        if f is not tm.TT and f not in self.facts:
            self.facts = self.facts + (f,)


class Stop:
    """boundary of a nested exploration: one loop iteration, or one call"""

    def __init__(self, fid, head=None, body=None, mode='unroll', depth=0):
        self.fid = fid
        self.head = head
        self.body = body
        self.mode = mode
        self.exit_seen = False
        self.soft = False       # the exit test came after a test of symbolic data in a callee
        self.depth = depth


class Ob:
    __slots__ = ('kind', 'where', 'what', 'ok', 'how', 'info')

    def __init__(self, kind, where, what, ok, how='', info=None):
        self.kind = kind
        self.where = where
        self.what = what
        self.ok = ok
        self.how = how
        self.info = info

    def __repr__(self):
        return '%s %s %s: %s%s' % ('ok  ' if self.ok else 'FAIL', self.kind, self.where, self.what, '' if self.ok else ' ' + str(self.info or ''))


class Engine:
    def __init__(self, prog, prover, contracts=None):
        self.p = prog
        self.pr = prover
        self.contracts = contracts or {}
        self.obs = []
        self.nfid = 0
        self.uid = 0
        self.stops = []
        self.symloops = set()
        self.trace = None
        self.couplings = None
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.panic_ok = False       # panics are allowed outcomes (C09)
        self.consts = {}
        self.steps = 0
        self.maxsteps = 60_000_000
        self.deadline = None
        self.loopfails = []
        self.traces = None
        self.satites = {}
        self.plans = {}
        self.ctxname = ''
        self.lemmas = set()
        self.cex = []
        self.stop_at_end = False    # end a path at the first loop after the specification's last
        self.stopped = []
        import models
        self.models = models

    # ------------------------------------------------------------ obligations
    def ob(self, kind, where, what, ok, how='', info=None):
        self.obs.append(Ob(kind, where, what, ok, how, info))
        return ok

    def note(self, st, cond):
        """parameter values under which an undischarged obligation may fail"""
        if len(self.cex) >= 6:
            return
        try:
            m = self.pr.model(st.facts, tm.not_(cond), ('k', 'T', 'R', 'C', 'P', 'SL', 'n'))
        except Exception:
            m = None
        if m and m not in self.cex:
            self.cex.append(m)

    def decide(self, st):
        return lambda c: self.pr.decide(st.facts, c)

    def prove(self, st, goal):
        return self.pr.prove(st.facts, goal)

    def fresh(self, base, kind='i', lo=None, hi=None):
        self.uid += 1
        n = '%s#%d' % (base, self.uid)
        if kind == 'a':
            return tm.avar(n, lo, hi)
        if kind == 'b':
            return tm.bvar(n)
        return tm.var(n, lo, hi)

    def where(self, st):
        fr = st.stack[-1]
        # innermost frame of the crate itself
        for fr in reversed(st.stack):
            if fr.fn.local:
                break
        ln = fr.fn.lines[fr.blk] if fr.fn.lines else None
        return '%s:%s (%s)' % (ln[0], ln[1], fr.fn.dname) if ln else fr.fn.dname

    # ------------------------------------------------------------ types
    def irange(self, ty):
        it = self.p.intty(ty)
        if it is None:
            return None
        b, s = it
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def towrap(self, ty, x):
        b, s = self.p.intty(ty)
        return tm.swrap(b, x) if s else tm.wrap(b, x)

    def inrange(self, ty, x):
        lo, hi = self.irange(ty)
        return tm.andb(tm.ge(x, C(lo)), tm.le(x, C(hi)))

    def norm(self, st, ty, x):
        """value of mathematical x as type ty under wrapping semantics"""
        b, s = self.p.intty(ty)
        y = tm.swrap(b, x) if s else tm.wrap(b, x)
        if y is x or y.op == 'c':
            return y
        if y.op in ('w', 'sw') and self.controlish(x) and self.prove(st, self.inrange(ty, x)):
            return x
        return y

    def controlish(self, x):
        """cheap test: index-like (worth asking the integer solver)"""
        n = 0
        seen = set()
        todo = [x]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a.op in ('xor', 'or', 'rot', 'sl'):
                return False
            n += 1
            if n > 60:
                return False
            if a.op in ('and', 'sel', 'app', 'st', 'sh', 'cp', 'la', 'ca', 'shv', 'srv', 'gd') or a.op == 'ite' and a.kind == 'a':
                continue
            todo += tm.children(a)
        return True

    # ------------------------------------------------------------ lvalues
    def typeof_place(self, fn, place):
        t = fn.localty[place['local']]
        for e in place['projection']:
            if e == 'Deref':
                tt = self.p.types[t]
                if tt['k'] in ('ref', 'ptr'):
                    t = tt['to']
                elif tt['k'] == 'adt':   # Box
                    t = tt['args'][0]['ty']
                else:
                    raise Unsupported('deref of ' + tt['k'])
            elif 'Field' in e:
                t = e['Field'][1]
            elif 'Index' in e or 'ConstantIndex' in e:
                t = self.p.types[t]['elem']
            elif 'Subslice' in e or 'Downcast' in e:
                pass
            else:
                raise Unsupported('projection %r' % (e,))
        return t

    def lv(self, st, place):
        """resolve a MIR place to a Ref"""
        fr = st.stack[-1]
        r = Ref(fr.fid, place['local'])
        pend = None
        for e in place['projection']:
            if e == 'Deref':
                v = self.read(st, r)
                if isinstance(v, Ref):
                    r = v
                elif isinstance(v, Box):
                    r = Ref(r.fid, r.local, r.proj + (('box',),))
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif 'Field' in e:
                i = e['Field'][0]
                r = Ref(r.fid, r.local, r.proj + ((('vf', pend, i) if pend is not None else ('f', i)),))
                pend = None
            elif 'Downcast' in e:
                pend = e['Downcast']
            elif 'Index' in e:
                i = st.frames[fr.fid][e['Index']]
                r = self.elem(r, i)
            elif 'ConstantIndex' in e:
                ci = e['ConstantIndex']
                off = ci['offset']
                n = self.seqlen(st, r)
                i = tm.sub(n, C(off)) if ci['from_end'] else C(off)
                r = self.elem(r, i)
            elif 'Subslice' in e:
                ss = e['Subslice']
                n = self.seqlen(st, r)
                to = tm.sub(n, C(ss['to'])) if ss['from_end'] else C(ss['to'])
                base = r.off if r.len is not None else tm.ZERO
                r = Ref(r.fid, r.local, r.proj, tm.add(base, C(ss['from'])), tm.sub(to, C(ss['from'])))
            else:
                raise Unsupported('projection %r' % (e,))
        return r

    def elem(self, r, i):
        if r.len is not None:
            return Ref(r.fid, r.local, r.proj + (('i', tm.add(r.off, i)),))
        return Ref(r.fid, r.local, r.proj + (('i', i),))

    def seqlen(self, st, r):
        if r.len is not None:
            return r.len
        v = self.read(st, r)
        return self.vlen(v)

    def vlen(self, v):
        if isinstance(v, Arr):
            return C(len(v.items))
        if isinstance(v, Seq):
            return v.len
        raise Unsupported('length of %r' % (v,))

    def root(self, st, r):
        if r.fid == 'K':
            return self.consts[r.local]
        try:
            return st.frames[r.fid][r.local]
        except KeyError:
            raise Unsupported('read of uninitialised local')

    def read(self, st, r):
        v = self.root(st, r)
        for p in r.proj:
            v = self.proj(st, v, p)
        if r.len is not None:
            # an array seen through a slice view
            if r.len.op != 'c':
                raise Unsupported('read of an unsized value')
            return Arr([self.index(st, v, tm.add(r.off, C(i))) for i in range(r.len.a[0])])
        if v is UNDEF:
            raise Unsupported('read of undefined value at ' + self.where(st))
        return v

    def proj(self, st, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, Agg):
                return v.f[p[1]]
            raise Unsupported('field of %r' % (v,))
        if k == 'vf':
            if isinstance(v, Enum):
                if p[1] not in v.pay:
                    raise Unsupported('variant field')
                return v.pay[p[1]][p[2]]
            raise Unsupported('variant of %r' % (v,))
        if k == 'i':
            return self.index(st, v, p[1])
        if k == 'box':
            if isinstance(v, Box):
                return v.v
            raise Unsupported('box')
        raise Unsupported('proj')

    def index(self, st, v, i):
        items = v.items if isinstance(v, (Arr, Seq)) else None
        if isinstance(v, Seq) and items is None:
            return tm.select(v.arr, i, self.decide(st))
        if items is None:
            raise Unsupported('index of %r' % (v,))
        if i.op == 'c':
            if not 0 <= i.a[0] < len(items):
                raise Unsupported('index out of bounds after check')
            return items[i.a[0]]
        if all(isinstance(x, T) for x in items):
            return tm.sellist(items, i)
        raise Unsupported('symbolic index into aggregates')

    def write(self, st, r, v):
        if r.fid == 'K':
            raise Unsupported('write to constant')
        fr = st.frames[r.fid]
        if not r.proj:
            fr[r.local] = v
            return
        fr[r.local] = self.upd(st, fr.get(r.local, UNDEF), r.proj, v)

    def upd(self, st, old, proj, v):
        if not proj:
            return v
        p = proj[0]
        k = p[0]
        if k == 'f':
            if old is UNDEF:
                raise Unsupported('field write to undefined')
            f = list(old.f)
            f[p[1]] = self.upd(st, f[p[1]], proj[1:], v)
            return Agg(f, old.name)
        if k == 'vf':
            pay = dict(old.pay)
            fl = list(pay[p[1]])
            fl[p[2]] = self.upd(st, fl[p[2]], proj[1:], v)
            pay[p[1]] = tuple(fl)
            return Enum(old.tag, pay, old.name)
        if k == 'box':
            return Box(self.upd(st, old.v, proj[1:], v))
        if k == 'i':
            i = p[1]
            if isinstance(old, Seq) and old.items is None:
                return Seq(None, tm.store(old.arr, i, v), old.len, old.lo, old.hi)
            items = list(old.items)
            if i.op == 'c':
                items[i.a[0]] = self.upd(st, items[i.a[0]], proj[1:], v)
            else:
                if len(proj) > 1 or not isinstance(v, T):
                    raise Unsupported('symbolic index write into aggregates')
                items = [tm.ite(tm.eq(i, C(j)), v, x) for j, x in enumerate(items)]
            if isinstance(old, Arr):
                return Arr(items)
            return Seq(items, lo=old.lo, hi=old.hi)
        raise Unsupported('upd')

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        k = c['kind']
        ty = c['ty']
        if k == 'ZeroSized':
            return self.zst(ty)
        if isinstance(k, dict) and 'Allocated' in k:
            return self.decode(k['Allocated'], 0, ty)
        if isinstance(k, dict) and 'Ty' in k:
            tc = k['Ty']
            kk = tc['kind']
            if isinstance(kk, dict) and 'Value' in kk:
                return self.decode(kk['Value'][1], 0, kk['Value'][0])
        raise Unsupported('constant %r' % (k,))

    def zst(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'fndef':
            return FnItem(ty)
        if t['k'] == 'tuple':
            return Agg([self.zst(x) for x in t['tys']])
        if t['k'] == 'closure':
            return Agg((), 'closure@%d' % ty)
        if t['k'] == 'adt' and t['adt'] == 'struct':
            return Agg([self.zst(f[1]) for f in t['variants'][0]['fields']], t['name'])
        if t['k'] == 'adt' and t['adt'] == 'enum':
            vs = [i for i, x in enumerate(t['variants']) if all(self.inhabited(f[1]) for f in x['fields'])]
            if len(vs) == 1:
                return Enum(C(vs[0]), {vs[0]: tuple(self.zst(f[1]) for f in t['variants'][vs[0]]['fields'])}, t['name'])
        if t['k'] == 'array':
            return Arr([self.zst(t['elem'])] * (t['len'] or 0))
        return Opaque('zst')

    def inhabited(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'never':
            return False
        if t['k'] == 'tuple':
            return all(self.inhabited(x) for x in t['tys'])
        if t['k'] == 'adt' and t['adt'] in ('struct', 'enum'):
            return any(all(self.inhabited(f[1]) for f in x['fields']) for x in t['variants'])
        return True

    def decode(self, al, off, ty):
        t = self.p.types[ty]
        k = t['k']
        by = al['bytes']
        if k in ('int', 'uint', 'char', 'bool'):
            n = t['size']
            bs = by[off:off + n]
            if any(b is None for b in bs):
                return UNDEF
            v = int.from_bytes(bytes(bs), 'little', signed=(k == 'int'))
            return tm.B(v != 0) if k == 'bool' else C(v)
        if k == 'array':
            es = self.p.types[t['elem']]['size']
            return Arr([self.decode(al, off + i * es, t['elem']) for i in range(t['len'])])
        if k == 'tuple' and not t['tys']:
            return UNIT
        if k in ('ref', 'ptr'):
            pv = [p for p in al['provenance']['ptrs'] if p[0] == off]
            if not pv:
                return Opaque('ptr')
            aid = pv[0][1]
            while isinstance(aid, (list, dict)):
                aid = aid[0] if isinstance(aid, list) else next(iter(aid.values()))
            a = self.p.allocs.get(aid)
            if a is None:
                return Opaque('ptr')
            to = self.p.types[t['to']]
            if a['k'] == 'static':
                # constant only if its memory can never be written
                if not a.get('init') or a['init'].get('mutability') != 'Not':
                    raise Unsupported('access to static ' + a['name'])
                a = {'k': 'mem', 'alloc': a['init']}
            if a['k'] != 'mem':
                return Opaque('ptr')
            inner = int.from_bytes(bytes(by[off:off + 8]), 'little')
            if to['k'] in ('slice', 'str'):
                n = int.from_bytes(bytes(by[off + 8:off + 16]), 'little')
                if to['k'] == 'str':
                    self.consts[('alloc', aid, ty, off)] = Opaque('str')
                    return Ref('K', ('alloc', aid, ty, off))
                es = self.p.types[to['elem']]['size']
                v = Arr([self.decode(a['alloc'], inner + i * es, to['elem']) for i in range(n)])
                self.consts[('alloc', aid, ty, off)] = v
                return Ref('K', ('alloc', aid, ty, off), (), tm.ZERO, C(n))
            try:
                v = self.decode(a['alloc'], inner, t['to'])
            except Unsupported:
                return Opaque('ptr')
            self.consts[('alloc', aid, ty, off)] = v
            return Ref('K', ('alloc', aid, ty, off))
        if k == 'adt' and t['adt'] == 'struct' and t['size'] == 0:
            return self.zst(ty)
        offs = ((t.get('fields') or {}).get('Arbitrary') or {}).get('offsets') if isinstance(t.get('fields'), dict) else None
        if k == 'tuple' and offs is not None:
            return Agg([self.decode(al, off + o['num_bits'] // 8, x) for o, x in zip(offs, t['tys'])])
        if k == 'adt' and t['adt'] == 'struct' and offs is not None and len(offs) == len(t['variants'][0]['fields']):
            return Agg([self.decode(al, off + o['num_bits'] // 8, x[1]) for o, x in zip(offs, t['variants'][0]['fields'])], t['name'])
        if k == 'adt' and t['adt'] == 'enum' and isinstance(t.get('vshape'), dict):
            r = self.decode_enum(al, off, t, offs)
            if r is not None:
                return r
        if k == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['fields']) == 1:
            return Agg([self.decode(al, off, t['variants'][0]['fields'][0][1])], t['name'])
        if k == 'adt' and t['adt'] == 'struct' and t['name'].endswith('ops::Range'):
            ft = t['variants'][0]['fields'][0][1]
            sz = self.p.types[ft]['size']
            return Agg([self.decode(al, off, ft), self.decode(al, off + sz, ft)], t['name'])
        return Opaque('const:' + k)

    def decode_enum(self, al, off, t, offs):
        """constant of an enum type, from rustc's own layout of it"""
        vs = t['vshape']
        if 'Single' in vs:
            vi = vs['Single']['index']
            fs = t['variants'][vi]['fields']
            if offs is None or len(offs) != len(fs):
                return None
            return Enum(C(vi), {vi: tuple(self.decode(al, off + o['num_bits'] // 8, x[1]) for o, x in zip(offs, fs))}, t['name'])
        m = vs.get('Multiple')
        if not m or not isinstance(m['tag'], dict) or offs is None:
            return None
        to = off + offs[m['tag_field']]['num_bits'] // 8
        val = list(m['tag'].values())[0].get('value', {})
        if 'Int' in val:
            n = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}.get(val['Int']['length'])
        else:
            n = 8 if 'Pointer' in val else None
        if n is None:
            return None
        bs = al['bytes'][to:to + n]
        if len(bs) != n or any(b is None for b in bs):
            return None
        tag = int.from_bytes(bytes(bs), 'little')
        enc = m['tag_encoding']
        vi = None
        if enc == 'Direct':
            for i, v in enumerate(t['variants']):
                if int(v['discr']) % (1 << (8 * n)) == tag:
                    vi = i
        elif isinstance(enc, dict) and 'Niche' in enc:
            e = enc['Niche']
            lo, hi = e['niche_variants']['start'], e['niche_variants']['end']
            rel = (tag - e['niche_start']) % (1 << (8 * n))
            ptr = any(q[0] == to for q in al['provenance']['ptrs'])
            vi = lo + rel if rel <= hi - lo and not ptr else e['untagged_variant']
        if vi is None:
            return None
        fs, fo = t['variants'][vi]['fields'], m['variants'][vi]['offsets']
        if len(fs) != len(fo):
            return None
        return Enum(C(vi), {vi: tuple(self.decode(al, off + o['num_bits'] // 8, x[1]) for o, x in zip(fo, fs))}, t['name'])

    def operand(self, st, o):
        if 'Copy' in o:
            return self.read(st, self.lv(st, o['Copy']))
        if 'Move' in o:
            return self.read(st, self.lv(st, o['Move']))
        if 'Constant' in o:
            return self.const(st, o['Constant']['const_'])
        if 'RuntimeChecks' in o:
            return tm.FF
        raise Unsupported('operand %r' % (o,))

    def optype(self, fn, o):
        if 'Copy' in o:
            return self.typeof_place(fn, o['Copy'])
        if 'Move' in o:
            return self.typeof_place(fn, o['Move'])
        if 'Constant' in o:
            return o['Constant']['const_']['ty']
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, rv, dty):
        fn = st.stack[-1].fn
        (k, a), = rv.items()
        if k == 'Use':
            return self.operand(st, a[0])
        if k in ('Ref', 'AddressOf', 'Reborrow'):
            pl = a[-1]
            return self.lv(st, pl)
        if k == 'CopyForDeref':
            return self.read(st, self.lv(st, a))
        if k == 'BinaryOp':
            op, x, y = a
            return self.binop(st, op, self.operand(st, x), self.operand(st, y), self.optype(fn, x), dty)
        if k == 'CheckedBinaryOp':
            op, x, y = a
            ty = self.optype(fn, x)
            X, Y = self.operand(st, x), self.operand(st, y)
            r = {'Add': tm.add, 'Sub': tm.sub, 'Mul': tm.mul}[op](X, Y)
            ok = self.inrange(ty, r)
            if ok is not tm.TT and self.prove(st, ok):
                ok = tm.TT
            it = self.p.intty(ty)
            if ok is tm.TT and op == 'Add' and it and not it[1] and (X.op == 'd' or Y.op == 'd'):
                r = tm.addw(it[0], X, Y)
            return Agg((r, tm.not_(ok)))
        if k == 'UnaryOp':
            op, x = a
            X = self.operand(st, x)
            ty = self.optype(fn, x)
            if op == 'Not':
                if X.kind == 'b':
                    return tm.not_(X)
                b, s = self.p.intty(ty)
                if s:
                    return tm.sub(C(-1), X)
                return tm.xor(b, X, C((1 << b) - 1))
            if op == 'Neg':
                return self.norm(st, ty, tm.neg(X))
            if op == 'PtrMetadata':
                if isinstance(X, Ref) and X.len is not None:
                    return X.len
                return UNIT
            raise Unsupported('unop ' + op)
        if k == 'Cast':
            ck, x, ty = a
            if ck == 'BoxDerefTransmute':
                # the pointer inside a box, about to be dereferenced
                pl = x.get('Copy') or x.get('Move')
                if pl is None or not pl['projection'] or 'Field' not in pl['projection'][-1] or pl['projection'][-1]['Field'][0] != 0:
                    raise Unsupported('pointer of a box')
                b = self.lv(st, {'local': pl['local'], 'projection': pl['projection'][:-1]})
                v = self.read(st, b)
                if not isinstance(v, Box):
                    raise Unsupported('pointer of %r' % (v,))
                if isinstance(v.v, Seq):
                    return Ref(b.fid, b.local, b.proj + (('box',),), tm.ZERO, v.v.len)
                return Ref(b.fid, b.local, b.proj + (('box',),))
            X = self.operand(st, x)
            return self.cast(st, ck, X, self.optype(fn, x), ty)
        if k == 'Aggregate':
            return self.aggregate(st, a[0], [self.operand(st, x) for x in a[1]], dty)
        if k == 'Discriminant':
            v = self.read(st, self.lv(st, a))
            ty = self.typeof_place(fn, a)
            return self.discr(v, ty, dty)
        if k == 'Repeat':
            v = self.operand(st, a[0])
            n = self.p.types[dty]['len']
            return Arr([v] * n)
        if k == 'Len':
            return self.seqlen(st, self.lv(st, a))
        if k == 'NullaryOp':
            raise Unsupported('nullary')
        raise Unsupported('rvalue ' + k)

    def discr(self, v, ty, dty=None):
        t = self.p.types[ty]
        if not isinstance(v, Enum):
            raise Unsupported('discriminant of %r' % (v,))
        ds = [int(x['discr']) for x in t['variants']]
        it = self.p.intty(dty) if dty is not None else None
        if it and it[1]:
            ds = [x - (1 << it[0]) if x >> (it[0] - 1) & 1 else x for x in ds]
        elif not it and any(x > 127 for x in ds):
            raise Unsupported('discriminants of unknown sign')
        if v.tag.op == 'c':
            return C(ds[v.tag.a[0]])
        if ds == list(range(len(ds))):
            return v.tag
        def leaf(t, d=0):
            if t.op == 'c':
                return C(ds[t.a[0]])
            if t.op == 'ite' and d < 6:
                x, y = leaf(t.a[1], d + 1), leaf(t.a[2], d + 1)
                return None if x is None or y is None else tm.ite(t.a[0], x, y)
        r = leaf(v.tag)
        if r is not None:
            return r
        r = C(ds[-1])
        for i in range(len(ds) - 2, -1, -1):
            r = tm.ite(tm.eq(v.tag, C(i)), C(ds[i]), r)
        return r

    def aggregate(self, st, kind, ops, dty):
        if kind == 'Tuple':
            return Agg(ops)
        if isinstance(kind, dict):
            (k, a), = kind.items()
            if k == 'Array':
                return Arr(ops)
            if k == 'Adt':
                t = self.p.types[dty]
                if t['k'] != 'adt':
                    raise Unsupported('aggregate type')
                vi = a[1]
                if t['adt'] == 'enum':
                    return Enum(C(vi), {vi: tuple(ops)}, t['name'])
                if t['adt'] == 'union':
                    raise Unsupported('union')
                return Agg(ops, t['name'])
            if k == 'Closure':
                if self.p.types[dty]['k'] != 'closure':
                    raise Unsupported('closure type')
                return Agg(ops, 'closure@%d' % dty)
            if k == 'Tuple':
                return Agg(ops)
            if k == 'RawPtr' and self.p.types[a[0]]['k'] == 'slice' and len(ops) == 2 and isinstance(ops[0], Ref) and ops[0].len is None and ops[0].proj and ops[0].proj[-1][0] == 'i':
                # a slice from its first element and a length: the extent has to lie inside what it points into
                c = Ref(ops[0].fid, ops[0].local, ops[0].proj[:-1])
                i = ops[0].proj[-1][1]
                if not self.prove(st, tm.le(tm.add(i, ops[1]), self.vlen(self.read(st, c)))):
                    raise Unsupported('raw slice of unknown extent')
                return Ref(c.fid, c.local, c.proj, i, ops[1])
            if k == 'RawPtr':
                raise Unsupported('raw pointer aggregate')
        raise Unsupported('aggregate %r' % (kind,))

    def cast(self, st, ck, X, fty, ty):
        if ck == 'IntToInt':
            if X.kind == 'b':
                return tm.ite(X, C(1), C(0))
            if isinstance(X, Enum):
                X = self.discr(X, fty)
            return self.norm(st, ty, X)
        if isinstance(ck, dict) and 'PointerCoercion' in ck:
            if ck['PointerCoercion'] == 'Unsize':
                if isinstance(X, Ref) and X.len is None:
                    v = self.read(st, X)
                    if isinstance(v, Arr):
                        return Ref(X.fid, X.local, X.proj, tm.ZERO, C(len(v.items)))
                    return X
                if isinstance(X, Box) and isinstance(X.v, Arr):
                    lo, hi = None, None
                    return Box(Seq(X.v.items))
                return X
            if ck['PointerCoercion'] in ('ReifyFnPointer', 'MutToConstPointer', 'ArrayToPointer') or 'ClosureFnPointer' in str(ck) or 'ReifyFnPointer' in str(ck):
                return X
        if ck == 'Transmute':
            f, t = self.p.types[fty], self.p.types[ty]
            return self.transmute(X, fty, ty)
        if ck in ('PtrToPtr',):
            return self.ptrcast(st, X, fty, ty)
        raise Unsupported('cast %r' % (ck,))

    def ptrcast(self, st, X, fty, ty):
        if not isinstance(X, Ref):
            return X
        f, t = self.p.types[self.p.types[fty]['to']], self.p.types[self.p.types[ty]['to']]
        if self.p.types[fty]['to'] == self.p.types[ty]['to']:
            return X
        # [T] or T seen as [T; N]: the first N elements from there
        if t['k'] == 'array':
            n = t['len']
            if X.len is not None and f['k'] in ('slice', 'array') and f['elem'] == t['elem']:
                if n is None or not self.prove(st, tm.ge(X.len, C(n))):
                    raise Unsupported('pointer to an array of unknown extent')
                return Ref(X.fid, X.local, X.proj, X.off, C(n))
            if X.len is None and f['k'] == 'array' and f['elem'] == t['elem'] and n is not None and f['len'] is not None and n <= f['len']:
                return Ref(X.fid, X.local, X.proj, tm.ZERO, C(n))
            if X.len is None and self.p.types[fty]['to'] == t['elem'] and X.proj and X.proj[-1][0] == 'i' and n is not None:
                c = Ref(X.fid, X.local, X.proj[:-1])
                i = X.proj[-1][1]
                if self.prove(st, tm.le(tm.add(i, C(n)), self.vlen(self.read(st, c)))):
                    return Ref(c.fid, c.local, c.proj, i, C(n))
            raise Unsupported('pointer cast to an array')
        if f['k'] in ('slice', 'array') and f['elem'] == self.p.types[ty]['to']:
            return self.elem(X, tm.ZERO)
        if t['k'] == 'slice' and f['k'] in ('slice', 'array') and f['elem'] != t['elem']:
            raise Unsupported('pointer cast between slices')
        return X

    def transmute(self, X, fty, ty):
        f, t = self.p.types[fty], self.p.types[ty]
        fi, ti = self.p.intty(fty), self.p.intty(ty)
        if fi and ti:
            return self.towrap(ty, X)
        if fi and t['k'] == 'array' and self.p.types[t['elem']]['k'] == 'uint' and self.p.types[t['elem']]['bits'] == 8:
            X = tm.wrap(fi[0], X)
            return Arr([tm.wrap(8, tm.shr(X, 8 * i)) for i in range(t['len'])])
        if ti and f['k'] == 'array' and self.p.types[f['elem']]['k'] == 'uint' and self.p.types[f['elem']]['bits'] == 8:
            v = tm.add(*[tm.scale(x, 256 ** i) for i, x in enumerate(X.items)])
            return self.towrap(ty, v)
        if f == t:
            return X
        if isinstance(X, Ref):
            return X
        raise Unsupported('transmute')

    def binop(self, st, op, X, Y, ty, dty):
        if not isinstance(X, T) or not isinstance(Y, T):
            raise Unsupported('binop %s on %r %r' % (op, X, Y))
        if X.kind == 'b' or Y.kind == 'b':
            if op == 'Eq':
                return tm.beq(X, Y)
            if op == 'Ne':
                return tm.not_(tm.beq(X, Y))
            if op == 'BitAnd':
                return tm.andb(X, Y)
            if op == 'BitOr':
                return tm.orb(X, Y)
            if op == 'BitXor':
                return tm.not_(tm.beq(X, Y))
            raise Unsupported('bool ' + op)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return {'Lt': tm.lt, 'Le': tm.le, 'Gt': tm.gt, 'Ge': tm.ge, 'Eq': tm.eq, 'Ne': tm.ne}[op](X, Y)
        b, s = self.p.intty(ty)
        if op == 'Add' and not s:
            r = tm.addw(b, X, Y)
            return r if r.op != 'w' else self.norm(st, ty, tm.add(X, Y))
        if op in ('Add', 'Sub', 'Mul'):
            return self.norm(st, ty, {'Add': tm.add, 'Sub': tm.sub, 'Mul': tm.mul}[op](X, Y))
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = {'A': tm.add, 'S': tm.sub, 'M': tm.mul}[op[0]](X, Y)
            ok = self.inrange(ty, r)
            if ok is not tm.TT and not self.prove(st, ok):
                self.ob('panic', self.where(st), 'unchecked arithmetic stays in range', False, info='%s %r' % (op, r))
            return r
        if op in ('BitXor', 'BitOr', 'BitAnd'):
            return self.bitop(st, op, X, Y, b, s)
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if Y.op != 'c':
                Y2 = tm.wrap(b.bit_length() - 1, Y)
                if s:
                    raise Unsupported('variable shift of signed')
                return tm.shlv(b, X, Y2) if op.startswith('Shl') else tm.shrv(b, X, Y2)
            n = Y.a[0] % b
            if op.startswith('Shl'):
                r = tm.scale(X, 1 << n)
                return self.norm(st, ty, r) if s or self.controlish(X) and n < 16 else tm.wrap(b, r)
            return tm.div(X, 1 << n)    # arithmetic for signed = floor
        if op in ('Div', 'Rem'):
            kind = 'q' if op == 'Div' else 'r'
            if Y.op == 'c' and Y.a[0] > 0 and not (X.lo is not None and X.lo >= 0):
                if self.prove(st, tm.ge(X, tm.ZERO)):
                    return tm.div(X, Y.a[0]) if kind == 'q' else tm.mod(X, Y.a[0])
            if kind == 'r' and Y.op != 'c' and self.prove(st, tm.andb(tm.ge(X, tm.ZERO), tm.pow2(Y))):
                return tm.and_(64, X, tm.sub(Y, tm.ONE))
            return tm.gdiv(kind, X, Y)
        if op == 'Cmp':
            return Enum(tm.ite(tm.lt(X, Y), tm.ZERO, tm.ite(tm.eq(X, Y), tm.ONE, C(2))), {0: (), 1: (), 2: ()}, 'Ordering')
        raise Unsupported('binop ' + op)

    def bitop(self, st, op, X, Y, b, s):
        f = {'BitXor': tm.xor, 'BitOr': tm.or_, 'BitAnd': tm.and_}[op]
        if not s:
            return f(b, X, Y)

        def nonneg(x):
            return x.lo is not None and x.lo >= 0 or self.prove(st, tm.ge(x, tm.ZERO))
        nx, ny = nonneg(X), nonneg(Y)

        def u(x, nn):
            return x if nn else tm.wrap(b, x)
        r = f(b, u(X, nx), u(Y, ny))
        if nx and ny or op == 'BitAnd' and (nx or ny):
            return r
        return tm.swrap(b, r)

    # ------------------------------------------------------------ execution
    def new_state(self, facts=()):
        st = State()
        st.frames = {}
        st.stack = []
        st.facts = tuple(facts)
        st.env = {}
        st.pos = None
        st.flags = ()
        return st

    def push(self, st, fn, args, dest, target, rustcall=False):
        if fn.body is None:
            raise Unsupported('no body: ' + fn.name)
        self.p.prep(fn)
        if fn.irreducible:
            raise Unsupported('irreducible control flow in ' + fn.name)
        if len(st.stack) > 60:
            raise Unsupported('call depth')
        self.nfid += 1
        fid = self.nfid
        fr = {}
        n = fn.nargs
        if fn.body.get('spread_arg') is not None and len(args) != n:
            raise Unsupported('spread arg')
        if len(args) != n or rustcall and fn.dname.endswith('}') and '{closure#' in fn.dname.rsplit('::', 1)[1] and len(args) == 2 and isinstance(args[1], Agg) and len(args[1].f) + 1 == n:
            # closure called with tupled arguments ("rust-call")
            if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].f) == n:
                args = [args[0]] + list(args[1].f)
            else:
                raise Unsupported('argument count for ' + fn.name)
        for i, a in enumerate(args):
            fr[i + 1] = a
        st.frames[fid] = fr
        st.stack.append(Frame(fid, fn, 0, dest, target))
        if fn.local:
            self.inlined.add(fn.dname)
        return fid

    def call_fn(self, st, fn, args):
        """run fn to completion from st: list of (state, value)"""
        s = st.clone()
        fid = self.push(s, fn, args, None, None)
        outs = self.explore(s, Stop(fid, depth=len(self.stops)))
        return [(o[1], o[2]) for o in outs if o[0] == 'ret']

    def explore(self, st, stop, first=True):
        """run until the boundary `stop`; returns outcomes"""
        outs = []
        work = [(st, True)]
        self.stops.append(stop)
        nst = len(self.stops)
        try:
            while work:
                s, skip = work.pop()
                while s is not None:
                    del self.stops[nst:]
                    fr = s.stack[-1]
                    if not skip:
                        r = self.arrive(s, stop, outs, work)
                        if r:
                            break
                        fr = s.stack[-1]
                    skip = False
                    s = self.block(s, stop, outs, work)
        finally:
            del self.stops[nst - 1:]
        return outs

    def arrive(self, s, stop, outs, work):
        """at entry of block fr.blk; True if the path was handed over"""
        fr = s.stack[-1]
        b = fr.blk
        if stop.head is not None and fr.fid == stop.fid:
            if b == stop.head:
                outs.append(('back', s))
                return True
            if b not in stop.body and b in fr.fn.canret:
                outs.append(('exit', s))
                return True
        if b in fr.fn.loops:
            for e in self.handle_loop(s):
                work.append((e, True) if False else (e, False))
            return True
        return False

    def handle_loop(self, s):
        fr = s.stack[-1]
        head = fr.blk
        key = (fr.fn.id, head)
        body = fr.fn.loops[head]
        if key not in self.symloops:
            mark = len(self.obs)
            snap = s.clone()
            stop = Stop(fr.fid, head, body, 'unroll', len(self.stops))
            try:
                return self.unroll(s, stop)
            except NeedInvariant as e:
                if e.stop is not stop:
                    raise
                self.symloops.add(key)
                del self.obs[mark:]
                s = snap
        # a loop cut with an invariant inside an unrolled one whose exit test is
        # still ahead: the outer loop is not literal either
        for o in self.stops:
            if o.head is not None and o.mode == 'unroll' and (o.soft or not o.exit_seen):
                raise NeedInvariant(o)
        return _loops.loop_invariant(self, s)

    def unroll(self, s, stop):
        exits = []
        cur = [s]
        n = 0
        tr = None
        if self.trace is not None:
            fr = s.stack[-1]
            tr = []
            self.trace.setdefault(_loops.site(s, stop.head), []).append(tr)
        while cur:
            n += 1
            if n > 200000:
                raise Unsupported('unroll limit')
            nxt = []
            for x in cur:
                if tr is not None:
                    tr.append(_loops.snapshot(self, x))
                stop.exit_seen = stop.soft = False
                outs = self.explore(x, stop)
                kinds = {o[0] for o in outs}
                if 'back' in kinds and 'exit' in kinds:
                    raise NeedInvariant(stop)
                for o in outs:
                    if o[0] == 'back':
                        nxt.append(o[1])
                    elif o[0] == 'exit':
                        exits.append(o[1])
            if len(nxt) > 64:
                raise NeedInvariant(stop)
            cur = nxt
        return exits

    def panic(self, s, what, cond=None):
        """the path reaches a panic (under s.facts)"""
        if self.panic_ok:
            return
        if self.pr.sat(s.facts) is False:
            return
        self.note(s, tm.FF)
        self.ob('panic', self.where(s), what, False, info=self.describe(s))

    def describe(self, s):
        return 'path condition: ' + '; '.join(tm.show(f, 4) for f in s.facts[-6:])

    def block(self, s, stop, outs, work):
        """execute one block; returns the state to continue with (at a new block) or None"""
        fr = s.stack[-1]
        blk = fr.fn.blocks[fr.blk]
        F = s.frames[fr.fid]
        for stt in blk['statements']:
            k = stt['kind']
            if isinstance(k, str):
                continue
            if 'Assign' in k:
                pl, rv = k['Assign']
                self.steps += 1
                if not pl['projection']:
                    v = self.rvalue(s, rv, fr.fn.localty[pl['local']])
                    F[pl['local']] = v
                else:
                    dty = self.typeof_place(fr.fn, pl)
                    v = self.rvalue(s, rv, dty)
                    self.write(s, self.lv(s, pl), v)
            elif 'StorageDead' in k:
                F.pop(k['StorageDead'], None)
            elif 'StorageLive' in k:
                F.pop(k['StorageLive'], None)
            elif 'SetDiscriminant' in k:
                raise Unsupported('SetDiscriminant')
            elif 'Intrinsic' in k:
                if 'Assume' in k['Intrinsic']:
                    continue
                raise Unsupported('intrinsic statement')
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('engine budget')
        t = blk['terminator']['kind']
        if t == 'Return':
            v = F.get(0, UNIT)
            if stop.head is None and fr.fid == stop.fid:
                s.stack.pop()
                del s.frames[fr.fid]
                outs.append(('ret', s, v))
                return None
            s.stack.pop()
            del s.frames[fr.fid]
            if not s.stack:
                outs.append(('ret', s, v))
                return None
            self.write(s, fr.dest, v)
            s.stack[-1].blk = fr.target
            return s
        if t in ('Unreachable',):
            if self.pr.sat(s.facts) is not False:
                self.ob('panic', self.where(s), 'unreachable code is not reached', False)
            return None
        if isinstance(t, str):
            raise Unsupported('terminator ' + t)
        (k, v), = t.items()
        if k == 'Goto':
            fr.blk = v['target']
            return s
        if k == 'Drop':
            fr.blk = v['target']
            return s
        if k == 'Assert':
            c = self.operand(s, v['cond'])
            if not v['expected']:
                c = tm.not_(c)
            if c is tm.TT:
                fr.blk = v['target']
                self.ob('panic', self.where(s), self.assertname(v['msg']), True, 'syntactic')
                return s
            if self.prove(s, c):
                self.ob('panic', self.where(s), self.assertname(v['msg']), True, 'z3')
                fr.blk = v['target']
                return s
            if self.panic_ok:
                if 'overflow' in self.assertname(v['msg']):
                    # a build without overflow checks does not stop here
                    self.ob('reject', self.where(s), self.assertname(v['msg']), False, info='cannot show %s; %s' % (tm.show(c, 5), self.describe(s)))
                s.fact(c)
                if self.pr.sat(s.facts) is False:
                    return None
                fr.blk = v['target']
                return s
            self.note(s, c)
            self.ob('panic', self.where(s), self.assertname(v['msg']), False, info='cannot show %s; %s' % (tm.show(c, 5), self.describe(s)))
            s.fact(c)
            if c is tm.FF or self.pr.sat(s.facts) is False:
                return None
            fr.blk = v['target']
            return s
        if k == 'SwitchInt':
            return self.switch(s, v, stop, work)
        if k == 'Call':
            return self.call(s, v, stop, outs, work)
        raise Unsupported('terminator ' + k)

    def assertname(self, m):
        if isinstance(m, str):
            return m
        k = next(iter(m))
        if k == 'Overflow':
            return 'no overflow in ' + str(m[k][0])
        return {'BoundsCheck': 'index in bounds', 'DivisionByZero': 'divisor not zero', 'RemainderByZero': 'divisor not zero'}.get(k, k)

    def switch(self, s, v, stop, work):
        fr = s.stack[-1]
        d = self.operand(s, v['discr'])
        ty = self.optype(fr.fn, v['discr'])
        br = [(int(x), b) for x, b in v['targets']['branches']]
        oth = v['targets']['otherwise']
        # literal?
        if d is tm.TT or d is tm.FF or d.op == 'c':
            n = (1 if d is tm.TT else 0) if d.kind == 'b' else d.a[0]
            it = self.p.intty(ty) if ty is not None else None
            if it and it[1] and n < 0:
                n += 1 << it[0]
            tgt = oth
            for x, b in br:
                if x == n:
                    tgt = b
                    break
            if stop.head is not None and fr.fid == stop.fid:
                ts = [b for _, b in br] + [oth]
                if any(b not in stop.body and b in fr.fn.canret for b in ts):
                    stop.exit_seen = True
            fr.blk = tgt
            return s
        opts = []
        rest = []
        for x, b in br:
            if d.kind == 'b':
                c = d if x else tm.not_(d)
            else:
                it = self.p.intty(ty)
                if it and it[1] and x >= 1 << (it[0] - 1):
                    x -= 1 << it[0]
                c = tm.eq(d, C(x))
            opts.append((c, b))
            rest.append(tm.not_(c))
        if oth is not None:
            opts.append((tm.andb(*rest), oth))
        # unreachable default
        opts = [(c, b) for c, b in opts if c is not tm.FF]
        if stop.head is not None and fr.fid == stop.fid and stop.mode == 'unroll':
            if any(b not in stop.body and b in fr.fn.canret for c, b in opts):
                raise NeedInvariant(stop)
        for o in self.stops:
            if o.mode == 'unroll' and not o.exit_seen and fr.fid != o.fid:
                o.soft = True
        live = []
        for c, b in opts:
            if c is tm.TT:
                live = [(c, b)]
                break
            r = self.pr.sat(s.facts, c)
            if r is False:
                continue
            live.append((c, b))
        if not live:
            return None
        out = None
        for i, (c, b) in enumerate(live):
            n = s if i == len(live) - 1 else s.clone()
            n.fact(c)
            if self.satites:
                _loops.resolve(self, n)
            n.stack[-1].blk = b
            if i == len(live) - 1:
                out = n
            else:
                work.append((n, False))
        return out

    # ------------------------------------------------------------ calls
    def call(self, s, v, stop, outs, work):
        fr = s.stack[-1]
        c = fr.fn.calls.get(fr.blk)
        args = [self.operand(s, a) for a in v['args']]
        if c is None:
            f = self.operand(s, v['func']) if 'Constant' not in v['func'] else None
            if not isinstance(f, FnItem) and not (isinstance(f, Agg) and f.name.startswith('closure@') and not f.f):
                raise Unsupported('indirect call')
            if v['target'] is None:
                raise Unsupported('indirect call of a diverging function')
            dest = self.lv(s, v['destination'])
            nxt = None
            for i, (x, _, val) in enumerate(self.models.call_closure(self, s, f, args)):
                x.stack[-1].blk = v['target']
                self.write(x, dest, val)
                if i == 0:
                    nxt = x
                else:
                    work.append((x, False))
            return nxt
        fn = self.p.fns[c['fn']]
        if v['target'] is None or self.models.is_panic(fn):
            self.panic(s, 'explicit panic is not reached: ' + fn.dname)
            return None
        dest = self.lv(s, v['destination'])
        dty = self.typeof_place(fr.fn, v['destination'])
        res = self.dispatch(s, fn, args, dty)
        if res is None:
            self.push(s, fn, args, dest, v['target'], True)
            s.stack[-1].blk = 0
            return s
        # list of (state, value)
        nxt = None
        for i, (x, val) in enumerate(res):
            x.stack[-1].blk = v['target']
            self.write(x, dest, val)
            if i == 0:
                nxt = x
            else:
                work.append((x, False))
        return nxt

    def dispatch(self, s, fn, args, dty):
        """contract or library model: list of (state, value), or None to inline"""
        ct = self.contracts.get(fn.dname) if fn.local and len(self.p.bydef[fn.dname]) == 1 else None
        if ct is not None:
            r = ct.apply(self, s, fn, args)
            if r is not None:
                self.used_contracts.add(fn.dname)
                return [(s, r)]
        m = self.models.find(self, fn)
        if m is not None:
            r = m(self, s, fn, args, dty)
            if r is NotImplemented:
                return None
            if isinstance(r, list):
                return r
            return [(s, r)]
        return None

    def require(self, st, kind, what, cond):
        """obligation cond at the current point; False if the path ends here"""
        if cond is tm.TT:
            self.ob(kind, self.where(st), what, True, 'syntactic')
            return True
        if self.prove(st, cond):
            self.ob(kind, self.where(st), what, True, 'z3')
            return True
        if not self.panic_ok:
            self.note(st, cond)
            self.ob(kind, self.where(st), what, False, info='cannot show %s; %s' % (tm.show(cond, 5), self.describe(st)))
        st.fact(cond)
        if cond is tm.FF or self.pr.sat(st.facts) is False:
            return False
        return True

    def decide_u(self, st, cond, under):
        r = self.pr.decide(st.facts + ((under,) if under is not tm.TT else ()), cond)
        return tm.TT if r is True else tm.FF if r is False else None

    def item_fn(self, ty):
        f = self.p.fndefs.get(ty)
        if f is None:
            raise Unsupported('fn item as a value')
        return f

    def ret_ty(self, fn):
        if fn.body is not None:
            self.p.prep(fn)
            return fn.localty[0]
        return None

    def closure_fn(self, name):
        """the body of a closure: the instance for exactly this closure type (a closure in a generic
        function has one type, and one body, per instance of that function)"""
        if not name.startswith('closure@'):
            raise Unsupported('call of ' + name)
        ty = int(name[8:])
        out = []
        for f in self.p.bydef.get(self.p.types[ty]['name'], []):
            if f.body is None:
                continue
            self.p.prep(f)
            t = f.localty[1]
            if self.p.types[t]['k'] in ('ref', 'ptr'):
                t = self.p.types[t]['to']
            if t == ty and f not in out:
                out.append(f)
        if len(out) != 1:
            raise Unsupported('closure body ' + self.p.types[ty]['name'])
        return out[0]

    def check(self, st, kind, where, what, cond):
        if cond is tm.TT:
            return self.ob(kind, where, what, True, 'syntactic')
        if self.prove(st, cond):
            return self.ob(kind, where, what, True, 'z3')
        self.note(st, cond)
        return self.ob(kind, where, what, False, info='cannot show %s; %s' % (tm.show(cond, 5), self.describe(st)))

    def leafname(self, st, k):
        d, l, p = k
        fn = st.stack[d].fn
        nm = None
        if isinstance(l, int):
            nm = (getattr(fn, 'varnames', None) or {}).get(l)
        return '%s%s' % (nm or '_%s' % (l,), ''.join('.%s' % x for x in p))

    def points(self, st):
        """{atom: constant} for the atoms that the path facts fix outright"""
        m = {}
        todo = list(st.facts)
        while todo:
            f = todo.pop()
            if f.op == 'andb':
                todo += f.a
            elif f.op == 'eq':
                x = f.a[0]
                if x.op == 'p' and len(x.a[1]) == 1 and len(x.a[1][0][0]) == 1 and x.a[1][0][1] in (1, -1):
                    m[x.a[1][0][0][0]] = C(-x.a[0] * x.a[1][0][1])
                elif x.op != 'p' and x.op != 'c':
                    m[x] = tm.ZERO
        return {x: v for x, v in m.items() if x.op in ('v', 'sel')}

    def equal(self, st, a, b):
        """a == b for integer terms"""
        if a is b:
            return True
        if a.op == 'ite' or b.op == 'ite':
            a, b = self.resolve(st, a), self.resolve(st, b)
            if a is b:
                return True
        if self.controlish(a) and self.controlish(b):
            return self.prove(st, tm.eq(a, b))
        dec = self.decide(st)
        a, b = tm.subst([a, b], self.points(st), dec)
        if a is b:
            return True
        import sweep
        return sweep.equal(self, st, a, b)

    def resolve(self, st, t):
        while t.op == 'ite':
            r = self.pr.decide(st.facts, t.a[0])
            if r is None:
                return t
            t = t.a[1] if r else t.a[2]
        return t

    def copied_tail(self, st, a, b, ln):
        """a = x with n items of a literal array copied to [d, d+n), d+n >= ln: equal to b on [0, ln) if x is
        b without its stores from d on, and b's items from d on are the literal's"""
        x, d, src, s, n = a.a
        if src.op != 'la' or s.op != 'c' or len(src.a[0]) > 256:
            return False
        items = src.a[0][s.a[0]:]
        if not (self.prove(st, tm.le(ln, tm.add(d, n))) and self.prove(st, tm.le(n, C(len(items))))):
            return False
        dec = self.decide(st)
        for j, v in enumerate(items):
            y = tm.select(b, tm.add(d, C(j)), dec)
            if y is not v and not self.equal(st, y, v):
                return False
        while b.op == 'st' and self.prove(st, tm.le(d, b.a[1])):
            b = b.a[0]
        return self.arr_equal(st, x, b)

    def arr_equal(self, st, a, b, ln=None):
        """arrays equal on [0, ln): same base, same content at every written index"""
        if a is b:
            return True
        idx = {}
        def strip(x):
            while True:
                if x.op == 'st':
                    idx[x.a[1]] = 1
                    x = x.a[0]
                elif x.op == 'ite':
                    r = self.pr.decide(st.facts, x.a[0])
                    if r is None:
                        return x
                    x = x.a[1] if r else x.a[2]
                else:
                    return x
        ba, bb = strip(a), strip(b)
        if ba is not bb:
            return ln is not None and a.op == 'cp' and self.copied_tail(st, a, b, ln)
        dec = self.decide(st)
        for i in idx:
            x, y = tm.select(a, i, dec), tm.select(b, i, dec)
            if x is not y and not self.equal(st, x, y):
                return False
        return True
