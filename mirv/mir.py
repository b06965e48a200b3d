"""Loads the MIR dump and prepares functions: CFG, natural loops."""
import json


class Fn:
    pass


def succs(term, unwind=False):
    if isinstance(term, str):
        return []
    (k, v), = term.items()
    if k == 'Goto':
        return [v['target']]
    if k == 'SwitchInt':
        return [b for _, b in v['targets']['branches']] + [v['targets']['otherwise']]
    if k in ('Assert', 'Drop'):
        return [v['target']]
    if k == 'Call':
        return [] if v['target'] is None else [v['target']]
    if k in ('InlineAsm',):
        return []
    return []


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = {int(k): v for k, v in d['types'].items()}
        self.allocs = {int(k): v for k, v in d['allocs'].items()}
        self.statics = d['statics']
        self.crate = d['crate']
        self.fns = {}
        self.byname = {}
        self.bydef = {}
        for f in d['fns']:
            g = Fn()
            g.id = f['id']
            g.name = f['name']
            g.dname = f['def']
            g.krate = f['krate']
            g.args = f['args']
            g.intrinsic = f.get('intrinsic')
            g.ty = f['ty']
            g.body = f.get('body')
            g.stopped = f['stopped']
            g.calls = {int(k): v for k, v in f.get('calls', {}).items()}
            g.lines = f.get('lines')
            g.span = f.get('span')
            g.local = f['krate'] == d['crate']
            g.prepped = False
            self.fns[g.id] = g
            self.byname.setdefault(g.name, g)
            self.bydef.setdefault(g.dname, []).append(g)
        self.roots = [self.fns[i] for i in d['roots']]
        self.truncated = d['truncated']
        self.fndefs = {int(k): self.fns[v] for k, v in d.get('fndefs', {}).items()}

    def ty(self, i):
        return self.types[i]

    def prep(self, f):
        if f.prepped:
            return f
        f.prepped = True
        b = f.body
        f.blocks = b['blocks']
        f.nargs = b['arg_count']
        f.localty = [l['ty'] for l in b['locals']]
        n = len(f.blocks)
        f.succ = [succs(x['terminator']['kind']) for x in f.blocks]
        # reachable, postorder
        order, seen = [], set()
        st = [(0, iter(f.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(f.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        rpo = order[::-1]
        num = {x: i for i, x in enumerate(rpo)}
        pred = {x: [] for x in rpo}
        for x in rpo:
            for y in f.succ[x]:
                pred[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                new = None
                for p in pred[x]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(x) != new:
                    idom[x] = new
                    ch = True

        def dom(a, x):
            while True:
                if a == x:
                    return True
                if x == 0:
                    return False
                x = idom[x]
        f.loops = {}
        f.irreducible = False
        for x in rpo:
            for y in f.succ[x]:
                if num[y] <= num[x]:
                    if not dom(y, x):
                        f.irreducible = True
                        continue
                    body = f.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in body:
                            continue
                        body.add(z)
                        st.extend(pred[z])
        # blocks from which a Return is reachable
        rets = [x for x in rpo if f.blocks[x]['terminator']['kind'] == 'Return']
        can = set(rets)
        st = list(rets)
        while st:
            z = st.pop()
            for p in pred[z]:
                if p not in can:
                    can.add(p)
                    st.append(p)
        f.canret = can
        return f

    def intty(self, i):
        """(bits, signed) or None"""
        t = self.types[i]
        if t['k'] == 'int':
            return t['bits'], True
        if t['k'] == 'uint':
            return t['bits'], False
        if t['k'] == 'char':
            return 32, False
        return None

    def tyname(self, i, depth=0):
        t = self.types[i]
        k = t['k']
        if k in ('int', 'uint'):
            return ('i' if k == 'int' else 'u') + str(t['bits'])
        if k == 'adt':
            a = [self.tyname(x['ty'], depth + 1) if 'ty' in x else str(x.get('const')) for x in t['args'] if 'lt' not in x] if depth < 12 else []
            return t['name'] + ('<' + ','.join(a) + '>' if a else '')
        if k in ('ref', 'ptr'):
            return ('&mut ' if t.get('mut') else '&') + self.tyname(t['to'], depth + 1)
        if k == 'array':
            return '[%s;%s]' % (self.tyname(t['elem'], depth + 1), t['len'])
        if k == 'slice':
            return '[%s]' % self.tyname(t['elem'], depth + 1)
        if k == 'tuple':
            return '(' + ','.join(self.tyname(x, depth + 1) for x in t['tys']) + ')'
        if k in ('closure', 'fndef'):
            return k + ':' + t['name']
        return k
