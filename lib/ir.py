"""In-memory form of the flattened program written by irx, plus CFG analyses.

Operands are tuples: ('i', n) instruction, ('a', n) argument, ('c', int, bits),
('g', name), ('n',) null, ('u',) undef, ('gep', operand, off), ('v', (..)), ...
Everything here only inspects the program; nothing is executed.
"""
import re
from collections import defaultdict, deque


def tup(o):
    k = o[0]
    if k == 'c':
        return ('c', int(o[1]), o[2])
    if k in ('i', 'a', 'b'):
        return (k, o[1])
    if k == 'v':
        return ('v', tuple(tup(x) for x in o[1]))
    if k == 'gep':
        return ('gep', tup(o[1]), o[2])
    if k == 'ce':
        return ('ce', o[1]) + tuple(tup(x) for x in o[2:])
    return tuple(o)


class Instr:
    __slots__ = ('fn', 'id', 'op', 'ty', 'ops', 'raw', 'blk', 'idx', 'callee', 'dem')

    def __init__(self, fn, raw, blk, idx):
        self.fn, self.raw, self.blk, self.idx = fn, raw, blk, idx
        self.id, self.op, self.ty = raw['id'], raw['op'], raw['ty']
        self.ops = [tup(o) for o in raw.get('ops', [])]
        self.callee = raw.get('callee')
        self.dem = raw.get('dem', '')

    def get(self, k, d=None):
        return self.raw.get(k, d)

    @property
    def val(self):
        return ('i', self.id)

    def where(self):
        """file:line of the innermost frame inside the repository."""
        loc = self.raw.get('loc') or []
        for f in loc:
            if '/ruy/' in f[1] or f[1].startswith('ruy/') or '/verif/' in f[1]:
                return '%s:%d' % (short(f[1]), f[2])
        return '%s:%d' % (short(loc[0][1]), loc[0][2]) if loc else '%s:?' % short(self.fn.file)

    def inwhere(self):
        loc = self.raw.get('loc') or []
        for f in loc:
            if '/ruy/' in f[1] or f[1].startswith('ruy/'):
                return f[0]
        return self.fn.name

    def frames(self):
        return self.raw.get('loc') or []

    def __repr__(self):
        return '<%s %%%d b%d %s @%s>' % (self.op, self.id, self.blk, self.callee or '', self.where())


def short(p):
    i = p.find('/ruy/')
    return p[i + 1:] if i >= 0 else p


class Block:
    __slots__ = ('id', 'name', 'succ', 'preds', 'ins')


class Loop:
    __slots__ = ('id', 'header', 'parent', 'depth', 'blocks', 'btc', 'mbtc', 'exits')


class Fn:
    def __init__(self, mod, raw):
        self.mod = mod
        self.name, self.dem = raw['name'], raw['dem']
        self.file = raw.get('file', '')
        self.line = raw.get('line', 0)
        self.tf = raw.get('tf', '')
        self.args = raw['args']
        self.ret = raw['ret']
        self.blocks = {}
        self.byid = {}
        for b in raw['blocks']:
            B = Block()
            B.id, B.name, B.succ, B.preds, B.ins = b['id'], b['name'], list(dict.fromkeys(b['succ'])), [], []
            for k, r in enumerate(b['ins']):
                I = Instr(self, r, B.id, k)
                B.ins.append(I)
                self.byid[I.id] = I
            self.blocks[B.id] = B
        for B in self.blocks.values():
            for s in B.succ:
                self.blocks[s].preds.append(B.id)
        self.loops = []
        for l in raw.get('loops', []):
            L = Loop()
            L.id, L.header, L.parent, L.depth, L.blocks = l['id'], l['header'], l['parent'], l['depth'], set(l['blocks'])
            L.btc, L.mbtc, L.exits = l.get('btc'), l.get('mbtc'), l.get('exits', [])
            self.loops.append(L)
        self.dbg = raw.get('dbg', [])
        self.entry = min(self.blocks)
        self._cache = {}

    # ---- basic access
    def instrs(self):
        for b in sorted(self.blocks):
            for i in self.blocks[b].ins:
                yield i

    def term(self, b):
        return self.blocks[b].ins[-1]

    def inst(self, o):
        return self.byid.get(o[1]) if o and o[0] == 'i' else None

    def calls(self, pat=None):
        for i in self.instrs():
            if i.op in ('call', 'invoke'):
                if pat is None or (i.dem and re.search(pat, i.dem)):
                    yield i

    def uses(self):
        if 'uses' not in self._cache:
            u = defaultdict(list)
            for i in self.instrs():
                for o in i.ops:
                    if o[0] in ('i', 'a'):
                        u[o].append(i)
                if i.op == 'phi':
                    for _, v in i.raw['in']:
                        v = tup(v)
                        if v[0] in ('i', 'a'):
                            u[v].append(i)
                if i.get('cv'):
                    v = tup(i.get('cv'))
                    if v[0] in ('i', 'a'):
                        u[v].append(i)
            self._cache['uses'] = u
        return self._cache['uses']

    def phi_in(self, i):
        return [(b, tup(v)) for b, v in i.raw['in']]

    # ---- blocks that cannot return normally (they end in abort/throw)
    def dead(self):
        if 'dead' not in self._cache:
            live = set()
            work = [b for b in self.blocks if self.term(b).op in ('ret',)]
            # infinite loops (no ret reachable) are kept live as well
            live.update(work)
            while work:
                x = work.pop()
                for p in self.blocks[x].preds:
                    if p not in live:
                        live.add(p)
                        work.append(p)
            self._cache['dead'] = set(self.blocks) - live
        return self._cache['dead']

    # ---- dominators
    def _dom(self, entry, succ, preds, nodes):
        order, seen = [], set()
        st = [(entry, iter(succ(entry)))]
        seen.add(entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ(s))))
                    break
            else:
                order.append(n)
                st.pop()
        rpo = order[::-1]
        num = {n: i for i, n in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                new = None
                for p in preds(n):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    ch = True
        return idom, num

    def idom(self):
        if 'idom' not in self._cache:
            self._cache['idom'] = self._dom(self.entry, lambda b: self.blocks[b].succ,
                                            lambda b: self.blocks[b].preds, self.blocks)[0]
        return self._cache['idom']

    def dominates_b(self, a, b):
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            n = d[b]
            if n == b:
                return False
            b = n

    def dominates(self, x, y):
        """Instruction x dominates instruction y (strictly earlier)."""
        if x.blk == y.blk:
            return x.idx < y.idx
        return self.dominates_b(x.blk, y.blk)

    # ---- reachability at instruction granularity
    def reach_blocks(self, start_blocks, avoid=()):
        seen = set(b for b in start_blocks if b not in avoid)
        work = list(seen)
        while work:
            x = work.pop()
            for s in self.blocks[x].succ:
                if s not in seen and s not in avoid:
                    seen.add(s)
                    work.append(s)
        return seen

    def path(self, src, is_dst, is_barrier=lambda i: False, edge_barrier=lambda b, s: False, start=False):
        """First instruction satisfying is_dst reachable from just after src (an
        Instr, or None for the function entry) without crossing a barrier."""
        seen = set()
        if src is None:
            work = [(self.entry, 0)]
        else:
            work = [(src.blk, src.idx + (0 if start else 1))]
        while work:
            b, k = work.pop()
            B = self.blocks[b]
            stop = False
            for i in B.ins[k:]:
                if is_dst(i):
                    return i
                if is_barrier(i):
                    stop = True
                    break
            if stop:
                continue
            for s in B.succ:
                if edge_barrier(b, s):
                    continue
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        return None

    def all_reach(self, src, is_dst, is_barrier=lambda i: False, edge_barrier=lambda b, s: False):
        out = []
        seen = set()
        work = [(self.entry, 0)] if src is None else [(src.blk, src.idx + 1)]
        while work:
            b, k = work.pop()
            B = self.blocks[b]
            stop = False
            for i in B.ins[k:]:
                if is_dst(i):
                    out.append(i)
                if is_barrier(i):
                    stop = True
                    break
            if stop:
                continue
            for s in B.succ:
                if edge_barrier(b, s):
                    continue
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        return out

    # ---- counting events along paths: (min, max) over all paths src->dst set
    def count_on_paths(self, weight, src=None, stop=lambda i: i.op == 'ret', cap=3):
        """Set of possible event counts (capped) when reaching a stop instruction.
        weight(i) -> int.  Dataflow over sets of counts; returns {stop instr: set}."""
        state = defaultdict(set)
        res = defaultdict(set)
        if src is None:
            start = (self.entry, 0)
        else:
            start = (src.blk, src.idx + 1)
        work = deque()

        def push(b, k, c):
            if k != 0:
                run(b, k, c)
            elif c not in state[b]:
                state[b].add(c)
                work.append((b, c))

        def run(b, k, c):
            for i in self.blocks[b].ins[k:]:
                if stop(i):
                    res[i].add(c)
                    return
                c = min(cap, c + weight(i))
            for s in self.blocks[b].succ:
                push(s, 0, c)
        push(start[0], start[1], 0) if start[1] == 0 else run(start[0], start[1], 0)
        while work:
            b, c = work.popleft()
            run(b, 0, c)
        return res

    # ---- loops
    def innermost(self, b):
        best = None
        for L in self.loops:
            if b in L.blocks and (best is None or L.depth > best.depth):
                best = L
        return best

    def loops_of(self, b):
        return sorted([L for L in self.loops if b in L.blocks], key=lambda L: L.depth)

    def loop(self, i):
        return self.loops[i]

    # ---- addresses
    def addr(self, o):
        """Strips GEPs: (root operand, constant byte offset, ((operand, scale), ...))."""
        off, var = 0, []
        while True:
            if o[0] == 'gep':
                off += o[2]
                o = o[1]
                continue
            if o[0] == 'i':
                i = self.byid[o[1]]
                if i.op == 'getelementptr':
                    off += i.raw['off']
                    var += [(tup(v), s) for v, s in i.raw['var']]
                    o = i.ops[0]
                    continue
                if i.op in ('bitcast', 'addrspacecast'):
                    o = i.ops[0]
                    continue
            break
        return (o, off, tuple(sorted(var, key=repr)))

    def ptr_operand(self, i):
        if i.op == 'load':
            return i.ops[0]
        if i.op == 'store':
            return i.ops[1]
        if i.op in ('atomicrmw', 'cmpxchg'):
            return i.ops[0]
        return None

    # ---- naming of memory by class and member
    def root_types(self):
        """operand -> set of class names that the pointer is known to point to."""
        if 'rt' in self._cache:
            return self._cache['rt']
        m = defaultdict(set)
        for i in self.instrs():
            if i.op == 'getelementptr':
                p = i.raw['path']
                sty = i.raw['sty']
                n = tyname(sty)
                if n:
                    r, off, var = self.addr(i.ops[0])
                    if off == 0 and not var:
                        m[r].add(n)
            if i.op == 'alloca':
                n = tyname(i.raw['aty'])
                if n:
                    m[i.val].add(n)
        for v, name, ty, scope, nexpr in self.dbg:
            if nexpr == 0:
                t = ty.replace('const ', '').strip()
                if t.endswith('*') or t.endswith('&'):
                    r, off, var = self.addr(tup(v))
                    if off == 0 and not var and r[0] in ('i', 'a'):
                        m[r].add(t[:-1].strip())
        self._cache['rt'] = m
        return m

    def fields(self, o):
        """All (class, member) names the address may denote, outermost first."""
        r, off, var = self.addr(o)
        out = []
        T = self.mod.types
        # names from the GEP chain itself
        oo, acc = o, 0
        while oo[0] == 'i' and self.byid[oo[1]].op == 'getelementptr':
            g = self.byid[oo[1]]
            acc += g.raw['off']
            n = tyname(g.raw['sty'])
            if n and not g.raw['var']:
                out += self.mod.members_at(n, acc)
            oo = g.ops[0]
        if not var:
            for n in self.root_types().get(r, ()):
                out += self.mod.members_at(n, off)
        # type of the member the root pointer was loaded from
        return list(dict.fromkeys(out))

    def is_field(self, o, cls, member):
        return (cls, member) in self.fields(o)


def tyname(sty):
    m = re.match(r'^%(?:class|struct|union)\.(.*?)(\.\d+)?$', sty)
    return m.group(1) if m else None


def plain(n):
    return n.replace(' ', '').replace('(anonymousnamespace)', '').replace('::::', '::')


class Module:
    def __init__(self, j):
        self.types = {}
        self.enums = {}
        for t in j.get('types', []):
            if 'enum' in t:
                self.enums[t['enum']] = dict((a, b) for a, b in t['values'])
            else:
                self.types[t['name']] = t
        self.globals = {g['name']: g for g in j.get('globals', [])}
        self.symbols = {s['name']: s for s in j.get('symbols', [])}
        self.fns = {}
        for f in j.get('functions', []):
            self.fns[f['name']] = Fn(self, f)
        self._mcache = {}

    def find(self, pat):
        return [f for f in self.fns.values() if re.search(pat, f.dem)]

    def one(self, pat):
        r = self.find(pat)
        if len(r) != 1:
            from build import AnalysisError
            raise AnalysisError('anchor vanished: %d functions match %s' % (len(r), pat))
        return r[0]

    def type(self, name):
        t = self.types.get(name)
        if t:
            return t
        # template arguments may be printed slightly differently
        k = plain(name)
        if not hasattr(self, '_plain'):
            self._plain = {plain(n): v for n, v in self.types.items()}
        return self._plain.get(k)

    def members_at(self, cls, off):
        key = (cls, off)
        if key in self._mcache:
            return self._mcache[key]
        out = []
        t = self.type(cls)
        if t:
            for name, moff, size, mty, inh, _line in t['members']:
                if moff < 0:
                    continue
                if moff <= off < moff + max(size, 1):
                    if not inh:
                        out.append((cls, name))
                    out += self.members_at(mty.replace('const ', '').replace('volatile ', '').strip(), off - moff)
        self._mcache[key] = out
        return out

    def member(self, cls, name):
        t = self.type(cls)
        if t:
            for m in t['members']:
                if m[0] == name:
                    return m
        return None
