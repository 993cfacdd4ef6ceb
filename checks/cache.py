"""K01-K04: the cache of packed operands."""
import re
from build import flatten, AnalysisError
from ir import Module, tup
from sym import Poly, P, entails
from cases import Cases, TooMany
from mem import Mem, is_memcpy, is_memset, store_size, tysize

CACHE = 'ruy::PrepackedCache'
MAPOPS = r'std::unordered_map<ruy::PrepackedCache::Key.*>::(find|emplace|insert|erase|operator\[\]|at|try_emplace|extract|insert_or_assign|count|clear)'
KEEP = [MAPOPS, r'^ruy::(TrMul\(|profiler|detail::System|Allocator::|Ctx::|TuningResolver::)']


def leaves(mod, name, off=0):
    """(offset, size, member path) of every scalar inside a class."""
    t = mod.type(name.replace('const ', '').replace('volatile ', '').strip())
    if t and t['members']:
        out = []
        for m in t['members']:
            if m[1] < 0:
                continue
            for (o, s, p) in leaves(mod, m[3], off + m[1]) or [(off + m[1], scalar(mod, m), ())]:
                out.append((o, s, (m[0],) + p))
        return out
    return []


def bools(mod, name, off=0):
    out = []
    for m in (mod.type(name) or {'members': []})['members']:
        out += [off + m[1]] if m[3] == 'bool' else bools(mod, m[3], off + m[1])
    return out


def scalar(mod, m):
    if m[2]:
        return m[2]
    ty = m[3].replace('const ', '')
    return {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'bool': 1, 'char': 1, 'signed char': 1,
            'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'float': 4, 'double': 8}.get(ty, 8 if '*' in ty else 4)


def same_addr(a, b):
    return a[0] == b[0] and a[2] == b[2]


class Front:
    """The preparation of packed operands with the cache inlined."""

    def __init__(self):
        self.mod = m = Module(flatten(roots=[r'^ruy::MulFrontEndFromTrMulParams\(', r'^ruy::PrepackedCache::~PrepackedCache'], keep=KEEP, tag='k'))
        self.fn = fn = m.one(r'^ruy::MulFrontEndFromTrMulParams\(')
        t = m.type(CACHE)
        if not t:
            raise AnalysisError('anchor vanished: class of the packed-operand cache')
        mp = [x for x in t['members'] if x[3].startswith('std::unordered_map<')]
        if len(mp) != 1:
            raise AnalysisError('anchor vanished: hash map member of the packed-operand cache')
        self.map = mp[0]
        args = targs(mp[0][3])
        self.key, self.entry, self.hash, self.eq = args[0], args[1], args[2], args[3]
        e = m.type(self.entry)
        pm = [x for x in e['members'] if x[3] == 'ruy::PEMat']
        if len(pm) != 1:
            raise AnalysisError('anchor vanished: packed matrix inside the cache entry')
        ksize = m.type(self.key)['size'] if 'size' in m.type(self.key) else max(o + s for o, s, _ in leaves(m, self.key))
        al = 8
        self.koff = 8                                        # after the hash node's link
        self.eoff = self.koff + (ksize + al - 1) // al * al  # the entry follows the key
        self.pmoff = pm[0][1]
        self.mem = Mem(fn)
        self.finds = [i for i in fn.calls() if re.search(r'>::find\b', i.dem) and self.onmap(i)]
        self.inserts = [i for i in fn.calls() if re.search(r'>::(emplace|insert|try_emplace|insert_or_assign)\b', i.dem) and self.onmap(i)]
        self.erases = [i for i in fn.calls() if re.search(r'>::(erase|extract)\b', i.dem) and self.onmap(i)]
        self.packs = [i for i in fn.calls() if i.callee is None and len(i.ops) == 5]
        if not self.finds or not self.inserts or not self.packs:
            raise AnalysisError('anchor vanished: cache look-up, insertion or packing call')
        self.allocs = list(fn.calls(r'^ruy::detail::SystemAlignedAlloc'))
        self.frees = list(fn.calls(r'^ruy::detail::SystemAlignedFree'))

    def onmap(self, i):
        return self.key in i.dem

    def pack_of(self, x):
        """The packing call that follows x on the way (its source and target name the operand)."""
        fn = self.fn
        ps = [p for p in self.packs if fn.path(x, lambda i, p=p: i is p, lambda i: i in self.packs and i is not p or i in self.finds) is not None]
        if len(ps) != 1:
            return None
        return ps[0]

    def rel(self, o, base):
        """Offset of address o inside the object at base, or None."""
        a, b = self.fn.addr(o), self.fn.addr(base)
        if a[0] == b[0] and a[2] == b[2]:
            return a[1] - b[1]
        ca, cb = Cases(self.fn)(o), Cases(self.fn)(base)
        if len(ca) == 1 and len(cb) == 1:
            d = ca[0][0] - cb[0][0]
            if d.is_const():
                return d.cval()
        return None


def targs(s):
    """Template arguments of a type name."""
    s = s[s.index('<') + 1:s.rindex('>')]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


# ---------------------------------------------------------------- equality
class Differ:
    """Abstract run of a comparison whose two arguments agree except in bytes
    [off, off+size), which differ: values are zero, nonzero or unknown."""

    def __init__(self, fn, off, size, rest_equal=True):
        self.fn, self.off, self.size, self.rest = fn, off, size, rest_equal
        self.memo = {}

    def cover(self, o, n):
        return o <= self.off and self.off + self.size <= o + n

    def disjoint(self, o, n):
        return o + n <= self.off or self.off + self.size <= o

    def pair(self, a, b):
        """Operands are corresponding pieces of the two arguments: (offset, size)."""
        fn = self.fn
        x, y = fn.inst(a), fn.inst(b)
        if x is None or y is None:
            return None
        if x.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast') and y.op == x.op and x.ty == y.ty:
            p = self.pair(x.ops[0], y.ops[0])
            return None if p and x.op == 'trunc' else p
        if x.op == 'load' and y.op == 'load' and x.ty == y.ty:
            ra, oa, va = fn.addr(x.ops[0])
            rb, ob, vb = fn.addr(y.ops[0])
            if ra != rb and ra in self.objs and rb in self.objs and oa == ob and not va and not vb:
                return (oa, tysize(x.ty))
        return None

    def diff(self, p):
        """Is there a difference in the piece: True, False, None."""
        if p is None or p[1] is None:
            return None
        if self.cover(*p):
            return True
        if self.disjoint(*p):
            return False if self.rest else None
        return None

    def truth(self, o):
        if o[0] == 'c':
            return o[1] != 0
        if o in self.memo:
            return self.memo[o]
        self.memo[o] = None
        r = self._truth(o)
        self.memo[o] = r
        return r

    def _truth(self, o):
        fn = self.fn
        i = fn.inst(o)
        if i is None:
            return None
        if i.op == 'icmp':
            d = self.diff(self.pair(i.ops[0], i.ops[1]))
            p = i.raw['pred']
            if d is not None and p in ('eq', 'ne'):
                return d if p == 'ne' else not d
            if i.ops[1] == ('c', 0, i.ops[1][2]) if i.ops[1][0] == 'c' else False:
                z = self.truth(i.ops[0])
                if z is not None and p in ('eq', 'ne'):
                    return z if p == 'ne' else not z
            return None
        if i.op == 'xor' or i.op == 'sub':
            d = self.diff(self.pair(i.ops[0], i.ops[1]))
            if d is not None:
                return d
            if i.op == 'xor' and i.ops[1][0] == 'c' and i.ty == 'i1':
                z = self.truth(i.ops[0])
                return None if z is None else not z
            return None
        if i.op == 'or':
            a, b = self.truth(i.ops[0]), self.truth(i.ops[1])
            return True if a or b else (False if a is False and b is False else None)
        if i.op == 'and':
            a, b = self.truth(i.ops[0]), self.truth(i.ops[1])
            if a is False or b is False:
                return False
            return True if a and b and i.ty == 'i1' else None
        if i.op in ('zext', 'sext', 'freeze'):
            return self.truth(i.ops[0])
        if i.op == 'trunc':
            return self.truth(i.ops[0]) if self.truth(i.ops[0]) is False else None
        if i.op == 'select':
            c = self.truth(i.ops[0])
            if c is True:
                return self.truth(i.ops[1])
            if c is False:
                return self.truth(i.ops[2])
            a, b = self.truth(i.ops[1]), self.truth(i.ops[2])
            return a if a == b else None
        if i.op == 'call' and i.callee in ('memcmp', 'bcmp') and i.ops[2][0] == 'c':
            ra, oa, va = fn.addr(i.ops[0])
            rb, ob, vb = fn.addr(i.ops[1])
            if ra != rb and ra in self.objs and rb in self.objs and oa == ob and not va and not vb:
                return self.diff((oa, i.ops[2][1]))
            return None
        if i.op == 'phi':
            vs = {self.truth(v) for b, v in fn.phi_in(i) if self.edge_ok(b, i.blk)}
            return vs.pop() if len(vs) == 1 else None
        return None

    def edge_ok(self, b, s):
        if b not in self.feas:
            return False
        t = self.fn.term(b)
        if t.op == 'br' and len(t.ops) == 3:
            c = self.truth(t.ops[0])
            if c is not None and t.ops[1][1] != t.ops[2][1]:
                return s == (t.ops[2][1] if c else t.ops[1][1])
        return True

    def results(self):
        """Possible truth values returned."""
        fn = self.fn
        self.feas = set()
        self.objs = [('a', k) for k, a in enumerate(fn.args) if a['ty'] == 'ptr'][-2:]
        out = set()
        work = [fn.entry]
        while True:
            self.feas = set()
            # blocks feasible under the current knowledge (monotone: few rounds)
            work = [fn.entry]
            self.memo = {}
            order = []
            self.feas = set(fn.reach_blocks([fn.entry]))
            seen = {fn.entry}
            while work:
                b = work.pop()
                order.append(b)
                for s in fn.blocks[b].succ:
                    if s not in seen and self.edge_ok(b, s):
                        seen.add(s)
                        work.append(s)
            self.feas = seen
            self.memo = {}
            for b in seen:
                t = fn.term(b)
                if t.op == 'ret' and t.ops:
                    out.add(self.truth(t.ops[0]))
            return out


def compared(rep, F):
    """Byte ranges of the key whose difference makes two keys unequal."""
    eqs = F.eq
    pat = r'%s::operator\(\)\(' % re.escape(eqs)
    m = Module(flatten(roots=[pat], tag='keq'))
    fs = m.find(pat)
    if len(fs) != 1:
        raise AnalysisError('anchor vanished: comparison of cache keys (%d)' % len(fs))
    fn = fs[0]
    rep.units.append('%s %s' % (fn.dem[:100], fn.file))
    out = []
    for (o, s, p) in leaves(F.mod, F.key):
        r = Differ(fn, o, s, rest_equal=False).results()
        if r == {False}:
            out.append((o, s, p))
            rep.ok('K01.equal', 'key member %s' % '.'.join(p))
        else:
            rep.notes.append('key member %s is not compared' % '.'.join(p))
    return out


def packing_reads(rep):
    """Bytes of the source and packed descriptors that any packing routine reads,
    and the scalar types that select the routine."""
    m = Module(flatten(roots=[r'^void ruy::RunPack<'], keep=[r'^ruy::profiler'], tag='rp'))
    fs = m.find(r'^void ruy::RunPack<')
    if not fs:
        raise AnalysisError('anchor vanished: packing routines')
    rd = {1: {}, 2: {}}
    src_types = {}
    for fn in fs:
        rep.units.append('packing routine ' + fn.dem[:110])
        ta = targs(fn.dem[:fn.dem.index('>(') + 1])
        src_types.setdefault(ta[1], set()).add(ta[2])
        for i in fn.instrs():
            if i.op == 'load':
                r, off, var = fn.addr(i.ops[0])
                if r in (('a', 1), ('a', 2)) and not var:
                    for k in range(off, off + (tysize(i.ty) or 1)):
                        rd[r[1]].setdefault(k, i)
                elif r in (('a', 1), ('a', 2)):
                    rd[r[1]].setdefault(None, i)
            elif is_memcpy(i):
                r, off, var = fn.addr(i.ops[1])
                if r in (('a', 1), ('a', 2)) and not var and i.ops[2][0] == 'c':
                    for k in range(off, off + i.ops[2][1]):
                        rd[r[1]].setdefault(k, i)
            elif i.op == 'call':
                for o in i.ops:
                    if o[0] in ('i', 'a') and fn.addr(o)[0] in (('a', 1), ('a', 2)) and not (i.callee or '').startswith('llvm.'):
                        rd[fn.addr(o)[0][1]].setdefault(None, i)
    return m, fs, rd, src_types


def recoverable(fn, o):
    """The load an operand is a one-to-one image of (on the scalar's range), or None."""
    i = fn.inst(o)
    while i is not None:
        if i.op == 'load':
            return i
        if i.op in ('sext', 'zext', 'freeze', 'sitofp', 'fptosi', 'uitofp', 'fpext', 'fptrunc', 'fptoui', 'trunc'):
            o = i.ops[0]
        elif i.op in ('add', 'sub', 'xor') and i.ops[1][0] == 'c':
            o = i.ops[0]
        elif i.op in ('ashr', 'lshr') and i.ops[1][0] == 'c' and i.ops[1][1] <= 24:
            j = fn.inst(i.ops[0])
            if j is None or j.op != 'shl' or j.ops[1] != i.ops[1]:
                return None
            o = j.ops[0]
        elif i.op == 'and' and i.ops[1][0] == 'c' and i.ops[1][1] & 0xff == 0xff:
            o = i.ops[0]
        else:
            return None
        i = fn.inst(o)
    return None


def derived(F):
    """Members of the packed descriptor that determine a member of the source
    descriptor, in every instantiation: {packed offset: source offset}."""
    m = Module(flatten(roots=[r'CreatePackedMatrix<'], tag='cpm'))
    fs = m.find(r'CreatePackedMatrix<')
    if not fs:
        raise AnalysisError('anchor vanished: creation of packed descriptors')
    T = m.type('ruy::TrMulParams')
    po = next(x[1] for x in T['members'] if x[3] == 'ruy::SidePair<ruy::PEMat>')
    so = next(x[1] for x in T['members'] if x[3] == 'ruy::SidePair<ruy::EMat>')
    res = None
    for fn in fs:
        stores = {}
        for i in fn.instrs():
            if i.op == 'store':
                stores.setdefault(fn.addr(i.ops[1]), []).append(i)

        def inner(a, base):
            return a[1] - base if 'ruy::TrMulParams' in fn.root_types().get(a[0], ()) else a[1]
        cur = {}
        for d, ss in stores.items():
            j = recoverable(fn, ss[0].ops[0]) if len(ss) == 1 else None
            if j is not None:
                l = fn.addr(j.ops[0])
                if l[2] and d[2] and [v for v, _ in l[2]] != [v for v, _ in d[2]]:
                    continue
                cur[inner(d, po)] = inner(l, so)
        res = cur if res is None else {k: v for k, v in res.items() if cur.get(k) == v}
    return res or {}


def k01(rep, tier):
    rep.rule('K01.equal', 'a difference in this key member makes two keys unequal (all other members arbitrary)')
    rep.rule('K01.lookup', 'the key looked up and the key inserted are the same object, unchanged in between')
    rep.rule('K01.complete', 'everything a packing routine reads of the source matrix and of the packed layout is in a compared key member')
    rep.rule('K01.type', 'the scalar type of the source, which selects the packing routine, is in compared key members')
    rep.rule('K01.hit', 'on a hit the packed descriptor is replaced by the one stored in the entry found, whole')
    rep.rule('K01.store', 'the entry inserted holds the packed descriptor after its buffers were allocated, whole')
    F = Front()
    fn = F.fn
    rep.units.append('%s (with PreparePackedMatrices and the cache inlined)' % fn.dem)
    cmp_ = compared(rep, F)
    m, fs, rd, src_types = packing_reads(rep)
    EM, PM = m.type('ruy::EMat'), m.type('ruy::PEMat')
    if not EM or not PM:
        raise AnalysisError('anchor vanished: matrix descriptors')
    for f in F.finds:
        pk = None
        ins = [x for x in F.inserts if fn.path(f, lambda i, x=x: i is x, lambda i: i in F.finds or i in F.packs) is not None]
        for x in ins:
            p = F.pack_of(x)
            if p is None:
                rep.bad('K01.lookup', x.where(), 'no single packing call follows the insertion')
                continue
            pk = p
            kx, kf = fn.addr(x.ops[1]), fn.addr(f.ops[1])
            if kx != kf and kx[0][0] == 'i' and not kx[2] and fn.byid[kx[0][1]].op == 'alloca':
                # a copy of the key
                ok = all(same_source(F, kx, kf, o, s, x, f) for o, s, _ in cmp_)
            else:
                ok = kx == kf and not rewritten(F, kf[0], f, x)
            rep.check(ok, 'K01.lookup', x.where(), 'the entry is inserted under a key that is not the one looked up')
        if pk is None:
            raise AnalysisError('anchor vanished: insertion and packing after the look-up at ' + f.where())
        S, K = pk.ops[1], pk.ops[2]
        # what the compared key members hold
        have = {'S': set(), 'K': set()}
        r, ko, var = fn.addr(f.ops[1])
        for (o, s, p) in cmp_:
            src = F.mem.source(r, ko + o, s, f)
            if src is None:
                continue
            if src[0] == 'val':
                j = fn.inst(src[1])
                while j is not None and j.op in ('freeze', 'bitcast', 'zext', 'sext') and (tysize(fn.inst(j.ops[0]).ty) if fn.inst(j.ops[0]) else 0):
                    j = fn.inst(j.ops[0])
                if j is None or j.op != 'load':
                    continue
                a, at = j.ops[0], j
                delta = src[2]
                n = min(s, tysize(j.ty))
            else:
                a, at, delta, n = ('raw', src[1:4]), src[4], 0, s
            for nm, base in (('S', S), ('K', K)):
                if a[0] == 'raw':
                    b = fn.addr(base)
                    d = a[1][1] - b[1] if (a[1][0], a[1][2]) == (b[0], b[2]) else None
                    if d is None:
                        d = poly_rel(F, a[1], base)
                else:
                    d = F.rel(a, base)
                if d is not None and 0 <= d < 256:
                    have[nm].update(range(d + delta, d + delta + n))
        # derived members: source zero point recoverable from the packed one
        for po, so in derived(F).items():
            if po in have['K'] and so >= 0:
                have['S'].update(range(so, so + 4))
        outs = alloc_offsets(F, K)
        for k, cls, nm in ((1, 'ruy::EMat', 'S'), (2, 'ruy::PEMat', 'K')):
            seen = set()
            for b, i in sorted(rd[k].items(), key=lambda x: -1 if x[0] is None else x[0]):
                if b is None:
                    rep.bad('K01.complete', i.where(), 'a packing routine reads the descriptor in a way that cannot be related to the key')
                    continue
                mem = name_at(m, cls, b)
                if nm == 'K' and any(o <= b < o + 8 for o in outs):
                    continue            # where to write, not what
                site = '%s %s' % (cls, '.'.join(mem) if mem else b)
                if site in seen:
                    continue
                if b in have[nm]:
                    continue
                seen.add(site)
                rep.bad('K01.complete', i.where(), 'packing depends on %s, which is not part of the compared cache key: two different operands can share an entry' % site, key='K01.complete@' + site)
            if not seen:
                rep.ok('K01.complete', '%s: %d bytes read by packing, all determined by the key' % (cls, len(rd[k])))
        multi = [l for l, ts in src_types.items() if len(ts) > 1]
        dt = [(o, s, p) for (o, s, p) in leaves(m, 'ruy::EMat') if p[0] == 'data_type']
        if multi and dt:
            miss = [p for (o, s, p) in dt if not all(b in have['S'] for b in range(o, o + s))]
            rep.check(not miss, 'K01.type', f.where(), 'packing routine chosen by source type, but %s of the source is not in the compared key' % ['.'.join(p) for p in miss])
        # hit: whole stored descriptor copied out
        copies = [i for i in fn.instrs() if is_memcpy(i) and F.rel(i.ops[0], K) == 0]
        hit = [i for i in copies if fn.addr(i.ops[1])[0] == f.val and fn.addr(i.ops[1])[1] == F.eoff + F.pmoff and not fn.addr(i.ops[1])[2] and i.ops[2][0] == 'c' and i.ops[2][1] >= last(m, 'ruy::PEMat')]

        def missed(b, s):
            t = fn.term(b)
            if t.op == 'br' and len(t.ops) == 3:
                c = fn.inst(t.ops[0])
                if c is not None and c.op == 'icmp' and f.val in c.ops and ('n',) in c.ops:
                    tgt = t.ops[2][1] if c.raw['pred'] == 'eq' else t.ops[1][1]
                    return s == tgt and t.ops[1][1] != t.ops[2][1]
            return False
        w = fn.path(f, lambda i: i.op == 'ret' or i in F.finds or i in F.inserts, lambda i: i in hit, missed)
        rep.check(w is None and bool(hit), 'K01.hit', f.where(), 'an entry is found but its packed matrix is not what the multiplication goes on with')
        # store
        for x in ins:
            e = fn.addr(x.ops[2]) if len(x.ops) > 2 else None
            if e is None:
                continue
            bad = []
            for (o, s, p) in leaves(m, 'ruy::PEMat'):
                src = F.mem.source(e[0], e[1] + F.pmoff + o, s, x)
                ok = False
                if src and src[0] == 'mem':
                    d = poly_rel(F, src[1:4], K)
                    ok = d == o and all(fn.path(src[4], lambda i, a=a: i is a, lambda i: i in F.packs or i in F.finds) is None for a in F.allocs)
                elif src and src[0] == 'val':
                    j = fn.inst(src[1])
                    ok = (j is not None and j.op == 'load' and F.rel(j.ops[0], K) == o) or j in F.allocs
                if not ok:
                    bad.append('.'.join(p))
            rep.check(not bad, 'K01.store', x.where(), 'the inserted entry does not hold the operand\'s final packed descriptor: %s' % bad[:4])
    for r in rep.rules:
        rep.need(r, 1)
    rep.assume.append('the caller does not change the contents of an operand it declared cacheable (documented contract)')
    rep.assume.append('packing routines for the same layout and scalar type produce the same bytes on every path')


def name_at(mod, cls, off):
    for (o, s, p) in leaves(mod, cls):
        if o <= off < o + s:
            return p
    return None


def last(mod, cls):
    return max(o + s for o, s, _ in leaves(mod, cls))


def poly_rel(F, raw, base):
    b = F.fn.addr(base)
    if raw[0] == b[0] and raw[2] == b[2]:
        return raw[1] - b[1]
    cs = Cases(F.fn)

    def val(r, off, var):
        c = cs(r)
        if len(c) != 1:
            return None
        p = c[0][0] + off
        for v, s in var:
            q = cs(v)
            if len(q) != 1:
                return None
            p = p + q[0][0] * s
        return p
    x, y = val(*raw), val(*b)
    if x is None or y is None:
        return None
    d = x - y
    return d.cval() if d.is_const() else None


def rewritten(F, root, a, b):
    """May the object be written between a and b."""
    fn = F.fn
    for (i, o, n, k) in F.mem.w.get(root, []):
        if k == 'call' and (i is a or i is b or i in F.finds or i in F.inserts):
            continue
        if fn.path(a, lambda j: j is i, lambda j: j is b or j in F.finds) is not None and \
           fn.path(i, lambda j: j is b, lambda j: j in F.finds) is not None:
            return True
    return False


def same_source(F, kx, kf, o, s, x, f):
    p = F.mem.source(kx[0], kx[1] + o, s, x)
    q = F.mem.source(kf[0], kf[1] + o, s, f)
    if p is None or q is None:
        return False
    if p[0] == 'val':
        return q[0] == 'val' and p[1] == q[1]
    return p[1:4] == q[1:4]


def alloc_offsets(F, K):
    """Offsets in the packed descriptor that receive allocated buffers."""
    fn = F.fn
    out = set()
    for i in fn.instrs():
        if i.op == 'store' and fn.inst(i.ops[0]) in F.allocs:
            d = F.rel(i.ops[1], K)
            if d is not None and 0 <= d < last(F.mod, 'ruy::PEMat'):
                out.add(d)
    return out


# ---------------------------------------------------------------- accounting
class Ledger:
    def __init__(self, F, K, node):
        self.F, self.fn = F, F.fn
        self.K, self.node = K, node

    def load(self, i):
        F, fn = self.F, self.fn
        if self.K is not None:
            d = F.rel(i.ops[0], self.K)
            if d is not None and 0 <= d < 128:
                return [(Poly.atom(('f', d)), ())]
        if self.node is not None:
            r, off, var = fn.addr(i.ops[0])
            if r == self.node and not var:
                d = off - F.eoff - F.pmoff
                if 0 <= d < 128:
                    return [(Poly.atom(('f', d)), ())]
        return None

    def cases(self):
        cs = Cases(self.fn, load=self.load)
        cs.ranges = {('f', o): (0, 1) for o in bools(self.F.mod, 'ruy::PEMat')}
        return cs


def counter_loads(fn, o, is_counter, seen=None):
    """Loads of the counter that operand o stands for, through phis; None if it is something else."""
    seen = seen if seen is not None else set()
    i = fn.inst(o)
    if i is None:
        return None
    if i.op == 'load' and is_counter(i.ops[0]):
        return {i}
    st = {j for j in fn.uses()[o] if j.op == 'store' and j.ops[0] == o and is_counter(j.ops[1])}
    if st:
        return st
    if i.op == 'phi':
        if o in seen:
            return set()
        seen.add(o)
        out = set()
        for _, v in fn.phi_in(i):
            r = counter_loads(fn, v, is_counter, seen)
            if r is None:
                return None
            out |= r
        return out
    return None


def node_of(fn, o):
    """Node pointer an address is inside of."""
    return fn.addr(o)[0]


def free_target(F, fr):
    """(node, offset in the packed descriptor) whose buffer is freed."""
    fn = F.fn if fr.fn is F.fn else fr.fn
    j = fn.inst(fr.ops[0])
    while j is not None and j.op in ('bitcast', 'freeze'):
        j = fn.inst(j.ops[0])
    if j is None or j.op != 'load':
        return None
    r, off, var = fn.addr(j.ops[0])
    if var:
        return None
    return r, off - F.eoff - F.pmoff


def feasible(fs):
    return not (fs and entails(list(fs), P(-1)))


def paths(fn, src, stop, avoid_edge, events, cs, cap=20000):
    """All ways from src to a stop, joined where they agree: (events seen, branch facts)."""
    out = []
    seen = set()
    work = [(src.blk, src.idx + 1, (), ())]
    while work:
        b, k, ev, facts = work.pop()
        if len(seen) > cap or len(ev) > 12:
            raise AnalysisError('too many paths in ' + fn.dem[:60])
        done = False
        for i in fn.blocks[b].ins[k:]:
            if stop(i):
                out.append((ev, facts))
                done = True
                break
            if events(i):
                ev = ev + (i,)
        if done:
            continue
        for s in fn.blocks[b].succ:
            if avoid_edge(b, s):
                continue
            try:
                alts = cs.branch(b, s)
            except TooMany:
                alts = [[]]
            for a in alts:
                a = tuple(f for f in a if f.atoms() and all(x[0] == 'f' for x in f.atoms()))
                fs = tuple(sorted(set(facts + a), key=repr))
                if a and not feasible(fs):
                    continue
                if (s, ev, fs) not in seen:
                    seen.add((s, ev, fs))
                    work.append((s, 0, ev, fs))
    return list(dict.fromkeys(out))


def miss_edge(fn, f):
    def hit(b, s):
        t = fn.term(b)
        if t.op == 'br' and len(t.ops) == 3:
            c = fn.inst(t.ops[0])
            if c is not None and c.op == 'icmp' and f.val in c.ops and ('n',) in c.ops:
                tgt = t.ops[1][1] if c.raw['pred'] == 'eq' else t.ops[2][1]
                return s == tgt and t.ops[1][1] != t.ops[2][1]
        return False
    return hit


def null_test(fn, b, s, is_ptr):
    t = fn.term(b)
    if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
        c = fn.inst(t.ops[0])
        if c is not None and c.op == 'icmp' and ('n',) in c.ops:
            o = c.ops[0] if c.ops[1] == ('n',) else c.ops[1]
            if is_ptr(o):
                return s == (t.ops[2][1] if c.raw['pred'] == 'eq' else t.ops[1][1])
    return False


def counter(F):
    """The cache member that tracks allocated bytes: (offset, name)."""
    fn = F.fn
    t = F.mod.type(CACHE)
    cand = {}
    for i in fn.instrs():
        if i.op != 'store':
            continue
        for c, n in fn.fields(i.ops[1]):
            if c == CACHE and n != F.map[0]:
                dep, work = set(), [i.ops[0]]
                while work:
                    o = work.pop()
                    if o in dep:
                        continue
                    dep.add(o)
                    j = fn.inst(o)
                    if j is None or j.op == 'load':
                        continue
                    work += list(j.ops) + ([v for _, v in fn.phi_in(j)] if j.op == 'phi' else [])
                if any(op in dep for a in F.allocs for op in a.ops if op[0] == 'i') or \
                   any(fn.inst(o) is not None and fn.inst(o).op == 'load' and node_of(fn, fn.inst(o).ops[0]) in nodes(F) for o in dep):
                    cand.setdefault(n, []).append(i)
    if len(cand) != 1:
        raise AnalysisError('anchor vanished: byte counter of the packed-operand cache (%s)' % sorted(cand))
    n = next(iter(cand))
    return n, [i for i in fn.instrs() if i.op == 'store' and (CACHE, n) in fn.fields(i.ops[1])]


def nodes(F):
    return {F.fn.addr(e.ops[1])[0] for e in F.erases}


def k02(rep, tier):
    rep.rule('K02.add', 'on every path that inserts an entry the byte counter grows by exactly the sizes of the buffers allocated for it')
    rep.rule('K02.sub', 'every eviction shrinks the byte counter by the size the entry was counted at, as a function of the same descriptor')
    rep.rule('K02.free', 'every eviction frees each buffer of the entry once and removes the entry')
    rep.rule('K02.stable', 'the stored descriptor is not changed while the entry is in the cache')
    rep.rule('K02.limit', 'a new entry is added only when it fits within the limit or nothing can be evicted')
    rep.rule('K02.all', 'destroying the cache frees every buffer of every entry')
    F = Front()
    fn = F.fn
    rep.units.append('%s (with PreparePackedMatrices and the cache inlined)' % fn.dem)
    name, stores = counter(F)
    isc = lambda o: (CACHE, name) in fn.fields(o)
    added = []          # (poly, facts) of what an insertion adds
    outs = set()

    def delta(st, L):
        """What a store adds to the counter: case list, or None."""
        cs = L.cases()
        for t in stores:
            if t is not st:
                cs.memo[t.ops[0]] = [(Poly.atom(t.ops[0]), ())]
        res = []
        for p, fs in cs(st.ops[0]):
            base = [a for a in p.atoms() if counter_loads(fn, a, isc) is not None] if True else []
            if len(base) != 1 or p.t.get((base[0],)) != 1:
                return None
            ls = counter_loads(fn, base[0], isc)
            for t in stores:
                if t not in ls and fn.path(t, lambda i: i is st, lambda i: i in ls) is not None:
                    return None
            res.append((p - Poly.atom(base[0]), fs))
        return res

    def pure(cs):
        return cs is not None and all(all(a[0] == 'f' for a in p.atoms()) for p, _ in cs)

    minus, plus = [], []
    for st in stores:
        for e in F.erases:
            n = node_of(fn, e.ops[1])
            d = delta(st, Ledger(F, None, n))
            if pure(d) and d and not all(p.is_const() for p, _ in d):
                minus.append((st, n, d))
    for f in F.finds:
        hit = miss_edge(fn, f)
        ins = [x for x in F.inserts if fn.path(f, lambda i, x=x: i is x, lambda i: i in F.finds) is not None]
        pk = F.pack_of(ins[0]) if ins else None
        if pk is None:
            raise AnalysisError('anchor vanished: insertion and packing after the look-up at ' + f.where())
        K = pk.ops[2]
        outs |= alloc_offsets(F, K)
        L = Ledger(F, K, None)
        cs = L.cases()
        al = [a for a in F.allocs if fn.path(f, lambda i, a=a: i is a, lambda i: i in F.finds or i is pk) is not None]
        sizes = {a: cs(a.ops[0]) for a in al}
        ms = {m[0] for m in minus}
        ps = [s for s in stores if s not in ms and fn.path(f, lambda i, s=s: i is s, lambda i: i in F.finds) is not None]
        dl = {s: delta(s, L) for s in ps}
        bad = None
        for a in al:
            if not pure(sizes[a]):
                bad = (a, 'the size allocated is not a function of the packed descriptor')
        for s in ps:
            if not pure(dl[s]):
                bad = (s, 'the amount added to the byte counter is not a function of the packed descriptor')
        ev = lambda i: i in al or i in ps or i in ins
        n = 0
        if bad is None:
            for seq, facts in paths(fn, f, lambda i: i.op == 'ret' or i in F.finds, hit, ev, cs):
                if not any(i in ins for i in seq):
                    if any(i in al or i in ps for i in seq):
                        bad = (f, 'buffers are allocated or counted without an entry being inserted')
                    continue
                if sum(i in ins for i in seq) != 1:
                    bad = (f, 'an operand is inserted twice')
                tot = [(P(0), ())]
                for a in seq:
                    if a in al:
                        tot = cs.lift(lambda x, y: x + y, tot, sizes[a])
                    elif a in ps:
                        tot = cs.lift(lambda x, y: x - y, tot, dl[a])
                for p, fs in tot:
                    if p != P(0) and feasible(tuple(facts) + tuple(fs)):
                        if not (entails(list(facts) + list(fs), p) and entails(list(facts) + list(fs), -p)):
                            bad = (seq[-1], 'allocated minus counted bytes is %s on some path' % p)
                n += 1
                dd = [(P(0), ())]
                for a in seq:
                    if a in ps:
                        dd = cs.lift(lambda x, y: x + y, dd, dl[a])
                added += [(p, tuple(facts) + tuple(fs)) for p, fs in dd]
        rep.check(bad is None and n > 0, 'K02.add', f.where() if bad is None else bad[0].where(), bad[1] if bad else 'no insertion path')
        # limit
        cl = L.cases()
        for t in stores:
            cl.memo[t.ops[0]] = [(Poly.atom(t.ops[0]), ())]
        lim = [x[0] for x in F.mod.type(CACHE)['members'] if x[0] != name and x[3] in ('const long', 'long', 'const std::ptrdiff_t')]
        islim = lambda o: any((CACHE, l) in fn.fields(o) for l in lim)
        newb = [q for s in ps for q in (dl[s] or [])]

        def fits(b, s):
            t = fn.term(b)
            if t.op != 'br' or len(t.ops) != 3 or t.ops[1][1] == t.ops[2][1]:
                return False
            c = fn.inst(t.ops[0])
            if c is None or c.op != 'icmp':
                return False
            truth = s == t.ops[2][1]
            alts = cl.cond(t.ops[0], truth)
            ok = bool(alts)
            for fs in alts:
                # some fact: limit - counter - new >= 0
                g = False
                for q in fs:
                    lm = [a for a in q.atoms() if fn.inst(a) is not None and fn.inst(a).op == 'load' and islim(fn.inst(a).ops[0])]
                    ct = [a for a in q.atoms() if counter_loads(fn, a, isc) is not None]
                    if len(lm) == 1 and len(ct) == 1 and q.t.get((lm[0],)) == 1 and q.t.get((ct[0],)) == -1:
                        rest = Poly.atom(lm[0]) - Poly.atom(ct[0]) - q      # at least the bytes asked for
                        ls = counter_loads(fn, ct[0], isc)
                        stale = any(st not in ls and fn.path(st, lambda i: i is t, lambda i: i in ls) is not None for st in stores)
                        fx = [x for x in fs if x is not q]
                        if not stale and all(not feasible(tuple(fx) + tuple(f2)) or entails(list(fx) + list(f2), rest - p) for p, f2 in newb):
                            g = True
                ok = ok and g
            return ok
        ns = nodes(F)

        def none_left(b, s):
            if null_test(fn, b, s, lambda o: o in ns):
                return True
            # the search found no entry at all
            return null_test(fn, b, s, lambda o: fn.inst(o) is not None and fn.inst(o).op == 'load' and any((CACHE, F.map[0]) == x for x in fn.fields(fn.inst(o).ops[0])))
        for x in ins:
            w = fn.path(f, lambda i: i is x, lambda i: i in F.finds, lambda b, s: hit(b, s) or fits(b, s) or none_left(b, s))
            rep.check(w is None, 'K02.limit', x.where(), 'an entry can be added beyond the limit although another could be evicted')
        # evictions inside this look-up
    for e in F.erases:
        n = node_of(fn, e.ops[1])
        nd = fn.inst(n)
        if nd is None:
            rep.bad('K02.sub', e.where(), 'the evicted entry is not identified')
            continue
        stop2 = lambda i: i.op == 'ret' or i is nd or i in F.finds or i in F.inserts
        mine = {m[0]: m[2] for m in minus if m[1] == n}
        cs = Ledger(F, None, n).cases()
        ok, msg, cnt = True, '', 0
        for seq, facts in paths(fn, nd, lambda i: stop2(i), lambda b, s: False, lambda i: i in mine or i is e, cs):
            if e not in seq:
                if seq:
                    ok, msg = False, 'the byte counter is reduced without an entry being evicted'
                continue
            if not mine or not any(i in mine for i in seq):
                ok, msg = False, 'the byte counter is not reduced for an evicted entry'
                continue
            tot = [(P(0), tuple(facts))]
            for i in seq:
                if i in mine:
                    tot = cs.lift(lambda x, y: x + y, tot, mine[i])
            cnt += 1
            for p, fs in tot:
                for q, gs in added:
                    z = list(fs) + list(gs)
                    if p + q != P(0) and feasible(tuple(z)) and not (entails(z, p + q) and entails(z, -p - q)):
                        ok, msg = False, 'an entry counted at %s is discounted at %s' % (q, -p)
        ok = ok and cnt > 0
        msg = msg or 'the byte counter is not reduced for an evicted entry'
        rep.check(ok, 'K02.sub', e.where(), msg)
        for d in sorted(outs):
            fr = [x for x in F.frees if free_target(F, x) == (n, d)]

            def absent(b, s):
                return null_test(fn, b, s, lambda o: fn.inst(o) is not None and fn.inst(o).op == 'load' and fn.addr(fn.inst(o).ops[0])[:2] == (n, F.eoff + F.pmoff + d))
            early = fn.path(nd, lambda i: i is e, lambda i: i in fr or i is nd, absent)
            late = fn.path(e, lambda i: i.op == 'ret' or i is nd or i in F.finds or i in F.inserts, lambda i: i in fr, absent)
            twice = any(fn.path(a, lambda i: i in fr, lambda i: i is nd) is not None for a in fr)
            use = [x for x in fr if fn.path(e, lambda i: i is fn.inst(x.ops[0]), lambda i: i is nd) is not None]
            rep.check(bool(fr) and not (early is not None and late is not None) and not twice and not use, 'K02.free', e.where(),
                      'buffer at offset %d of an evicted entry is %s' % (d, 'read after the entry is gone' if use else 'freed twice' if twice else 'not freed on every path'))
    for x in F.frees:
        t = free_target(F, x)
        ok = t is not None and t[1] in outs and (t[0] in nodes(F))
        if ok:
            es = [e for e in F.erases if node_of(fn, e.ops[1]) == t[0]]
            nd = fn.inst(t[0])
            w = fn.path(x, lambda i: i.op == 'ret' or i is nd or i in F.inserts, lambda i: i in es)
            before = any(fn.dominates(e, x) for e in es)
            ok = w is None or before
        rep.check(ok, 'K02.free', x.where(), 'a buffer is freed while its entry stays in the cache')
    # descriptors in entries are never modified
    bad = [i for i in fn.instrs() if (i.op == 'store' or is_memcpy(i)) and inside_entry(F, i)]
    for i in bad:
        rep.bad('K02.stable', i.where(), 'the descriptor inside a cache entry is modified')
    if not bad:
        rep.ok('K02.stable', 'no store into a stored descriptor')
    destroy(rep, F, outs)
    for r in rep.rules:
        rep.need(r, 1)


def inside_entry(F, i):
    fn = F.fn
    o = i.ops[1] if i.op == 'store' else i.ops[0]
    r, off, var = fn.addr(o)
    j = fn.inst(r)
    if j is None or j.op == 'alloca':
        return False
    isnode = r in nodes(F) or j in F.finds or (j.op == 'phi' and any(v in nodes(F) for _, v in fn.phi_in(j)))
    n = (store_size(fn, i) or 1) if i.op == 'store' else (i.ops[2][1] if i.ops[2][0] == 'c' else 1)
    lo, hi = F.eoff + F.pmoff, F.eoff + F.pmoff + last(F.mod, 'ruy::PEMat')
    return isnode and (bool(var) or (off < hi and off + n > lo))


def destroy(rep, F, outs):
    fs = F.mod.find(r'^ruy::PrepackedCache::~PrepackedCache\(\)')
    if len(fs) != 1:
        raise AnalysisError('anchor vanished: destruction of the packed-operand cache')
    fn = fs[0]
    rep.units.append(fn.dem)
    frees = list(fn.calls(r'^ruy::detail::SystemAlignedFree'))
    for d in sorted(outs):
        ok, msg = False, 'no loop over the entries frees the buffer at offset %d' % d
        for x in frees:
            t = free_target(F, x)
            if not t or t[1] != d:
                continue
            ph = fn.inst(t[0])
            Lp = fn.innermost(x.blk)
            if ph is None or ph.op != 'phi' or Lp is None or ph.blk != Lp.header:
                msg = 'the free at %s is not in a loop over the entries' % x.where()
                continue
            first = [v for b, v in fn.phi_in(ph) if b not in Lp.blocks]
            nxt = [v for b, v in fn.phi_in(ph) if b in Lp.blocks]
            islink = lambda v: fn.inst(v) is not None and fn.inst(v).op == 'load'
            start = all(islink(v) and fn.addr(fn.inst(v).ops[0]) == (('a', 0), F.map[1] + 16, ()) for v in first)
            step = all(islink(v) and fn.addr(fn.inst(v).ops[0]) == (ph.val, 0, ()) for v in nxt)
            # leaves only when there is no next entry
            leave = all(null_test(fn, b, s, lambda o: o in nxt or o == ph.val) for b in Lp.blocks for s in fn.blocks[b].succ if s not in Lp.blocks and b not in fn.dead() and s not in fn.dead())
            absent = lambda b, s: null_test(fn, b, s, lambda o: fn.inst(o) is not None and fn.inst(o).op == 'load' and fn.addr(fn.inst(o).ops[0]) == (ph.val, F.eoff + F.pmoff + d, ()))
            same = [y for y in frees if free_target(F, y) == t]
            each = fn.path(ph, lambda i: i is ph or i.op == 'ret', lambda i: i in same, lambda b, s: absent(b, s) or null_test(fn, b, s, lambda o: o == ph.val)) is None
            ok = start and step and leave and each
            msg = 'entries are skipped when the cache is destroyed' if not (start and step and leave) else 'the buffer at offset %d is not freed for every entry' % d
            # reached on every path unless there are no entries
            if ok:
                w = fn.path(None, lambda i: i.op == 'ret', lambda i: i.blk in Lp.blocks, lambda b, s: null_test(fn, b, s, lambda o: o in first or o == ph.val))
                ok = w is None
                msg = 'destruction can skip the loop that frees the entries'
            if ok:
                break
        rep.check(ok, 'K02.all', fn.dem[:60], msg)


# ---------------------------------------------------------------- use while cached
def index_atoms(F, o):
    """Operands that make an address vary."""
    fn = F.fn
    out = []
    for v, s in fn.addr(o)[2]:
        while fn.inst(v) is not None and fn.inst(v).op in ('sext', 'zext', 'freeze', 'trunc'):
            v = fn.inst(v).ops[0]
        out.append(v)
    return out


def k03(rep, tier):
    rep.rule('K03.guard', 'an entry is chosen for eviction only after its buffer was compared unequal to the one in use')
    rep.rule('K03.inuse', 'the buffer protected is that of the other operand whenever that operand is held by the cache')
    rep.rule('K03.marked', 'an operand obtained from the cache is marked as such before the next one is prepared')
    rep.rule('K03.only', 'nothing else in a multiplication empties the cache or frees cached buffers')
    F = Front()
    fn = F.fn
    rep.units.append('%s (with PreparePackedMatrices and the cache inlined)' % fn.dem)
    T = F.mod.type('ruy::TrMulParams')
    pm = next((m for m in T['members'] if m[3] == 'ruy::SidePair<ruy::PEMat>'), None)
    ip = next((m for m in T['members'] if m[3] == 'ruy::SidePair<bool>'), None)
    if not pm or not ip:
        raise AnalysisError('anchor vanished: packed operands in the multiplication parameters')
    es = F.mod.type('ruy::PEMat').get('size') or (last(F.mod, 'ruy::PEMat') + 7) // 8 * 8
    doff = F.mod.member('ruy::PEMat', 'data')[1]
    marked(rep, 'K03.marked', F, flag_stores(F, ip))
    for x in F.frees:
        t = free_target(F, x)
        if t is None:
            rep.bad('K03.only', x.where(), 'a buffer is freed during a multiplication that is not that of an evicted entry')
            continue
        node = t[0]
        finds = [f for f in F.finds if fn.path(f, lambda i: i is x, lambda i: i in F.finds) is not None]
        # every way the node is chosen
        leaf, work, seen = [], [(node, None)], set()
        while work:
            o, e = work.pop()
            if (o, e) in seen or o == ('n',):
                continue
            seen.add((o, e))
            i = fn.inst(o)
            if i is not None and i.op == 'phi' and not is_cursor(fn, o):
                for b, v in fn.phi_in(i):
                    # the choice is made on this edge only if the value is new
                    work.append((v, (b, i.blk)))
            elif i is not None and i.op == 'select':
                work += [(i.ops[1], ('sel', i, True)), (i.ops[2], ('sel', i, False))]
            else:
                leaf.append((o, e))
        us = set()
        for (v, e) in leaf:
            guards = unequal_guards(F, v, doff)
            us |= {u for _, u in guards}
            ok = False
            for u in {u for _, u in guards}:
                good = {ed for ed, w in guards if w == u}

                def safe(b, s):
                    return (b, s) in good or null_test(fn, b, s, lambda o: o == u)
                d = fn.inst(v)
                if e is None:
                    tgt = lambda i: i is x
                    ok = ok or fn.path(d, tgt, lambda i: i is d, safe) is None
                elif e[0] == 'sel':
                    c = fn.inst(e[1].ops[0])
                    ok = ok or ((c is not None and c.op == 'icmp' and ne_data(F, c, v, doff) is not None and ((c.raw['pred'] == 'ne') == e[2]))
                                or fn.path(d, lambda i: i is e[1], lambda i: i is d, safe) is None)
                else:
                    # reach the end of block e[0] (taking edge e) without the guard
                    if (e[0], e[1]) in good or safe(*e):
                        ok = True
                    else:
                        ok = ok or fn.path(d, lambda i: i is fn.term(e[0]), lambda i: False, safe) is None
            rep.check(ok, 'K03.guard', x.where(), 'an entry can be evicted without checking that the same multiplication still uses it')
        for f in finds:
            ins = [y for y in F.inserts if fn.path(f, lambda i, y=y: i is y, lambda i: i in F.finds) is not None]
            pk = F.pack_of(ins[0]) if ins else None
            if pk is None:
                continue
            K = pk.ops[2]
            idx = index_atoms(F, K)
            for s in ((0, 1) if idx else (None,)):
                fix = {v: s for v in idx} if s is not None else {}

                def load(i, fix=fix):
                    cs2 = Cases(fn, fix=fix)
                    a = cs2(i.ops[0])
                    if len(a) == 1:
                        return [(Poly.atom(('m', repr(a[0][0]))), ())]
                    return None
                cs = Cases(fn, fix=fix, load=load)
                ka = cs(K)
                if len(ka) != 1:
                    rep.bad('K03.inuse', f.where(), 'the operand being prepared is not identified')
                    continue
                root = Poly.atom(('a', 1))
                d = ka[0][0] - root
                if not d.is_const() or d.cval() - pm[1] not in (0, es):
                    rep.bad('K03.inuse', f.where(), 'the operand being prepared is not identified')
                    continue
                side = (d.cval() - pm[1]) // es
                want = Poly.atom(('m', repr(root + (pm[1] + (1 - side) * es + doff))))
                flag = Poly.atom(('m', repr(root + (ip[1] + 1 - side))))
                ok = bool(us)
                for u in us:
                    for p, fs in cs(u):
                        if p == want or not feasible(tuple(fs) + (flag,)):
                            continue
                        if not entails(list(fs) + [flag], -flag):
                            ok = False
                rep.check(ok, 'K03.inuse', '%s, operand %d' % (f.where(), side), 'the buffer kept from eviction is not that of the other cached operand')
    for i in fn.calls(r'ClearPrepackedCache|>::clear\(|~PrepackedCache'):
        rep.bad('K03.only', i.where(), 'the cache is emptied during a multiplication')
    for e in F.erases:
        rep.check(node_of(fn, e.ops[1]) in {free_target(F, x)[0] for x in F.frees if free_target(F, x)}, 'K03.only', e.where(), 'an entry is removed that is not the one whose buffers were released')
    rep.need('K03.guard', 1)
    rep.need('K03.inuse', 2 if any(index_atoms(F, p.ops[2]) for p in F.packs) else 1)
    rep.need('K03.only', 1)


def is_cursor(fn, o):
    """A list position: a loop phi that steps through the node links."""
    i = fn.inst(o)
    return any(fn.inst(v) is not None and fn.inst(v).op == 'load' and fn.addr(fn.inst(v).ops[0]) == (o, 0, ()) for _, v in fn.phi_in(i))


def ne_data(F, c, v, doff):
    """c compares the buffer of entry v with something: that operand."""
    fn = F.fn
    if c.op != 'icmp' or c.raw['pred'] not in ('eq', 'ne'):
        return None
    for a, b in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
        j = fn.inst(a)
        if j is not None and j.op == 'load' and fn.addr(j.ops[0]) == (v, F.eoff + F.pmoff + doff, ()) and b != ('n',):
            return b
    return None


def unequal_guards(F, v, doff):
    fn = F.fn
    out = []
    for b in fn.blocks:
        t = fn.term(b)
        if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            for s in (t.ops[1][1], t.ops[2][1]):
                for c, truth in implied(fn, t.ops[0], s == t.ops[2][1]):
                    u = ne_data(F, c, v, doff)
                    if u is not None and (c.raw['pred'] == 'ne') == truth:
                        out.append(((b, s), u))
    return out


def implied(fn, o, truth):
    """Comparisons whose outcome follows from condition o having the given truth."""
    i = fn.inst(o)
    if i is None:
        return
    if i.op == 'icmp':
        yield i, truth
    elif i.op == 'freeze':
        yield from implied(fn, i.ops[0], truth)
    elif i.op == 'xor' and i.ops[1][0] == 'c':
        yield from implied(fn, i.ops[0], not truth)
    elif i.op == 'and' and truth or i.op == 'or' and not truth:
        yield from implied(fn, i.ops[0], truth)
        yield from implied(fn, i.ops[1], truth)
    elif i.op == 'select' and i.ty == 'i1':
        if truth and i.ops[2] == ('c', 0, 1):
            yield from implied(fn, i.ops[0], True)
            yield from implied(fn, i.ops[1], True)
        if not truth and i.ops[1] == ('c', 1, 1):
            yield from implied(fn, i.ops[0], False)
            yield from implied(fn, i.ops[2], False)


# ---------------------------------------------------------------- policy
def k04(rep, tier):
    rep.rule('K04.optout', 'the cache is looked up or filled for an operand only after its cache policy was seen to allow it')
    rep.rule('K04.packed', 'after an insertion the operand is packed completely before anything else can use it')
    rep.rule('K04.flag', 'an operand is marked as already packed only after a hit or after being packed into its new entry')
    rep.rule('K04.cleared', 'no operand starts out marked as already packed')
    F = Front()
    fn = F.fn
    rep.units.append('%s (with PreparePackedMatrices and the cache inlined)' % fn.dem)
    pol = F.mod.member('ruy::EMat', 'cache_policy')
    en = F.mod.enums.get('ruy::CachePolicy', {})
    never = next((int(v) for k, v in en.items() if 'never' in k.lower()), None)
    if pol is None or never is None:
        raise AnalysisError('anchor vanished: cache policy of an operand')
    T = F.mod.type('ruy::TrMulParams')
    ip = next((m for m in T['members'] if m[3] == 'ruy::SidePair<bool>'), None)
    pm = next((m for m in T['members'] if m[3] == 'ruy::SidePair<ruy::PEMat>'), None)
    if ip is None or pm is None:
        raise AnalysisError('anchor vanished: packed operands in the multiplication parameters')
    es = (last(F.mod, 'ruy::PEMat') + 7) // 8 * 8
    flags = flag_stores(F, ip)
    for f in F.finds:
        ins = [y for y in F.inserts if fn.path(f, lambda i, y=y: i is y, lambda i: i in F.finds) is not None]
        pk = F.pack_of(ins[0]) if ins else None
        if pk is None:
            raise AnalysisError('anchor vanished: insertion and packing after the look-up at ' + f.where())
        S, K = pk.ops[1], pk.ops[2]
        poll = [i for i in fn.instrs() if i.op == 'load' and F.rel(i.ops[0], S) == pol[1]]
        vals = {i.val for i in poll}

        def strip(o):
            while fn.inst(o) is not None and fn.inst(o).op in ('zext', 'sext', 'freeze', 'trunc'):
                o = fn.inst(o).ops[0]
            return o

        def allowed(b, s):
            t = fn.term(b)
            if t.op == 'switch' and strip(t.ops[0]) in vals:
                cs = [int(c) for c, x in t.raw['cases'] if x == s]
                dflt = t.raw['default'] == s
                if dflt:
                    return never in [int(c) for c, x in t.raw['cases']] and never not in cs
                return never not in cs
            if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
                for c, truth in implied(fn, t.ops[0], s == t.ops[2][1]):
                    x, y = strip(c.ops[0]), c.ops[1]
                    if x in vals and y[0] == 'c':
                        p = c.raw['pred']
                        k = y[1]
                        val = {'eq': never == k, 'ne': never != k, 'ult': never < k, 'ugt': never > k, 'ule': never <= k, 'uge': never >= k,
                               'slt': never < k, 'sgt': never > k, 'sle': never <= k, 'sge': never >= k}[p]
                        if val != truth:
                            return True
            return False
        # the policy is read afresh for each operand: start at the reads
        starts = [None] + [d for d in [fn.inst(v) for v in index_atoms(F, S)] if d is not None]
        w = None
        for st in starts:
            w = w or fn.path(st, lambda i: i is f, lambda i: False, allowed)
        rep.check(w is None and bool(poll), 'K04.optout', f.where(), 'an operand whose policy forbids caching can reach the cache')
        for x in F.inserts:
            if x not in ins:
                w = fn.path(None, lambda i: i is x, lambda i: i in F.finds)
                rep.check(w is None, 'K04.optout', x.where(), 'an entry is inserted without a look-up')
        # packed completely
        for x in ins:
            w = fn.path(x, lambda i: i.op == 'ret' or i in F.finds or i in flags or (i.op == 'call' and i.dem.startswith('ruy::TrMul(')), lambda i: i in F.packs and is_full(F, i, K))
            rep.check(w is None, 'K04.packed', x.where(), 'a new entry is left without its packed contents')
            rep.check(is_full(F, pk, K), 'K04.packed', pk.where(), 'the packing of a new entry does not cover all columns')
    marked(rep, 'K04.flag', F, flags)
    for st in flags:
        if st.ops[0] == ('c', 0, 8) or st.ops[0] == ('c', 0, 1):
            continue
        d = fn.addr(st.ops[1])
        f = [x for x in F.finds]

        def hitpath(b, s):
            return any(miss_edge(fn, x)(b, s) for x in f)
        w = fn.path(None, lambda i: i is st, lambda i: i in F.packs, hitpath)
        idx = [fn.inst(v) for v in index_atoms(F, st.ops[1]) if fn.inst(v) is not None]
        for j in idx:
            w = w or fn.path(j, lambda i: i is st, lambda i: i in F.packs, hitpath)
        # the operand flagged is the one prepared
        mine = False
        for p in F.packs:
            ka, fa = fn.addr(p.ops[2]), fn.addr(st.ops[1])
            vi, vk = index_atoms(F, st.ops[1]), index_atoms(F, p.ops[2])
            if vi and vi == vk and ka[0] == fa[0]:
                mine = True
            if not vi and not vk and ka[0] == fa[0] and (ka[1] - pm[1]) // es == fa[1] - ip[1] and fn.path(p, lambda i: i is st, lambda i: i in F.finds) is not None:
                mine = True
        rep.check(w is None and mine, 'K04.flag', st.where(), 'an operand is marked as packed although it was neither found nor packed')
    cleared(rep, F, ip)
    for r in ('K04.optout', 'K04.packed', 'K04.flag', 'K04.cleared'):
        rep.need(r, 1)


def flag_stores(F, ip):
    """Stores to the marks of packed operands."""
    fn, out = F.fn, []
    for i in fn.instrs():
        if i.op == 'store':
            for c in Cases(fn)(i.ops[1]):
                d = c[0] - Poly.atom(('a', 1))
                if ('ruy::TrMulParams', ip[0]) in fn.fields(i.ops[1]) or (d.is_const() and ip[1] <= d.cval() < ip[1] + 2):
                    out.append(i)
                    break
    return out


def marked(rep, rule, F, flags):
    fn = F.fn
    on = [st for st in flags if st.ops[0][0] == 'c' and st.ops[0][1] != 0]
    for f in F.finds:
        w = fn.path(f, lambda i: i.op == 'ret' or i in F.finds or i.dem.startswith('ruy::TrMul('), lambda i: i in on)
        rep.check(w is None, rule, f.where(), 'an operand taken from the cache is not always marked as already packed')


def is_full(F, p, K):
    """Packing call covers columns 0 .. packed columns of the operand at K."""
    fn = F.fn
    if F.rel(p.ops[2], K) != 0 or p.ops[3] != ('c', 0, 32):
        return False
    j = fn.inst(p.ops[4])
    co = next(o for o, s, q in leaves(F.mod, 'ruy::PEMat') if q[-1] == 'cols')
    return j is not None and j.op == 'load' and F.rel(j.ops[0], K) == co


def cleared(rep, F, ip):
    """Multiplication parameters are built with both marks off."""
    m = Module(flatten(roots=[r'^ruy::TrMulParams::TrMulParams\(', r'^verif_probe::trmul_params'], keep=[], tag='tp'))
    fs = m.find(r'^ruy::TrMulParams::TrMulParams\(')
    if not fs:
        raise AnalysisError('anchor vanished: construction of multiplication parameters')
    for fn in fs:
        ok = set()
        for i in fn.instrs():
            o = i.ops[1] if i.op == 'store' else (i.ops[0] if is_memset(i) else None)
            if o is None:
                continue
            r, off, var = fn.addr(o)
            n = store_size(fn, i) if i.op == 'store' else (i.ops[2][1] if i.ops[2][0] == 'c' else 0)
            v = i.ops[0] if i.op == 'store' else i.ops[1]
            if r == ('a', 0) and not var:
                for k in (0, 1):
                    if off <= ip[1] + k < off + (n or 0):
                        zero = v[0] == 'n' or (v[0] == 'c' and (v[1] >> (8 * (ip[1] + k - off))) & 0xff == 0)
                        (ok.add if zero else ok.discard)(k)
        rep.check(ok == {0, 1}, 'K04.cleared', fn.dem[:60], 'multiplication parameters start with an operand marked as packed')


# ---------------------------------------------------------------- recency
def k05(rep, tier):
    rep.rule('K05.touch', 'a hit gives the entry a fresh timestamp')
    rep.rule('K05.fresh', 'a new entry gets a fresh timestamp, and the clock advances with every use')
    rep.rule('K05.width', 'the clock and the timestamps are 64 bits wide, so that they do not wrap')
    rep.rule('K05.oldest', 'the search visits every entry and replaces its choice exactly by older entries')
    F = Front()
    fn = F.fn
    rep.units.append('%s (with PreparePackedMatrices and the cache inlined)' % fn.dem)
    e = F.mod.type(F.entry)
    ts = [m for m in e['members'] if m[3] != 'ruy::PEMat']
    if len(ts) != 1:
        raise AnalysisError('anchor vanished: timestamp of a cache entry')
    to = ts[0][1]
    clock = set()
    for i in fn.instrs():
        if i.op == 'store':
            p = Cases(fn)(i.ops[0])
            if len(p) == 1:
                ats = p[0][0].atoms()
                if len(ats) == 1:
                    j = fn.inst(next(iter(ats)))
                    c = [x for x in fn.fields(i.ops[1]) if x[0] == CACHE]
                    if j is not None and j.op == 'load' and c and fn.addr(j.ops[0]) == fn.addr(i.ops[1]) and p[0][0].t.get((j.val,)) == 1 and (p[0][0] - Poly.atom(j.val)).is_const() and p[0][0].cval() > 0:
                        clock.add((i, j, fn.addr(i.ops[1])))
    ticks = {i for i, _, _ in clock}
    cells = {a for _, _, a in clock}

    def is_clock(o):
        j = fn.inst(o)
        if j is None:
            return None
        if j.op == 'add' and j.ops[1][0] == 'c':
            return is_clock(j.ops[0])
        return j if j.op == 'load' and fn.addr(j.ops[0]) in cells else None
    for i, j, _ in clock:
        rep.check(tysize(j.ty) >= 8, 'K05.width', i.where(), 'the clock is only %d bits wide' % (8 * tysize(j.ty)))
    rep.check(scalar(F.mod, ts[0]) >= 8, 'K05.width', 'timestamp of an entry', 'the timestamp of an entry is only %d bits wide' % (8 * scalar(F.mod, ts[0])))
    for f in F.finds:
        hit = miss_edge(fn, f)

        def missed(b, s):
            t = fn.term(b)
            return len(fn.blocks[b].succ) == 2 and not hit(b, s) and any(hit(b, x) for x in fn.blocks[b].succ)
        st = [i for i in fn.instrs() if i.op == 'store' and fn.addr(i.ops[1]) == (f.val, F.eoff + to, ()) and is_clock(i.ops[0]) is not None]
        w = fn.path(f, lambda i: i.op == 'ret' or i in F.finds, lambda i: i in st, missed)
        rep.check(w is None and bool(st), 'K05.touch', f.where(), 'a hit does not make the entry the most recently used')
        w = fn.path(f, lambda i: i.op == 'ret' or i in F.finds, lambda i: i in ticks)
        rep.check(w is None, 'K05.fresh', f.where(), 'the clock does not advance on some use of the cache')
    for x in F.inserts:
        a = fn.addr(x.ops[2]) if len(x.ops) > 2 else None
        src = F.mem.source(a[0], a[1] + to, 8, x) if a else None
        rep.check(src is not None and src[0] == 'val' and is_clock(src[1]) is not None, 'K05.fresh', x.where(), 'a new entry does not get a fresh timestamp')
    tsload = lambda o, v: fn.inst(o) is not None and fn.inst(o).op == 'load' and fn.addr(fn.inst(o).ops[0]) == (v, F.eoff + to, ())

    def older(c, truth, v, p):
        """comparison outcome says v is strictly older (True), not older (False), nothing (None)."""
        pr = c.raw['pred']
        if tsload(c.ops[0], v) and tsload(c.ops[1], p):
            pass
        elif tsload(c.ops[0], p) and tsload(c.ops[1], v):
            pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
        else:
            return None
        if pr in ('ult', 'slt', 'ule', 'sle'):
            return truth
        if pr in ('ugt', 'sgt', 'uge', 'sge'):
            return not truth
        return None
    doff = F.mod.member('ruy::PEMat', 'data')[1]
    for er in F.erases:
        node = node_of(fn, er.ops[1])
        web, work = set(), [node]
        while work:
            o = work.pop()
            i = fn.inst(o)
            if o in web or i is None or i.op not in ('phi', 'select') or (i.op == 'phi' and is_cursor(fn, o)):
                continue
            web.add(o)
            work += [v for _, v in fn.phi_in(i)] if i.op == 'phi' else i.ops[1:]
        curs = {v for o in web for v in ([x for _, x in fn.phi_in(fn.inst(o))] if fn.inst(o).op == 'phi' else fn.inst(o).ops[1:]) if v not in web and v != ('n',)}
        curs = {v for v in curs if fn.inst(v) is not None and fn.inst(v).op == 'phi' and is_cursor(fn, v)}
        if len(curs) != 1 or not web:
            rep.bad('K05.oldest', er.where(), 'the entry evicted does not come from a search over the entries')
            continue
        v = curs.pop()
        d = fn.inst(v)
        Lp = fn.innermost(d.blk)
        first = [x for b, x in fn.phi_in(d) if b not in Lp.blocks]
        step = [x for b, x in fn.phi_in(d) if b in Lp.blocks]
        okstart = all(fn.inst(x) is not None and fn.inst(x).op == 'load' and (CACHE, F.map[0]) in fn.fields(fn.inst(x).ops[0]) for x in first)
        leave = all(null_test(fn, b, s, lambda o: o in step or o == v) for b in Lp.blocks for s in fn.blocks[b].succ if s not in Lp.blocks)
        rep.check(okstart and leave, 'K05.oldest', d.where(), 'the search for the oldest entry does not visit every entry')
        ok, msg = True, ''

        def kept(b, s, p):
            for c, truth in implied(fn, fn.term(b).ops[0], s == fn.term(b).ops[2][1]) if fn.term(b).op == 'br' and len(fn.term(b).ops) == 3 else ():
                if older(c, truth, v, p) is False:
                    return True
                u = ne_data(F, c, v, doff)
                if u is not None and (c.raw['pred'] == 'eq') == truth:
                    return True
            return False

        def taken(b, s, p):
            if null_test(fn, b, s, lambda o: o == p):
                return True
            for c, truth in implied(fn, fn.term(b).ops[0], s == fn.term(b).ops[2][1]) if fn.term(b).op == 'br' and len(fn.term(b).ops) == 3 else ():
                if older(c, truth, v, p) is True:
                    return True
            return False
        ps = {o for o in web if fn.inst(o).op == 'phi' and fn.inst(o).blk == d.blk}
        if len(ps) != 1:
            rep.bad('K05.oldest', er.where(), 'the search keeps no single best entry')
            continue
        p = ps.pop()
        n = 0
        for o in web:
            i = fn.inst(o)
            if o == p:
                continue
            if i.op == 'phi':
                for b, x in fn.phi_in(i):
                    if b not in Lp.blocks:
                        continue
                    rule = taken if x == v else kept if x == p else None
                    if rule is None:
                        continue
                    n += 1
                    if not rule(b, i.blk, p) and fn.path(d, lambda j: j is fn.term(b), lambda j: False, lambda bb, ss: rule(bb, ss, p) or ss == d.blk) is not None:
                        ok, msg = False, 'an entry is %s although it is %s' % (('chosen', 'not older') if x == v else ('passed over', 'older'))
            else:
                c = fn.inst(i.ops[0])
                n += 1
                for truth, x in ((True, i.ops[1]), (False, i.ops[2])):
                    got = [older(cc, tt, v, p) for cc, tt in implied(fn, i.ops[0], truth)]
                    if x == v and True not in got or x == p and False not in got:
                        ok, msg = False, 'the choice between two entries does not follow their age'
        rep.check(ok and n > 0, 'K05.oldest', er.where(), msg or 'no choice found')
    for r in rep.rules:
        rep.need(r, 1)


CHECKS = {'K05': k05, 'K01': k01, 'K02': k02, 'K03': k03, 'K04': k04}
