"""C03, C04, C08: how one multiplication is split over threads, packed and run."""
import re
from build import flatten, AnalysisError
from ir import Module, tup
from scev import Sym
from sym import Poly, P, Facts, entails
from dis import Engine, Canon
from conc import RELEASE, ACQUIRE, edge_facts, edge_cond

KEEP = (r'^ruy::(Allocator::|TuningResolver::|GetBlockByIndex|GetBlockMatrixCoords\(ruy::Side|MakeBlockMap|ThreadPool::|'
        r'CpuInfo::|Ctx::(Ensure|GetThread|GetMain|mutable|explicit|max)|IsObviously|detail::System)')
PARAMS = 'ruy::TrMulParams'


def member_off(t, pat, what):
    c = [m for m in t['members'] if re.search(pat, m[3])]
    if len(c) != 1:
        raise AnalysisError('anchor vanished: %s (%d candidates)' % (what, len(c)))
    return c[0]


class TM:
    """The flattened middle end: TrMul and the task each thread runs."""

    def __init__(self, keep=KEEP, roots=()):
        self.mod = m = Module(flatten(roots=[r'^ruy::TrMul\(', r'^ruy::.*::Run\(\)$'] + list(roots), keep=[keep], flags=['--unroll=4']))
        self.tm = m.one(r'^ruy::TrMul\(')
        cand = [t for n, t in m.types.items() if any('std::atomic' in x[3] for x in t['members'])
                and any(x[3] == 'ruy::Task' and x[4] for x in t['members'])]
        if len(cand) != 1:
            raise AnalysisError('anchor vanished: task class (%d candidates)' % len(cand))
        self.task = t = cand[0]
        runs = [f for f in m.fns.values() if f.dem.endswith('::Run()') and
                any(i.op == 'call' and self.callee_member(f, i) == 'run_kernel' for i in f.instrs())]
        if len(runs) != 1:
            raise AnalysisError('anchor vanished: task entry that runs the kernel (%d candidates)' % len(runs))
        self.run = runs[0]
        self.status = member_off(t, r'SidePair<std::atomic<', 'packing status')
        self.local = member_off(t, r'SidePair<bool', 'local packed flags')
        self.shared = member_off(t, r'^std::atomic<int>', 'shared block counter')
        self.need = member_off(t, r'^bool$', 'multi-threaded flag')
        self.tid = member_off(t, r'^int$', 'thread id')
        self.prm = member_off(t, r'TrMulParams', 'parameters')
        self.bmap = member_off(t, r'BlockMap', 'block map')
        self.P = {x[0]: x for x in m.type(PARAMS)['members']}
        for k in ('run_pack', 'run_kernel', 'src', 'packed_matrix', 'is_prepacked', 'dst'):
            if k not in self.P:
                raise AnalysisError('anchor vanished: parameter block member ' + k)

    def callee_member(self, fn, call):
        """Name of the parameter-block member an indirect call goes through."""
        cv = call.get('cv')
        l = fn.inst(tup(cv)) if cv else None
        if l is None or l.op != 'load':
            return None
        for c, mname in fn.fields(l.ops[0]):
            if c == PARAMS:
                return mname
        return None

    def callee_addr(self, st, call):
        return st.addr(st.eng.fn.inst(tup(call.get('cv'))).ops[0])


def elem(a, base, size, es):
    """Index canon of element address a in an array member at base."""
    if not (base <= a[2] < base + size):
        return None
    d = a[2] - base
    if not a[3]:
        return ('c', d // es) if d % es == 0 else None
    if len(a[3]) == 1 and a[3][0][1] == es and d == 0:
        return a[3][0][0]
    return None


def fill_loop(fn, S, i, base, n):
    """The loop around store i writes base[0..n-1] (bytes), each iteration one."""
    L = fn.innermost(i.blk)
    if L is None:
        return False
    it = ('it', L.id)
    k = (S.opnd(i.ops[1]) - base).coeff(it)
    live = [(eb, ec) for eb, ec in L.exits if any(x not in fn.dead() for x in fn.blocks[eb].succ if x not in L.blocks)]
    if len(live) != 1 or live[0][1][0] == 'cnc' or not k or not k[0].is_const() or abs(k[0].cval()) != 1:
        return False
    latch = [b for b in L.blocks if L.header in fn.blocks[b].succ]
    if not all(fn.dominates_b(i.blk, b) for b in latch):
        return False
    F = S.facts_at(i.blk, extra=[n - 1])
    last = k[1] + S.scev(live[0][1]) * k[0]
    lo, hi = (k[1], last) if k[0].cval() > 0 else (last, k[1])
    return F.prove_eq(lo, 0) and F.prove(hi - (n - 1))


def leafs(fn, o, seen=None):
    seen = set() if seen is None else seen
    if o in seen or o[0] != 'i':
        return seen
    seen.add(o)
    i = fn.inst(o)
    if i.op in ('phi', 'call', 'load', 'alloca'):
        return seen
    for x in i.ops:
        leafs(fn, x, seen)
    return seen


def done_edge(fn, L, size, b, s):
    """Edge that leaves loop L, or passes around it by a test of the size only."""
    if b in L.blocks:
        return s not in L.blocks
    t = fn.term(b)
    if s in L.blocks or t.op != 'br' or len(t.ops) != 3 or b == L.header:
        return False
    other = [x for x in fn.blocks[b].succ if x != s]
    if not other or not (other[0] == L.header or fn.blocks[other[0]].succ == [L.header]):
        return False
    ld = lambda o: {x for x in leafs(fn, o) if fn.inst(x).op in ('load', 'call', 'phi')}
    lf = ld(t.ops[0])
    return bool(lf) and lf <= ld(size)


class Packing:
    """Typestate of packing inside one thread's task."""

    def __init__(self, T, rep):
        self.T, self.rep = T, rep
        fn = self.fn = T.run
        this = ('a', 0)
        prm = ('ld', ('p', this, T.prm[1], ()))
        cn = Canon(fn)
        stored = {cn.addr(i.ops[1]) for i in fn.instrs() if i.op == 'store'}
        roots = {a[1] for a in stored}

        def immutable(a):
            if a[2] is None:
                return False
            if a[1] == this:      # members of the task that the task never assigns
                return not any(x[1] == this and (x[2] == a[2] or x[3]) for x in stored)
            return a[1] == prm and prm not in roots
        self.eng = Engine(fn, self.transfer, on_edge=self.on_edge, on_kill=self.on_kill, immutable=immutable)
        self.bad = {}
        self.seen_ok = {}
        self.status_ops = {}
        self.finals = set()
        self.allvals = set()
        for i in fn.instrs():
            p = fn.ptr_operand(i)
            if p is None:
                continue
            c = self.status_cell(self.eng.c.addr(p))
            if c is None:
                continue
            self.status_ops[i.id] = (i, c)
            if i.op == 'store':
                self.allvals.add(i.ops[0][1] if i.ops[0][0] == 'c' else None)
                self.finals.add(i.ops[0][1] if i.ops[0][0] == 'c' else None)
            elif i.op == 'cmpxchg':
                self.allvals.add(i.ops[2][1] if i.ops[2][0] == 'c' else None)
            elif i.op == 'atomicrmw':
                self.allvals.add(i.ops[1][1] if i.ops[1][0] == 'c' and i.get('rmw') == 'xchg' else None)

    # ---- naming
    def via(self, a, member, es):
        """(side, index) of a cell reached through a per-side pointer of the task."""
        r = a[1]
        if r[0] != 'ld' or r[1][1] != ('a', 0):
            return None
        side = elem(r[1], member[1], member[2], 8)
        if side is None:
            return None
        if not a[3]:
            return (side, ('c', a[2] // es))
        if len(a[3]) == 1 and a[3][0][1] == es and a[2] == 0:
            return (side, a[3][0][0])
        return None

    def status_cell(self, a):
        return self.via(a, self.T.status, 1)

    def local_cell(self, a):
        return self.via(a, self.T.local, 1)

    def params_elem(self, a, name, es):
        m = self.T.P[name]
        r = a[1]
        if r != ('ld', ('p', ('a', 0), self.T.prm[1], ())):
            return None
        return elem(a, m[1], m[2], es)

    def fail(self, rule, i, msg):
        self.bad.setdefault((rule, i.where(), msg), 0)

    def good(self, rule, i):
        self.seen_ok.setdefault((rule, i.where(), i.id), 0)

    def check(self, cond, rule, i, msg):
        (self.good(rule, i) if cond else self.fail(rule, i, msg))
        return cond

    # ---- facts
    def prepacked(self, st, side):
        if side[0] != 'c':
            return False
        m = self.T.P['is_prepacked']
        k = ('ld', ('p', ('ld', ('p', ('a', 0), self.T.prm[1], ())), m[1] + side[1], ()))
        return (k, 0) in st.nots or st.vals.get(k, 0) != 0

    def ready(self, st, side, idx):
        return st.has('packed', side, idx) or self.prepacked(st, side)

    def learn(self, st):
        """Turns knowledge about flag and status cells into packed(side, index)."""
        for k, c in list(st.nots):
            if c == 0 and k[0] == 'ld':
                x = self.local_cell(k[1])
                if x:
                    st.add('packed', *x)
        for k, c in list(st.vals.items()):
            if c != 0 and k[0] == 'ld':
                x = self.local_cell(k[1])
                if x:
                    st.add('packed', *x)
        for f in list(st.facts):
            if f[0] != 'rd':
                continue
            i, cell = self.status_ops[f[1]][0], f[2]
            key = ('xv', ('i', i.id), (0,)) if i.op == 'cmpxchg' else ('i', i.id)
            possible = set(self.allvals) | {0}
            if None in possible:
                continue
            if key in st.vals:
                possible &= {st.vals[key]}
            possible -= {c for k, c in st.nots if k == key}
            if i.op == 'cmpxchg':
                ok = ('xv', ('i', i.id), (1,))
                if st.vals.get(ok) == 1:
                    if not st.has('claimed', i.id):
                        st.add('claimed', i.id)
                        st.add('claim', *cell)
                    continue
                order = i.get('ford')
                if ok not in st.vals:
                    continue
            else:
                order = i.get('ord')
            if possible and possible <= self.finals:
                if order in ACQUIRE:
                    st.add('packed', *cell)
                else:
                    self.fail('acquire', i, 'finished status is read with %s order; the packed data may not be visible' % order)

    def on_edge(self, b, s, st):
        self.learn(st)

    def on_kill(self, st, f):
        if f[0] == 'claim':
            self.fail('finish', self.fn.blocks[self.cur.blk].ins[0] if self.cur is None else self.cur,
                      'a claimed block is abandoned without being marked finished')

    def coords(self, st, side, lo, hi):
        for f in st.facts:
            if f[0] == 'coords' and f[1] == side and f[3] == lo and f[4] == hi:
                return f[2]
        return None

    def value_at(self, st, a):
        for f in st.facts:
            if f[0] == 'st' and f[1] == a:
                return f[2]
        return ('ld', a)

    cur = None

    def transfer(self, i, st):
        fn, T, c = self.fn, self.T, st.c
        self.cur = i
        if i.id in self.status_ops:
            cell = self.status_cell(st.addr(fn.ptr_operand(i)))
            st.drop(lambda f: f == ('rd', i.id) or f == ('claimed', i.id) or (f[0] == 'rd' and f[1] == i.id))
            if i.op in ('cmpxchg', 'load'):
                st.add('rd', i.id, cell)
            elif i.op == 'store':
                v = i.ops[0]
                self.check(i.get('ord') in RELEASE, 'release', i,
                           'finished status is published with %s order; packed data may become visible after it' % i.get('ord'))
                self.check(st.has('packed', *cell), 'pack-before-publish', i, 'block is marked finished before (or without) being packed')
                self.check(st.has('claim', *cell), 'claim-before-publish', i, 'block is marked finished by a thread that has not claimed it')
                st.facts.discard(('claim',) + cell)
        if i.op == 'store':
            x = self.local_cell(st.addr(i.ops[1]))
            if x:
                v = st.ev(i.ops[0])
                if v is None or v != 0:
                    self.check(st.has('packed', *x), 'flag-means-packed', i,
                               'block is remembered as packed although it may be unpacked or still in progress')
        if i.op == 'call':
            mn = T.callee_member(fn, i)
            if mn == 'run_pack':
                side = self.params_elem(T.callee_addr(st, i), 'run_pack', 8)
                s2 = self.params_elem(st.addr(i.ops[1]), 'src', T.P['src'][2] // 2)
                s3 = self.params_elem(st.addr(i.ops[2]), 'packed_matrix', T.P['packed_matrix'][2] // 2)
                if side is None:
                    raise AnalysisError('packing call not understood at ' + i.where())
                self.check(side == s2 == s3, 'same-side', i, 'packer, source and destination of a packing call belong to different sides')
                lo, hi = c(i.ops[3]), c(i.ops[4])
                idx = self.coords(st, side, lo, hi)
                if self.check(idx is not None, 'block-range', i, 'packed range is not the coordinates of the block on that side'):
                    nk = ('ld', ('p', ('a', 0), T.need[1], ()))
                    single = st.vals.get(nk) == 0
                    self.check(single or st.has('claim', side, idx), 'claimed', i,
                               'block is packed by a thread that has not exclusively claimed it')
                    st.add('packed', side, idx)
            elif mn == 'run_kernel':
                self.kernels = getattr(self, 'kernels', set()) | {i.id}
                s3 = st.addr(i.ops[1])
                for s in (0, 1):
                    pa, ea = st.addr(i.ops[3]), st.addr(i.ops[4])
                    lo = self.value_at(st, (pa[0], pa[1], pa[2] + 4 * s, pa[3]))
                    hi = self.value_at(st, (ea[0], ea[1], ea[2] + 4 * s, ea[3]))
                    idx = self.coords(st, ('c', s), lo, hi)
                    if self.check(idx is not None, 'kernel-range', i, 'side %d range given to the kernel is not that of its block' % s):
                        self.check(self.ready(st, ('c', s), idx), 'kernel-after-pack', i,
                                   'kernel can run while side %d of its block is not completely packed' % s)
            elif i.dem.startswith('ruy::GetBlockMatrixCoords('):
                a, b = st.addr(i.ops[3]), st.addr(i.ops[4])
                self.pending = None
                # outputs overwrite what was there before
                st.kill(addr=a)
                st.kill(addr=b)
                st.drop(lambda f: f[0] == 'st' and (f[1] == a or f[1] == b))
                mapok = st.addr(i.ops[1]) == ('p', ('ld', ('p', ('a', 0), T.bmap[1], ())), 0, ())
                if mapok:
                    self.fresh = ('coords', c(i.ops[0]), c(i.ops[2]), ('ld', a), ('ld', b))
        if i.op == 'ret':
            for f in st.facts:
                if f[0] == 'claim':
                    self.fail('finish', i, 'the task can end with a claimed block never marked finished')
            self.good('finish', i)

    def go(self):
        eng = self.eng
        base = eng._writes

        def writes(i, st):
            base(i, st)
            if i.op == 'call' and i.dem.startswith('ruy::GetBlockMatrixCoords(') and getattr(self, 'fresh', None):
                st.facts.add(self.fresh)
                self.fresh = None
        eng._writes = writes
        try:
            eng.run()
        except AnalysisError:
            if not self.bad:
                raise
        for (rule, where, _id) in self.seen_ok:
            if not any(r == rule and w == where for r, w, _ in self.bad):
                self.rep.ok(rule, where)
        for (rule, where, msg) in self.bad:
            self.rep.bad(rule, where, msg)
        if not getattr(self, 'kernels', None):
            raise AnalysisError('anchor vanished: kernel call never reached in the task')



def strip(fn, o):
    i = fn.inst(o)
    while i is not None and i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
        o = i.ops[0]
        i = fn.inst(o)
    return o


def log2_terms(fn, o):
    """When o is 1 << (sum of block-map members), the sorted member names with
    their side, else None."""
    i = fn.inst(strip(fn, o))
    if i is None or i.op != 'shl' or i.ops[0][0] != 'c' or i.ops[0][1] != 1:
        return None
    terms = []

    def add(x, k):
        x = strip(fn, x)
        j = fn.inst(x)
        if x[0] == 'c':
            if x[1]:
                terms.append(('const', x[1] * k))
            return
        if j is None:
            terms.append((x, k))
        elif j.op == 'add':
            add(j.ops[0], k)
            add(j.ops[1], k)
        elif j.op == 'shl' and j.ops[1][0] == 'c':
            add(j.ops[0], k << j.ops[1][1])
        elif j.op == 'mul' and j.ops[1][0] == 'c':
            add(j.ops[0], k * j.ops[1][1])
        elif j.op == 'load':
            c = [mn for cl, mn in fn.fields(j.ops[0]) if cl == 'ruy::BlockMap']
            r, off, var = fn.addr(j.ops[0])
            if not c or var:
                terms.append((x, k))
            else:
                m = fn.mod.member('ruy::BlockMap', c[0])
                terms.append((c[0], (off - rootoff(fn, j.ops[0], c[0], m)) // 4, k))
        else:
            terms.append((x, k))
    add(i.ops[1], 1)
    return sorted(terms, key=repr)


def rootoff(fn, o, name, m):
    return m[1]


def blocks_per_side(s):
    return sorted([('num_blocks_base_log2', 0, 1), ('rectangularness_log2', s, 1)], key=repr)


BLOCKS = sorted([('num_blocks_base_log2', 0, 2), ('rectangularness_log2', 0, 1), ('rectangularness_log2', 1, 1)], key=repr)


class Flags(Packing):
    """Adds: the per-thread flags are cleared, for all blocks, before use."""

    def __init__(self, T, rep):
        Packing.__init__(self, T, rep)
        fn = self.fn
        self.S = Sym(fn)
        # clearing loops: zero stored through the allocation kept in the slot of a side
        self.fills = {}
        cn = Canon(fn)
        kept = {}
        for i in fn.instrs():
            if i.op == 'store':
                a = cn.addr(i.ops[1])
                s = elem(a, T.local[1], T.local[2], 8) if a[1] == ('a', 0) else None
                if s is not None and s[0] == 'c':
                    kept.setdefault(s[1], set()).add(cn(i.ops[0]))
        for i in fn.instrs():
            L = fn.innermost(i.blk)
            if i.op != 'store' or i.ops[0][0] != 'c' or i.ops[0][1] != 0 or L is None:
                continue
            r = cn.addr(i.ops[1])[1]
            for s in (0, 1):
                al = {r} if r in kept.get(s, ()) else kept.get(s, ()) if r == ('ld', ('p', ('a', 0), T.local[1] + 8 * s, ())) else ()
                al = fn.inst(list(al)[0]) if len(al) == 1 and list(al)[0][0] == 'i' else None
                if al is None or al.op != 'call' or 'Allocate' not in al.dem or log2_terms(fn, al.ops[1]) != blocks_per_side(s):
                    continue
                if fill_loop(fn, self.S, i, self.S.opnd(fn.addr(i.ops[1])[0]), self.S.opnd(al.ops[1])):
                    self.fills[L.id] = (s, al)

    def on_edge(self, b, s, st):
        for Lid, (sd, al) in list(self.fills.items()):
            if done_edge(self.fn, self.fn.loops[Lid], al.ops[1], b, s):
                self.good('flags-cleared', al)
                self.good('flags-sized', al)
                st.add('cleared', ('c', sd))
        return Packing.on_edge(self, b, s, st)

    def transfer(self, i, st):
        fn, T, c = self.fn, self.T, st.c
        if i.op == 'store':
            a = st.addr(i.ops[1])
            if a[1] == ('a', 0):
                s = elem(a, T.local[1], T.local[2], 8)
                if s is not None:
                    st.drop(lambda f: f[0] == 'cleared' and f[1] == s)
        if i.op == 'call' and (i.callee or '').startswith('llvm.memset'):
            d = c(i.ops[0])
            for s in (0, 1):
                slot = ('p', ('a', 0), T.local[1] + 8 * s, ())
                cur = self.value_at(st, slot)
                if d == cur or d == ('ld', slot):
                    n = log2_terms(fn, i.ops[2])
                    a = fn.inst(cur) if cur[0] == 'i' else None
                    an = log2_terms(fn, a.ops[1]) if a is not None and a.op == 'call' and 'Allocate' in a.dem else None
                    self.check(i.ops[1][0] == 'c' and i.ops[1][1] == 0 and n == blocks_per_side(s), 'flags-cleared', i,
                               'the packed flags of side %d are not all cleared to "not packed"' % s)
                    self.check(an == blocks_per_side(s), 'flags-sized', i, 'the packed flags of side %d are not one per block' % s)
                    st.add('cleared', ('c', s))
        if i.op == 'load':
            x = self.local_cell(st.addr(i.ops[0]))
            if x:
                for s in (0, 1):
                    if x[0] == ('c', s) or x[0][0] != 'c':
                        self.check(st.has('cleared', ('c', s)) or self.prepacked(st, ('c', s)), 'flags-cleared', i,
                                   'packed flags of side %d are read without having been cleared' % s)
        Packing.transfer(self, i, st)


class Setup:
    """What the calling thread prepares before the tasks run."""

    def __init__(self, T, rep):
        self.T, self.rep = T, rep
        fn = self.fn = T.tm
        self.S = Sym(fn)
        prm = ('a', 1)
        cn = Canon(fn)
        roots = {cn.addr(i.ops[1])[1] for i in fn.instrs() if i.op == 'store'}
        self.eng = Engine(fn, self.transfer, on_edge=self.on_edge,
                          immutable=lambda a: a[2] is not None and a[1] == prm and prm not in roots)
        self.eng.on_copy = self.on_copy
        self.bad, self.seen_ok = {}, {}
        self.exe = list(fn.calls(r'^ruy::ThreadPool::Execute'))
        if not self.exe:
            raise AnalysisError('anchor vanished: no batch is executed')
        # initialising loops: store of a constant through an allocation, one element per iteration
        self.inits = {}
        for i in fn.instrs():
            if i.op != 'store' or i.ops[0][0] != 'c':
                continue
            p = self.S.opnd(i.ops[1])
            L = fn.innermost(i.blk)
            al = [a for a in p.atoms() if a[0] == 'i' and fn.inst(a).op == 'call' and 'Allocate' in fn.inst(a).dem]
            if L is None or len(al) != 1:
                continue
            self.inits.setdefault(L.id, []).append((i, al[0], p))
        self.count = self.exe[0].ops[1]

    fail, good, check, value_at = Packing.fail, Packing.good, Packing.check, Packing.value_at

    def alloc_size(self, al):
        return self.fn.inst(al).ops[1]

    def on_edge(self, b, s, st):
        fn = self.fn
        ef = edge_facts(fn, self.S, b, s)
        if ef and entails(list(ef) + [self.S.opnd(self.count) - 1], P(-1)):
            return False            # a batch has at least one task
        for Lid, xs in self.inits.items():
            for i, al, p in xs:
                if ('alloc', al) in st.facts and done_edge(fn, fn.loops[Lid], self.alloc_size(al), b, s):
                    st.add('init', al, i.id)

    def init_ok(self, i, al, p):
        return fill_loop(self.fn, self.S, i, Poly.atom(al), self.S.opnd(self.alloc_size(al)))

    def prepacked(self, st, s):
        m = self.T.P['is_prepacked']
        k = ('ld', ('p', ('a', 1), m[1] + s, ()))
        return (k, 0) in st.nots or st.vals.get(k, 0) != 0

    def task_member(self, a):
        """Member of the task a store into the task buffer hits."""
        r = self.fn.inst(a[1])
        if r is None or r.op != 'call' or 'Allocate' not in r.dem:
            return None
        sz = self.T.task.get('size') or 0
        if len(a[3]) > 1:
            return None
        if r.id != getattr(self, 'buf', None):
            return None
        for m in self.T.task['members']:
            if m[1] <= a[2] < m[1] + m[2] and not m[4]:
                return m
        return None

    def on_copy(self, i, st, d, moved):
        m = self.task_member(d)
        if m is self.T.status or (m and m[1] == self.T.status[1]):
            vals = {f[1][2] - d[2]: f[2] for f in moved}
            for s in (0, 1):
                self.status_given(i, st, s, vals.get(8 * s))

    def status_given(self, i, st, s, v):
        v = st.deref(v) if v is not None else v
        if v is not None and ('init', v) in {(f[0], f[1]) for f in st.facts if f[0] == 'init'}:
            al = v
            ins = [f[2] for f in st.facts if f[0] == 'init' and f[1] == v]
            n = log2_terms(self.fn, self.alloc_size(al))
            self.check(n == blocks_per_side(s), 'status-sized', i, 'packing status of side %d is not one entry per block' % s)
            okc = any(self.init_ok(self.fn.byid[x], al, self.S.opnd(self.fn.byid[x].ops[1])) and
                      self.fn.byid[x].ops[0][1] == self.T_notstarted for x in ins)
            self.check(okc, 'status-initialised', i, 'packing status of side %d is not initialised to "not started" for every block' % s)
            return
        if self.prepacked(st, s):
            self.good('status-initialised', i)
            return
        f = self.multi(st)
        self.check(f == 0, 'status-initialised', i, 'a task can run multi-threaded with an uninitialised packing status for side %d' % s)

    def multi(self, st):
        """Value of the multi-threaded flag stored in the task, if known."""
        return st.ev(self.flag_op) if self.flag_op is not None else None

    def transfer(self, i, st):
        fn, T, c = self.fn, self.T, st.c
        if i.op == 'call' and 'Allocator::Allocate' in (i.dem or ''):
            st.add('alloc', i.val)
        if i.op == 'store':
            a = st.addr(i.ops[1])
            m = self.task_member(a)
            if m and m[1] == T.status[1]:
                self.status_given(i, st, (a[2] - m[1]) // 8, c(i.ops[0]))
        if i.op == 'call':
            mn = T.callee_member(fn, i)
            if mn == 'run_pack':
                pa = T.callee_addr(st, i)
                P_ = T.P

                def pe(a, name, es):
                    return elem(a, P_[name][1], P_[name][2], es) if a[1] == ('a', 1) else None
                side = pe(pa, 'run_pack', 8)
                s2 = pe(st.addr(i.ops[1]), 'src', P_['src'][2] // 2)
                s3 = pe(st.addr(i.ops[2]), 'packed_matrix', P_['packed_matrix'][2] // 2)
                self.check(side is not None and side == s2 == s3, 'same-side', i,
                           'packer, source and destination of a packing call belong to different sides')
                st.add('packedr', side, c(i.ops[3]), c(i.ops[4]))
            elif mn == 'run_kernel':
                for s in (0, 1):
                    pa, ea = st.addr(i.ops[3]), st.addr(i.ops[4])
                    lo = self.value_at(st, (pa[0], pa[1], pa[2] + 4 * s, pa[3]))
                    hi = self.value_at(st, (ea[0], ea[1], ea[2] + 4 * s, ea[3]))
                    self.check(st.has('packedr', ('c', s), lo, hi) or self.prepacked(st, s), 'kernel-after-pack', i,
                               'kernel can run while side %d is not completely packed' % s)
                    self.whole(i, s, lo, hi)

    def whole(self, i, s, lo, hi):
        pm = self.T.P['packed_matrix']
        ok = False
        if hi[0] == 'ld' and hi[1][1] == ('a', 1):
            off = hi[1][2] - pm[1] - s * (pm[2] // 2)
            ok = any(mn == 'cols' for cl, mn in self.fn.mod.members_at('ruy::PEMat', off))
        self.check(lo == ('c', 0) and ok, 'whole-range', i, 'without tasks the kernel does not cover all of side %d' % s)

    def go(self):
        fn, T = self.fn, self.T
        # the task buffer and the flag stored into tasks
        self.flag_op = None
        ex = self.exe[0]
        r, off, var = fn.addr(ex.ops[3])
        self.buf = r[1] if r[0] == 'i' else None
        for i in fn.instrs():
            if i.op == 'store':
                m = self.task_member(self.eng.c.addr(i.ops[1]))
                if m and m[1] == T.need[1]:
                    self.flag_op = i.ops[0]
                    self.flag_store = i
        if self.flag_op is None:
            raise AnalysisError('anchor vanished: multi-threaded flag of the task is never set')
        cond = strip(fn, self.flag_op)
        n = self.S.opnd(self.count)
        fs = self.S.cond(cond, False) if cond[0] == 'i' else ([] if cond[1] else None)
        ok = (cond[0] == 'c' and cond[1] != 0) or (bool(fs) and entails(fs, P(1) - n))
        self.check(ok, 'flag-sound', self.flag_store, 'tasks can be told to skip atomics although several of them run')
        try:
            self.eng.run()
        except AnalysisError:
            if not self.bad:
                raise

    def flush(self, rules):
        for (rule, where, _id) in self.seen_ok:
            if rule in rules and not any(r == rule and w == where for r, w, _ in self.bad):
                self.rep.ok(rule, where)
        for (rule, where, msg) in self.bad:
            if rule in rules:
                self.rep.bad(rule, where, msg)


def c03(rep, tier):
    T = TM()
    rep.units.append('%s: %d blocks' % (T.run.dem, len(T.run.blocks)))
    R = rep.rule
    R('kernel-after-pack', 'at every kernel call both sides of its block are prepacked, packed by this thread, or seen finished')
    R('kernel-range', 'the ranges given to the kernel are the coordinates of the block whose packing was established')
    R('block-range', 'a packing call covers exactly the coordinates of its block')
    R('same-side', 'packer, source and packed matrix of a packing call belong to one side')
    R('claimed', 'with several threads a block is packed only after this thread atomically claimed it')
    R('pack-before-publish', 'a block is marked finished only after it was packed')
    R('claim-before-publish', 'a block is marked finished only by the thread that claimed it')
    R('release', 'marking finished has release order')
    R('acquire', 'finished is only relied on after an acquire read')
    R('flag-means-packed', 'a block is remembered locally as packed only when it is')
    R('finish', 'every claimed block is marked finished before the thread moves on')
    R('flags-cleared', 'the per-thread packed flags are all cleared before they are first read')
    R('flags-sized', 'there is one per-thread packed flag per block')
    R('status-initialised', 'when tasks use atomics, each shared packing status is set to not-started for every block before tasks are created')
    R('status-sized', 'there is one shared packing status per block')
    R('flag-sound', 'tasks skip atomics only when a single task runs')
    pk = Flags(T, rep)
    pk.go()
    su = Setup(T, rep)
    claims = {i.ops[1][1] for i, _ in pk.status_ops.values() if i.op == 'cmpxchg'}
    if len(claims) != 1:
        raise AnalysisError('anchor vanished: claiming a block (%d expected values)' % len(claims))
    su.T_notstarted = next(iter(claims))
    su.go()
    su.flush(('same-side', 'kernel-after-pack', 'status-initialised', 'status-sized', 'flag-sound'))
    rep.ok('acquire', T.run.dem)
    rep.notes.append('typestate states explored: %d' % getattr(pk.eng, 'states', 0))
    for r in ('kernel-after-pack', 'kernel-range', 'block-range', 'same-side', 'claimed', 'release', 'pack-before-publish', 'flag-means-packed', 'finish'):
        rep.need(r, 1)


def single_main_loop(fn, kcalls):
    Ls = {id(L): L for k in kcalls for L in fn.loops_of(k.blk)[:1]}
    return list(Ls.values())


def count_in_iteration(fn, L, weight):
    """Possible numbers of weighted events from the header round to the header."""
    res = set()
    state = {}
    work = [(L.header, 0)]
    while work:
        b, c = work.pop()
        if c in state.setdefault(b, set()):
            continue
        state[b].add(c)
        for i in fn.blocks[b].ins:
            c = min(3, c + weight(i))
        for s in fn.blocks[b].succ:
            if s == L.header:
                res.add(c)
            elif s in L.blocks:
                work.append((s, c))
    return res


def c04(rep, tier):
    import blocks
    blocks.traversal(rep, blocks.tiling(rep))
    T = TM()
    fn, S = T.run, Sym(T.run)
    rep.units += ['%s: %d blocks' % (f.dem, len(f.blocks)) for f in (T.run, T.tm)]
    R = rep.rule
    R('first-block', 'a thread starts with the block numbered by its own thread id')
    R('next-block', 'every further block number comes from one atomic add of 1 to the shared counter, once per iteration')
    R('all-blocks', 'a thread stops only when its block number has reached the number of blocks')
    R('once-per-iteration', 'each iteration runs the kernel exactly once, on the block of that iteration')
    R('kernel-range', 'the kernel range on each side is the coordinates of the block of this iteration')
    R('dst', 'the kernel writes to the destination of this multiplication')
    kc = [i for i in fn.instrs() if i.op == 'call' and T.callee_member(fn, i) == 'run_kernel']
    gb = list(fn.calls(r'^ruy::GetBlockByIndex\('))
    if not kc or not gb:
        raise AnalysisError('anchor vanished: kernel or block lookup in the task')
    Ls = single_main_loop(fn, kc)
    if len(Ls) != 1 or any(L is None for L in Ls):
        raise AnalysisError('kernel is not run in a single loop over blocks')
    L = Ls[0]
    cn = Canon(fn)
    this = ('a', 0)
    ctr = ('ld', ('p', this, T.shared[1], ()))

    def is_rmw(i):
        return i.op == 'atomicrmw' and cn.addr(i.ops[0]) == ('p', ctr, 0, ())
    rm = [i for i in fn.instrs() if is_rmw(i)]
    other = [i for i in fn.instrs() if i.op in ('load', 'store', 'cmpxchg') and cn.addr(fn.ptr_operand(i)) == ('p', ctr, 0, ())]
    for i in rm:
        rep.check(i.get('rmw') == 'add' and i.ops[1][0] == 'c' and i.ops[1][1] == 1, 'next-block', i.where(),
                  'the shared counter is not advanced by one')
    for i in other:
        rep.bad('next-block', i.where(), 'the shared counter is accessed other than by an atomic add')
    if not rm and not other:
        rep.bad('next-block', fn.dem, 'threads never take block numbers from the shared counter')
    # the block number of an iteration
    ids = {strip(fn, g.ops[1]) for g in gb}
    phi = None
    if len(ids) == 1:
        phi = fn.inst(next(iter(ids)))
    if phi is None or phi.op != 'phi' or phi.blk != L.header:
        rep.bad('first-block', gb[0].where(), 'the block looked up is not the block number of the iteration')
    else:
        for pb, v in fn.phi_in(phi):
            v = strip(fn, v)
            if pb in L.blocks:
                j = fn.inst(v)
                rep.check(j is not None and j in rm and j.blk in L.blocks, 'next-block', phi.where(),
                          'the next block number is not what the atomic add returned')
            else:
                rep.check(cn(v) == ('ld', ('p', this, T.tid[1], ())), 'first-block', phi.where(),
                          'a thread does not start with the block of its thread id')
        n = count_in_iteration(fn, L, lambda i: 1 if i in rm else 0)
        rep.check(n == {1}, 'next-block', L_where(fn, L), 'an iteration takes %s block numbers from the counter' % sorted(n))
        out = [i for i in rm if i.blk not in L.blocks]
        for i in out:
            rep.bad('next-block', i.where(), 'a block number is taken outside the loop and lost')
        # leaving the loop
        dead = fn.dead()
        for b in sorted(L.blocks):
            for s in fn.blocks[b].succ:
                if s in L.blocks or s in dead:
                    continue
                ec = edge_cond(fn, b, s)
                ok = False
                if ec:
                    c = fn.inst(ec[0])
                    if c is not None and c.op == 'icmp':
                        pr, x, y = c.raw['pred'], strip(fn, c.ops[0]), strip(fn, c.ops[1])
                        if not ec[1]:
                            from scev import NEG
                            pr = NEG[pr]
                        if pr in ('sle', 'ule', 'slt', 'ult'):
                            pr = {'sle': 'sge', 'ule': 'uge', 'slt': 'sgt', 'ult': 'ugt'}[pr]
                            x, y = y, x
                        last = {strip(fn, v) for pb, v in fn.phi_in(phi) if pb in L.blocks} | {phi.val}
                        # the tested value must be the coming block number: the phi itself when
                        # tested before its block is run, the incoming value when tested after
                        ran = fn.path(phi, lambda i: i is fn.term(b), lambda i: i in kc) is None
                        good_x = (x == phi.val and not ran) or (x != phi.val and x in last and ran)
                        ok = pr in ('sge', 'uge') and good_x and log2_terms(fn, y) == BLOCKS
                rep.check(ok, 'all-blocks', fn.term(b).where(), 'the loop over blocks can end before the block number reaches the number of blocks')
        # entering: a guard may skip the loop only when the first block number is out of range
        pre = [b for b in fn.blocks[L.header].preds if b not in L.blocks]
        for b in sorted(fn.blocks):
            if b in L.blocks:
                continue
            for s in fn.blocks[b].succ:
                if s in dead or len(fn.blocks[b].succ) < 2:
                    continue
                reach = fn.reach_blocks([s])
                if L.header in fn.reach_blocks([b]) and L.header not in reach and fn.dominates_b(b, L.header):
                    ec = edge_cond(fn, b, s)
                    ok = False
                    if ec:
                        c = fn.inst(ec[0])
                        if c is not None and c.op == 'icmp':
                            from scev import NEG
                            pr = c.raw['pred'] if ec[1] else NEG[c.raw['pred']]
                            x, y = strip(fn, c.ops[0]), strip(fn, c.ops[1])
                            if pr in ('sle', 'ule'):
                                pr, x, y = 'sge', y, x
                            ok = pr in ('sge', 'uge') and cn(x) == ('ld', ('p', this, T.tid[1], ())) and log2_terms(fn, y) == BLOCKS
                    rep.check(ok, 'all-blocks', fn.term(b).where(), 'a thread can skip the loop over blocks')
    n = count_in_iteration(fn, L, lambda i: 1 if i in kc else 0)
    rep.check(n == {1}, 'once-per-iteration', L_where(fn, L), 'an iteration runs the kernel %s times' % sorted(n))
    for k in kc:
        inner = [l for l in fn.loops_of(k.blk) if l is not L]
        rep.check(not inner, 'once-per-iteration', k.where(), 'the kernel is run repeatedly for one block')
        d = cn.addr(k.ops[5])
        rep.check(d == ('p', ('ld', ('p', this, T.prm[1], ())), T.P['dst'][1], ()), 'dst', k.where(), 'the kernel is given another destination')
    # block -> coordinates, by typestate on the local pairs
    cov = Ranges(T, rep)
    cov.go()

    # ---- set-up on the calling thread
    fn, S = T.tm, Sym(T.tm)
    cn = Canon(fn)
    R('distinct-ids', 'task i of the batch has thread id i, for every i below the batch size')
    R('counter-start', 'the shared counter starts at the number of tasks, so that first blocks are not handed out twice')
    R('same-counter', 'all tasks share one counter, one block map, one parameter block')
    R('either-way', 'each multiplication runs exactly one batch or one direct kernel call')
    R('whole-range', 'the direct kernel call covers the whole destination')
    R('map-dims', 'the block map is made for the packed dimensions and kernel sizes of both sides')
    ex = list(fn.calls(r'^ruy::ThreadPool::Execute'))
    kc = [i for i in fn.instrs() if i.op == 'call' and T.callee_member(fn, i) == 'run_kernel']
    if len(ex) != 1:
        raise AnalysisError('anchor vanished: batch execution (%d sites)' % len(ex))
    ex = ex[0]
    cnt = S.opnd(ex.ops[1])
    rep.check(ex.ops[2] == ('c', T.task['size'], 32), 'distinct-ids', ex.where(), 'task stride differs from the task size')
    res = fn.count_on_paths(lambda i: 1 if i is ex or i in kc else 0)
    for r_, c in res.items():
        rep.check(c == {1}, 'either-way', r_.where(), 'paths run %s batches or kernels' % sorted(c))
    buf = fn.addr(ex.ops[3])
    members = {}
    for i in fn.instrs():
        if i.op == 'store':
            r, off, var = fn.addr(i.ops[1])
            if r == buf[0]:
                for m in T.task['members']:
                    if m[1] <= off < m[1] + m[2] and not m[4]:
                        members.setdefault(m[0], []).append(i)
    sz = T.task['size']
    tid = members.get(T.tid[0], [])
    for i in tid:
        Lp = fn.innermost(i.blk)
        v, a = S.opnd(i.ops[0]), S.opnd(i.ops[1]) - S.opnd(buf[0]) - T.tid[1]
        it = ('it', Lp.id) if Lp is not None else None
        ok = Lp is not None and a.divides(sz) and a.div(sz) == v and v.coeff(it) is not None and v.coeff(it)[0] == P(1)
        if ok:
            live = [(eb, ec) for eb, ec in Lp.exits if any(x not in fn.dead() for x in fn.blocks[eb].succ if x not in Lp.blocks)]
            ok = len(live) == 1 and live[0][1][0] != 'cnc'
            if ok:
                F = S.facts_at(i.blk, extra=[cnt - 1])
                t = S.scev(live[0][1])
                ok = F.prove_eq(v.subst(it, P(0)), 0) and F.prove_eq(v.subst(it, t), cnt - 1)
        rep.check(ok, 'distinct-ids', i.where(), 'thread ids given to tasks are not 0..n-1, one per task')
    if not tid:
        raise AnalysisError('anchor vanished: no task is given a thread id')
    ctrs = {fn.addr(i.ops[0]) for i in members.get(T.shared[0], [])}
    rep.check(len(ctrs) == 1, 'same-counter', ex.where(), 'tasks are given %d different counters' % len(ctrs))
    if len(ctrs) == 1:
        ctr = next(iter(ctrs))
        cal = fn.inst(ctr[0])
        inloop = cal is not None and any(fn.innermost(i.blk) and cal.blk in fn.innermost(i.blk).blocks for i in members[T.shared[0]])
        rep.check(not inloop, 'same-counter', ex.where(), 'each task is given its own counter')
        st = [i for i in fn.instrs() if i.op == 'store' and fn.addr(i.ops[1]) == ctr]
        for i in st:
            rep.check(S.opnd(i.ops[0]) == cnt, 'counter-start', i.where(), 'the counter starts at %r, not at the number of tasks' % S.opnd(i.ops[0]))
        w = fn.path(cal, lambda x: x is ex, lambda x: x in st)
        rep.check(w is None, 'counter-start', ex.where(), 'the batch can start with the counter unset')
    maps = {fn.addr(i.ops[0]) for i in members.get(T.bmap[0], [])}
    mk = list(fn.calls(r'^ruy::MakeBlockMap\('))
    rep.check(len(mk) == 1 and maps == {fn.addr(mk[0].ops[-1])}, 'same-counter', ex.where(), 'tasks do not use the block map made for this multiplication')
    prms = {fn.addr(i.ops[0]) for i in members.get(T.prm[0], [])}
    rep.check(prms == {(('a', 1), 0, ())}, 'same-counter', ex.where(), 'tasks do not use the parameters of this multiplication')
    for m_ in mk:
        pm = T.P['packed_matrix']
        for s, ai, mem in ((0, 0, 'cols'), (1, 1, 'cols'), (0, 3, 'cols'), (1, 4, 'cols')):
            a = cn(m_.ops[ai])
            ok = a[0] == 'ld' and a[1][1] == ('a', 1) and not a[1][3]
            if ok:
                off = a[1][2] - pm[1] - s * (pm[2] // 2)
                ms = fn.mod.members_at('ruy::PEMat', off) if 0 <= off < pm[2] // 2 else []
                inner = [x for x in ms if x[1] == 'cols']
                kern = any(x[1] == 'kernel' for x in ms)
                ok = bool(inner) and kern == (ai >= 3)
            rep.check(ok, 'map-dims', m_.where(), 'block map argument %d is not the packed %s of side %d' % (ai, 'kernel width' if ai >= 3 else 'width', s))
        rep.check(fn.dominates(m_, ex), 'map-dims', m_.where(), 'the batch can run without the block map having been made')
    su = Setup(T, rep)
    su.T_notstarted = 0
    su.go()
    su.flush(('whole-range',))
    for r in ('first-block', 'next-block', 'all-blocks', 'once-per-iteration', 'kernel-range', 'distinct-ids', 'counter-start', 'either-way', 'whole-range', 'map-dims'):
        rep.need(r, 1)


def L_where(fn, L):
    for i in fn.blocks[L.header].ins:
        if i.get('loc'):
            return i.where()
    return fn.dem


class Ranges(Packing):
    """Which block's coordinates reach the kernel."""

    def transfer(self, i, st):
        fn, T, c = self.fn, self.T, st.c
        if i.op == 'call' and i.dem.startswith('ruy::GetBlockByIndex('):
            a = st.addr(i.ops[2])
            self.pend = ('block', a, strip(fn, i.ops[1]))
            self.check(st.addr(i.ops[0]) == ('p', ('ld', ('p', ('a', 0), T.bmap[1], ())), 0, ()), 'kernel-range', i, 'block looked up in another block map')
        if i.op == 'call' and T.callee_member(fn, i) == 'run_kernel':
            for s in (0, 1):
                pa, ea = st.addr(i.ops[3]), st.addr(i.ops[4])
                lo = self.value_at(st, (pa[0], pa[1], pa[2] + 4 * s, pa[3]))
                hi = self.value_at(st, (ea[0], ea[1], ea[2] + 4 * s, ea[3]))
                idx = self.coords(st, ('c', s), lo, hi)
                ok = idx is not None and idx[0] == 'ld' and any(
                    f[0] == 'block' and ('p', f[1][1], f[1][2] + 4 * s, f[1][3]) == idx[1] for f in st.facts)
                self.check(ok, 'kernel-range', i, 'side %d range of the kernel is not that of the block of this iteration' % s)
        bad, ok_ = dict(self.bad), dict(self.seen_ok)
        Packing.transfer(self, i, st)
        self.bad = {k: v for k, v in self.bad.items() if k[0] == 'kernel-range'}
        self.seen_ok = {k: v for k, v in self.seen_ok.items() if k[0] == 'kernel-range'}

    def go(self):
        eng = self.eng
        base = eng._writes

        def writes(i, st):
            base(i, st)
            if i.op == 'call' and i.dem.startswith('ruy::GetBlockByIndex('):
                st.drop(lambda f: f[0] == 'block')
                st.facts.add(self.pend)
        eng._writes = writes
        Packing.go(self)


def c08(rep, tier):
    mod = Module(flatten(roots=[r'^ruy::TrMul\(', r'^ruy::MakeBlockMap\('],
                         keep=[KEEP.replace('|max', '').replace('MakeBlockMap|', 'MakeBlockMap\\(|')], flags=['--unroll=4'], tag='c08'))
    tm, mb = mod.one(r'^ruy::TrMul\('), mod.one(r'^ruy::MakeBlockMap\(')
    rep.units += ['%s: %d blocks' % (f.dem, len(f.blocks)) for f in (tm, mb)]
    R = rep.rule
    R('tentative', 'the thread count asked for never exceeds the configured maximum (taken as at least one)')
    R('map-count', 'the block map\'s thread count never exceeds the one asked for')
    R('batch-size', 'the batch has exactly as many tasks as the block map\'s thread count')
    R('resources', 'per-thread resources exist for every task before tasks are created')
    R('fresh', 'the resources added for a thread are new, and are never removed or replaced')
    R('own', 'each task is given an allocator and tuning state no other task is given')
    R('one-spawner', 'threads are started in one place only, the thread pool')
    R('pool-count', 'the pool never holds more workers than the largest batch size minus one')
    S = Sym(tm)
    mk = list(tm.calls(r'^ruy::MakeBlockMap\('))
    ex = list(tm.calls(r'^ruy::ThreadPool::Execute'))
    if len(mk) != 1 or not ex:
        raise AnalysisError('anchor vanished: block map or batch execution in the middle end')
    mk = mk[0]
    # parameter index of the thread count in MakeBlockMap: the int argument that flows into BlockMap::thread_count
    SB = Sym(mb)
    st = [i for i in mb.instrs() if i.op == 'store' and mb.is_field(i.ops[1], 'ruy::BlockMap', 'thread_count')]
    if not st:
        raise AnalysisError('anchor vanished: block map thread count')
    args = set()
    for i in st:
        v = SB.opnd(i.ops[0])
        F = SB.facts_at(i.blk)
        c = [n for n in range(len(mb.args)) if F.prove(Poly.atom(('a', n)) - v)]
        if rep.check(bool(c), 'map-count', i.where(), 'thread count of the block map is %r, not bounded by an argument' % v):
            args.update(c)
    args = [a for a in args]
    cap = [m for m in mod.types['ruy::CtxImpl']['members'] if m[0] == 'max_num_threads_']
    caps = [i for i in tm.instrs() if i.op == 'load' and any(mn.startswith('max_num_threads') for cl, mn in tm.fields(i.ops[0]))]
    if not caps:
        raise AnalysisError('anchor vanished: configured maximum is never read')
    stores = [i for i in tm.instrs() if i.op == 'store' and any(mn.startswith('max_num_threads') for cl, mn in tm.fields(i.ops[1]))]
    for i in stores:
        rep.bad('tentative', i.where(), 'the configured maximum is overwritten during a multiplication')
    for a in args:
        from conc import sources
        for src in sources(tm, mk.ops[a]):
            p = S.opnd(src)
            blk = tm.inst(src).blk if src[0] == 'i' else mk.blk
            F = S.facts_at(blk)
            ok = False
            for cl in caps:
                F2 = F.copy()
                F2.add(Poly.atom(cl.val) - 1)
                for c2 in caps:          # one configured value per call
                    if c2 is not cl:
                        F2.eq(Poly.atom(c2.val), Poly.atom(cl.val))
                ok = ok or F2.prove(Poly.atom(cl.val) - p)
            rep.check(ok, 'tentative', tm.inst(src).where() if src[0] == 'i' else mk.where(), 'thread count %r can exceed the configured maximum' % p)
    cn = Canon(tm)
    mp = tm.addr(mk.ops[-1])
    tc = mod.member('ruy::BlockMap', 'thread_count')
    for e in ex:
        rep.check(cn(e.ops[1]) == ('ld', ('p', mp[0], mp[1] + tc[1], ())), 'batch-size', e.where(), 'the batch size is not the block map\'s thread count')
    import share
    share.resources(rep, share.Shared(), 'resources', 'fresh', 'own')
    # thread creation
    from conc import is_start
    lib = Module(flatten(roots=[r'^ruy::'], flags=['--no-inline', '--no-opt', '--no-scev', '--all'], tag='all'))
    sites = set()
    for f in lib.fns.values():
        for i in f.calls(r'^std::thread::thread<|^std::thread::_M_start_thread|pthread_create|^std::async'):
            if not f.dem.startswith('std::'):
                sites.add((f.dem, i.where()))
    if not sites:
        raise AnalysisError('anchor vanished: no thread is started anywhere')
    for d, w in sites:
        rep.check('ruy/thread_pool.cc' in w or 'ruy/profiler' in w, 'one-spawner', w, 'a thread is started outside the thread pool')
    import threads
    threads.pool_count(rep, 'pool-count')
    for r in rep.rules:
        rep.need(r, 1)


CHECKS = {'C03': c03, 'C04': c04, 'C08': c08}
