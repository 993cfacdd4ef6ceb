"""M01: scratch blocks are aligned, large enough, disjoint and owned."""
import itertools, re
from build import flatten, AnalysisError
from ir import Module, tup
from scev import Sym
from sym import Poly, P, entails
from absint import AI, State, base_of
from conc import edge_cond
from scev import NEG
import mem

CLS = 'ruy::Allocator'
VEC = [r'(^| )std::vector<void\*.*>::(push_back|emplace_back|clear|reserve|pop_back|shrink_to_fit)[<(]']
THIS = ('a', 0)
ALIGN = 64
N8 = Poly.atom(('blocks',))          # number of recorded blocks
VB = Poly.atom(('list',))
VE = VB + N8 * 8


class Model:
    """One flattened member function, with heap events."""

    def __init__(self, root):
        self.mod = m = Module(flatten(roots=[root], keep=VEC))
        self.fn = m.one(root)
        t = m.type(CLS)
        if t is None:
            raise AnalysisError('anchor vanished: ' + CLS)
        self.base = [x for x in t['members'] if x[3].endswith('*')]
        self.vec = [x for x in t['members'] if x[3].startswith('std::vector<void')]
        self.ints = [x for x in t['members'] if re.match(r'^(std::)?(ptrdiff_t|size_t|long|unsigned long|long long)\b', x[3])]
        if len(self.base) != 1 or len(self.vec) != 1 or len(self.ints) < 2:
            raise AnalysisError('anchor vanished: allocator state (%d pointers, %d lists, %d counters)' %
                                (len(self.base), len(self.vec), len(self.ints)))
        self.boff, self.voff = self.base[0][1], self.vec[0][1]

    def loop_of(self, i):
        L = self.fn.innermost(i.blk)
        return None if L is None else L.id

    def call(self, ai, st, i, a):
        n = i.callee or ''
        d = i.dem or ''
        res = []
        if n == 'posix_memalign':
            ok = st.copy()
            blk = Poly.atom(('blk', i.id))
            ok.cells[a[0]] = blk
            ok.env[i.val] = Poly()
            ok.events += (('alloc', blk, a[2], a[1], i.where()),)
            bad = st.with_(Poly.atom(i.val) - 1)
            bad.cells[a[0]] = Poly.atom(('undef', i.id))
            bad.env[i.val] = Poly.atom(i.val)
            return [ok.with_(blk - 1), bad]
        if n in ('malloc', 'aligned_alloc', 'memalign'):
            blk = Poly.atom(('blk', i.id))
            ok = st.with_(blk - 1)
            ok.env[i.val] = blk
            ok.events += (('alloc', blk, a[-1], a[0] if len(a) > 1 else P(16), i.where()),)
            bad = st.copy()
            bad.env[i.val] = Poly()
            return [ok, bad]
        if n == 'free':
            st = st.copy()
            st.events += (('free', a[0], self.loop_of(i), i.id, i.where()),)
            return [st]
        v = re.search(r'std::vector<void\*.*>::(\w+)[<(]', d)
        if v:
            st = st.copy()
            op = v.group(1)
            at = a[0] - Poly.atom(THIS) - self.voff
            if not (at.is_const() and at.cval() == 0):
                return None
            b, e = a[0], a[0] + 8
            if op in ('push_back', 'emplace_back'):
                st.events += (('push', st.cells.get(a[1], Poly.atom(('unknown', i.id))), i.where()),)
                ai.havoc_vec = True
                st.cells[b] = Poly.atom(('vb', i.id))
                st.cells[e] = Poly.atom(('ve', i.id))
                st.env[i.val] = Poly.atom(i.val)
            elif op == 'clear':
                st.events += (('clear', i.where()),)
                st.cells[e] = st.cells.get(b, VB)
            else:
                st.events += (('vec', op, i.where()),)
            return [st]
        if 'operator delete' in d:
            st = st.copy()
            st.events += (('delete', a[0], i.where()),)
            return [st]
        return None

    def run(self, cur, size, null):
        """Interprets the function from every state satisfying the invariant."""
        T = Poly.atom(THIS)
        b, n = Poly.atom(('base',)), Poly.atom(('a', 1))
        c, s = Poly.atom(('cur64',)) * ALIGN, Poly.atom(('size',))
        st = State()
        fs = [c, s - c]
        if null:
            st.cells[T + self.boff] = Poly()
            fs += [-s]
        else:
            st.cells[T + self.boff] = b
            fs += [b - 1]
        for x in self.ints:
            st.cells[T + x[1]] = Poly.atom(('m', x[0]))
            if x not in (cur, size):
                fs.append(Poly.atom(('m', x[0])))
        st.cells[T + cur[1]] = c
        st.cells[T + size[1]] = s
        vb, ve = VB, VE
        st.cells[T + self.voff], st.cells[T + self.voff + 8] = vb, ve
        fs += [N8]
        return AI(self.fn, st.with_(*fs), call=self.call).run()

    def final(self, st, off):
        return st.cells[Poly.atom(THIS) + off]


def multiple(p, k):
    return p.divides(k)


def invariant(M, st, cur, size, b0, s0, bad, where):
    """The exit state satisfies the invariant again."""
    b1, c1, s1 = M.final(st, M.boff), M.final(st, cur[1]), M.final(st, size[1])
    if not (st.proves(c1) and st.proves(s1 - c1)):
        bad('used', where, 'the used part of the main block can end up outside [0, size of the block]')
    if not multiple(c1, ALIGN):
        bad('used', where, 'the start of the free part of the main block is not kept a multiple of %d' % ALIGN)
    for x in M.ints:
        if not st.proves(M.final(st, x[1])):
            bad('used', where, 'the counter %s can become negative' % x[0])
    al = [e for e in st.events if e[0] == 'alloc' and e[1] == b1]
    if b1 == b0 and b0 != Poly():
        if not st.proves(s0 - s1):
            bad('block', where, 'the recorded size of the main block grows although the block stays the same')
    elif al:
        if not st.proves(al[0][2] - s1):
            bad('block', where, 'the main block is recorded larger than the memory obtained for it')
        if not (al[0][3].is_const() and al[0][3].cval() % ALIGN == 0):
            bad('block', where, 'the main block is not obtained with the required alignment')
    elif st.zero(b1):
        if not st.proves(-s1):
            bad('block', where, 'there is no main block (it could not be obtained) but its recorded size is not reset: '
                'later blocks are carved out of a null pointer')
    else:
        bad('block', where, 'the main block is neither the old one nor newly obtained memory')
    return b1


def frees_list(M, e):
    """The free event runs once for each element of the block list."""
    fn = M.fn
    i = fn.byid[e[3]]
    L = fn.innermost(i.blk)
    if L is None:
        return False
    ld = fn.inst(i.ops[0])
    if ld is None or ld.op != 'load' or fn.innermost(ld.blk) is not L:
        return False
    latch = [b for b in L.blocks if L.header in fn.blocks[b].succ]
    if not all(fn.dominates_b(i.blk, b) for b in latch):
        return False

    def hook(S, o):
        j = fn.inst(o)
        if j is not None and j.op == 'load':
            r, off, var = fn.addr(j.ops[0])
            if r == THIS and not var and off in (M.voff, M.voff + 8):
                return VB if off == M.voff else VE
        return None
    S = Sym(fn, hook)
    it = ('it', L.id)
    k = S.opnd(ld.ops[0]).coeff(it)
    vb, ve = VB, VE
    live = [(eb, ec) for eb, ec in L.exits if any(x not in fn.dead() for x in fn.blocks[eb].succ if x not in L.blocks)]
    if not k or not k[0].is_const() or abs(k[0].cval()) != 8 or len(live) != 1:
        return False
    # k * (completed iterations at the exit); the list holds whole pointers
    kb = None
    if live[0][1][0] != 'cnc':
        kb = S.scev(live[0][1]) * k[0]
    else:
        c = edge_cond(fn, live[0][0], next(x for x in fn.blocks[live[0][0]].succ if x not in L.blocks))
        j = fn.inst(c[0]) if c else None
        if j is not None and j.op == 'icmp':
            pr = j.raw['pred'] if c[1] else NEG[j.raw['pred']]
            dp = S.opnd(j.ops[0]) - S.opnd(j.ops[1])
            d = dp.coeff(it)
            if d and d[0].is_const() and d[0].cval():
                s = d[0].cval()
                # the value of (left - right) in the first iteration that leaves the loop
                at = {'eq': 0, 'sge': 0, 'uge': 0, 'sle': 0, 'ule': 0, 'sgt': 1, 'ugt': 1, 'slt': -1, 'ult': -1}.get(pr)
                up = pr[1:] in ('ge', 'gt')
                if at is not None and (pr == 'eq' or (abs(s) == 1 and (s > 0) == up)) and k[0].cval() % s == 0:
                    kb = (P(at) - d[1]) * (k[0].cval() // s)
    if kb is None:
        return False
    F = S.facts_at(i.blk)
    F.add(N8 - 1)
    first, last = k[1], k[1] + kb
    lo, hi = (first, last) if k[0].cval() > 0 else (last, first)
    exact = i.blk in {b for b in L.blocks if fn.dominates_b(b, live[0][0])} or fn.dominates_b(i.blk, live[0][0])
    if exact:
        return F.prove_eq(lo, vb) and F.prove_eq(hi, ve - 8)
    # test before the body: the exit iteration does not free
    return F.prove_eq(lo if k[0].cval() > 0 else hi, vb if k[0].cval() > 0 else ve - 8) and \
        F.prove_eq(last, ve if k[0].cval() > 0 else vb - 8)


def allocs(rep, M, cur, size, bad, ok):
    n = Poly.atom(('a', 1))
    b0, s0 = Poly.atom(('base',)), Poly.atom(('size',))
    name = M.fn.dem.split('::')[-1].split('(')[0]
    for null in (False, True):
        old = Poly() if null else b0
        for ret, st in M.run(cur, size, null):
            st = st.with_(n - 1)
            if not st.feasible():
                continue
            w = name + ' at ' + (ret.where())
            r = M_val(M, st, ret)
            invariant(M, st, cur, size, old, s0, bad, w)
            al = [e for e in st.events if e[0] == 'alloc']
            pushed = [e[1] for e in st.events if e[0] == 'push']
            b1 = M.final(st, M.boff)
            for e in al:
                k = sum(1 for p in pushed if p == e[1]) + (1 if b1 == e[1] else 0)
                if k == 0:
                    bad('owned', e[4], 'memory obtained in %s is not recorded for release' % name)
                elif k > 1:
                    bad('owned', e[4], 'memory obtained in %s is recorded twice: it would be freed twice' % name)
                else:
                    ok('owned', e[4])
            for p in pushed:
                if not any(p == e[1] for e in al):
                    bad('owned', w, 'something other than newly obtained memory is recorded for release')
            for e in st.events:
                if e[0] in ('free', 'clear', 'vec'):
                    bad('stays', e[-1], '%s releases or forgets memory that earlier callers still use' % name)
            if st.zero(r):
                ok('fits', w + ' (none)')
                continue
            c0, c1 = Poly.atom(('cur64',)) * ALIGN, M.final(st, cur[1])
            fits = None
            cand = [(old, None)] + [(e[1], e) for e in al]
            for root, e in cand:
                bs = base_of(root)
                if not bs or bs[0] not in [m[0] for m in r.t if len(m) == 1]:
                    continue
                off = r - root
                if e is None:
                    good = st.proves(off - c0) and st.proves(c1 - off - n)
                    why = 'the block handed out is not inside the part of the main block that this call reserves'
                else:
                    good = st.proves(off) and st.proves(e[2] - off - n)
                    why = 'the block handed out is not inside the memory obtained for it'
                al_ok = multiple(off, ALIGN) and (e is None or (e[3].is_const() and e[3].cval() % ALIGN == 0))
                fits = True
                if not good:
                    bad('fits', w, why)
                else:
                    ok('fits', w)
                if not al_ok:
                    bad('aligned', w, 'the block handed out is not aligned to %d bytes' % ALIGN)
                else:
                    ok('aligned', w)
                if e is None and null:
                    pass
            if fits is None:
                bad('fits', w, 'the block handed out is neither part of the main block nor newly obtained memory '
                    '(a pointer computed from a missing main block)')


def M_val(M, st, ret):
    o = ret.ops[0]
    if o[0] == 'c':
        return P(o[1])
    if o[0] == 'n':
        return Poly()
    if o[0] == 'gep':
        return st.env.get(o[1], Poly.atom(o[1])) + o[2]
    return st.env.get(o, Poly.atom(o))


def release(rep, M, cur, size, bad, ok, destroy):
    b0, s0 = Poly.atom(('base',)), Poly.atom(('size',))
    vb, ve = VB, VE
    name = 'destruction' if destroy else 'release'
    for null in (False, True):
        old = Poly() if null else b0
        for ret, st in M.run(cur, size, null):
            w = name + ' at ' + ret.where()
            empty = st.proves(-N8)
            frees = [e for e in st.events if e[0] == 'free']
            one = [e for e in frees if e[2] is None]
            loops = [e for e in frees if e[2] is not None]
            good = [e for e in loops if frees_list(M, e)]
            for e in loops:
                if e not in good:
                    bad('all', e[4], 'the recorded blocks are not freed one by one, each exactly once')
            if not empty:
                # the list may hold blocks on this path
                if not good and not st.with_(N8 - 1).feasible():
                    pass
                elif not good:
                    bad('all', w, 'recorded blocks are not freed')
                elif len(good) > 1:
                    bad('all', good[1][4], 'recorded blocks are freed twice')
                else:
                    ok('all', good[0][4])
                if not destroy and not any(e[0] == 'clear' for e in st.events) and st.with_(N8 - 1).feasible():
                    bad('all', w, 'freed blocks stay recorded and would be freed again')
            elif any(e[0] == 'clear' for e in st.events) is False and good:
                pass
            if any(e[0] == 'clear' for e in st.events) and not good and not empty:
                bad('all', w, 'recorded blocks are forgotten without being freed')
            b1 = M.final(st, M.boff)
            gone = [e for e in one if e[1] == old and not null]
            for e in one:
                if not null and e[1] == old:
                    continue
                if st.zero(e[1]) or any(x[0] == 'alloc' and x[1] == e[1] for x in st.events):
                    continue
                bad('all', e[4], 'something other than memory of this allocator is freed')
            if len(gone) > 1:
                bad('all', gone[1][4], 'the main block is freed twice')
            mine = [e for e in st.events if e[0] == 'alloc']
            if destroy:
                if not null and not gone:
                    bad('all', w, 'the main block is not freed')
                for e in mine:
                    k = sum(1 for f in one if f[1] == e[1])
                    if k != 1:
                        bad('all', e[4], 'memory obtained while releasing is freed %d times' % k)
                ok('all', w)
                continue
            if gone and b1 == old:
                bad('block', w, 'the main block is freed but still used')
            if not null and not gone and b1 != old:
                bad('block', w, 'the main block is replaced without being freed')
            invariant(M, st, cur, size, old, s0, bad, w)
            c1 = M.final(st, cur[1])
            if not st.zero(c1):
                bad('reset', w, 'the used part of the main block is not reset')
            else:
                ok('reset', w)
            for e in mine:
                if b1 != e[1] and not any(f[1] == e[1] for f in one):
                    bad('owned', e[4], 'memory obtained while releasing is not recorded')
                else:
                    ok('owned', e[4])


RULES = [
    ('fits', 'every block handed out lies inside memory reserved by that very call: [p, p+n) is within the newly reserved part of the main block or within newly obtained memory'),
    ('aligned', 'every block handed out is aligned to %d bytes' % ALIGN),
    ('owned', 'memory obtained from the system is recorded exactly once for release'),
    ('stays', 'handing out a block neither frees nor forgets any other block'),
    ('used', 'the used part of the main block stays within the block and aligned'),
    ('block', 'the recorded size never exceeds the main block, and is zero without one'),
    ('all', 'releasing frees the recorded blocks each exactly once, and forgets them'),
    ('reset', 'releasing makes the whole main block available again'),
]


def m01(rep, tier):
    roots = [r'^ruy::Allocator::AllocateBytes\(long\)$', r'^ruy::Allocator::AllocateBytesAvoidingAliasingWith\(long, void const\*\)$']
    Ms = [Model(r) for r in roots]
    F = Model(r'^ruy::Allocator::FreeAll\(\)$')
    D = Model(r'^ruy::Allocator::~Allocator\(\)$')
    best = None
    for cur, size in itertools.permutations(F.ints, 2):
        bads, oks = [], []
        bad = lambda r, w, m: bads.append((r, w, m))
        ok = lambda r, w: oks.append((r, w))
        for M in Ms:
            allocs(rep, M, cur, size, bad, ok)
        release(rep, F, cur, size, bad, ok, False)
        release(rep, D, cur, size, bad, ok, True)
        bads = list(dict.fromkeys(bads))
        if best is None or len(bads) < len(best[0]):
            best = (bads, oks, cur, size)
    bads, oks, cur, size = best
    rep.units += [M.fn.dem for M in Ms + [F, D]]
    rep.notes.append('invariant: no main block => %s = 0; 0 <= %s <= %s <= memory of the main block; %s a multiple of %d'
                     % (size[0], cur[0], size[0], cur[0], ALIGN))
    rep.assume += ['a requested size is positive and small enough that adding 1087 does not overflow',
                   'posix_memalign, free and std::vector behave as specified']
    for n, t in RULES:
        rep.rule('M01.' + n, t)
    for r, w in dict.fromkeys(oks):
        rep.ok('M01.' + r, w)
    for r in ('stays', 'used', 'block'):
        if not any(b[0] == r for b in bads):
            rep.ok('M01.' + r, 'all exits of the analysed functions')
    for r, w, m in bads:
        rep.bad('M01.' + r, w, m)
    for r in ('fits', 'aligned', 'owned', 'all', 'reset'):
        rep.need('M01.' + r, 1)


CHECKS = {'M01': m01}
