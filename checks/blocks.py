"""B01, B02: how the destination is cut into blocks and how indices name them."""
import re
from build import flatten, AnalysisError
from ir import Module, tup
from sym import Poly, P, Facts, entails
from scev import Sym
from cases import Cases, TooMany

MAP = 'ruy::BlockMap'
ROOTS = [r'^ruy::GetBlockByIndex\(', r'^ruy::GetBlockMatrixCoords\(', r'^ruy::MakeBlockMap\(']
FIELDS = ('thread_count', 'traversal_order', 'dims', 'num_blocks_base_log2', 'rectangularness_log2', 'kernel_dims',
          'small_block_dims', 'large_blocks')


class BM:
    def __init__(self):
        self.mod = m = Module(flatten(roots=ROOTS, keep=[r'^ruy::profiler'], flags=['--unroll=4'], tag='bm'))
        t = m.type(MAP)
        if t is None:
            raise AnalysisError('anchor vanished: the block map type')
        self.f = {x[0]: x for x in t['members']}
        for k in FIELDS:
            if k not in self.f:
                raise AnalysisError('anchor vanished: block map member ' + k)
        self.make = m.one(r'^ruy::MakeBlockMap\(')
        self.byindex = m.one(r'^ruy::GetBlockByIndex\(')
        self.one = m.one(r'^ruy::GetBlockMatrixCoords\(ruy::Side')
        m2 = Module(flatten(roots=[r'^ruy::GetBlockMatrixCoords\(ruy::BlockMap'], keep=[r'^ruy::profiler'], flags=['--unroll=4'], tag='bm2'))
        self.both = m2.one(r'^ruy::GetBlockMatrixCoords\(ruy::BlockMap')

    def off(self, name, side=0):
        return self.f[name][1] + 4 * side


def arg_named(fn, pat):
    """Argument number by parameter type in the demangled signature."""
    from dis import params_of
    ps = params_of(fn.dem)
    r = [k for k, p in enumerate(ps) if re.search(pat, p)]
    return r


# ---------------------------------------------------------------- tiling
class Coords:
    """start and end of a block, as cases over (block number, map fields)."""

    def __init__(self, B, fn, side, bval, k, dst, tag):
        """side: None for the function that takes the side, else 0/1."""
        self.B, self.fn = B, fn
        self.mapa = ('a', arg_named(fn, r'BlockMap')[0])
        self.bad = None
        fix = {}
        self.side = side
        if side is None:
            a = [('a', n) for n in arg_named(fn, r'^int$')]
            if len(a) != 1:
                raise AnalysisError('anchor vanished: block number parameter')
            fix[a[0]] = bval
            self.sidea = ('a', arg_named(fn, r'ruy::Side$')[0])
            outs = [('a', n) for n in arg_named(fn, r'^int\*$')]
            self.out = {('start', None): (outs[0], 0), ('end', None): (outs[1], 0)}
        else:
            prs = [('a', n) for n in arg_named(fn, r'SidePair<int>')]
            if len(prs) != 3:
                raise AnalysisError('anchor vanished: block coordinates parameters')
            self.inp = prs[0]
            self.out = {('start', side): (prs[1], 4 * side), ('end', side): (prs[2], 4 * side)}
        self.bval, self.k = bval, k
        self.C = Cases(fn, fix=fix, base=dst, load=self.load)
        self.C.tag = tag

    def load(self, i):
        B = self.B
        r, off, var = self.fn.addr(i.ops[0])
        if r == self.mapa:
            for n, m in B.f.items():
                if m[1] <= off < m[1] + max(m[2], 4):
                    d = off - m[1]
                    if self.side is None:
                        okv = len(var) == 1 and var[0][1] == 4 and self.strip(var[0][0]) == self.sidea and d == 0
                        if m[2] > 4 and not okv:
                            self.bad = '%s of a fixed or unknown side is used' % n
                    elif m[2] > 4 and (var or d != 4 * self.side):
                        self.bad = '%s of the wrong side is used' % n
                    if n == 'kernel_dims':
                        return [(P(self.k), ())]
                    return [(Poly.atom(('fld', n)), ())]
        if self.side is not None and r == self.inp:
            if var or off != 4 * self.side:
                self.bad = 'the block number of the wrong side is used'
            return [(P(self.bval), ())]
        # reload of an output just written
        for (w, s), (a, o) in self.out.items():
            if r == a and off == o and not var:
                st = [x for x in self.fn.instrs() if x.op == 'store' and self.fn.addr(x.ops[1]) == (a, o, ())]
                if len(st) == 1:
                    return self.C(st[0].ops[0])
        return None

    def strip(self, o):
        i = self.fn.inst(o)
        while i is not None and i.op in ('sext', 'zext', 'freeze'):
            o = i.ops[0]
            i = self.fn.inst(o)
        return o

    def get(self, what):
        a, o = self.out[(what, self.side)]
        st = [x for x in self.fn.instrs() if x.op == 'store' and self.fn.addr(x.ops[1]) == (a, o, ())]
        if not st:
            return None, None
        out = []
        for x in st:
            fs = self.C.reach(x.blk)
            for p, f in self.C(x.ops[0]):
                for g in fs:
                    out.append((p, tuple(f) + tuple(g)))
        return out, st[-1]


SMALL, LARGE, BLK, Q = ('fld', 'small_block_dims'), ('fld', 'large_blocks'), ('b',), ('q',)


def eq_all(xs, ys, facts):
    """Every consistent combination of the cases of x and y agrees."""
    for p, f in xs:
        for q, g in ys:
            fs = facts + list(f) + list(g)
            d = p - q
            if d == Poly():
                continue
            if entails(fs, P(-1)):
                continue
            if not (entails(fs, d) and entails(fs, -d)):
                return False, (p, q)
    return True, None


def tiling(rep, B=None):
    """Blocks are contiguous, kernel-aligned and cover the dimension exactly."""
    rep.rule('coords-start', 'the first block of a side starts at zero')
    rep.rule('coords-adjacent', 'every block ends where the next one starts')
    rep.rule('coords-aligned', 'block boundaries are multiples of the kernel size')
    rep.rule('coords-side', 'the boundaries of a side are computed from that side\'s fields and block number only')
    rep.rule('coords-total', 'the last block ends at the (padded) dimension')
    rep.rule('map-sizes', 'small and large block counts add up to the dimension: count*small + large*kernel = dimension, 0 <= large <= count')
    rep.rule('map-aligned', 'the small block size is a multiple of the kernel size')
    rep.rule('map-fields', 'the map records the dimensions and kernel sizes it was made for')
    rep.rule('exponents', 'subdivision exponents are non-negative and at most one side is subdivided further')
    B = B or BM()
    lg = Poly.atom(LARGE)
    sm = Poly.atom(SMALL)
    b = Poly.atom(BLK)
    shapes = [(B.one, None), (B.both, 0), (B.both, 1)]
    for fn, side in shapes:
        what = 'side %s' % ('parameter' if side is None else side)
        fails = {}

        def note(rule, okv, ins, msg):
            if okv is False:
                fails.setdefault(rule, (ins, msg))
        where = None
        for k in (1, 2, 4, 8, 16, 32):
            base = [lg, sm, b]
            c0 = Coords(B, fn, side, P(0), k, base, 'z')
            cb = Coords(B, fn, side, b, k, base, 'b')
            cn = Coords(B, fn, side, b + 1, k, base, 'n')
            s0, i0 = c0.get('start')
            if s0 is None:
                # the pair version may delegate to the one-side version
                fails['coords-side'] = (None, 'block boundaries of side %s are never stored' % side)
                break
            sb, ib = cb.get('start')
            eb, ie = cb.get('end')
            sn, _ = cn.get('start')
            where = ib
            for c in (c0, cb, cn):
                note('coords-side', c.bad is None, ib, c.bad)
            note('coords-start', all(entails(base + list(f), p) and entails(base + list(f), -p) or entails(base + list(f), P(-1))
                                     for p, f in s0), i0, 'block 0 does not start at 0')
            r, ex = eq_all(eb, sn, base) if eb and sn else (False, None)
            note('coords-adjacent', r, ie, 'a block does not end where the next one starts (%s against %s)' % (ex or ('?', '?')))
            for p, f in (sb or []) + (eb or []):
                x = p.subst(SMALL, Poly.atom(Q) * k)
                note('coords-aligned', x.divides(k), ib, 'a block boundary is not a multiple of the kernel size')
            for n in range(0, 13, 3):
                N = 1 << n
                ct = Coords(B, fn, side, P(N - 1), k, base, 't')
                et, it = ct.get('end')
                dim = sm * N + lg * k
                fs = base + [P(N) - lg]
                r, ex = eq_all(et, [(dim, ())], fs)
                note('coords-total', r, it, 'the last block does not end at the dimension')
        for rule in ('coords-start', 'coords-adjacent', 'coords-aligned', 'coords-side', 'coords-total'):
            if rule in fails:
                ins, msg = fails[rule]
                rep.bad(rule, ins.where() if ins else '%s:%d' % (fn.file, fn.line), msg)
            elif where is not None:
                rep.ok(rule, '%s (%s)' % (where.where(), what))
    made(rep, B)
    for r in ('coords-start', 'coords-adjacent', 'coords-aligned', 'coords-side', 'coords-total', 'map-sizes', 'map-aligned', 'map-fields', 'exponents'):
        rep.need(r, 1)
    return B


def field_store(B, name, side):
    fn = B.make
    m = ('a', arg_named(fn, r'BlockMap')[0])
    st = [i for i in fn.instrs() if i.op == 'store' and fn.addr(i.ops[1]) == (m, B.off(name, side), ())]
    if len(st) != 1:
        raise AnalysisError('anchor vanished: %d stores to %s of side %d of the block map' % (len(st), name, side))
    return st[0]


def made(rep, B):
    fn = B.make
    ints = arg_named(fn, r'^int$')
    base_st = field_store(B, 'num_blocks_base_log2', 0)
    rect = [field_store(B, 'rectangularness_log2', s) for s in (0, 1)]
    for s in (0, 1):
        d, kd = field_store(B, 'dims', s), field_store(B, 'kernel_dims', s)
        da, ka = ('a', ints[0 + s]), ('a', ints[3 + s])
        rep.check(d.ops[0] == da and kd.ops[0] == ka, 'map-fields', d.where(),
                  'the map does not record dimension and kernel size of side %d as given' % s)
        small, large = field_store(B, 'small_block_dims', s), field_store(B, 'large_blocks', s)
        okz = oka = True
        msg = ''
        r = Poly.atom(('r',))
        for n in list(range(0, 27)):
            for kk in (1, 2, 4, 8, 16, 32):
                fix = {da: r * kk, ka: P(kk)}
                if base_st.ops[0][0] != 'c':
                    fix[base_st.ops[0]] = P(n if rect[s].ops[0][0] == 'c' else n - n // 3)
                if rect[s].ops[0][0] != 'c':
                    fix[rect[s].ops[0]] = P(n // 3 if base_st.ops[0][0] != 'c' else n)
                C = Cases(fn, fix=fix, base=[r - 1])
                try:
                    sv, lv = C(small.ops[0]), C(large.ops[0])
                except TooMany:
                    raise AnalysisError('block size computation has too many cases')
                N = 1 << n
                for p, f in sv:
                    for q, g in lv:
                        fs = [r - 1] + list(f) + list(g)
                        if entails(fs, P(-1)):
                            continue
                        d1 = p * N + q * kk - r * kk
                        if not (entails(fs, d1) and entails(fs, -d1) and entails(fs, q) and entails(fs, P(N) - q) and entails(fs, p)):
                            okz = False
                            msg = 'with 2^%d blocks and kernel size %d the block sizes of side %d do not add up to the dimension' % (n, kk, s)
                    if not p.divides(kk):
                        oka = False
                if not okz:
                    break
            if not okz:
                break
        rep.check(okz, 'map-sizes', large.where(), msg)
        rep.check(oka, 'map-aligned', small.where(), 'the small block size of side %d is not a multiple of the kernel size' % s)
    exponents(rep, B, base_st, rect)


def leaves(fn, o, seen):
    """Leaf values of a web of phis and selects."""
    if o in seen:
        return set()
    seen.add(o)
    i = fn.inst(o)
    if i is not None and i.op == 'phi' and not (i.raw.get('scev') and i.raw['scev'][0] == 'rec'):
        return set().union(*[leaves(fn, v, seen) for _, v in fn.phi_in(i)])
    if i is not None and i.op == 'select':
        return leaves(fn, i.ops[1], seen) | leaves(fn, i.ops[2], seen)
    return {o}


def nonneg(D, o, extra):
    """Goal-directed: the value cannot be negative under the extra facts."""
    fn = D.fn
    if o[0] == 'c':
        return o[1] >= 0 or entails(D.base + extra, P(-1))
    i = fn.inst(o)
    if i is not None and o not in D.fix:
        if i.op == 'call' and i.callee and i.callee.startswith('llvm.smin'):
            return all(nonneg(D, x, extra) for x in i.ops[:2])
        if i.op == 'call' and i.callee and i.callee.startswith('llvm.smax'):
            if any(x[0] == 'c' and x[1] >= 0 for x in i.ops[:2]):
                return True
            return any(nonneg(D, x, extra) for x in i.ops[:2])
        if i.op == 'call' and i.callee and i.callee.startswith('llvm.umax'):
            return all(nonneg(D, x, extra) for x in i.ops[:2])
        if i.op == 'call' and i.callee and i.callee.startswith('llvm.umin'):
            return any(nonneg(D, x, extra) for x in i.ops[:2])
        if i.op == 'select':
            return all(nonneg(D, v, extra + list(f)) for t, v in ((True, i.ops[1]), (False, i.ops[2])) for f in D.cond(i.ops[0], t))
        if i.op == 'call' and i.callee and re.match(r'llvm\.(ctlz|cttz|ctpop)\.', i.callee) or i.op == 'zext':
            return True
        if i.op in ('xor', 'or') and all(nonneg(D, x, extra) for x in i.ops[:2]):
            return True
        if i.op == 'and' and any(nonneg(D, x, extra) for x in i.ops[:2]):
            return True
        L = fn.innermost(i.blk)
        if i.op == 'phi' and not (L is not None and L.header == i.blk):
            return all(nonneg(D, v, extra + list(f)) for b, v in fn.phi_in(i) for f in D.edge(b, i.blk))
    try:
        vals = D(o)
    except TooMany:
        return False
    for p, f in vals:
        fs = D.base + extra + list(f)
        if not entails(fs, p) and not entails(fs, P(-1)):
            return False
    return True


def exponents(rep, B, base_st, rect):
    fn = B.make
    ints = arg_named(fn, r'^int$')
    rows, cols = ('a', ints[0]), ('a', ints[1])
    # at most one side
    C = Cases(fn, base=[Poly.atom(rows) - 1, Poly.atom(cols) - 1])
    both = None
    i0, i1 = (fn.inst(r.ops[0]) for r in rect)
    if i0 is not None and i1 is not None and i0.op == 'phi' and i1.op == 'phi' and i0.blk == i1.blk:
        a, b = dict(fn.phi_in(i0)), dict(fn.phi_in(i1))
        pairs = [(a[x], b[x]) for x in a]
        both = [p for p in pairs if not any(v[0] == 'c' and v[1] == 0 for v in p)]
    else:
        zero = [[v for v in leaves(fn, r.ops[0], set())] for r in rect]
        if all(all(v == ('c', 0, 32) for v in z) for z in zero[:1]) or all(v == ('c', 0, 32) for v in zero[1]):
            both = []
    if both is None:
        # fall back on the conditions under which each is non-zero
        both = []
        try:
            for p, f in C(rect[0].ops[0]):
                for q, g in C(rect[1].ops[0]):
                    if p == Poly() or q == Poly():
                        continue
                    if not entails(C.base + list(f) + list(g), P(-1)):
                        both.append((p, q))
        except TooMany:
            both = [None]
    rep.check(not both, 'exponents', rect[0].where(), 'both sides can be subdivided by the rectangular factor at once')
    # non-negative factors: partition by the bit lengths that occur
    for s in (0, 1):
        v = rect[s].ops[0]
        lz = {}

        def collect(o, seen):
            if o in seen or o[0] != 'i':
                return
            seen.add(o)
            i = fn.inst(o)
            if i.op == 'call' and (i.callee or '').startswith('llvm.ctlz'):
                c = C(i.ops[0])
                if len(c) == 1 and c[0][0].atoms() & {rows, cols} and len(c[0][0].atoms()) == 1:
                    lz.setdefault(c[0][0], []).append(o)
            xs = [x for _, x in fn.phi_in(i)] if i.op == 'phi' else i.ops
            for x in xs:
                collect(x, seen)
        collect(v, set())
        neg = None
        keys = sorted(lz, key=repr)
        if len(keys) > 2:
            rep.notes.append('sign of the rectangular factor of side %d not decided' % s)
            continue

        def part(k, fix, base):
            nonlocal neg
            if neg:
                return
            if k < len(keys):
                p = keys[k]
                for c in range(1, 32):
                    f2 = dict(fix)
                    for o in lz[p]:
                        f2[o] = P(c)
                    b2 = base + [p - (1 << (31 - c)), P((1 << (32 - c)) - 1) - p]
                    if not entails(b2, P(-1)):
                        part(k + 1, f2, b2)
                # argument zero: result unspecified, must not matter
                b2 = base + [p, -p]
                if not entails(b2, P(-1)):
                    part(k + 1, dict(fix), b2)
                return
            D = Cases(fn, fix=fix, base=base, cap=256)
            try:
                if not nonneg(D, v, []):
                    neg = True
            except TooMany:
                rep.notes.append('sign of the rectangular factor of side %d not decided' % s)
        part(0, {}, [Poly.atom(rows) - 1, Poly.atom(cols) - 1])
        rep.check(neg is None, 'exponents', rect[s].where(), 'the rectangular factor of side %d can be negative' % s)
    # base exponent
    S = Sym(fn)
    v = base_st.ops[0]
    i = fn.inst(v)
    okb = v[0] == 'c' and v[1] >= 0
    if i is not None and i.op == 'sub':
        okb = True
        for l in leaves(fn, i.ops[1], set()):
            li = fn.inst(l)
            F = S.facts_at(li.blk if li is not None else fn.entry)
            d = S.opnd(i.ops[0]) - S.opnd(l)
            if l[0] == 'c' and l[1] <= 0 and nonneg(C, i.ops[0], []):
                continue
            okb = okb and F.prove(d)
    elif i is not None:
        F = S.facts_at(base_st.blk)
        okb = F.prove(S.opnd(v))
    rep.check(okb, 'exponents', base_st.where(), 'the subdivision exponent can be negative')


# ---------------------------------------------------------------- traversal
ONE = 1 << 62


class Split(Exception):
    def __init__(self, form):
        self.form = form


class Undecided(Exception):
    pass


def const_vec(c, w):
    return tuple(ONE if (c >> j) & 1 else 0 for j in range(w))


def as_const(v):
    r = 0
    for j, x in enumerate(v):
        if x == ONE:
            r |= 1 << j
        elif x:
            return None
    return r


class Affine:
    """Abstract domain: every bit an XOR of input bits (plus a constant)."""

    def __init__(self, fn, args, load):
        self.fn, self.args, self.load = fn, args, load

    def reduce(self, x, env):
        for var, form in env:
            if x & var:
                x ^= var ^ form
        return x

    def band(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == ONE:
            return b
        if b == ONE:
            return a
        if a == b:
            return a
        if a ^ b == ONE:
            return 0
        raise Split(a if bin(a).count('1') <= bin(b).count('1') else b)

    def bor(self, a, b):
        return self.band(a ^ ONE, b ^ ONE) ^ ONE

    def add(self, a, b, c=0):
        out = []
        for x, y in zip(a, b):
            out.append(x ^ y ^ c)
            # carry = x&y | c&(x^y)
            try:
                c = self.bor(self.band(x, y), self.band(c, x ^ y))
            except Split:
                if c == 0:
                    c = self.band(x, y)
                else:
                    raise
        return tuple(out)


class Walk:
    """Runs the affine domain over a function under fixed control inputs; loops
    are summarised iteration by iteration through a bijection invariant."""

    def __init__(self, fn, env, load, store):
        self.fn, self.load, self.store = fn, load, store
        self.A = Affine(fn, None, None)
        self.nv = 0
        self.env0 = env
        self.errors = []

    def val(self, o, env, w):
        if o[0] == 'c':
            return const_vec(o[1] & ((1 << w) - 1), w)
        if o in env:
            return env[o]
        raise Undecided('value %s' % (o,))

    @staticmethod
    def width(ty):
        m = re.match(r'^i(\d+)$', ty)
        return int(m.group(1)) if m else None

    def sub(self, env, cons):
        return {k: tuple(self.A.reduce(x, cons) for x in v) if isinstance(v, tuple) else v for k, v in env.items()}

    def exec_ins(self, i, env, mem, cons):
        fn = self.fn
        w = self.width(i.ty)
        op = i.op
        red = lambda v: tuple(self.A.reduce(x, cons) for x in v)

        def get(o, ww=None):
            return red(self.val(o, env, ww or w))
        if op in ('alloca', 'getelementptr', 'br', 'switch', 'ret', 'phi', 'unreachable', 'fence'):
            return
        if op == 'call':
            if i.callee and (i.callee.startswith('llvm.lifetime') or i.callee.startswith('llvm.dbg') or 'profiler' in i.dem):
                return
            if i.callee and i.callee.startswith('llvm.memcpy'):
                d, s = self.cell(i.ops[0], env), self.cell(i.ops[1], env)
                if i.ops[2][0] != 'c' or d is None or s is None:
                    raise Undecided('copy at ' + i.where())
                for k in range(0, i.ops[2][1], 4):
                    mem[(d[0], d[1] + k)] = self.read((s[0], s[1] + k), 4, mem)
                return
            for nm in ('llvm.smin', 'llvm.umin', 'llvm.smax', 'llvm.umax'):
                if i.callee and i.callee.startswith(nm):
                    a, b = as_const(get(i.ops[0])), as_const(get(i.ops[1]))
                    if a is None or b is None:
                        raise Undecided(nm + ' at ' + i.where())
                    sg = lambda x: x - (1 << w) if nm[5] == 's' and x >> (w - 1) else x
                    env[i.val] = const_vec((min if 'min' in nm else max)(a, b, key=sg), w)
                    return
            if i.callee and (i.callee.startswith('llvm.fshl') or i.callee.startswith('llvm.fshr')):
                a, b, c = get(i.ops[0]), get(i.ops[1]), as_const(get(i.ops[2]))
                if c is None:
                    raise Undecided('funnel shift at ' + i.where())
                c %= w
                x = b + a
                env[i.val] = x[w - c:2 * w - c] if 'fshl' in i.callee and c else (x[c:c + w] if 'fshr' in i.callee else a)
                return
            if i.callee and (i.callee.startswith('llvm.bitreverse')):
                env[i.val] = get(i.ops[0])[::-1]
                return
            if i.callee and (i.callee.startswith('llvm.bswap')):
                v = get(i.ops[0])
                env[i.val] = sum((v[j:j + 8] for j in range(w - 8, -8, -8)), ())
                return
            raise Undecided('call of %s at %s' % (i.dem or i.callee, i.where()))
        if op == 'load':
            c = self.cell(i.ops[0], env)
            if c is None:
                raise Undecided('load at ' + i.where())
            env[i.val] = self.read(c, (w or 32) // 8, mem)
            return
        if op == 'store':
            c = self.cell(i.ops[1], env)
            if c is None:
                raise Undecided('store at ' + i.where())
            mem[c] = get(i.ops[0], self.width(i.get('vty')))
            return
        if w is None:
            raise Undecided('%s at %s' % (op, i.where()))
        if op in ('and', 'or', 'xor'):
            a, b = get(i.ops[0]), get(i.ops[1])
            f = {'and': self.A.band, 'or': self.A.bor, 'xor': lambda x, y: x ^ y}[op]
            env[i.val] = tuple(f(x, y) for x, y in zip(a, b))
        elif op in ('shl', 'lshr', 'ashr'):
            a, b = get(i.ops[0]), as_const(get(i.ops[1]))
            if b is None:
                raise Undecided('shift by a data-dependent amount at ' + i.where())
            if b >= w:
                raise Undecided('shift by %d at %s' % (b, i.where()))
            env[i.val] = ((0,) * b + a)[:w] if op == 'shl' else (a + ((0 if op == 'lshr' else a[-1]),) * b)[b:b + w]
        elif op == 'add':
            env[i.val] = self.A.add(get(i.ops[0]), get(i.ops[1]))
        elif op == 'sub':
            env[i.val] = self.A.add(get(i.ops[0]), tuple(x ^ ONE for x in get(i.ops[1])), ONE)
        elif op == 'mul':
            a, b = get(i.ops[0]), get(i.ops[1])
            ca, cb = as_const(a), as_const(b)
            if ca is not None:
                a, cb = b, ca
            if cb is None:
                raise Undecided('product at ' + i.where())
            r = (0,) * w
            for j in range(w):
                if (cb >> j) & 1:
                    r = self.A.add(r, ((0,) * j + a)[:w])
            env[i.val] = r
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            a, b = get(i.ops[0]), as_const(get(i.ops[1]))
            if b is None or b & (b - 1) or b == 0 or (op[0] == 's' and a[-1] != 0):
                raise Undecided('division at ' + i.where())
            n = b.bit_length() - 1
            env[i.val] = (a[n:] + (0,) * n) if op.endswith('div') else a[:n] + (0,) * (w - n)
        elif op == 'zext':
            s = get(i.ops[0], self.width(self.tyof(i.ops[0])))
            env[i.val] = s + (0,) * (w - len(s))
        elif op == 'sext':
            s = get(i.ops[0], self.width(self.tyof(i.ops[0])))
            env[i.val] = s + (s[-1],) * (w - len(s))
        elif op == 'trunc':
            env[i.val] = get(i.ops[0], self.width(self.tyof(i.ops[0])))[:w]
        elif op == 'freeze':
            env[i.val] = get(i.ops[0])
        elif op == 'icmp':
            env[i.val] = (self.icmp(i, get),)
        elif op == 'select':
            c = get(i.ops[0], 1)[0]
            a, b = get(i.ops[1]), get(i.ops[2])
            if c == ONE:
                env[i.val] = a
            elif c == 0:
                env[i.val] = b
            elif a == b:
                env[i.val] = a
            else:
                ca = tuple(x ^ y for x, y in zip(a, b))
                if all(x in (0, ONE) for x in ca):
                    env[i.val] = tuple(y ^ (c if x else 0) for x, y in zip(ca, b))
                else:
                    raise Split(c)
        else:
            raise Undecided('%s at %s' % (op, i.where()))

    def tyof(self, o):
        if o[0] == 'c':
            return 'i%d' % o[2]
        i = self.fn.inst(o)
        if i is not None:
            return i.ty
        return 'i32'

    def icmp(self, i, get):
        w = self.width(self.tyof(i.ops[0] if i.ops[0][0] != 'c' else i.ops[1]))
        if w is None:
            raise Undecided('pointer comparison at ' + i.where())
        a, b = get(i.ops[0], w), get(i.ops[1], w)
        p = i.raw['pred']
        if p in ('eq', 'ne'):
            d = [x ^ y for x, y in zip(a, b)]
            if any(x == ONE for x in d):
                r = 0
            else:
                nz = list({x for x in d if x})
                if not nz:
                    r = ONE
                elif len(nz) == 1:
                    r = nz[0] ^ ONE
                else:
                    raise Split(nz[0])
            return r if p == 'eq' else r ^ ONE
        sw = p in ('ugt', 'sgt', 'ule', 'sle')
        x, y = (b, a) if sw else (a, b)
        # x < y
        if p[0] == 's':
            x, y = x[:-1] + (x[-1] ^ ONE,), y[:-1] + (y[-1] ^ ONE,)
        lt = 0
        for u, v in zip(x, y):          # from low to high
            d = u ^ v
            if d == 0:
                continue
            if d == ONE:
                lt = v
            elif lt in (0, ONE) and self.simple(u, v, lt):
                lt = self.simple(u, v, lt)[0]
            else:
                raise Split(d)
        if p in ('ult', 'slt', 'ugt', 'sgt'):
            return lt
        return lt ^ ONE

    def simple(self, u, v, lt):
        # lt' = (u^v) ? v : lt
        d = u ^ v
        if lt == 0 and (u == 0 or v == 0):
            return (v if u == 0 else 0,)
        if lt == ONE and (u == ONE or v == ONE):
            return (u ^ ONE if v == ONE else ONE,) if False else None
        return None

    def cell(self, o, env):
        r, off, var = self.fn.addr(o)
        for v, s in var:
            c = as_const(env[v]) if v in env else (v[1] if v[0] == 'c' else None)
            if c is None:
                return None
            w = len(env[v]) if v in env else 64
            if c >> (w - 1):
                c -= 1 << w
            off += c * s
        if r in env and isinstance(env[r], tuple):
            return None
        return (r, off)

    def read(self, c, n, mem):
        if c in mem:
            return mem[c]
        v = self.load(c, n)
        if v is None:
            raise Undecided('read of memory %s' % (c,))
        return v

    # ---- control
    def run(self, nbits):
        """Follows the function from its entry; returns [(cons, mem)] at return."""
        self.nvars = nbits
        fn = self.fn
        start = (fn.entry, None, dict(self.env0), {}, ())
        outs = []
        # frontier of configurations that all stand at the same point
        groups = [(start, frozenset(1 << j for j in range(nbits)))]
        while groups:
            cfg, vars_ = groups.pop()
            arrivals, rets = self.segment(cfg)
            outs += [(r, vars_) for r in rets]
            if not arrivals:
                continue
            heads = {(a[0]) for a in arrivals}
            if len(heads) != 1 or (rets):
                # loop left on some inputs only: keep the paths apart
                if len(arrivals) > 64:
                    raise Undecided('too many paths')
                raise Undecided('data-dependent loop')
            g = self.generalise(arrivals, vars_)
            groups.append(g)
        return outs

    def segment(self, cfg):
        """Runs to the next loop header or return, splitting on bits as needed."""
        fn = self.fn
        work = [cfg + (True,)]
        arr, rets = [], []
        headers = {L.header for L in fn.loops}
        n = 0
        while work:
            n += 1
            if n > 4096:
                raise Undecided('too many paths')
            b, prev, env, mem, cons, first = work.pop()
            snap = (b, prev, dict(env), dict(mem), cons, first)
            try:
                if b in headers and not first:
                    arr.append((b, prev, env, mem, cons))
                    continue
                if prev is not None:
                    self.phis(b, prev, env, cons)
                for i in fn.blocks[b].ins:
                    self.exec_ins(i, env, mem, cons)
                t = fn.term(b)
                if t.op == 'ret':
                    rets.append((cons, mem))
                    continue
                if t.op == 'unreachable':
                    raise Undecided('abort')
                if t.op == 'br' and len(t.ops) == 3:
                    c = self.A.reduce(self.val(t.ops[0], env, 1)[0], cons)
                    if c not in (0, ONE):
                        raise Split(c)
                    s = t.ops[2][1] if c == ONE else t.ops[1][1]
                elif t.op == 'switch':
                    w = self.width(self.tyof(t.ops[0]))
                    v = as_const(tuple(self.A.reduce(x, cons) for x in self.val(t.ops[0], env, w)))
                    if v is None:
                        raise Undecided('switch on data')
                    s = t.raw['default']
                    for cv, d in t.raw['cases']:
                        if int(cv) & ((1 << w) - 1) == v:
                            s = d
                else:
                    s = fn.blocks[b].succ[0]
                work.append((s, b, env, mem, cons, False))
            except Split as sp:
                f = sp.form
                v = f & -f & ~ONE
                if v == 0:
                    raise Undecided('split')
                for bit in (0, ONE):
                    form = f ^ v ^ bit          # f == bit  =>  v == form
                    nc = tuple((x, self.A.reduce(y, ((v, form),))) for x, y in snap[4]) + ((v, form),)
                    e2, m2 = self.sub(snap[2], nc), {k: tuple(self.A.reduce(x, nc) for x in y) for k, y in snap[3].items()}
                    work.append((snap[0], snap[1], e2, m2, nc, snap[5]))
        return arr, rets

    def phis(self, b, prev, env, cons):
        new = {}
        for i in self.fn.blocks[b].ins:
            if i.op == 'phi':
                w = self.width(i.ty)
                for x, v in self.fn.phi_in(i):
                    if x == prev:
                        if w is None:
                            # pointers advance through addr(); not representable
                            raise Undecided('pointer phi')
                        new[i.val] = tuple(self.A.reduce(y, cons) for y in self.val(v, env, w))
        env.update(new)

    def generalise(self, arrivals, vars_):
        """All ways round the loop must together be a bijection of the bits used so far."""
        fn = self.fn
        h = arrivals[0][0]
        states = []
        for (b, prev, env, mem, cons) in arrivals:
            e = dict(env)
            self.phis(b, prev, e, cons)
            states.append((e, mem, cons))
        ph = [i.val for i in fn.blocks[h].ins if i.op == 'phi']
        if len(states) == 1 and not states[0][2]:
            e, mem, cons = states[0]
            return ((h, None, e, mem, ()), vars_)
        acc = []
        for p in ph:
            vs = {s[0][p] for s in states}
            if len(vs) == 1:
                continue
            acc.append(p)
        # bits used so far: split variables plus everything in the accumulated
        # values; whatever carries one of those bits is accumulated too
        used = 0
        for e, mem, cons in states:
            for v, f in cons:
                used |= v | (f & ~ONE)
        while True:
            for e, mem, cons in states:
                for p in acc:
                    for x in e[p]:
                        used |= x & ~ONE
            more = [p for p in ph if p not in acc and any(x & used for e, _, _ in states for x in e[p])]
            if not more:
                break
            acc += more
        free = [v for v in vars_ if v & used]
        w = {p: len(states[0][0][p]) for p in acc}
        # memory written must agree
        for e, mem, cons in states[1:]:
            if mem != states[0][1]:
                raise Undecided('memory differs between ways round a loop')
        self.injective([([x for p in acc for x in e[p]], cons) for e, mem, cons in states], free)
        # fresh bits stand for the accumulated value
        nonc = [(p, j) for p in acc for j in range(w[p]) if any(s[0][p][j] != states[0][0][p][j] or s[0][p][j] not in (0, ONE) for s in states)]
        if len(nonc) != len(free):
            raise NotBijective('the ways round the loop use %d bits but produce %d' % (len(free), len(nonc)))
        e, mem, _ = states[0]
        e = dict(e)
        fresh = [1 << (self.nvars + k) for k in range(len(nonc))]
        self.nvars += len(nonc)
        if self.nvars > 60:
            # renumber: reuse the numbers of bits that are gone
            live = 0
            for k, v in e.items():
                if k in acc or not isinstance(v, tuple):
                    continue
                for x in v:
                    live |= x
        for p in acc:
            e[p] = list(e[p])
        for (p, j), v in zip(nonc, fresh):
            e[p][j] = v
        for p in acc:
            e[p] = tuple(e[p])
        vars2 = frozenset([v for v in vars_ if not (v & used)] + fresh)
        # drop stale values (they must not be read again)
        e2 = {k: v for k, v in e.items() if k in ph or not isinstance(v, tuple) or not any(x & used for x in v) or True}
        return self.compact((h, None, e2, mem, ()), vars2)

    def compact(self, cfg, vars_):
        """Renumbers live bits so that numbers stay small; stale bits get a poison mark."""
        h, prev, e, mem, cons = cfg
        order = sorted(vars_)
        m = {v: 1 << k for k, v in enumerate(order)}
        poison = 1 << 61

        def ren(x):
            r = x & ONE
            y = x & ~ONE
            while y:
                v = y & -y
                r ^= m.get(v, 0)
                if v not in m:
                    r |= poison
                y ^= v
            return r
        e = {k: tuple(ren(x) for x in v) if isinstance(v, tuple) else v for k, v in e.items()}
        mem = {k: tuple(ren(x) for x in v) for k, v in mem.items()}
        self.nvars = len(order)
        return ((h, prev, e, mem, cons), frozenset(m.values()))

    def injective(self, parts, free):
        """parts: [(output bits, constraints)] - jointly injective on the free bits."""
        spaces = []
        for bits, cons in parts:
            bits = [self.A.reduce(x, cons) for x in bits]
            if any(x & (1 << 61) for x in bits):
                raise Undecided('bits used twice')
            dim = len([v for v in free if v not in {c for c, _ in cons}])
            if rank([x & ~ONE for x in bits]) != dim:
                raise NotBijective('two different inputs give the same position')
            spaces.append(bits)
        for a in range(len(spaces)):
            for b in range(a + 1, len(spaces)):
                if intersects(spaces[a], spaces[b]):
                    raise NotBijective('two different inputs give the same position')


class NotBijective(Exception):
    pass


def rank(rows):
    piv = []
    r = 0
    for x in rows:
        for p in piv:
            x = min(x, x ^ p)
        if x:
            piv.append(x)
            r += 1
    return r


def intersects(A, B):
    """Do the affine images {A(u)} and {B(v)} share a point?  (u, v independent)"""
    rows = []
    for x, y in zip(A, B):
        c = (x ^ y) & ONE
        lin = (x & ~ONE) | ((y & ~ONE) << 64)
        rows.append((lin, 1 if c else 0))
    # solve lin = c
    piv = []
    for lin, c in rows:
        for pl, pc, bit in piv:
            if lin & bit:
                lin ^= pl
                c ^= pc
        if lin:
            piv.append((lin, c, lin & -lin))
        elif c:
            return False
    return True


def traversal(rep, B=None):
    rep.rule('index-bijective', 'for every traversal order and subdivision, block indices map one-to-one onto the block grid')
    rep.rule('order-known', 'the traversal order chosen by the map is one the decoder handles')
    B = B or BM()
    fn = B.byindex
    mapa = ('a', arg_named(fn, r'BlockMap')[0])
    idxa = ('a', arg_named(fn, r'^int$|unsigned int$')[0])
    outa = ('a', arg_named(fn, r'SidePair<int>')[0])
    en = None
    for n, vals in B.mod.enums.items():
        if n.endswith('TraversalOrder'):
            en = vals
    if not en:
        raise AnalysisError('anchor vanished: traversal order enumeration')
    total = 0
    st = field_store(B, 'traversal_order', 0)
    lv = leaves(B.make, st.ops[0], set())
    rep.check(all(l[0] == 'c' and l[1] in set(en.values()) for l in lv), 'order-known', st.where(),
              'the traversal order is not always one of the known ones')
    for name, order in sorted(en.items(), key=lambda x: x[1]):
        bad = None
        for base in range(0, 16):
            for side in (0, 1):
                for rect in range(0, 31 - 2 * base):
                    if rect == 0 and side == 1:
                        continue
                    if rect > 3 and rect % 4 != 0:
                        continue
                    r = [0, 0]
                    r[side] = rect
                    try:
                        one_index(B, fn, mapa, idxa, outa, order, base, r)
                    except (NotBijective, Undecided) as e:
                        bad = 'order %s, 2^%d blocks per side, extra factor 2^%d/2^%d: %s' % (name, base, r[0], r[1], e)
                        break
                    total += 1
                if bad:
                    break
            if bad:
                break
        rep.check(bad is None, 'index-bijective', '%s:%d (%s)' % (fn.file[fn.file.find('ruy/'):], fn.line, name), bad)
    rep.notes.append('traversal: %d (order, subdivision) configurations' % total)
    return B


def one_index(B, fn, mapa, idxa, outa, order, base, r):
    T = 2 * base + r[0] + r[1]
    fields = {B.off('num_blocks_base_log2'): base, B.off('traversal_order'): order,
              B.off('rectangularness_log2', 0): r[0], B.off('rectangularness_log2', 1): r[1]}

    def load(c, n):
        if c[0] == mapa and c[1] in fields:
            return const_vec(fields[c[1]], n * 8)
        return None
    idx = tuple((1 << j) if j < T else 0 for j in range(32))
    W = Walk(fn, {idxa: idx}, load, None)
    outs = W.run(T)
    if not outs:
        raise Undecided('no result')
    parts = []
    vars_ = None
    for (cons, mem), vs in outs:
        if vars_ is not None and vs != vars_:
            raise Undecided('results at different depths')
        vars_ = vs
        bits = []
        for s in (0, 1):
            v = mem.get((outa, 4 * s))
            if v is None:
                raise NotBijective('the block number of side %d is not set' % s)
            for j, x in enumerate(v):
                x = W.A.reduce(x, cons)
                if j >= base + r[s] and x != 0:
                    raise NotBijective('the block number of side %d can be outside the grid' % s)
            bits += list(v)
        parts.append((bits, cons))
    if len(vars_) != T:
        raise Undecided('bits lost')
    W.injective(parts, list(vars_))


def b01(rep, tier):
    B = tiling(rep)
    rep.units += [f.dem for f in (B.make, B.one, B.both)]
    rep.assume += ['dimensions given to the map are multiples of the kernel sizes and kernel sizes are powers of two (checked with the packed layouts)',
                   'no 32-bit overflow in block coordinates']


def b02(rep, tier):
    B = traversal(rep)
    rep.units += [B.byindex.dem]
    rep.need('index-bijective', 1)


CHECKS = {'B01': b01, 'B02': b02}
