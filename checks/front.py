"""A03, P04, M09: what the typed front end hands to the untyped middle end.
P01, P02: how the code path is chosen."""
import re
from build import flatten, AnalysisError
from ir import Module
from sym import P, entails
import bytesym as B
import mem

KEEP = [r'ruy::(RunPack|RunKernel)', r'^ruy::(PreparePackedMatrices|TrMul)\(', r'^ruy::(Ctx|Allocator)::']
PROBES = {  # operand, operand, accumulator, destination types of the instantiations analysed
    'mul_f32': ('float', 'float', 'float', 'float'),
    'mul_f64': ('double', 'double', 'double', 'double'),
    'mul_i8_u8': ('signed char', 'signed char', 'int', 'unsigned char'),
    'mul_i8_i8': ('signed char', 'signed char', 'int', 'signed char'),
    'mul_i8_i16': ('signed char', 'signed char', 'int', 'short'),
    'mul_i8_i32': ('signed char', 'signed char', 'int', 'int'),
    'mul_u8_u8': ('unsigned char', 'unsigned char', 'int', 'unsigned char'),
    'mul_u8_i32': ('unsigned char', 'unsigned char', 'int', 'int'),
    'mul_u8_i8': ('unsigned char', 'signed char', 'int', 'short'),
    'mul_i16_i8': ('short', 'signed char', 'int', 'short'),
    'mulp_std': ('float', 'float', 'float', 'float'),
    'mulp_avx': ('signed char', 'signed char', 'int', 'signed char'),
    'mulp_two': ('float', 'float', 'float', 'float'),
    'mulp_all': ('unsigned char', 'unsigned char', 'int', 'unsigned char'),
}
SIZES = {'int': 4, 'unsigned char': 1, 'signed char': 1, 'char': 1, 'unsigned long': 8, 'short': 2, 'bool': 1, 'long': 8,
         'unsigned int': 4, 'unsigned short': 2, 'float': 4, 'double': 8}
TYPE = {  # signed, floating point, size
    'float': (1, 1, 4), 'double': (1, 1, 8), 'signed char': (1, 0, 1), 'unsigned char': (0, 0, 1), 'short': (1, 0, 2), 'int': (1, 0, 4)}


def layout(m, cls, pre='', base=0, out=None):
    """Every scalar member of a class, by dotted path -> (offset, size)."""
    out = {} if out is None else out
    t = m.type(cls)
    if not t:
        raise AnalysisError('anchor vanished: no class ' + cls)
    for name, off, size, ty, inh, _l in t['members']:
        if off < 0:
            continue
        ty = ty.replace('const ', '').replace('volatile ', '').strip()
        key = pre + ('.' if pre and not inh else '') + ('' if inh else name.rstrip('_'))
        mm = re.match(r'^ruy::SidePair<(.*)>$', ty)
        if mm:
            el = mm.group(1).strip()
            n = size // 2
            for s in (0, 1):
                k = '%s[%d]' % (key, s)
                if m.type(el):
                    layout(m, el, k, base + off + s * n, out)
                else:
                    out[k] = (base + off + s * n, n)
            continue
        if m.type(ty) and not ty.endswith('*') and 'ConstCheckingPtr' not in ty and m.type(ty)['members']:
            layout(m, ty, key, base + off, out)
            continue
        out[key] = (base + off, size or SIZES.get(ty) or 8)
    return out


class Hand:
    """One state at the hand-off: reads members of the descriptor."""

    def __init__(self, run, st, base, off, lay, what):
        self.run, self.st, self.base, self.off, self.lay, self.what = run, st, base, off, lay, what

    def __getitem__(self, name):
        if name not in self.lay:
            raise AnalysisError('anchor vanished: no member ' + name)
        o, n = self.lay[name]
        e = self.st.read(self.base, self.off + o, n)
        return self.run.subst(self.st, e)

    def raw(self, off, n):
        return self.run.subst(self.st, self.st.read(self.base, self.off + off, n))


class Front:
    def __init__(self, probe):
        self.probe = probe
        self.types = PROBES[probe]
        self.m = m = Module(flatten(roots=['^verif_probe::%s\\(' % probe], keep=KEEP))
        self.fn = m.one(r'^verif_probe::%s\(' % probe)
        self.lay = layout(m, 'ruy::TrMulParams')
        L, R, A, D = self.types
        self.mat = [layout(m, 'ruy::Matrix<%s>' % t) for t in (L, R, D)]
        self.mp = layout(m, 'ruy::MulParams<%s, %s>' % (A, D))
        self.mp = {k.replace('storage.', ''): v for k, v in self.mp.items()}
        self.order = m.enums.get('ruy::Order') or {'kColMajor': 0, 'kRowMajor': 1}
        self.chan = m.enums.get('ruy::ChannelDimension') or {'kRow': 0, 'kCol': 1}

    ARG = {0: 0, 1: 1, 2: 4}        # operand -> argument of the multiplication

    def inp(self, which, name):
        """The term of a member of an input object."""
        a = 2 if which == 'mp' else self.ARG[which]
        lay = self.mp if which == 'mp' else self.mat[which]
        if name not in lay:
            raise AnalysisError('anchor vanished: no member %s of the inputs' % name)
        o, n = lay[name]
        return ('ld', n * 8, ('x', 64, ('a', a)), o, 0)

    def runs(self, extra=None):
        """Hand-off states for each combination of storage orders and channel dimension."""
        for lo in (0, 1):
            for ro in (0, 1):
                for do in (0, 1):
                    for ch in (0, 1):
                        yield self.run((lo, ro, do, ch), extra)

    def run(self, combo, extra=None):
        lo, ro, do, ch = combo
        assume = {self.inp(0, 'layout.order'): lo, self.inp(1, 'layout.order'): ro, self.inp(2, 'layout.order'): do,
                  self.inp('mp', 'channel_dimension'): ch}
        assume.update(extra or {})
        hands, ends = [], []

        def call(run, st, i, a):
            d = i.dem
            if re.match(r'ruy::(PreparePackedMatrices|TrMul)\(', d):
                base, off = B.split_ptr(a[1])
                w = 'prepare' if 'Prepare' in d else 'multiply'
                hands.append(Hand(run, st.copy(), base, off, self.lay, w))
                st.events += ((i.id, w, base, off),)
                if w == 'prepare':
                    for s in (0, 1):        # the one thing preparing decides
                        st.write(base, off + self.lay['is_prepacked[%d]' % s][0], 1, ('x', 8, ('prepacked', s)))
                return [st]
            if d.startswith('ruy::'):
                w = B.tywidth(i.ty) if i.ty != 'void' else None
                n = sum(e[0] == i.id for e in st.events)
                r = ('x', w, ('call', re.sub(r'\(.*', '', d), i.id, n)) if w else None
                if w:
                    st.env[i.id] = r
                st.events += ((i.id, 'call', d, tuple(a), r),)
                return [st]
            if (i.callee or '') == '__assert_fail':
                return []
            return None
        r = B.Run(self.fn, call=call, assume=assume)
        for t, st, v in r.run():
            ends.append(st)
        return combo, r, hands, ends


def fronts(rep):
    for p in PROBES:
        f = Front(p)
        rep.units.append('front end instantiated for %s x %s -> %s' % (f.types[0], f.types[1], f.types[3]))
        yield f


def where(f, combo, h=None):
    o = 'CR'
    p = ''
    if h is not None:
        e = h['path']
        p = ', path %s' % ('0x%x' % e[1] if e[0] == 'c' else '?')
    return '%s orders %s%s%s channel %s%s' % (f.probe, o[combo[0]], o[combo[1]], o[combo[2]], 'row' if combo[3] == 0 else 'col', p)


def show(e):
    s = repr(e)
    return s if len(s) < 120 else s[:117] + '...'


# ---------------------------------------------------------------- A03

def A03(rep, tier):
    rep.rule('A03.members', 'at the hand-off to the middle end each member of the three matrix descriptions is the corresponding member '
             'of the corresponding user matrix, transposed exactly when storage orders require it')
    rep.rule('A03.params', 'every parameter other than the channel dimension and reallocated buffers is the user\'s')
    rep.rule('A03.once', 'every way through a multiplication hands over to the middle end exactly once, packing first')
    for f in fronts(rep):
        L, R, A, D = f.types
        for combo, run, hands, ends in f.runs():
            lo, ro, do, ch = combo
            tr = do != f.order['kColMajor']
            # the middle end multiplies the transpose of its first operand with its second; for a row-major
            # destination the whole problem is transposed
            if not hands:
                raise AnalysisError('anchor vanished: no hand-off to the middle end in ' + f.probe)
            for h in hands:
                if h['path'][0] != 'c':
                    continue        # no compiled path matches: P04 and P01
                w = where(f, combo, h)
                bad = []
                for s in (0, 1):
                    which = 1 - s if tr else s
                    flip = which == 0       # the lhs is always handed over transposed
                    bad += matrix(f, h, 'src[%d]' % s, which, flip, combo[which], f.types[which])
                bad += matrix(f, h, 'dst', 2, tr, do, D)
                rep.check(not bad, 'A03.members', w, '; '.join(bad[:3]), key='A03.members@%s' % f.probe)
                bad = []
                mo = h.lay['mul_params_bytes'][0]
                for k, (o, n) in f.mp.items():
                    v = h.raw(mo + o, n)
                    if k == 'channel_dimension':
                        want = B.C(ch ^ 1 if tr else ch, 8)
                    elif k in ('bias', 'multiplier_fixedpoint_perchannel', 'multiplier_exponent_perchannel'):
                        continue
                    else:
                        want = h.run.subst(h.st, f.inp('mp', k))
                    if v != want and not same_bool(v, want):
                        bad.append('%s is %s' % (k, show(v)))
                rep.check(not bad, 'A03.params', w, '; '.join(bad), key='A03.params@%s' % f.probe)
            for st in ends:
                ev = [e[1] for e in st.events if e[1] in ('prepare', 'multiply')]
                rep.check(ev == ['prepare', 'multiply'], 'A03.once', where(f, combo),
                          'a multiplication returns after %s' % (' then '.join(ev) or 'no hand-off'))
    rep.need('A03.members', 1)
    rep.assume.append('Matrix sizes and strides are non-negative and fit the documented ranges; a code path compiled in is selected (P01).')


def same_bool(v, w):
    # a flag re-stored through a comparison of itself
    if v[0] == 'zext' and v[2][0].startswith('icmp') and v[2][2] == w:
        return all((B.evalt(v, {w: x}) or (0, None))[1] == x for x in (0, 1))
    return v[0] in ('and', 'zext', 'trunc', 'icmp.ne') and B.leaves(v) == {w} and all((B.evalt(v, {w: x}) or (0, None))[1] == x for x in (0, 1))


def matrix(f, h, pre, which, flip, order, ty):
    bad = []
    sub = lambda e: h.run.subst(h.st, e)

    def eq(name, want, txt):
        v = h[pre + '.' + name]
        if v != sub(want):
            bad.append('%s.%s is %s, not %s' % (pre, name, show(v), txt))
    who = ('the lhs', 'the rhs', 'the destination')[which]
    eq('data', f.inp(which, 'data'), 'the data of ' + who)
    eq('layout.rows', f.inp(which, 'layout.cols' if flip else 'layout.rows'), 'the %s of %s' % ('columns' if flip else 'rows', who))
    eq('layout.cols', f.inp(which, 'layout.rows' if flip else 'layout.cols'), 'the %s of %s' % ('rows' if flip else 'columns', who))
    eq('layout.stride', f.inp(which, 'layout.stride'), 'the stride of ' + who)
    eq('layout.order', B.C(order ^ 1 if flip else order, 8), 'the %sorder of %s' % ('flipped ' if flip else '', who))
    eq('cache_policy', f.inp(which, 'cache_policy'), 'the cache policy of ' + who)
    sg, fl, sz = TYPE[ty]
    for k, v in (('is_signed', sg), ('is_floating_point', fl), ('size', sz)):
        eq('data_type.' + k, B.C(v, 8), str(v))
    if not fl:
        zp = f.inp(which, 'zero_point')
        v = h[pre + '.zero_point']
        if sz == 1:
            z = h.run.subst(h.st, zp)
            for x in range(256):
                got = B.evalt(v, {zp: x})
                want = x - 256 if sg and x > 127 else x
                if z[0] == 'c' and z[1] != x:
                    continue
                if got is None or B.sval(got) != want:
                    bad.append('%s.zero_point is %s for zero point %d' % (pre, 'unknown' if got is None else B.sval(got), want))
                    break
        else:
            ext = zp if sz == 4 else B.mk('sext' if sg else 'zext', 32, zp)
            if v != sub(ext):
                bad.append('%s.zero_point is %s' % (pre, show(v)))
    return bad


# ---------------------------------------------------------------- P04

PACK = re.compile(r'ruy::RunPack<\(ruy::Path\)(\d+), ruy::FixedKernelLayout<\(ruy::Order\)(\d+), (\d+), (\d+)>, ([a-z ]+), ([a-z ]+)>')
KERN = re.compile(r'ruy::RunKernel<ruy::Kernel<\(ruy::Path\)(\d+), ([a-z ]+), ([a-z ]+), ([a-z ]+), ([a-z ]+)> ?>::Run')


def func(f, e):
    if e[0] == 'x' and e[2][0] == 'g':
        s = f.m.symbols.get(e[2][1])
        return s['dem'] if s else e[2][1]
    return None


def P04(rep, tier):
    rep.rule('P04.covered', 'every path the front end can be told to take has its descriptor filled; nothing is handed over for others')
    rep.rule('P04.kernel', 'the kernel is the one of the selected path, for the packed operand types, accumulator and destination type')
    rep.rule('P04.pack', 'each packing routine is the one of the selected path and produces the element type and block layout that '
             'the packed description states and the kernel type takes, from the operand\'s element type')
    rep.rule('P04.packed', 'the packed description has the operand\'s size rounded up to whole kernel blocks, the matching sums type and '
             'zero point, no data yet, and is not marked as packed')
    for f in fronts(rep):
        L, R, A, D = f.types
        for combo, run, hands, ends in f.runs():
            do = combo[2]
            tr = do != f.order['kColMajor']
            seen, mask = {}, None
            for h in hands:
                sel = [e for e in h.st.events if len(e) > 2 and e[1] == 'call' and 'SelectPath' in e[2]]
                if len(sel) != 1 or sel[0][3][1][0] != 'c':
                    raise AnalysisError('anchor vanished: one path selection with a constant set of paths in ' + f.probe)
                mask = sel[0][3][1][1]
                chosen = h.st.facts.get(sel[0][4])
                if chosen is None:
                    no = {c for t, c in h.st.nots if t == sel[0][4]}
                    miss = [b for b in bits(mask) if b not in no]
                    rep.check(not miss, 'P04.covered', where(f, combo), 'nothing is prepared for path %s' % ', '.join('0x%x' % b for b in miss))
                    continue
                if h.what != 'prepare':
                    continue
                seen[chosen] = 1
                w = where(f, combo, h)
                bad = []
                if h['path'] != B.C(chosen, 8):
                    bad.append('recorded path is %s, selected 0x%x' % (show(h['path']), chosen))
                kn = func(f, h['run_kernel'])
                k = KERN.search(kn or '')
                if not k:
                    if kn is None:
                        bad.append('kernel is %s' % show(h['run_kernel']))
                    else:
                        raise AnalysisError('kernel entry not understood: ' + kn)
                else:
                    kp, pl, pr, ka, kd = k.groups()
                    if int(kp) != chosen:
                        bad.append('kernel of path 0x%x' % int(kp))
                    if ka != A or kd != D:
                        bad.append('kernel for accumulator %s and destination %s' % (ka, kd))
                    for s, t in ((0, pl), (1, pr)):
                        if not typed(h, 'packed_matrix[%d].data_type' % s, t):
                            bad.append('kernel takes %s for side %d, packed type differs' % (t, s))
                rep.check(not bad, 'P04.kernel', w, '; '.join(bad), key='P04.kernel@%s' % f.probe)
                for s in (0, 1):
                    which = 1 - s if tr else s
                    src = f.types[which]
                    bad = []
                    pn = func(f, h['run_pack[%d]' % s])
                    k = PACK.search(pn or '')
                    if not k:
                        if pn is not None:
                            raise AnalysisError('packing routine not understood: ' + pn)
                        bad.append('packing routine is %s' % show(h['run_pack[%d]' % s]))
                    else:
                        pp, po, prow, pcol, ps, pt = k.groups()
                        if int(pp) != chosen:
                            bad.append('packing routine of path 0x%x' % int(pp))
                        for n, v in (('order', po), ('rows', prow), ('cols', pcol)):
                            if h['packed_matrix[%d].layout.kernel.%s' % (s, n)] != B.C(int(v), 8):
                                bad.append('packing routine has kernel %s %s, description %s' % (n, v, show(h['packed_matrix[%d].layout.kernel.%s' % (s, n)])))
                        if ps != src:
                            bad.append('packing routine reads %s, operand is %s' % (ps, src))
                        if not typed(h, 'packed_matrix[%d].data_type' % s, pt):
                            bad.append('packing routine writes %s, description differs' % pt)
                    rep.check(not bad, 'P04.pack', w + ' side %d' % s, '; '.join(bad), key='P04.pack@%s' % f.probe)
                    bad = packed(f, h, s, which, src)
                    rep.check(not bad, 'P04.packed', w + ' side %d' % s, '; '.join(bad), key='P04.packed@%s' % f.probe)
            for b in bits(mask or 0):
                rep.check(b in seen, 'P04.covered', where(f, combo) + ' path 0x%x' % b, 'no multiplication is prepared for this path')
    for r in rep.rules:
        rep.need(r, 1)
    rep.assume.append('Template arguments in the names of packing routines and kernels state what they implement.')


def bits(x):
    return [1 << k for k in range(8) if x >> k & 1]


def typed(h, pre, t):
    return all(h['%s.%s' % (pre, k)] == B.C(v, 8) for k, v in zip(('is_signed', 'is_floating_point', 'size'), TYPE[t]))


def packed(f, h, s, which, src):
    bad = []
    pm = 'packed_matrix[%d].' % s
    kr, kc = h[pm + 'layout.kernel.rows'], h[pm + 'layout.kernel.cols']
    if kr[0] != 'c' or kc[0] != 'c' or not kr[1] or not kc[1]:
        return ['kernel block size is %s x %s' % (show(kr), show(kc))]
    for n, k in (('rows', kr[1]), ('cols', kc[1])):
        fx = []
        x = B.poly(h['src[%d].layout.%s' % (s, n)], fx)
        want = B.fdiv(x + (k - 1), k, fx) * k
        ge = h[pm + 'layout.' + n]
        got = B.poly(B.evalt(ge, h.st.facts) or ge, fx)
        d = got - want
        fx += B.linear(h.st, fx)
        if not (d.is_const() and d.cval() == 0) and not (entails(fx, d) and entails(fx, -d)):
            bad.append('packed %s is %s, not the operand\'s rounded up to %d' % (n, show(h[pm + 'layout.' + n]), k))
    if h[pm + 'layout.order'] != B.C(f.order['kColMajor'], 8):
        bad.append('packed order is %s' % show(h[pm + 'layout.order']))
    fx = []
    d = B.poly(h[pm + 'layout.stride'], fx) - B.poly(h[pm + 'layout.rows'], fx)
    if not entails(fx, d):
        bad.append('packed stride %s may be less than the packed rows' % show(h[pm + 'layout.stride']))
    fl = TYPE[src][1]
    if not typed(h, pm + 'sums_type', src if fl else 'int'):
        bad.append('sums have another type')
    if not fl:
        zp = f.inp(which, 'zero_point')
        v = h[pm + 'zero_point']
        sg = TYPE[src][0]
        psg = h[pm + 'data_type.is_signed']
        n = TYPE[src][2]
        if h[pm + 'data_type.size'] == B.C(n, 8) and psg[0] == 'c':
            half = 1 << 8 * n - 1
            shift = 0 if psg[1] == sg else -half if psg[1] else half
            for x in range(2 * half) if n == 1 else (0, 1, 5, half - 1, half, half + 3, 2 * half - 1):
                got = B.evalt(v, {zp: x})
                want = (x - 2 * half if sg and x >= half else x) + shift
                if got is None or B.sval(got) != want:
                    bad.append('packed zero point is %s where the operand has %d' % ('unknown' if got is None else B.sval(got), x))
                    break
        else:
            bad.append('packed type differs in size from the operand type')
    for n in ('data', 'sums'):
        if h[pm + n] != B.C(0, 64):
            bad.append('packed %s is already set to %s' % (n, show(h[pm + n])))
    if h['is_prepacked[%d]' % s] != B.C(0, 8):
        bad.append('already marked as packed')
    return bad


# ---------------------------------------------------------------- M09

BUFS = ('bias', 'multiplier_fixedpoint_perchannel', 'multiplier_exponent_perchannel')


def M09(rep, tier):
    rep.rule('M09.kept', 'a per-channel buffer of the user is handed to kernels only when it is null, unused, or its declared capacity '
             'covers all padded channels')
    rep.rule('M09.moved', 'otherwise kernels get a new buffer that covers all padded channels, holds the user\'s values for all real '
             'channels and zeros for the rest')
    ks = (0, 3) if tier == 'quick' else tuple(range(8))
    for f in fronts(rep):
        for k in ks:
            lg = f.inp('mp', 'perchannel_buffers_capacity_rounding_log2')
            for combo, run, hands, ends in f.runs({lg: k}):
                do, ch = combo[2], combo[3]
                tr = do != f.order['kColMajor']
                side = (ch != f.chan['kRow']) ^ tr
                for h in hands:
                    if h.what != 'multiply' or h['path'][0] != 'c':
                        continue
                    for b in BUFS:
                        if b in f.mp:
                            buffer(rep, f, h, b, int(side), k, where(f, combo, h) + ' rounding %d %s' % (1 << k, b))
    for r in rep.rules:
        rep.need(r, 1)
    rep.assume.append('The capacity declared for per-channel buffers is a power of two of at most %d and is honoured by the caller.' % (1 << max(ks)))


def related(d, base):
    """Is the difference of two addresses free of addresses?"""
    for a in d.atoms():
        if a[0] == 't' and B.width(a[1]) == 64 and (a[1][0] == 'x' or (a[1][0] == 'ld' and a[1][1] == 64)):
            return False
    return True


def buffer(rep, f, h, b, side, k, w):
    key = '@%s %s' % (f.probe, b)
    st = h.st
    orig = f.inp('mp', b)
    o, n = f.mp[b]
    v = h.raw(h.lay['mul_params_bytes'][0] + o, n)
    fx = []
    size = B.poly(h['src[%d].layout.cols' % side], fx)
    req = B.poly(h['packed_matrix[%d].layout.cols' % side], fx)
    cap = B.fdiv(size + ((1 << k) - 1), 1 << k, fx) * (1 << k)
    facts = B.linear(st, fx) + fx + [size]
    known = st.facts.get(orig)
    if h.run.subst(st, orig) == v or v == orig:
        ok = known == 0
        if not ok and b != 'bias' and 'perchannel' in f.mp and st.facts.get(f.inp('mp', 'perchannel')) == 0:
            ok = True
        if not ok:
            ok = entails(facts, cap - req)
        rep.check(ok, 'M09.kept', w, 'the user\'s buffer is handed to kernels though its capacity may not cover the padded channels', key='M09.kept' + key)
        return
    base, off = B.split_ptr(v)
    al = next((e for e in st.events if len(e) == 5 and e[1] == 'call' and e[4] == base and 'Allocat' in e[2]), None)
    if al is None or off:
        rep.bad('M09.moved', w, 'kernels get the buffer %s' % show(v), key='M09.moved' + key)
        return
    bad = []
    if known == 0 or (orig, 0) not in st.nots:
        bad.append('a buffer appears where the user may have given none')
    es = 4 if f.types[2] != 'double' or b != 'bias' else 8
    if f.types[2] == 'float' or f.types[2] == 'int':
        es = 4
    if not entails(facts, B.poly(al[3][1], fx) - req * es):
        bad.append('the new buffer has %s bytes for %s padded channels' % (show(al[3][1]), req))
    room = B.poly(al[3][1], fx)
    copied = entails(facts + fx, -size)       # no channel at all
    if not copied and entails(facts + fx, P(1) - size):
        got = st.read(base, 0, es)
        copied = got == ('ld', es * 8, orig, 0, 0)
    order = []
    for e in st.events:
        if e[1] not in ('copy', 'set'):
            continue
        at = B.poly(e[2], fx) + e[3] - B.poly(base, fx)
        ln = B.poly(e[4], fx)
        known = facts + fx
        if not related(at, base):
            continue
        if e[1] == 'copy' and entails(known, at) and entails(known, -at):
            if e[5] == orig and e[6] == 0 and entails(known, ln - size * es):
                copied = True
                order.append('copy')
                if not entails(known, room - ln):
                    bad.append('copies past the new buffer')
        if e[1] == 'set' and entails(known, room - at):
            if e[5] == B.C(0, 8) and entails(known, size * es - at) and entails(known, at + ln - req * es):
                order.append('set')
                if not entails(known, at - size * es) and 'copy' in order:
                    bad.append('zeros overwrite copied values')
                if not entails(known, room - at - ln):
                    bad.append('zeros are written past the new buffer')
    zeroed = 'set' in order or entails(facts + fx, size - req)
    if not copied:
        bad.append('the user\'s values are not copied for all channels')
    if not zeroed:
        bad.append('the rest of the buffer is not cleared')
    rep.check(not bad, 'M09.moved', w, '; '.join(bad), key='M09.moved' + key)


# ---------------------------------------------------------------- P01, P02

ISA = 'cpuinfo_isa'
# processor feature reported by the detection library -> compiler features it brings along
FEATURE = {
    'avx': ('avx', 'sse3', 'ssse3', 'sse4.1', 'sse4.2', 'popcnt', 'crc32', 'xsave'),
    'avx2': ('avx2', 'avx'), 'fma3': ('fma', 'avx'), 'f16c': ('f16c', 'avx'),
    'avx512f': ('avx512f', 'avx2', 'fma', 'f16c', 'evex512', 'avx'),
    'avx512bw': ('avx512bw',), 'avx512cd': ('avx512cd',), 'avx512dq': ('avx512dq',), 'avx512vl': ('avx512vl',),
    'avx512vnni': ('avx512vnni',), 'avx512vbmi': ('avx512vbmi',), 'avx512ifma': ('avx512ifma',),
    'sse3': ('sse3',), 'ssse3': ('ssse3',), 'sse4_1': ('sse4.1',), 'sse4_2': ('sse4.2', 'crc32'), 'popcnt': ('popcnt',), 'bmi': ('bmi',),
    'bmi2': ('bmi2',), 'lzcnt': ('lzcnt',),
}


def expand(fs):
    out, todo = set(), list(fs)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += FEATURE.get(x, ())
    return out


class Paths:
    def __init__(self, roots):
        self.m = Module(flatten(roots=roots + [r'^verif_probe::isa_layout\('], keep=[r'^std::__cxx11::']))
        self.lay = layout(self.m, 'ruy::CtxImpl')
        self.isa = {o: k for k, (o, n) in layout(self.m, 'cpuinfo_x86_isa').items()}
        self.path = self.m.enums.get('ruy::Path')
        if not self.path:
            raise AnalysisError('anchor vanished: the set of paths')

    def run(self, fn, assume=None):
        def call(run, st, i, a):
            c = i.callee or ''
            if c == '__assert_fail':
                return []
            if c == 'cpuinfo_initialize':
                n = sum(e[0] == i.id for e in st.events)
                st.env[i.id] = r = ('x', 1, ('call', c, i.id, n))
                st.events += ((i.id, 'init', r),)
                st.havoc(('x', 64, ('g', ISA)))
                return [st]
            return None
        r = B.Run(fn, call=call, assume=assume, cap=200000)
        return r, r.run()


def writers(member):
    """The functions that refer to a member themselves, each with everything it calls inlined."""
    m = Module(flatten(roots=['^ruy::(Ctx|CtxImpl|Context|CpuInfo)::'], flags=['--no-inline', '--no-scev']))
    out = []
    for f in m.fns.values():
        if not re.match(r'^ruy::(Ctx|CtxImpl|Context|CpuInfo)::', f.dem) or '~' in f.dem or f.dem.split('(')[0].split('::')[-2:-1] == [f.dem.split('(')[0].split('::')[-1]]:
            continue
        cls = {c for i in f.instrs() for o in [i.val] if i.op == 'getelementptr' for c, n in f.fields(o) if n == member}
        cls |= {c for i in f.instrs() if i.op == 'store' for c, n in f.fields(i.ops[1]) if n == member}
        if cls:
            pat = '^%s$' % re.escape(f.dem)
            out.append((sorted(cls)[0], Paths([pat]).m.one(pat)))
    if not out:
        raise AnalysisError('anchor vanished: nothing sets ' + member)
    return out


def P01(rep, tier):
    rep.rule('P01.enabled', 'whatever sets the enabled paths (detection, environment, the user) leaves the portable fallback enabled, or '
             'leaves detection to be done')
    rep.rule('P01.choice', 'for every set of compiled-in and every set of enabled paths, both with the fallback, the path taken is the '
             'most significant common one')
    rep.rule('P01.stored', 'the path reported as last used is the one taken')
    m = Paths([r'^ruy::Ctx::(SelectPath|SetRuntimeEnabledPaths)\('])
    always = m.path['kStandardCpp']
    o, n = m.lay['runtime_enabled_paths']
    base = ('x', 64, ('a', 0))
    cell = ('ld', 8, base, o, 0)
    fns = [f for _, f in writers('runtime_enabled_paths_')]
    rep.units += [f.dem for f in fns]
    for f in fns:
        r, ex = m.run(f)
        for t, s, v in ex:
            e = s.read(base, o, n)
            bad = fallback(s, e, cell, always)
            rep.check(not bad, 'P01.enabled', '%s %s' % (f.dem, show(e)), bad or '', key='P01.enabled@' + f.dem)
    f = m.m.one(r'^ruy::Ctx::SelectPath\(')
    comp = ('x', 8, ('a', 1))
    top = 2 * max(m.path.values())
    done = set()
    r, ex = m.run(f)
    for t, s, v in ex:
        e = s.read(base, o, n)
        lu = m.lay['last_used_path']
        last = s.read(base, lu[0], lu[1])
        rel = frozenset((t, k) for t, k in s.facts.items() if comp in B.leaves(t)) | frozenset(('not', t, k) for t, k in s.nots if comp in B.leaves(t))
        if (v, e, rel) in done:
            continue
        done.add((v, e, rel))
        w = '%s with enabled paths %s' % (f.dem, show(e))
        rep.check(last == v, 'P01.stored', w, 'reports %s, takes %s' % (show(last), show(v)))
        bad = choice(s, v, e, comp, always, top)
        rep.check(not bad, 'P01.choice', w, bad or '')
    for x in rep.rules:
        rep.need(x, 1)


def choice(s, v, e, comp, always, top):
    """Is v the most significant common path, for every set this state admits?"""
    lv = B.leaves(e) - {comp}
    about = lv | {comp}
    if B.leaves(v) - about or len(lv) > 1:
        return 'the choice depends on %s' % ', '.join(show(x) for x in (B.leaves(v) | lv) - {comp})
    conds = [(t, k, True) for t, k in s.facts.items()] + [(t, k, False) for t, k in s.nots]
    conds = [(t, k, p) for t, k, p in conds if B.leaves(t) and B.leaves(t) <= about]
    leaf = next(iter(lv), None)
    for x in range(top) if lv else (0,):
        vals = {leaf: x} if leaf is not None else {}
        en = B.evalt(e, vals)
        if en is None:
            return 'the enabled paths are unknown'
        if not en[1] & always:
            continue        # excluded by P01.enabled
        for c in range(always, top, 2 * always):
            vals[comp] = c
            if any((B.evalt(t, vals) or (0, k if p else ~k))[1] == k if not p else (B.evalt(t, vals) or (0, k))[1] != k for t, k, p in conds):
                continue
            got = B.evalt(v, vals)
            both = c & en[1]
            if got is None or got[1] != 1 << (both.bit_length() - 1):
                return 'of compiled 0x%x and enabled 0x%x takes %s' % (c, en[1], 'an unknown path' if got is None else '0x%x' % got[1])
    return None


def fallback(s, e, cell, always):
    if e == cell or (e[0] == 'c' and e[1] == 0):
        return None         # unchanged, or to be detected
    if e[0] == 'c':
        return None if e[1] & always else 'enables only 0x%x' % e[1]
    lv = B.leaves(e)
    if len(lv) == 1:
        x = next(iter(lv))
        if B.width(x) <= 32:
            vals = range(256)
            for k in vals:
                if (x, k) in s.nots or (B.mk('trunc', 8, x) if B.width(x) > 8 else x, k) in s.nots:
                    continue
                got = B.evalt(e, {x: k})
                if got is None:
                    break
                if not got[1] & always and got[1]:
                    return 'for the set 0x%x enables only 0x%x' % (k, got[1])
            else:
                return None
    return 'may enable a set without the fallback: ' + show(e)


def P02(rep, tier):
    rep.rule('P02.gated', 'detection enables a path only after the processor was found to have every instruction-set extension that any '
             'function reachable from that path\'s kernels and packing routines is compiled for')
    rep.rule('P02.complete', 'detection leaves a path out only after finding an extension missing or failing to query the processor')
    rep.rule('P02.init', 'the processor description counts as initialised only after the detection library reported success')
    rep.rule('P02.own', 'code that is not specific to a path is compiled for the baseline only')
    m = Paths([r'^ruy::Ctx::SelectPath\('])
    S = {s['name']: s for s in flatten(flags=['--list'])['symbols']}
    base_tf = set()
    for s in S.values():
        if s['dem'].startswith('ruy::Ctx::SelectPath('):
            base_tf = feats(s)
    if not base_tf:
        raise AnalysisError('anchor vanished: baseline features')
    need, why = {}, {}
    for b in bits(255):
        seen = set()
        for n, s in S.items():
            if re.search(r'ruy::(RunKernel<ruy::Kernel<|RunPack<)\(ruy::Path\)%d,' % b, s['dem']) and s.get('def'):
                reach(S, n, seen)
        if seen:
            need[b] = {}
            for n in seen:
                if not S[n].get('weak'):
                    for x in feats(S[n]) - base_tf:
                        need[b].setdefault(x, S[n]['dem'])
    if len(need) < 2:
        raise AnalysisError('anchor vanished: kernels of several paths')
    rep.notes.append({'0x%x' % b: sorted(v) for b, v in need.items()})
    o, n = m.lay['runtime_enabled_paths']
    f = m.m.one(r'^ruy::Ctx::SelectPath\(')
    base = ('x', 64, ('a', 0))
    r, ex = m.run(f, assume={('ld', 8, base, o, 0): 0})
    st_off = next((v for k, v in m.lay.items() if k.endswith('init_status')), None)
    if st_off is None:
        raise AnalysisError('anchor vanished: initialisation status')
    status = m.m.enums.get('ruy::CpuInfo::InitStatus')
    ok_v = status['kInitialized']
    done = set()
    for t, s, v in ex:
        e = s.read(base, o, n)
        if e[0] != 'c':
            continue            # chosen by the user
        ver = s.ver.get(('x', 64, ('g', ISA)), 0)
        have, lack = set(), set()
        for x, k in s.nots:
            if x[0] == 'ld' and x[2] == ('x', 64, ('g', ISA)) and k == 0 and x[4] == ver:
                have.add(m.isa.get(x[3], '?'))
        for x, k in s.facts.items():
            if x[0] == 'ld' and x[2] == ('x', 64, ('g', ISA)) and x[4] == ver:
                (have if k else lack).add(m.isa.get(x[3], '?'))
        stv = s.known(s.read(base, *st_off))
        inited = stv == B.C(ok_v, 32)
        key = (e[1], tuple(sorted(have)), tuple(sorted(lack)), inited)
        if key in done:
            continue
        done.add(key)
        got = expand(have) if inited else set()
        for b, fs in need.items():
            w = 'path 0x%x, processor with %s%s' % (b, ', '.join(sorted(have)) or 'nothing known', '' if inited else ', not initialised')
            if e[1] & b:
                miss = sorted(x for x in fs if x not in got)
                rep.check(not miss, 'P02.gated', w, 'path 0x%x is enabled without a test for %s, used in %s' % (b, ', '.join(miss), fs[miss[0]] if miss else ''),
                          key='P02.gated@0x%x' % b)
            elif fs:
                rep.check(bool(lack) or not inited, 'P02.complete', w, 'path 0x%x is not enabled though nothing was found missing' % b, key='P02.complete@0x%x' % b)
    # initialisation
    for cls, f in writers('init_status_'):
        off, size = layout(m.m, cls)['init_status']
        r, ex = m.run(f)
        for t, s, v in ex:
            e = s.known(s.read(base, off, size))
            old = ('ld', size * 8, base, off, 0)
            if e == old or s.facts.get(old) == (e[1] if e[0] == 'c' else None):
                continue
            inits = [x for x in s.events if x[1] == 'init']
            good = e[0] == 'c' and (e[1] != ok_v or any(s.facts.get(x[2]) == 1 for x in inits))
            rep.check(good, 'P02.init', '%s status %s' % (f.dem, show(e)), 'counts as initialised though the query failed or was not made')
    # code shared by all paths
    seen = set()
    for n, s in S.items():
        if re.match(r'^ruy::(Ctx|CtxImpl|Context|ThreadPool|Thread|BlockMap|Allocator|PrepackedCache|TuningResolver|CpuInfo|Wait|TrMul|PreparePackedMatrices)\b', s['dem']) and s.get('def') and not s.get('weak'):
            x = feats(s) - base_tf
            rep.check(not x, 'P02.own', s['dem'], 'compiled for ' + ', '.join(sorted(x)))
    for x in rep.rules:
        rep.need(x, 1)
    rep.assume.append('Instruction-set flags per source file are those of the build (file names with _avx, _avx2_fma, _avx512); '
                      'inline functions emitted in several units are not attributed to one.')


def feats(s):
    return {x[1:] for x in (s.get('tf') or '').split(',') if x.startswith('+')}


def reach(S, n, seen):
    todo = [n]
    while todo:
        n = todo.pop()
        if n in seen or n not in S:
            continue
        seen.add(n)
        todo += S[n].get('callees', [])


CHECKS = {'A03': A03, 'P04': P04, 'M09': M09, 'P01': P01, 'P02': P02}
