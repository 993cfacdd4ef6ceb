"""D01: every value a kernel writes to the destination is within the clamp bounds."""
import re
from build import AnalysisError
from scev import Sym
from sym import Poly
import bounds
import front

KEEPS = re.compile(r'llvm\.x86\..*(pshuf|pack[su]s|packus|pmov|perm|vperm|insert|extract|shuf|blend|expand|compress|broadcast)|llvm\.vector\.(insert|extract)|'
                   r'llvm\.experimental\.vector\.|llvm\.fptrunc')
MIN = re.compile(r'llvm\.(s|u)?min(num|imum)?\.|llvm\.x86\..*\.(min|pmins|pminu)[.a-z]')
MAX = re.compile(r'llvm\.(s|u)?max(num|imum)?\.|llvm\.x86\..*\.(max|pmaxs|pmaxu)[.a-z]')
COPY = re.compile(r'llvm\.mem(cpy|move)|mem(cpy|move)$')
LO, HI = 'lower', 'upper'
ALL = frozenset((LO, HI))


class Clamp:
    def __init__(self, m, fn, info):
        self.fn, self.types = fn, info['types']
        lay = bounds.mulparams(m, info['types'][2], info['types'][3])
        self.mul = {o: (k.split('.')[-1], s) for k, (o, s) in lay.items()}
        self.data = front.layout(m, 'ruy::EMat')['data'][0]
        self.memo = {}
        self.S = None

    # ---- where an address points
    def roots(self, o, seen=None):
        seen = set() if seen is None else seen
        fn = self.fn
        r, off, var = fn.addr(o)
        if r in seen:
            return set()
        seen.add(r)
        i = fn.inst(r)
        if i is None or i.op in ('load', 'alloca', 'call'):
            return {r}
        out = set()
        if i.op == 'phi':
            for _b, v in fn.phi_in(i):
                out |= self.roots(v, seen)
        elif i.op == 'select':
            for v in i.ops[1:]:
                out |= self.roots(v, seen)
        else:
            return {r}
        return out

    def is_dst(self, r):
        i = self.fn.inst(r)
        if i is None or i.op != 'load':
            return False
        q, off, var = self.fn.addr(i.ops[0])
        return q == ('a', 5) and off == self.data and not var

    # ---- bounds
    def bound(self, o):
        """'lower' or 'upper' if every lane is that bound of this multiplication."""
        fn = self.fn
        for _ in range(12):
            i = fn.inst(o)
            if i is None:
                return None
            if i.op == 'load':
                r, off, var = fn.addr(i.ops[0])
                x = fn.inst(r)
                if r == ('a', 2) and not var and off in self.mul:
                    return {'clamp_min': LO, 'clamp_max': HI}.get(self.mul[off][0])
                if x is not None and x.op == 'alloca':
                    s = [w for w in fn.instrs() if w.op == 'store' and fn.addr(w.ops[1]) == (r, off, var)]
                    if len(s) == 1:
                        o = s[0].ops[0]
                        continue
                return None
            if i.op in ('sext', 'zext'):
                uns = self.types[3].startswith('unsigned')
                if (i.op == 'zext') != uns:
                    return None
                o = i.ops[0]
            elif i.op in ('fpext', 'freeze', 'bitcast'):
                o = i.ops[0]
            elif i.op == 'shufflevector':
                o = i.ops[0]
            elif i.op == 'insertelement':
                o = i.ops[1]
            elif i.op == 'phi':
                ks = {v for _b, v in fn.phi_in(i)} - {i.val}
                if len(ks) != 1:
                    return None
                o = next(iter(ks))
            else:
                return None
        return None

    def minmax(self, i):
        """('min'|'max', x, y) if the instruction computes one."""
        fn = self.fn
        if i.op == 'call':
            c = i.callee or ''
            ops = i.ops
            if MIN.match(c):
                return ('min', ops[0], ops[1])
            if MAX.match(c):
                return ('max', ops[0], ops[1])
            return None
        if i.op == 'select':
            c = fn.inst(i.ops[0])
            if c is None or c.op not in ('icmp', 'fcmp'):
                return None
            x, y = c.ops[0], c.ops[1]
            t, f = i.ops[1], i.ops[2]
            p = c.raw['pred']
            lt = p in (('slt', 'sle') if c.op == 'icmp' else ('olt', 'ole', 'ult', 'ule'))
            gt = p in (('sgt', 'sge') if c.op == 'icmp' else ('ogt', 'oge', 'ugt', 'uge'))
            if not lt and not gt:
                return None
            if self.same(t, x) and self.same(f, y):
                return ('min' if lt else 'max', x, y)
            if self.same(t, y) and self.same(f, x):
                return ('max' if lt else 'min', x, y)
        return None

    def same(self, a, b):
        return a == b or self.bound(a) is not None and self.bound(a) == self.bound(b)

    # ---- values
    def within(self, o, seen=frozenset(), hyp=frozenset()):
        """Bounds every lane of a value is known to respect, given comparisons known to hold."""
        if (o, hyp) in self.memo:
            return self.memo[o, hyp]
        if (o, hyp) in seen:
            return ALL
        r = self.within1(o, seen | {(o, hyp)}, hyp) | {b for v, b in hyp if v == o}
        if not seen:
            self.memo[o, hyp] = r
        return r

    def meet(self, vs, seen, hyp):
        out = ALL
        for v in vs:
            if v[0] == 'u':
                continue
            out = out & self.within(v, seen, hyp)
            if not out:
                break
        return out

    def implied(self, c, truth):
        """Limits on single values that follow from a comparison with a bound."""
        i = self.fn.inst(c)
        if i is None or i.op not in ('icmp', 'fcmp'):
            return frozenset()
        p = i.raw['pred'][1:]
        if p not in ('lt', 'le', 'gt', 'ge'):
            return frozenset()
        out = set()
        for x, y, up in ((i.ops[0], i.ops[1], p[0] == 'l'), (i.ops[1], i.ops[0], p[0] == 'g')):
            b = self.bound(y)
            if b == (HI if up == truth else LO):
                out.add((x, b))
        return frozenset(out)

    def edge(self, p, b):
        """Limits that hold on a control-flow edge."""
        fn, out = self.fn, frozenset()
        for _ in range(8):
            t = fn.term(p)
            if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
                out |= self.implied(t.ops[0], t.ops[2][1] == b)
            if len(fn.blocks[p].preds) != 1:
                break
            p, b = fn.blocks[p].preds[0], p
        return out

    def within1(self, o, seen, hyp):
        fn = self.fn
        i = fn.inst(o)
        b = self.bound(o)
        if b:
            return ALL       # the bounds themselves lie between the bounds
        if i is None:
            return ALL if o[0] == 'u' else frozenset()
        mm = self.minmax(i)
        if mm:
            k, x, y = mm
            for p, q in ((x, y), (y, x)):
                b = self.bound(q)
                if b == (HI if k == 'min' else LO):
                    return frozenset((b,)) | (self.within(p, seen, hyp) & {LO if b == HI else HI})
            return self.within(x, seen, hyp) & self.within(y, seen, hyp)
        if i.op == 'phi':
            out = ALL
            for b, v in fn.phi_in(i):
                if not self.never(b, i.blk):
                    out = out & self.meet([v], seen, hyp | self.edge(b, i.blk))
            return out
        if i.op == 'select':
            return self.meet([i.ops[1]], seen, hyp | self.implied(i.ops[0], True)) & \
                self.meet([i.ops[2]], seen, hyp | self.implied(i.ops[0], False))
        if i.op in ('trunc', 'sext', 'zext', 'bitcast', 'freeze', 'fptrunc', 'fpext', 'extractelement'):
            return self.within(i.ops[0], seen, hyp)
        if i.op == 'shufflevector':
            return self.meet([v for v in i.ops[:2] if not self.blank(v)], seen, hyp)
        if i.op == 'insertelement':
            return self.meet([v for v in i.ops[:2] if not self.blank(v)], seen, hyp)
        if i.op == 'call' and KEEPS.match(i.callee or ''):
            vs = [v for k, v in enumerate(i.ops) if not self.blank(v) and not self.control(i, k)]
            return self.meet(vs, seen, hyp)
        if i.op == 'load':
            return self.held(i, seen)
        return frozenset()

    def never(self, p, b):
        """The edge is the default of a switch whose cases cover the range of its operand."""
        t = self.fn.term(p)
        if t.op != 'switch' or t.raw['default'] != b or any(s == b for _v, s in t.raw['cases']):
            return False
        vs = sorted(int(v) for v, _s in t.raw['cases'])
        if vs != list(range(vs[0], vs[-1] + 1)):
            return False
        if self.S is None:
            self.S = Sym(self.fn)
        x = self.S.opnd(t.ops[0])
        F = self.S.facts_at(p)
        return F.prove(x - vs[0]) and F.prove(vs[-1] - x)

    def blank(self, o):
        return o[0] in ('u', 'z', 'c', 'v', 'n') and self.fn.inst(o) is None

    def control(self, i, k):
        """Operand k of a shuffle selects lanes rather than supplying them."""
        c = i.callee
        return bool(re.search(r'pshuf|perm', c)) and k == 1 or bool(re.search(r'blendv', c)) and k == 2

    def held(self, l, seen, src=None):
        """What is stored in a local array before this load (or copy from src), on every path."""
        fn = self.fn
        ptr = src or l.ops[0]
        rs = self.roots(ptr)
        if len(rs) != 1:
            return frozenset()
        r = next(iter(rs))
        x = fn.inst(r)
        if x is None or x.op != 'alloca':
            return frozenset()
        st = [s for s in fn.instrs() if s.op == 'store' and self.roots(s.ops[1]) == {r}]
        other = [s for s in fn.instrs() if s.op == 'call' and not re.match(r'llvm\.(lifetime|dbg)', s.callee or '') and
                 any(isinstance(q, tuple) and q and q[0] == 'i' and fn.inst(q).ty == 'ptr' and r in self.roots(q)
                     for k, q in enumerate(s.ops) if not (COPY.match(s.callee or '') and k == 1))]
        if other:
            return frozenset()
        at = fn.addr(ptr)
        last = None
        for s in st if src is None else ():
            # a store of the same cell that surely precedes the load hides the ones before it
            if fn.addr(s.ops[1]) == at and fn.dominates(s, l):
                wall = s
            elif self.sweeps(s, l) and not any(x is not s and x.blk in fn.innermost(s.blk).blocks for x in st):
                wall = fn.blocks[fn.innermost(s.blk).header].ins[0]
            else:
                continue
            if all(x is s or fn.path(x, lambda i: i is l, lambda i: i is wall) is None for x in st):
                last = s
                break

        def hides(i, s):
            x = fn.addr(i.ops[1])
            return i is not s and i in st and x == fn.addr(s.ops[1]) and (x == at or not x[2] and self.kind(i) == self.kind(s))
        reach = [last] if last else [s for s in st if fn.path(s, lambda i: i is l, lambda i: hides(i, s) if i.op == 'store' else False) is not None]
        return self.meet([s.ops[0] for s in reach], seen, frozenset()) if reach else frozenset()

    def kind(self, s):
        i = self.fn.inst(s.ops[0])
        return i.ty if i is not None else None

    def sweeps(self, s, l):
        """The store is in an earlier loop that passes over the cell of the load."""
        fn = self.fn
        A, B = fn.innermost(s.blk), fn.innermost(l.blk)
        if A is None or A is B or l.blk in A.blocks or not fn.dominates_b(A.header, l.blk) or not A.btc or A.btc[0] == 'cnc' or len(A.exits) != 1:
            return False
        if any(A.header in fn.blocks[b].succ and not fn.dominates_b(s.blk, b) for b in A.blocks):
            return False
        if self.S is None:
            self.S = Sym(fn)
        n = self.S.scev(A.btc)
        a, b = self.S.opnd(s.ops[1]), self.S.opnd(l.ops[0])
        F = self.S.facts_at(l.blk)
        ia = ('it', A.id)
        if B is not None:
            j = Poly.atom(('it', B.id))
            if not (a.subst(ia, j) - b).t and F.prove(n - j):
                return True
        k = [j for j in range(16) if not (a.subst(ia, Poly.const(j)) - b).t]
        return bool(k) and F.prove(n - k[0])

    def stores(self):
        """(instruction, value operand or None) of every write to the destination."""
        fn = self.fn
        for i in fn.instrs():
            if i.op == 'store':
                p, v = i.ops[1], i.ops[0]
            elif i.op == 'call':
                c = i.callee or ''
                if c.startswith('llvm.masked.store') or c.startswith('llvm.masked.compressstore'):
                    v, p = i.ops[0], i.ops[1]
                elif re.match(r'llvm\.x86\..*maskstore', c):
                    p, v = i.ops[0], i.ops[2]
                elif re.match(r'llvm\.x86\..*pmov.*\.mem', c):
                    p, v = i.ops[0], i.ops[1]
                elif re.match(r'llvm\.mem(cpy|move|set)|mem(cpy|move|set)$', c):
                    p, v = i.ops[0], None
                else:
                    continue
            else:
                continue
            rs = self.roots(p)
            if any(self.is_dst(r) for r in rs):
                yield i, v


def d01(rep, tier):
    rep.rule('clamped', 'every lane written to the destination last passed a minimum with the upper and a maximum with the lower bound of this multiplication')
    rep.assume += ['the lower bound does not exceed the upper bound', 'results that are not a number are left to the comparison instructions',
                   'blank lanes of shuffles are not stored (M05)']
    m = bounds.flat()
    kern, _pack = bounds.wiring()
    by = {f.dem: f for f in m.fns.values()}
    for k, inf in sorted(kern.items()):
        if k not in by:
            raise AnalysisError('anchor vanished: ' + k)
        if inf['types'][2] == 'int' and inf['types'][3] == 'int':
            continue        # raw accumulators have no bounds
        c = Clamp(m, by[k], inf)
        n = 0
        for i, v in c.stores():
            n += 1
            w = c.within(v) if v is not None else c.held(i, frozenset(), i.ops[1]) if COPY.match(i.callee or '') else frozenset()
            rep.check(w == ALL, 'clamped', '%s in %s' % (i.where(), bounds.routine(k)),
                      '%s: a value written to the destination is not limited by the %s bound' % (bounds.routine(k), ' and '.join(sorted(ALL - w))),
                      key='clamped@%s@%s' % (i.where(), bounds.routine(k)))
        if not n:
            raise AnalysisError('anchor vanished: %s writes nothing' % bounds.routine(k))
        rep.units.append('%s: %d writes to the destination' % (bounds.routine(k), n))
    rep.need('clamped', 1)


CHECKS = {'D01': d01}
