"""Case-wise symbolic values: every operand of an acyclic region as a list of
(polynomial, facts) alternatives, one per way selects, phis, min and max resolve.
A partition of the inputs (given by `fix`) may pin operands to constants, which
turns shifts and masks into exact linear arithmetic."""
import math
from sym import Poly, P, entails
from scev import NEG


class TooMany(Exception):
    pass


class Cases:
    def __init__(self, fn, fix=None, base=(), cap=64, load=None):
        self.fn, self.fix, self.base, self.cap, self.load = fn, fix or {}, list(base), cap, load
        self.memo, self.busy, self.fds = {}, set(), {}
        self.tag = ''
        self.ranges = {}            # atom -> (lo, hi), as declared

    # ---- helpers
    def feasible(self, facts):
        fs = self.base + list(facts)
        return not (facts and entails(fs, P(-1)))

    def norm(self, cs):
        out = {}
        for p, fs in cs:
            fs = tuple(dict.fromkeys(f for f in fs if not (f.is_const() and f.cval() >= 0)))
            if any(f.is_const() and f.cval() < 0 for f in fs):
                continue
            out.setdefault((p, fs), None)
        out = list(out)
        if len(out) > self.cap:
            out = [c for c in out if self.feasible(c[1])]
        if len(out) > self.cap:
            raise TooMany()
        return out

    def atom(self, o):
        return [(Poly.atom(o if not self.tag else (self.tag,) + o), ())]

    def lift(self, f, *cs):
        out = [((), ())]
        for c in cs:
            out = [(ps + (p,), fs + gs) for ps, fs in out for p, gs in c]
            if len(out) > 8 * self.cap:
                out = [x for x in out if self.feasible(x[1])]
        r = []
        for ps, fs in out:
            x = f(*ps)
            if isinstance(x, list):
                r += [(p, fs + tuple(g)) for p, g in x]
            else:
                r.append((x, fs))
        return self.norm(r)

    def __call__(self, o):
        if o in self.fix:
            v = self.fix[o]
            return [(P(v), ())]
        if o[0] == 'c':
            return [(P(o[1]), ())]
        if o[0] == 'n':
            return [(Poly(), ())]
        if o[0] == 'gep':
            return self.lift(lambda p: p + o[2], self(o[1]))
        if o in self.memo:
            return self.memo[o]
        if o in self.busy:
            return self.atom(o)
        self.busy.add(o)
        try:
            r = self._eval(o)
        finally:
            self.busy.discard(o)
        r = self.norm(r)
        self.memo[o] = r
        return r

    def fdiv(self, x, k):
        if k == 1:
            return x
        if x.divides(k):
            return x.div(k)
        # split off the multiple of k
        q = Poly({m: c // k for m, c in x.t.items() if c % k == 0})
        r = Poly({m: c for m, c in x.t.items() if c % k != 0})
        if r.is_const():
            return q + (r.cval() // k)
        c0 = r.cval()
        q = q + c0 // k
        r = r - (c0 // k) * k
        g = k
        for m, c in r.t.items():
            if m != ():
                g = math.gcd(g, c)
        if g > 1:
            c0 = r.cval()
            r = (r - c0).div(g) + c0 // g
            k //= g
        ats = r.atoms()
        if len(ats) == 1:
            d = self.fds.get(next(iter(ats)))
            if d is not None and r.t.get((next(iter(ats)),)) == 1:
                # floor of a floor
                return self.lift(lambda y: y + q, self.aslist(self.fdiv(d[0] + r.cval() * d[1], k * d[1])))
        if self.small(r, k):
            return q
        a = Poly.atom(('fdiv', repr(r), k))
        self.fds[('fdiv', repr(r), k)] = (r, k)
        f = (r - a * k, a * k + (k - 1) - r)
        if entails(self.base, r):
            f += (a,)               # integer rounding the rational domain cannot see
        return [(q + a, f)]

    def small(self, r, k):
        """A declared range shows 0 <= r < k."""
        if len(r.t) > 1 or not self.ranges:
            return False
        (m, c), = r.t.items()
        if len(m) != 1 or m[0] not in self.ranges or c < 0:
            return False
        lo, hi = self.ranges[m[0]]
        return 0 <= c * lo and c * hi < k

    @staticmethod
    def aslist(x):
        return x if isinstance(x, list) else [(x, ())]

    def _eval(self, o):
        fn = self.fn
        i = fn.inst(o)
        if i is None:
            return self.atom(o)
        op, ops = i.op, i.ops
        if i.ty.startswith('<'):
            return self.atom(o)
        if op in ('zext', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            s = fn.inst(ops[0])
            if op == 'zext' and s is not None and s.ty == 'i1':
                return ([(P(1), tuple(f)) for f in self.cond(ops[0], True)] +
                        [(P(0), tuple(f)) for f in self.cond(ops[0], False)])
            return self(ops[0])
        if op == 'trunc':
            return self(ops[0]) if int(i.ty[1:]) >= 32 else self.atom(o)
        if op == 'getelementptr':
            r = self.lift(lambda p: p + i.raw['off'], self(ops[0]))
            from ir import tup
            for v, s in i.raw['var']:
                r = self.lift(lambda p, q, s=s: p + q * s, r, self(tup(v)))
            return r
        if op == 'add' or (op == 'or' and i.raw.get('disjoint')):
            return self.lift(lambda a, b: a + b, self(ops[0]), self(ops[1]))
        if op == 'sub':
            return self.lift(lambda a, b: a - b, self(ops[0]), self(ops[1]))
        if op == 'mul':
            return self.lift(lambda a, b: a * b, self(ops[0]), self(ops[1]))
        if op in ('shl', 'ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor'):
            return self.lift(lambda a, b: self.bits(i, a, b), self(ops[0]), self(ops[1]))
        if op == 'select':
            out = []
            for truth, v in ((True, ops[1]), (False, ops[2])):
                for f in self.cond(ops[0], truth):
                    out += [(p, fs + tuple(f)) for p, fs in self(v)]
            return out
        if op == 'call' and i.callee:
            for nm, mx in (('llvm.smax', True), ('llvm.umax', True), ('llvm.smin', False), ('llvm.umin', False)):
                if i.callee.startswith(nm):
                    return self.lift(lambda a, b: self.minmax(a, b, mx), self(ops[0]), self(ops[1]))
            if i.callee.startswith('llvm.ctlz'):
                w = int(i.ty[1:])

                def lz(a):
                    if a.is_const() and 0 < a.cval() < 1 << w:
                        return P(w - a.cval().bit_length())
                    x = Poly.atom(o)
                    return [(x, (x, P(w) - x))]
                return self.lift(lz, self(ops[0]))
            if i.callee.startswith('llvm.cttz'):
                def tz(a):
                    if a.is_const() and a.cval() > 0:
                        return P((a.cval() & -a.cval()).bit_length() - 1)
                    return Poly.atom(o)
                return self.lift(tz, self(ops[0]))
        if op == 'load' and self.load:
            r = self.load(i)
            if r is not None:
                return r
        if op == 'phi':
            L = fn.innermost(i.blk)
            if L is not None and L.header == i.blk:
                return self.atom(o)
            out = []
            for b, v in fn.phi_in(i):
                for f in self.edge(b, i.blk):
                    out += [(p, fs + tuple(f)) for p, fs in self(v)]
            return out
        return self.atom(o)

    def minmax(self, a, b, mx):
        if a.is_const() and b.is_const():
            return P((max if mx else min)(a.cval(), b.cval()))
        d = (a - b) if mx else (b - a)
        return [(a, (d,)), (b, (-d - 1,))]

    def bits(self, i, a, b):
        op = i.op
        o = i.val if not self.tag else (self.tag,) + i.val
        if a.is_const() and b.is_const() and op in ('and', 'or', 'xor', 'shl'):
            x, y = a.cval(), b.cval()
            if op == 'shl':
                return P(x << y) if 0 <= y < 64 else Poly.atom(o)
            return P({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if not b.is_const() and a.is_const() and op in ('and', 'or', 'xor'):
            a, b = b, a
        if not b.is_const():
            return Poly.atom(o)
        c = b.cval()
        if op == 'shl' and 0 <= c < 64:
            return a * (1 << c)
        if op in ('ashr', 'lshr') and 0 <= c < 64:
            return self.fdiv(a, 1 << c)
        if op in ('sdiv', 'udiv') and c > 0:
            q = self.fdiv(a, c)
            return q if isinstance(q, list) and False else self.need_nonneg(a, q, op)
        if op in ('srem', 'urem') and c > 0:
            q = self.need_nonneg(a, self.fdiv(a, c), op)
            if isinstance(q, list):
                return [(a - p * c, f) for p, f in q]
            return a - q * c
        if op == 'and':
            if c >= 0 and (c & (c + 1)) == 0:
                q = self.fdiv(a, c + 1)
                if isinstance(q, list):
                    return [(a - p * (c + 1), f) for p, f in q]
                return a - q * (c + 1)
            if c < 0 and (-c & (-c - 1)) == 0:
                q = self.fdiv(a, -c)
                if isinstance(q, list):
                    return [(p * -c, f) for p, f in q]
                return q * -c
        if op == 'xor':
            if c == -1:
                return -a - 1
            if c > 0 and (c & (c + 1)) == 0:
                # c - a for a in [0, c]
                x = Poly.atom(o)
                return [(P(c) - a, (a, P(c) - a)), (x, (-a - 1,)), (x, (a - c - 1,))]
        if op == 'or' and c < 0 and (-c & (-c - 1)) == 0:
            x = Poly.atom(o)
            return [(a + c, (a, P(-c - 1) - a)), (x, (-a - 1,)), (x, (a + c,))]
        return Poly.atom(o)

    def need_nonneg(self, a, q, op):
        if op in ('udiv', 'urem') or (a.is_const() and a.cval() >= 0):
            return q
        x = Poly.atom(('sdiv', repr(a), repr(q)))
        return [(p, tuple(f) + (a,)) for p, f in (q if isinstance(q, list) else [(q, ())])] + [(x, (-a - 1,))]

    # ---- conditions: list of alternative fact lists
    def cond(self, o, truth):
        if o[0] == 'c':
            return [[]] if bool(o[1]) == truth else []
        i = self.fn.inst(o)
        if o in self.fix:
            return [[]] if bool(P(self.fix[o]).cval()) == truth else []
        if i is None:
            return [[]]
        if i.op == 'icmp':
            p = i.raw['pred'] if truth else NEG[i.raw['pred']]
            out = []
            for (x, fx) in self(i.ops[0]):
                for (y, fy) in self(i.ops[1]):
                    f = list(fx + fy)
                    d = x - y
                    if p == 'eq':
                        out.append(f + [d, -d])
                    elif p == 'ne':
                        if d.is_const():
                            if d.cval() != 0:
                                out.append(f)
                        else:
                            out += [f + [d - 1], f + [-d - 1]]
                    elif p in ('slt', 'ult'):
                        out.append(f + [-d - 1])
                    elif p in ('sle', 'ule'):
                        out.append(f + [-d])
                    elif p in ('sgt', 'ugt'):
                        out.append(f + [d - 1])
                    else:
                        out.append(f + [d])
            return self.clean(out)
        if i.op == 'freeze':
            return self.cond(i.ops[0], truth)
        if i.op == 'xor' and i.ops[1][0] == 'c':
            return self.cond(i.ops[0], not truth)
        if i.op in ('and', 'or') or (i.op == 'select' and i.ty == 'i1'):
            if i.op == 'and':
                c, a, b = i.ops[0], i.ops[1], ('c', 0, 1)
            elif i.op == 'or':
                c, a, b = i.ops[0], ('c', 1, 1), i.ops[1]
            else:
                c, a, b = i.ops
            out = []
            for t, v in ((True, a), (False, b)):
                for f in self.cond(c, t):
                    for g in self.cond(v, truth):
                        out.append(f + g)
            return self.clean(out)
        return [[]]

    def clean(self, fss):
        out = []
        for fs in fss:
            if any(f.is_const() and f.cval() < 0 for f in fs):
                continue
            fs = list(dict.fromkeys(f for f in fs if not f.is_const()))
            if fs not in out:
                out.append(fs)
        if len(out) > 8:
            out = [f for f in out if self.feasible(f)]
        return out

    def edge(self, b, s, upto=None):
        """Fact alternatives for control reaching s through b, from s's dominator on."""
        fn = self.fn
        d = fn.idom()
        top = d.get(s)
        chain = [(b, s)]
        x = b
        while x != top and d.get(x, x) != x:
            p = d[x]
            # the edge p->? towards x, when unique
            for y in fn.blocks[p].succ:
                if fn.dominates_b(y, x) and all(q == p or fn.dominates_b(y, q) for q in fn.blocks[y].preds):
                    chain.append((p, y))
            x = p
        out = [[]]
        for u, v in chain:
            alts = self.branch(u, v)
            out = self.clean([f + g for f in out for g in alts])
        return out

    def branch(self, u, v):
        t = self.fn.term(u)
        if t.op == 'br' and len(t.ops) == 3:
            fs, ts = t.ops[1][1], t.ops[2][1]
            if fs == ts:
                return [[]]
            return self.cond(t.ops[0], v == ts)
        if t.op == 'switch':
            out = []
            vs = [int(c) for c, s in t.raw['cases'] if s == v]
            for p, f in self(t.ops[0]):
                if v == t.raw['default']:
                    out.append(list(f))
                for c in vs:
                    out.append(list(f) + [p - c, P(c) - p])
            return self.clean(out)
        return [[]]

    def reach(self, blk):
        """Fact alternatives for reaching blk from the entry (dominating branches)."""
        fn = self.fn
        d = fn.idom()
        out = [[]]
        x = blk
        while d.get(x, x) != x:
            p = d[x]
            for y in fn.blocks[p].succ:
                if fn.dominates_b(y, x) and all(q == p or fn.dominates_b(y, q) for q in fn.blocks[y].preds):
                    out = self.clean([f + g for f in out for g in self.branch(p, y)])
            x = p
        return out
