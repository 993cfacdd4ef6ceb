"""Turns irx's scalar-evolution trees and branch conditions into Poly/Facts."""
import re
import math
from sym import Poly, P, Facts
from ir import tup

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Sym:
    """Symbolic view of one function.  `assume` maps facts known about inputs."""

    def __init__(self, fn, atom_hook=None, zext_nonneg=True):
        self.fn = fn
        self.hook = atom_hook
        self.side = []       # facts about atoms introduced on the way
        self.splits = []
        self.seen = {}
        self.wide = 32       # narrower truncations are not taken to preserve the value
        self.modular = False # truncations as remainders, multiples split off divisions
        self.zext_nonneg = zext_nonneg
        self.defs = {}

    # ---- atoms
    def opnd(self, o):
        """Poly for an operand."""
        if o[0] == 'c':
            return Poly.const(o[1])
        if o[0] == 'n':
            return Poly()
        if o[0] == 'gep':
            return self.opnd(o[1]) + o[2]
        if o in self.seen:
            return self.seen[o]
        self.seen[o] = Poly.atom(o)   # cycle guard
        r = self._opnd(o)
        self.seen[o] = r
        return r

    def _opnd(self, o):
        if self.hook:
            h = self.hook(self, o)
            if h is not None:
                return h
        i = self.fn.inst(o)
        if i is None:
            return Poly.atom(o)
        s = i.raw.get('scev')
        if s is not None:
            return self.scev(s)
        return self.value(i)

    def value(self, i):
        """Non-SCEV instructions worth looking into."""
        op = i.op
        if op == 'zext' or op == 'sext' or op == 'trunc':
            if i.ty.startswith('<'):
                return Poly.atom(i.val)
            src = self.fn.inst(i.ops[0])
            if op == 'trunc' and i.ty.startswith('i') and int(i.ty[1:]) < 32:
                return Poly.atom(i.val)
            if op == 'zext' and src is not None and src.op == 'icmp':
                a = Poly.atom(i.val)
                self.range(i.val, 0, 1)
                return a
            return self.opnd(i.ops[0])
        if op == 'freeze':
            return self.opnd(i.ops[0])
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return self.opnd(i.ops[0])
        if op == 'add':
            return self.opnd(i.ops[0]) + self.opnd(i.ops[1])
        if op == 'sub':
            return self.opnd(i.ops[0]) - self.opnd(i.ops[1])
        if op == 'mul':
            return self.opnd(i.ops[0]) * self.opnd(i.ops[1])
        if op == 'shl' and i.ops[1][0] == 'c':
            return self.opnd(i.ops[0]) * (1 << i.ops[1][1])
        if op == 'or' and i.ops[1][0] == 'c':
            # or x, c with disjoint bits is produced for x + c
            return Poly.atom(i.val)
        if op in ('ashr', 'lshr') and i.ops[1][0] == 'c':
            return self.floordiv(i.val, self.opnd(i.ops[0]), 1 << i.ops[1][1])
        if op in ('sdiv', 'udiv') and i.ops[1][0] == 'c' and i.ops[1][1] > 0:
            return self.floordiv(i.val, self.opnd(i.ops[0]), i.ops[1][1], trunc=(op == 'sdiv'))
        if op in ('srem', 'urem') and i.ops[1][0] == 'c' and i.ops[1][1] > 0:
            x = self.opnd(i.ops[0])
            q = self.floordiv(('q', i.val, i.ops[1][1]), x, i.ops[1][1], trunc=(op == 'srem'))
            return x - q * i.ops[1][1]
        if op == 'and':
            for a, b in ((0, 1), (1, 0)):
                if i.ops[a][0] == 'c':
                    c = i.ops[a][1]
                    x = self.opnd(i.ops[b])
                    if c > 0 and (c & (c + 1)) == 0:     # low mask: x mod 2^k
                        q = self.floordiv(('q', i.val, c + 1), x, c + 1)
                        return x - q * (c + 1)
                    if c < 0 and ((-c) & (-c - 1)) == 0:  # clear low bits
                        q = self.floordiv(('q', i.val, -c), x, -c)
                        return q * (-c)
            return Poly.atom(i.val)
        if op == 'call' and i.callee:
            for nm, mx in (('llvm.smax', True), ('llvm.smin', False), ('llvm.umax', True), ('llvm.umin', False)):
                if i.callee.startswith(nm) and not i.ty.startswith('<'):
                    return self.minmax([self.opnd(x) for x in i.ops], mx)
            if re.match(r'llvm\.(ctlz|cttz|ctpop)\.i', i.callee):
                self.range(i.val, 0, int(i.ty[1:]))
        if op == 'select' and not i.ty.startswith('<'):
            return self.select(i)
        if op == 'phi' and not i.ty.startswith('<'):
            ins = {self.opnd(v) for _, v in self.fn.phi_in(i) if v != i.val}
            if len(ins) == 1:
                return next(iter(ins))
        return Poly.atom(i.val)

    def select(self, i):
        a, b = self.opnd(i.ops[1]), self.opnd(i.ops[2])
        if a == b:
            return a
        v = Poly.atom(i.val)
        ct = self.cond(i.ops[0], True)
        cf = self.cond(i.ops[0], False)
        self.splits.append([[v - a, a - v] + ct, [v - b, b - v] + cf])
        return v

    def minmax(self, ps, mx):
        ps = list(dict.fromkeys(ps))
        if len(ps) == 1:
            return ps[0]
        if all(p.is_const() for p in ps):
            return P((max if mx else min)(p.cval() for p in ps))
        key = ('max' if mx else 'min',) + tuple(sorted((repr(p) for p in ps)))
        a = Poly.atom(key)
        if key not in self.defs:
            self.defs[key] = (mx, ps)
            for p in ps:
                self.side.append(a - p if mx else p - a)
            self.splits.append([[a - p, p - a] for p in ps])
        return a

    def floordiv(self, key, x, k, trunc=False):
        if x.divides(k):
            return x.div(k)
        if self.modular:
            whole = Poly({m: c // k * k for m, c in x.t.items() if c // k}) if not trunc else Poly()
            if whole.t:
                return whole.div(k) + self.floordiv(None, x - whole, k)
            g = math.gcd(k, *x.t.values())
            if g > 1:
                return self.floordiv(None, x.div(g), k // g, trunc)
        key = ('fdiv', repr(x), k)
        q = Poly.atom(key)
        if key not in self.defs:
            self.defs[key] = (x, k)
            # floor division; for truncating division this needs x >= 0
            if trunc:
                self.splits.append([[x, x - q * k, q * k + (k - 1) - x],
                                    [-x - 1, q * k - x, x - (q * k - (k - 1))]])
            else:
                self.side += [x - q * k, q * k + (k - 1) - x]
        return q

    def range(self, a, lo, hi):
        p = Poly.atom(a)
        if ('rng', a) not in self.defs:
            self.defs[('rng', a)] = 1
            self.side += [p - lo, P(hi) - p]

    # ---- scev trees
    def scev(self, s):
        k = s[0]
        if k == 'c':
            return Poly.const(int(s[1]))
        if k == 'u':
            o = tup(s[1])
            if o in self.seen:
                return self.seen[o]
            i = self.fn.inst(o)
            self.seen[o] = Poly.atom(o)
            r = None
            if self.hook:
                r = self.hook(self, o)
            if r is None:
                if o[0] in ('c', 'gep', 'n'):
                    del self.seen[o]
                    return self.opnd(o)
                r = self.value(i) if i is not None else Poly.atom(o)
            self.seen[o] = r
            return r
        if k == 'add':
            r = Poly()
            for x in s[1:]:
                r = r + self.scev(x)
            return r
        if k == 'mul':
            r = P(1)
            for x in s[1:]:
                r = r * self.scev(x)
            return r
        if k == 'rec':
            if len(s) == 4:
                return self.scev(s[2]) + self.scev(s[3]) * Poly.atom(('it', s[1]))
            return Poly.atom(('scev', repr(s)))
        if k in ('smax', 'umax'):
            return self.minmax([self.scev(x) for x in s[1:]], True)
        if k in ('smin', 'umin', 'seqmin'):
            return self.minmax([self.scev(x) for x in s[1:]], False)
        if k == 'trunc' and int(s[2]) < self.wide:
            if self.modular:
                x, w = self.scev(s[1]), 1 << int(s[2])
                return x - self.floordiv(None, x, w) * w
            return Poly.atom(('scev', repr(s)))
        if k == 'zext' and s[1][0] == 'trunc' and int(s[1][2]) < self.wide:
            x, w = self.scev(s[1][1]), 1 << int(s[1][2])
            return x - self.floordiv(None, x, w) * w
        if k in ('zext', 'sext') and int(s[2]) < self.wide and s[1][0] not in ('u', 'c'):
            # arithmetic in a narrow type wraps
            if k == 'sext':
                return Poly.atom(('scev', repr(s)))
            x, w = self.scev(s[1]), 1 << int(s[2])
            return x - self.floordiv(None, x, w) * w
        if k in ('zext', 'sext', 'trunc'):
            return self.scev(s[1])
        if k == 'p2i':
            return self.scev(s[1])
        if k == 'udiv' and s[2][0] == 'c' and int(s[2][1]) > 0:
            return self.floordiv(('udiv', repr(s)), self.scev(s[1]), int(s[2][1]))
        return Poly.atom(('scev', repr(s)))

    # ---- conditions
    def cond(self, o, truth):
        """List of polys >= 0 implied by operand o (an i1) having the given truth."""
        if o[0] == 'c':
            return []
        i = self.fn.inst(o)
        if i is None:
            return []
        if i.op == 'icmp':
            return self.icmp(i, truth)
        if i.op == 'freeze':
            return self.cond(i.ops[0], truth)
        if i.op == 'xor' and i.ops[1][0] == 'c':
            return self.cond(i.ops[0], not truth)
        if i.op == 'and' and truth:
            return self.cond(i.ops[0], True) + self.cond(i.ops[1], True)
        if i.op == 'or' and not truth:
            return self.cond(i.ops[0], False) + self.cond(i.ops[1], False)
        if i.op == 'select':
            c, a, b = i.ops
            if truth and b == ('c', 0, 1):
                return self.cond(c, True) + self.cond(a, True)
            if not truth and a[0] == 'c' and a[1] != 0:
                return self.cond(c, False) + self.cond(b, False)
        return []

    def icmp(self, i, truth):
        p = i.raw['pred'] if truth else NEG[i.raw['pred']]
        if i.ops[0][0] in ('i', 'a', 'c', 'gep', 'n') and i.ops[1][0] in ('i', 'a', 'c', 'gep', 'n', 'g'):
            x, y = self.opnd(i.ops[0]), self.opnd(i.ops[1])
        else:
            return []
        d = x - y
        if p == 'eq':
            return [d, -d]
        if p == 'ne':
            return []
        if p in ('slt', 'ult'):
            return [-d - 1]
        if p in ('sle', 'ule'):
            return [-d]
        if p in ('sgt', 'ugt'):
            return [d - 1]
        if p in ('sge', 'uge'):
            return [d]
        return []

    # ---- facts at a point
    def facts_at(self, blk, extra=()):
        fn = self.fn
        out = list(extra)
        # dominating branches
        d = fn.idom()
        b = blk
        chain = [b]
        while d.get(b, b) != b:
            b = d[b]
            chain.append(b)
        for x in chain:
            t = fn.term(x)
            if t.op == 'br' and len(t.ops) == 3:
                # ops: cond, false, true (LLVM operand order)
                fs, ts = t.ops[1][1], t.ops[2][1]
                if fs == ts:
                    continue
                # which successor edge dominates blk?
                for s, truth in ((ts, True), (fs, False)):
                    if s != x and self.edge_dominates(x, s, blk):
                        out += self.cond(t.ops[0], truth)
            elif t.op == 'switch':
                cases = {}
                for v, s in t.raw['cases']:
                    cases.setdefault(s, []).append(int(v))
                for s, vs in cases.items():
                    if s != t.raw['default'] and self.edge_dominates(x, s, blk) and t.ops[0][0] != 'c':
                        p = self.opnd(t.ops[0])
                        out += [p - min(vs), P(max(vs)) - p]
        for L in fn.loops_of(blk):
            it = Poly.atom(('it', L.id))
            out.append(it)
            for eb, ec in L.exits:
                if ec[0] != 'cnc':
                    out.append(self.scev(ec) - it)
            if L.btc and L.btc[0] != 'cnc':
                out.append(self.scev(L.btc) - it)
        return Facts(out + self.side, list(self.splits))

    def edge_dominates(self, x, s, blk):
        """Every path from entry to blk uses edge x->s last (edge dominance)."""
        fn = self.fn
        if not fn.dominates_b(s, blk):
            return False
        # all other preds of s must be dominated by s (back edges)
        for p in fn.blocks[s].preds:
            if p == x:
                continue
            if not fn.dominates_b(s, p):
                return False
        return True
