"""M05, M07: what kernels write and read.  M06, M08: what packing reads and writes.

Every memory access of the flattened kernels and packing routines is expressed as
base + polynomial of the inputs and loop counters and shown to lie inside the
object the base points to."""
import math, os, re, sys
from concurrent.futures import ProcessPoolExecutor, as_completed
from build import flatten, AnalysisError
from ir import Module
from scev import Sym
import sym
from sym import Poly, P, Facts, entails
import front

EFFORT = 8 * 10 ** 7      # work allowed per access


def atom(*a):
    return Poly.atom(a)


def ensure(c, msg):
    if not c:
        raise AnalysisError(msg)


def vec(ty):
    m = re.match(r'^<(\d+) x (\w+)>$', ty)
    if not m:
        return None
    w = {'float': 4, 'double': 8, 'ptr': 8}.get(m.group(2)) or (int(m.group(2)[1:]) + 7) // 8
    return int(m.group(1)), w


def tight(p):
    """Same fact over the integers: common factor divided out, constant rounded down."""
    g = 0
    for k, c in p.t.items():
        if k != ():
            if not isinstance(c, int):
                return p
            g = math.gcd(g, c)
    if g < 2 or not isinstance(p.cval(), int):
        return p
    t = {k: c // g for k, c in p.t.items() if k != ()}
    c = p.cval() // g
    if c:
        t[()] = c
    return Poly(t)


def ask(F, g, K=1 << 20):
    """g >= 0 over the integers: more than -1 suffices."""
    return F.prove(tight(P(g)) * K + (K - 1))


class Refused(Exception):
    pass


# ---------------------------------------------------------------- vectors of known lanes
def lanes(fn, o, val, leaf):
    """Lanes of an integer vector (or bits of a mask) when operand `leaf` has value `val`."""
    memo = {}

    def width(o, ty=None):
        if o[0] == 'c':
            return o[2]
        i = fn.inst(o)
        return int(i.ty[1:]) if i is not None and re.match(r'i\d+$', i.ty) else None

    def ev(o):
        if o == leaf:
            return val
        if o in memo:
            return memo[o]
        memo[o] = None
        memo[o] = r = ev1(o)
        return r

    def elt(ty):
        m = re.match(r'^<\d+ x i(\d+)>$', ty)
        return int(m.group(1)) if m else int(ty[1:]) if re.match(r'i\d+$', ty) else 32 if re.match(r'(<\d+ x )?float', ty) else None

    def ev1(o):
        if o[0] == 'c':
            return o[1] & ((1 << o[2]) - 1) if len(o) > 2 else o[1]
        if o[0] == 'f':
            return ('f', int(o[1])) if re.match(r'-?\d+$', str(o[1])) else None
        if o[0] == 'v':
            return [ev(x) for x in o[1]]
        if o[0] in ('u',):
            return 0
        i = fn.inst(o)
        if i is None:
            return None
        w = elt(i.ty)
        op = i.op
        if op == 'sitofp':
            a = ev(i.ops[0])
            sw = elt(fn.inst(i.ops[0]).ty) if fn.inst(i.ops[0]) is not None else 32
            f = lambda x: None if x is None else ('f', sg(x, sw))
            return [f(x) for x in a] if isinstance(a, list) else None if a is None else f(a)
        if op == 'bitcast' and re.match(r'<\d+ x float>', i.ty):
            return ev(i.ops[0])
        if op == 'call' and re.match(r'llvm\.x86\..*cvt\.ps2dq', i.callee or ''):
            a = ev(i.ops[0])
            # converts bits: not-a-number becomes the smallest integer
            f = lambda x: 0 if x == 0 else 1 << 31 if isinstance(x, int) and x & 0x7f800000 == 0x7f800000 and x & 0x7fffff else None
            return [f(x) for x in a] if isinstance(a, list) else None
        if w is None:
            return None
        if op == 'fcmp':
            a, b = ev(i.ops[0]), ev(i.ops[1])
            if a is None or b is None:
                return None
            n = len(a) if isinstance(a, list) else len(b) if isinstance(b, list) else 0
            if not n:
                return None
            a = a if isinstance(a, list) else [a] * n
            b = b if isinstance(b, list) else [b] * n
            pr = i.raw['pred'][1:]

            def f(x, y):
                x, y = [z[1] if isinstance(z, tuple) else None for z in (x, y)]
                if x is None or y is None or pr not in ('gt', 'lt', 'ge', 'le', 'eq', 'ne'):
                    return None
                return int(cmp1('s' + pr if pr not in ('eq', 'ne') else pr, x & 0xffffffff, y & 0xffffffff, 32))
            return [f(x, y) for x, y in zip(a, b)]
        msk = (1 << w) - 1
        if op in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul') or (op == 'call' and re.match(r'llvm\.[su](min|max)\.', i.callee or '')):
            a, b = ev(i.ops[0]), ev(i.ops[1])
            if a is None or b is None:
                return None
            f = (lambda x, y: bin1(op if op != 'call' else i.callee, x, y, w))
            if isinstance(a, list) or isinstance(b, list):
                n = len(a) if isinstance(a, list) else len(b)
                a = a if isinstance(a, list) else [a] * n
                b = b if isinstance(b, list) else [b] * n
                r = [None if x is None or y is None else f(x, y) for x, y in zip(a, b)]
                return r
            return f(a, b)
        if op in ('zext', 'trunc', 'sext', 'freeze'):
            a = ev(i.ops[0])
            if a is None:
                return None
            src = fn.inst(i.ops[0])
            sw = elt(src.ty) if src is not None else (i.ops[0][2] if i.ops[0][0] == 'c' else w)

            def cv(x):
                if x is None:
                    return None
                if op == 'sext' and sw and x >> (sw - 1) & 1:
                    x -= 1 << sw
                return x & msk
            return [cv(x) for x in a] if isinstance(a, list) else cv(a)
        if op == 'icmp':
            a, b = ev(i.ops[0]), ev(i.ops[1])
            if a is None or b is None:
                return None
            src = fn.inst(i.ops[0]) or fn.inst(i.ops[1])
            sw = elt(src.ty) if src is not None else 32
            f = lambda x, y: None if x is None or y is None else int(cmp1(i.raw['pred'], x, y, sw))
            if isinstance(a, list) or isinstance(b, list):
                n = len(a) if isinstance(a, list) else len(b)
                a = a if isinstance(a, list) else [a] * n
                b = b if isinstance(b, list) else [b] * n
                return [f(x, y) for x, y in zip(a, b)]
            return f(a, b)
        if op == 'insertelement':
            n = vec_n(i.ty)
            a = ev(i.ops[0])
            a = list(a) if isinstance(a, list) else [0 if i.ops[0][0] in ('u',) else None] * n
            k = ev(i.ops[2])
            x = ev(i.ops[1])
            if k is None:
                return None
            a[k] = x
            return a
        if op == 'shufflevector':
            a, b = ev(i.ops[0]), ev(i.ops[1])
            mk = i.raw.get('mask')
            if mk is None or a is None:
                return None
            n = len(a) if isinstance(a, list) else None
            if n is None:
                return None
            b = b if isinstance(b, list) else [0] * n
            return [(a + b)[x] if x >= 0 else 0 for x in mk]
        if op == 'bitcast':
            a = ev(i.ops[0])
            if a is None:
                return None
            n = vec_n(i.ty)
            src = fn.inst(i.ops[0])
            if isinstance(a, list):
                sw = elt(src.ty)
                if any(x is None for x in a):
                    return None
                tot = 0
                for k, x in enumerate(a):
                    tot |= (x & ((1 << sw) - 1)) << (k * sw)
            else:
                tot = a
            if n:
                return [tot >> (k * w) & msk for k in range(n)]
            return tot & msk
        if op == 'select':
            c, a, b = (ev(x) for x in i.ops)
            if c is None or isinstance(c, list):
                return None
            return a if c & 1 else b
        return None
    return ev(o)


def vec_n(ty):
    m = re.match(r'^<(\d+) x (i\d+|float)>$', ty)
    return int(m.group(1)) if m else None


def sg(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def bin1(op, x, y, w):
    m = (1 << w) - 1
    if op == 'add':
        return x + y & m
    if op == 'sub':
        return x - y & m
    if op == 'mul':
        return x * y & m
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    if op == 'shl':
        return (x << y) & m if y < w else None
    if op == 'lshr':
        return x >> y if y < w else None
    if op == 'ashr':
        return sg(x, w) >> y & m if y < w else None
    if '.smin.' in op:
        return min(sg(x, w), sg(y, w)) & m
    if '.smax.' in op:
        return max(sg(x, w), sg(y, w)) & m
    if '.umin.' in op:
        return min(x, y)
    return max(x, y)


def cmp1(p, x, y, w):
    if p[0] == 's':
        x, y = sg(x, w), sg(y, w)
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]]


def scalar_leaves(fn, o, out=None, seen=None):
    """Scalar operands a mask is computed from."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if o in seen or o[0] in ('c', 'v', 'u', 'n'):
        return out
    seen.add(o)
    i = fn.inst(o)
    if i is None:
        out.add(o)
        return out
    if i.op in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'trunc', 'sext', 'freeze', 'icmp', 'insertelement',
                'shufflevector', 'bitcast', 'mul', 'sitofp', 'fcmp') or (i.op == 'call' and re.match(r'llvm\.x86\..*cvt\.ps2dq', i.callee or '')):
        if i.op in ('zext', 'sext', 'trunc', 'add', 'sub') and not i.ty.startswith('<') and re.match(r'i(32|64)$', i.ty) and fn.inst(i.ops[0]) is not None \
                and not re.search(r'<|i1$', fn.inst(i.ops[0]).ty) and i.op in ('add', 'sub'):
            out.add(o)      # a scalar difference is a leaf of its own
            return out
        for x in i.ops:
            scalar_leaves(fn, x, out, seen)
        return out
    out.add(o)
    return out


# ---------------------------------------------------------------- accesses
class Body:
    """One flattened routine with named inputs and what is known about them."""

    def __init__(self, fn, names, facts, regions):
        self.fn, self.names, self.pre, self.regions = fn, names, list(facts), regions
        self.memo, self.rep = {}, {}
        self.loop_by = {L.id: L for L in fn.loops}
        self.steps = {}
        self.recur()
        self.S = self.sym()

    def sym(self):
        s = Sym(self.fn, self.hook)
        s.modular = True
        s.wide = 24        # byte offsets do not wrap: extents are below 2 GiB
        return s

    def recur(self):
        """Loop-carried values advanced by an inner loop with a known number of iterations."""
        fn = self.fn
        for _n in range(4):
            new = {}
            for L in fn.loops:
                body = set(L.blocks)
                for i in fn.blocks[L.header].ins:
                    if i.op != 'phi' or 'scev' in i.raw or i.val in self.steps or not re.match(r'ptr$|i(32|64)$', i.ty):
                        continue
                    inc = fn.phi_in(i)
                    lat = [v for b, v in inc if b in body]
                    ini = {v for b, v in inc if b not in body}
                    if len(lat) != 1 or len(ini) != 1:
                        continue
                    s = self.sym()
                    p = s.opnd(lat[0])
                    for a in list(p.atoms()):
                        if a[0] == 'it' and a[1] in self.loop_by and self.loop_by[a[1]].header in body and a[1] != L.id:
                            K = self.loop_by[a[1]]
                            if K.btc and K.btc[0] != 'cnc' and len(K.exits) == 1:
                                p = p.subst(a, s.scev(K.btc))
                    st = p - Poly.atom(i.val)
                    if i.val not in st.atoms() and all(a[0] == 'in' or a[0] == 'i' and fn.inst(a).blk not in body for a in st.atoms()):
                        new[i.val] = (next(iter(ini)), st, L.id)
            if not new:
                break
            self.steps.update(new)

    def hook(self, s, o):
        if o in self.steps:
            b, st, lid = self.steps[o]
            return s.opnd(b) + st * Poly.atom(('it', lid))
        if o[0] == 'a':
            return self.names(o[1], None, None)
        i = self.fn.inst(o)
        if i is not None and i.op == 'load':
            r, off, var = self.fn.addr(i.ops[0])
            if r[0] == 'a' and not var:
                return self.names(r[1], off, i)
        return None

    def header(self, b):
        return any(L.header == b for L in self.fn.loops)

    def facts(self, blk):
        if blk not in self.memo:
            self.memo[blk] = self.S.facts_at(blk).f
            for L in self.fn.loops_of(blk):
                self.memo[blk] = self.memo[blk] + self.repeat(L)
            self.memo[blk] = [tight(p) for p in self.memo[blk]]
        return self.memo[blk]

    def whole(self, fs):
        """Adds what follows for quotients because they are integers."""
        fs = list(dict.fromkeys(fs))
        for f in list(fs):
            for a in f.atoms():
                c = f.t.get((a,), 0)
                if a[0] in ('min', 'max') and (c > 0) == (a[0] == 'min') and c:
                    for g in self.S.side:
                        if g.t.get((a,), 0) * c < 0 and abs(g.t[(a,)]) == 1:
                            h = f + g * abs(c)
                            if tight(h) != h:
                                fs.append(tight(h))
        out = list(fs)
        for key, d in self.S.defs.items():
            if key[0] != 'fdiv':
                continue
            x, k = d
            q = Poly.atom(key)
            xa = x.atoms()
            for f in fs:
                if not (f.atoms() & xa):
                    continue
                for g in (f + x - q * k, f - x + q * k + (k - 1)):
                    if not (g.atoms() & xa):
                        t = tight(g)
                        if t != g:
                            out.append(t)
        return out

    def repeat(self, L):
        """What holds in every iteration because it holds in the first and is tested before each other one."""
        if L in self.rep:
            return self.rep[L]
        self.rep[L] = []
        fn = self.fn
        it = ('it', L.id)
        body = set(L.blocks)
        lat = [p for p in fn.blocks[L.header].preds if p in body]
        out = []
        if len(lat) == 1:
            back = [b for b in fn.blocks[L.header].preds if b not in body]
            tests = self.edge_only(lat[0], L.header)
            first = None
            for p in tests:
                if not self.fixed(p, body, L.id) or it not in p.atoms():
                    continue
                q = p.subst(it, Poly.atom(it) - 1)
                z = q.subst(it, P(0))
                if first is None:
                    first = [Facts(self.sharpen(self.pre + self.edge(b, L.header)) + self.S.side, list(self.S.splits)) for b in back]
                if all(ask(F, z) for F in first):
                    out.append(q)
        self.rep[L] = out
        return out

    def after(self, blk, ps):
        """Facts about the last iteration of loops that are over."""
        inn = {L.id for L in self.fn.loops_of(blk)}
        done, out = set(), []
        todo = list(ps)
        while todo:
            for a in todo.pop().atoms():
                if a[0] != 'it' or a[1] in inn or a[1] in done:
                    continue
                done.add(a[1])
                L = self.loop_by[a[1]]
                it = Poly.atom(a)
                new = [it] + self.repeat(L)
                for ec in [L.btc] + [e for _b, e in L.exits]:
                    if ec and ec[0] != 'cnc':
                        new.append(self.S.scev(ec) - it)
                if len(L.exits) == 1:
                    if L.btc and L.btc[0] != 'cnc':
                        new.append(it - self.S.scev(L.btc))
                    eb = L.exits[0][0]
                    for x in self.fn.blocks[eb].succ:
                        if x not in L.blocks:
                            new += self.edge_only(eb, x)
                new = [tight(p) for p in new]
                out += new
                todo += new
        return out

    def fixed(self, p, body, lid):
        for a in p.atoms():
            if a == ('it', lid):
                continue
            if a[0] == 'i' and self.fn.inst(a).blk in body:
                return False
            if a[0] in ('it', 'in', 'i', 'a'):
                if a[0] == 'it' and self.loop_by[a[1]].header in body:
                    return False
                continue
            r = repr(a)
            if any(self.fn.inst(('i', int(n))).blk in body for n in re.findall(r"<i,(\d+)>|\('i', (\d+)\)", r) for n in n if n):
                return False
            if any(self.loop_by[int(n)].header in body for n in re.findall(r"<it,(\d+)>|\('it', (\d+)\)", r) for n in n if n):
                return False
        return True

    def edge_only(self, p, b):
        t = self.fn.term(p)
        if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            return self.S.cond(t.ops[0], t.ops[2][1] == b)
        return []

    def differs(self, o, truth):
        """Polynomials known not to be zero when condition o has the given truth."""
        i = self.fn.inst(o)
        if i is None:
            return []
        if i.op == 'icmp' and i.raw['pred'] == ('ne' if truth else 'eq') and not any(self.ptrlike(x) or x == ('n',) for x in i.ops):
            return [('ne', self.S.opnd(i.ops[0]) - self.S.opnd(i.ops[1]))]
        if i.op == 'xor' and i.ops[1][0] == 'c' and i.ty == 'i1':
            return self.differs(i.ops[0], not truth)
        if i.op == ('and' if truth else 'or'):
            return self.differs(i.ops[0], truth) + self.differs(i.ops[1], truth)
        if i.op == 'select' and i.ty == 'i1':
            c, a, b = i.ops
            if truth and b == ('c', 0, 1):
                return self.differs(c, True) + self.differs(a, True)
            if not truth and a[0] == 'c' and a[1] != 0:
                return self.differs(c, False) + self.differs(b, False)
        return []

    def differ_at(self, blk):
        if ('ne', blk) not in self.memo:
            fn, out = self.fn, []
            d = fn.idom()
            b = blk
            chain = [b]
            while d.get(b, b) != b:
                b = d[b]
                chain.append(b)
            for x in chain:
                t = fn.term(x)
                if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
                    for s, truth in ((t.ops[2][1], True), (t.ops[1][1], False)):
                        if s != x and self.S.edge_dominates(x, s, blk):
                            out += self.differs(t.ops[0], truth)
            self.memo[('ne', blk)] = out
        return self.memo[('ne', blk)]

    def sharpen(self, fs):
        """Plain facts, with x != 0 made x >= 1 or x <= -1 where the sign is known."""
        out = [p for p in fs if not isinstance(p, tuple)]
        for p in fs:
            if isinstance(p, tuple):
                d = p[1]
                for e in (d, -d):
                    if entails(out, e):
                        out.append(e - 1)
                        break
        return out

    def edge(self, p, b):
        t = self.fn.term(p)
        out = list(self.facts(p)) + self.differ_at(p)
        if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            out += self.differs(t.ops[0], t.ops[2][1] == b)
        if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            out += self.S.cond(t.ops[0], t.ops[2][1] == b)
        elif t.op == 'switch':
            vs = [int(v) for v, s in t.raw['cases'] if s == b]
            if vs and t.raw['default'] != b and t.ops[0][0] != 'c':
                x = self.S.opnd(t.ops[0])
                out += [x - min(vs), P(max(vs)) - x]
        return out

    def choices(self, polys):
        """Values merged from several places: each consistent combination, with its facts."""
        work = [(list(polys), [], {})]
        done = []
        while work:
            ps, fs, ch = work.pop()
            if len(done) + len(work) > 400:
                raise Refused('too many combinations')
            pick = None
            for a in sorted(self.within(ps), key=repr):
                if a[0] != 'i':
                    continue
                i = self.fn.inst(a)
                if i is None:
                    continue
                if i.op == 'select' and not i.ty.startswith('<'):
                    k = ('s', i.ops[0])
                elif i.op == 'phi' and not self.header(i.blk):
                    k = ('p', i.blk)
                else:
                    continue
                pick = (a, i, k)
                if k in ch or i.ty == 'ptr':
                    break
            if pick is None:
                done.append((ps, fs, ch))
                continue
            a, i, k = pick
            if i.op == 'select':
                opts = [(True, i.ops[1]), (False, i.ops[2])]
            else:
                opts = [(b, v) for b, v in self.fn.phi_in(i)]
            for key, v in opts:
                if k in ch and ch[k] != key:
                    continue
                nf = list(fs)
                if k not in ch:
                    nf += self.S.cond(i.ops[0], key) + self.differs(i.ops[0], key) if i.op == 'select' else self.edge(key, i.blk)
                x = self.S.opnd(v)
                if Poly.atom(a) == x:
                    raise Refused('value not understood')
                work.append(([self.put(p, a, x) for p in ps], nf, {**ch, k: key}))
        return done

    def quotient(self, a):
        """(x, k) of a quotient rounded down."""
        d = self.S.defs.get(a) if a[0] == 'fdiv' else None
        return d if d and (d[0] - Poly.atom(a) * d[1]) in self.S.side else None

    def within(self, ps):
        """Atoms of polynomials and of the quotients in them."""
        out, todo = set(), [a for p in ps for a in p.atoms()]
        while todo:
            a = todo.pop()
            if a not in out:
                out.add(a)
                if self.quotient(a):
                    todo += self.quotient(a)[0].atoms()
        return out

    def put(self, p, a, x):
        """p with x for a, also inside quotients."""
        for q in sorted(p.atoms(), key=repr):
            d = self.quotient(q)
            if d and a in self.within([d[0]]):
                p = p.subst(q, self.S.floordiv(None, self.put(d[0], a, x), d[1]))
        return p.subst(a, x)

    def settle(self, p, ch):
        """p with the choices applied to whatever else depends on them."""
        for _n in range(20):
            for a in sorted(self.within([p]), key=repr):
                i = self.fn.inst(a) if a[0] == 'i' else None
                if i is None:
                    continue
                if i.op == 'select' and ('s', i.ops[0]) in ch:
                    p = self.put(p, a, self.S.opnd(i.ops[1 if ch[('s', i.ops[0])] else 2]))
                    break
                if i.op == 'phi' and ('p', i.blk) in ch:
                    p = self.put(p, a, self.S.opnd(dict(self.fn.phi_in(i))[ch[('p', i.blk)]]))
                    break
            else:
                return p
        return p

    def accesses(self):
        """(instruction, 'r'|'w', pointer, width poly or ('mask', operand, lanes, size))."""
        fn = self.fn
        for i in fn.instrs():
            if i.op == 'load':
                yield i, 'r', i.ops[0], P(i.raw['sz'])
            elif i.op == 'store':
                yield i, 'w', i.ops[1], P(i.raw['sz'])
            elif i.op in ('atomicrmw', 'cmpxchg'):
                yield i, 'w', i.ops[0], P(8)
            elif i.op == 'call':
                c = i.callee or ''
                if re.match(r'llvm\.mem(cpy|move)\.', c):
                    n = self.S.opnd(i.ops[2])
                    yield i, 'w', i.ops[0], n
                    yield i, 'r', i.ops[1], n
                elif re.match(r'llvm\.memset\.', c):
                    yield i, 'w', i.ops[0], self.S.opnd(i.ops[2])
                elif re.match(r'llvm\.masked\.load\.', c):
                    n, w = vec(i.ty)
                    yield i, 'r', i.ops[0], ('mask', i.ops[2], n, w)
                elif re.match(r'llvm\.masked\.store\.', c):
                    m = re.match(r'llvm\.masked\.store\.v(\d+)[if](\d+)\.', c)
                    yield i, 'w', i.ops[1], ('mask', i.ops[3], int(m.group(1)), int(m.group(2)) // 8)
                elif re.match(r'llvm\.x86\.avx2?\.maskload\.', c):
                    n, w = vec(i.ty)
                    yield i, 'r', i.ops[0], ('mask', i.ops[1], n, w)
                elif re.match(r'llvm\.x86\.avx2?\.maskstore\.', c):
                    m = fn.inst(i.ops[2])
                    n, w = vec(m.ty)
                    yield i, 'w', i.ops[0], ('mask', i.ops[1], n, w)
                elif c == 'llvm.x86.avx.ldu.dq.256':
                    yield i, 'r', i.ops[0], P(32)
                elif re.search(r'gather|scatter|expand\.load|compress\.store|\.mem\.', c):
                    raise AnalysisError('memory access not understood: ' + c)
                elif c.startswith('irx.outside.'):
                    yield i, c[12], i.ops[0], None
                elif c.startswith('llvm.'):
                    continue
                elif re.match(r'(snprintf|fprintf|abort|__assert_fail|printf|fputs|fwrite|puts)$', c):
                    continue
                elif any(self.ptrlike(o) for o in i.ops):
                    raise AnalysisError('call not understood: %s' % (i.dem or c))

    def ptrlike(self, o):
        i = self.fn.inst(o)
        return (i is not None and i.ty == 'ptr') or o[0] == 'a'

    def base(self, p):
        """(base atom, offset) of an address."""
        bs = []
        for a in p.atoms():
            if a in self.regions or a[0] == 'g':
                bs.append(a)
            elif a[0] == 'i':
                i = self.fn.inst(a)
                if i is not None and i.ty == 'ptr':
                    bs.append(a)
            elif a[0] == 'a':
                bs.append(a)
        if len(bs) != 1:
            raise Refused('address with %d bases' % len(bs))
        c = p.coeff(bs[0])
        if c is None or not (c[0].is_const() and c[0].cval() == 1):
            raise Refused('address is not an offset from an object')
        return bs[0], c[1]

    def mask_extents(self, i, mk, n, F, ch):
        """[(facts, first lane, lanes end)] for a masked access."""
        o = mk
        if o[0] in ('c', 'v', 'n'):
            lv = lanes(self.fn, o, 0, ('none',))
            leaves = []
        else:
            leaves = sorted(scalar_leaves(self.fn, o), key=repr)
        ensure(len(leaves) <= 1, 'mask depends on several values')
        if not leaves:
            lv = lanes(self.fn, o, 0, ('none',))
            return [([], lv)]
        v = self.settle(self.S.opnd(leaves[0]), ch)
        out = []
        if v.is_const():
            return [([], lanes(self.fn, o, v.cval(), leaves[0]))]
        hi = 64
        if not (ask(F, v) and ask(F, P(hi) - v)):
            raise Refused('number of lanes %s is unbounded' % short(v))
        for k in range(hi + 1):
            out.append(([v - k, P(k) - v], lanes(self.fn, o, k, leaves[0])))
        return out

    def judge(self, i, rw, ptr, width):
        """None if the access is shown to be inside its object, else a message."""
        if width is None:
            return 'leaves a local array'
        try:
            return self.judge1(i, rw, ptr, width)
        except Refused as e:
            return str(e)
        except sym.Effort:
            return 'cannot be shown to stay inside its object (search given up)'

    def judge1(self, i, rw, ptr, width):
        p = self.S.opnd(ptr)
        wp = width if not isinstance(width, tuple) else P(0)
        if isinstance(width, tuple) and width[1][0] not in ('c', 'v', 'n'):
            for o in scalar_leaves(self.fn, width[1]):
                self.S.opnd(o)
        cs = self.choices([p, wp])
        for (q, w), fs, ch in cs:
            here = self.facts(i.blk) + self.differ_at(i.blk) + fs
            if ch:
                here = here + [('ne', self.settle(p[1], ch)) if isinstance(p, tuple) else self.settle(p, ch) for p in here]
            here = here + self.after(i.blk, [q, w] + [p for p in here if not isinstance(p, tuple)])
            known = [tight(p) if not isinstance(p, tuple) else p for p in here + self.S.side]
            F = Facts(self.whole(self.sharpen(self.pre + known)), list(self.S.splits))
            if entails(F.f, P(-1)):
                continue
            if isinstance(width, tuple):
                _m, mk, n, sz = width
                todo = []
                for mf, lv in self.mask_extents(i, mk, n, F, ch):
                    if mf and entails(F.f + mf, P(-1)):
                        continue
                    if lv is None or (isinstance(lv, list) and any(x is None for x in lv)):
                        raise Refused('mask not understood')
                    if not isinstance(lv, list):
                        lv = [lv >> k & 1 for k in range(n)]
                    top = [bool(x >> (sz * 8 - 1) & 1) if 'x86' in i.callee else bool(x & 1) for x in lv[:n]]
                    on = [k for k, x in enumerate(top) if x]
                    if on:
                        todo.append((mf, min(on) * sz, (max(on) + 1) * sz))
                for mf, lo, hi in todo:
                    F2 = Facts(F.f + mf, F.splits)
                    msg = self.inside(rw, q + lo, P(hi - lo), F2)
                    if msg:
                        return msg
                continue
            msg = self.inside(rw, q, w, F) and self.inside(rw, q, w, self.lemmas(F, q, w))
            if msg:
                return msg
        return None

    def lemmas(self, F, q, w):
        """Adds integer bounds on what is left after a loop, each proved first."""
        out = []
        for a in sorted(q.atoms(), key=repr):
            d = self.quotient(a)
            for g in self.sizes if d else ():
                if g.divides(d[1]) and ask(F, g - 1 - d[0]):
                    out.append(g.div(d[1]) - 1 - Poly.atom(a))
        for it in [P(-1)] + [Poly.atom(a) for a in sorted((q + w).atoms(), key=repr) if a[0] == 'it']:
            for left in self.left(it):
                for n in (0, 1):
                    if ask(F, P(n) - left):
                        out.append(P(n) - left)
                        break
        return Facts(F.f + out, F.splits)

    sizes = ()

    def left(self, it):
        return []

    def inside(self, rw, q, w, F):
        b, off = self.base(q)
        if w.is_const() and w.cval() == 0:
            return None
        if b[0] == 'i':
            x = self.fn.inst(b)
            if x.op != 'alloca':
                raise Refused('address from %s' % x.op)
            if ask(F, off) and ask(F, P(x.raw['asz']) - off - w):
                return None
            return 'may leave a local array of %d bytes (offset %s, width %s)' % (x.raw['asz'], short(off), short(w))
        if b[0] == 'g':
            return None if rw == 'r' else 'writes a global object'
        if b[0] == 'a':
            return None if rw == 'r' else 'writes to a description of the multiplication'
        r = self.regions.get(b)
        if r is None:
            raise Refused('unknown object')
        return r(rw, off, w, F)


def short(p):
    s = repr(p)
    s = re.sub(r"<in,([\w.\[\]]+)>", r'\1', s)
    return s if len(s) < 200 else s[:200] + '...'


# ---------------------------------------------------------------- rectangles
def matrix(name, esz, rows, cols, stride, may_write, may_read=True):
    """Column-major elements: offset = esz*(r + c*stride)."""
    sa = next(iter(stride.atoms()))

    def f(rw, off, w, F):
        if rw == 'w' and not may_write:
            return 'writes to ' + name
        if rw == 'r' and not may_read:
            return 'reads ' + name
        c = off.coeff(sa)
        if c is None or not c[0].divides(esz):
            return 'offset %s into %s is not understood' % (short(off), name)
        b, a = c[0].div(esz), c[1]
        for g, what in ((a, 'starts before a line'), (rows * esz - a - w, 'passes the end of a line'), (b, 'precedes the first line'),
                        (cols - 1 - b, 'is beyond the last line')):
            if not ask(F, g):
                return 'access to %s at offset %s, width %s: %s' % (name, short(off), short(w), what)
        return None
    return f


def blocks(name, esz, wd, lo, hi, stride, may_write):
    """Packed columns lo..hi: blocks of wd columns, wd*stride elements each."""
    sa = next(iter(stride.atoms()))

    def f(rw, off, w, F):
        if rw == 'w' and not may_write:
            return 'writes to ' + name
        c = off.coeff(sa)
        if c is None or not c[0].divides(esz):
            return 'offset %s into %s is not understood' % (short(off), name)
        b, a = c[0].div(esz), c[1]
        for g, what in ((a, 'starts before its block'), (stride * (wd * esz) - a - w, 'passes the end of its block'), (b - lo, 'precedes the first block'),
                        (hi - wd - b, 'is beyond the last block')):
            if not ask(F, g):
                return 'access to %s at offset %s, width %s: %s' % (name, short(off), short(w), what)
        return None
    return f


def array(name, esz, lo, hi, may_write):
    def f(rw, off, w, F):
        if rw == 'w' and not may_write:
            return 'writes to ' + name
        for g, what in ((off - lo * esz, 'precedes its part'), (hi * esz - off - w, 'passes its end')):
            if not ask(F, g):
                return 'access to %s at offset %s, width %s: %s' % (name, short(off), short(w), what)
        return None
    return f


def absent(name):
    def f(rw, off, w, F):
        return 'uses %s though there is none' % name
    return f


# ---------------------------------------------------------------- what the front end wires up
def wiring():
    """kernel symbol -> geometry, packing symbol -> geometry, from the descriptors the front end fills."""
    kern, pack = {}, {}
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
        for k, p in ex.map(wire, front.PROBES):
            kern.update(k)
            pack.update(p)
    ensure(kern and pack, 'anchor vanished: kernels and packing routines in the descriptors')
    return kern, pack


def wire(pr):
    kern, pack = {}, {}
    f = front.Front(pr)
    combo, r, hands, ends = f.run((0, 0, 0, 0))
    for h in hands:
        if h.what != 'prepare' or h['run_kernel'][0] not in ('fn', 'g', 'x'):
            continue
        g = []
        for s in (0, 1):
            d = {'layout': h['packed_matrix[%d].layout.order' % s][1]}
            for n in ('order', 'rows', 'cols'):
                v = h['packed_matrix[%d].layout.kernel.%s' % (s, n)]
                ensure(v[0] == 'c', 'kernel block size is not constant')
                d[n] = v[1]
            for n in ('is_signed', 'is_floating_point', 'size'):
                v = h['packed_matrix[%d].data_type.%s' % (s, n)]
                d[n] = v[1]
            g.append(d)
            pn = front.func(f, h['run_pack[%d]' % s])
            if pn:
                pack[pn] = dict(d, src=f.types[s])
        kn = front.func(f, h['run_kernel'])
        if kn:
            kern[kn] = dict(g=g, types=f.types)
    return kern, pack


# ---------------------------------------------------------------- kernels
SIZE = {'float': 4, 'double': 8, 'int': 4, 'unsigned char': 1, 'signed char': 1, 'short': 2}


def kernel_variants(lay):
    """Every combination of optional inputs: [(name, {member: value})]."""
    o = {k.split('.')[-1]: v for k, v in lay.items()}
    cs = []
    for bias in (0, 1):
        for pc in ((0, 1) if 'perchannel' in o else (0,)):
            for ch in ((0, 1) if (bias or pc) else (0,)):
                sub = {'bias': 'nonnull' if bias else 'null', 'channel_dimension': ch}
                if 'perchannel' in o:
                    sub['perchannel'] = pc
                    if pc:
                        sub['multiplier_fixedpoint_perchannel'] = 'nonnull'
                        sub['multiplier_exponent_perchannel'] = 'nonnull'
                cs.append(('b%dp%dc%d' % (bias, pc, ch), sub, {k: o[k][0] for k in sub if k in o}))
    return cs


def mulparams(m, accum, dst):
    return front.layout(m, 'ruy::MulParams<%s, %s>' % (accum, dst))


def flat(variants=()):
    return Module(flatten(roots=[r'ruy::RunKernel<.*>::Run\(', r'ruy::RunPack<'], keep=[], tag='bounds', flags=['--split-structs'] + list(variants)))


def rx(s):
    return '^' + re.sub(r'([()\[\]*+.{}^$|?])', r'\\\1', s) + '$'


def I(n):
    return Poly.atom(('in', n))


class Kernel(Body):
    def __init__(self, m, fn, info, sub, lay):
        g, ty = info['g'], info['types']
        pe, em = front.layout(m, 'ruy::PEMat'), front.layout(m, 'ruy::EMat')
        pn = {o: k for k, (o, _s) in pe.items()}
        en = {o: k for k, (o, _s) in em.items()}
        mn = {o: k.split('.')[-1] for k, (o, _s) in lay.items()}
        psz = m.type('ruy::PEMat')['size']
        isz = 4
        w = [g[s]['cols'] for s in (0, 1)]
        kr = max(g[s]['rows'] for s in (0, 1))
        rows, cols = I('dst.rows'), I('dst.cols')
        st = [I('start%d' % s) * w[s] for s in (0, 1)]
        en_ = [I('end%d' % s) * w[s] for s in (0, 1)]
        pc = [I('blocks%d' % s) * w[s] for s in (0, 1)]
        depth = I('depth') * kr
        strd = [I('stride%d' % s) for s in (0, 1)]
        ds = I('dst.stride')

        def names(a, off, ins):
            if off is None:
                return None
            if a == 1:
                s, o = divmod(off, psz)
                n = pn.get(o)
                if s > 1 or n is None:
                    return None
                if n.startswith('layout.kernel.'):
                    return P(g[s][n[14:]])
                return {'layout.rows': depth, 'layout.cols': pc[s], 'layout.stride': strd[s], 'layout.order': P(g[s]['layout']),
                        'zero_point': P(0) if g[s]['is_floating_point'] else I('packed%d.zero_point' % s)}.get(n, I('packed%d.%s' % (s, n)))
            if a in (3, 4):
                s = off // isz
                return (st if a == 3 else en_)[s] if off in (0, isz) else None
            if a == 5:
                n = en.get(off)
                return None if n is None else {'layout.rows': rows, 'layout.cols': cols, 'layout.stride': ds, 'layout.order': P(0)}.get(n, I('dst.' + n))
            if a == 2:
                n = mn.get(off)
                return None if n is None else P(sub[n]) if isinstance(sub.get(n), int) else I('mul.' + n)
            return None
        facts = [rows - 1, cols - 1, depth - 1, ds - rows]
        for s, dim in ((0, rows), (1, cols)):
            facts += [I('start%d' % s), I('end%d' % s) - I('start%d' % s) - 1, I('blocks%d' % s) - I('end%d' % s),
                      pc[s] - dim, dim + w[s] - 1 - pc[s], strd[s] - depth]
        esz = SIZE[ty[3]]
        asz = SIZE[ty[2]]
        ch = sub['channel_dimension']
        R = {}

        def dst(rw, off, wd, F):
            c = off.coeff(('in', 'dst.stride'))
            if c is None or not c[0].divides(esz):
                return 'offset %s into the destination is not understood' % short(off)
            b, a = c[0].div(esz), c[1]
            lo0, lo1 = (st if rw == 'w' else (P(0), P(0)))
            hi0, hi1 = (en_ if rw == 'w' else (rows, cols))
            for gl, what in ((a - lo0 * esz, 'starts before the rows of the block'), (rows * esz - a - wd, 'passes the last row'),
                             (hi0 * esz - a - wd, 'passes the rows of the block'), (b - lo1, 'precedes the columns of the block'),
                             (cols - 1 - b, 'is beyond the last column'), (hi1 - 1 - b, 'is beyond the columns of the block')):
                if not ask(F, gl):
                    return 'access to the destination at offset %s, width %s: %s' % (short(off), short(wd), what)
            return None
        R[('in', 'dst.data')] = dst
        for s in (0, 1):
            R[('in', 'packed%d.data' % s)] = blocks('the packed operand', g[s]['size'], w[s], P(0), pc[s], strd[s], False)
            R[('in', 'packed%d.sums' % s)] = (absent('sums') if g[s]['is_floating_point'] else array('the sums', 4, P(0), pc[s], False))
        for n in ('bias', 'multiplier_fixedpoint_perchannel', 'multiplier_exponent_perchannel'):
            R[('in', 'mul.' + n)] = array('the per-channel values', asz if n == 'bias' else 4, P(0), pc[ch], False) \
                if sub.get(n) == 'nonnull' else absent('per-channel values')
        Body.__init__(self, fn, names, facts, R)


class Pack(Body):
    def __init__(self, m, fn, info, order, sums):
        pe, em = front.layout(m, 'ruy::PEMat'), front.layout(m, 'ruy::EMat')
        pn = {o: k for k, (o, _s) in pe.items()}
        en = {o: k for k, (o, _s) in em.items()}
        w, kr = info['cols'], info['rows']
        rows, cols, ss = I('src.rows'), I('src.cols'), I('src.stride')
        st, e = I('start') * w, I('end') * w
        pc, depth, strd = I('blocks') * w, I('depth') * kr, I('stride')

        def names(a, off, ins):
            if off is None:
                return {3: st, 4: e}.get(a)
            if a == 1:
                n = en.get(off)
                return None if n is None else {'layout.rows': rows, 'layout.cols': cols, 'layout.stride': ss, 'layout.order': P(order)}.get(n, I('src.' + n))
            if a == 2:
                n = pn.get(off)
                if n is None:
                    return None
                if n.startswith('layout.kernel.'):
                    return P(info[n[14:]])
                return {'layout.rows': depth, 'layout.cols': pc, 'layout.stride': strd, 'layout.order': P(info['layout'])}.get(n, I('packed.' + n))
            return None
        line = rows if order == 0 else cols
        facts = [rows - 1, cols - 1, ss - line, I('start'), I('end') - I('start') - 1, I('blocks') - I('end'),
                 pc - cols, cols + w - 1 - pc, depth - rows, rows + kr - 1 - depth, strd - depth]
        esz = SIZE[info['src']]
        R = {('in', 'src.data'): matrix('the source', esz, rows if order == 0 else cols, cols if order == 0 else rows, ss, False),
             ('in', 'packed.data'): blocks('the packed operand', info['size'], w, st, e, strd, True),
             ('in', 'packed.sums'): array('the sums', 4, st, e, True) if sums else absent('sums')}
        self.sizes = (depth, e, pc)
        Body.__init__(self, fn, names, facts, R)

    def left(self, it):
        return [I('end') - I('start') - it - 1]


# ---------------------------------------------------------------- the checks
FIXED = (('layout.order', 'layout'), ('layout.kernel.order', 'order'), ('layout.kernel.rows', 'rows'), ('layout.kernel.cols', 'cols'))
_M = {}


def plan(which):
    """[(symbol, variant name, variant flag, constructor arguments)]"""
    m = flat()
    kern, pack = wiring()
    pe, em = front.layout(m, 'ruy::PEMat'), front.layout(m, 'ruy::EMat')
    psz = m.type('ruy::PEMat')['size']
    out = []
    if which == 'k':
        for k, inf in sorted(kern.items()):
            lay = mulparams(m, inf['types'][2], inf['types'][3])
            for n, sub, off in kernel_variants(lay):
                fx = ['2:%d=%s' % (off[x], sub[x]) for x in off] + ['5:%d=0' % em['layout.order'][0]]
                for s in (0, 1):
                    fx += ['1:%d=%d' % (psz * s + pe[a][0], inf['g'][s][b]) for a, b in FIXED]
                    if inf['g'][s]['is_floating_point']:
                        fx.append('1:%d=0' % (psz * s + pe['zero_point'][0]))
                out.append((k, n, fx, (inf, sub, lay)))
    else:
        for k, inf in sorted(pack.items()):
            su = 0 if inf['is_floating_point'] else 1
            for o in (0, 1):
                fx = ['1:%d=%d' % (em['layout.order'][0], o), '2:%d=%s' % (pe['sums'][0], 'nonnull' if su else 'null')]
                fx += ['2:%d=%d' % (pe[a][0], inf[b]) for a, b in FIXED]
                out.append((k, 'o%d' % o, fx, (inf, o, su)))
    return out


def one(job):
    """Judges the accesses of one routine; runs in a worker process."""
    sys.setrecursionlimit(20000)
    which, rw, k, n, args = job
    m = _M['m']
    f = _M['by'].get('%s (.%s)' % (k, n))
    if f is None:
        raise AnalysisError('anchor vanished: ' + k)
    b = (Kernel if which == 'k' else Pack)(m, f, *args)
    out = []
    bad = 0
    for i, r, p, w in b.accesses():
        if r != rw:
            continue
        sym.EFFORT[0] = EFFORT
        msg = b.judge(i, r, p, w)
        out.append((i.where(), i.op, i.raw.get('sz'), msg))
        bad += msg is not None
        if bad >= 3:        # enough to report; what remains of this routine is not judged
            break
    return k, n, out


def routine(k):
    m = re.search(r'Kernel<\(ruy::Path\)(\d+), (.*?)>>::Run', k)
    if m:
        return 'kernel of path %s for %s' % m.groups()
    m = re.search(r'RunPack<\(ruy::Path\)(\d+), ruy::FixedKernelLayout<\(ruy::Order\)(\d), (\d+), (\d+)>, (.*?)>\(', k)
    return 'packing of path %s, layout %s/%sx%s, %s' % m.groups() if m else k


def run(rep, rule, which, rw):
    jobs = plan(which)
    m = flat(['--variant=%s@%s@%s' % (rx(k), n, ','.join(fx)) for k, n, fx, _a in jobs])
    _M['m'], _M['by'] = m, {f.dem: f for f in m.fns.values()}
    # the large routines first
    size = {k: len(_M['by'][k].byid) if k in _M['by'] else 0 for k, _n, _f, _a in jobs}
    jobs.sort(key=lambda j: -size[j[0]])
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
        todo = [ex.submit(one, (which, rw, k, n, a)) for k, n, _f, a in jobs]
        bad = 0
        for t in as_completed(todo):
            if bad >= 9:        # enough to report; the remaining routines are not judged
                t.cancel()
                continue
            k, n, res = t.result()
            bad += sum(x[3] is not None for x in res)
            if bad >= 9:
                for x in todo:
                    x.cancel()
            rep.units.append('%s [%s]: %d accesses' % (routine(k), n, len(res)))
            for wh, op, sz, msg in res:
                rep.check(msg is None, rule, '%s %s of %s bytes in %s [%s]' % (wh, op, sz, routine(k), n),
                          '%s: %s' % (routine(k), msg), key='%s@%s@%s' % (rule, wh, routine(k)))
    rep.need(rule, 1)


ASSUME = ['matrices and packed operands are smaller than 2 GiB, so that the int offsets do not wrap',
          'blocks handed to kernels and packing are whole multiples of the kernel block inside the packed operand (B01, B02, C03)',
          'packed operands have the operand\'s size rounded up to the kernel block, a stride of at least the depth, and sums for integer types (P04)',
          'per-channel vectors have room for whole kernel blocks (M09)',
          'matrix data does not overlap the descriptors']


def M05(rep, tier):
    rep.rule('M05.write', 'every store of every kernel, for every combination of optional inputs, is to a local array or lies inside the rows and '
             'columns of the destination block the kernel was asked for, inside the destination')
    rep.assume += ASSUME
    run(rep, 'M05.write', 'k', 'w')


def M07(rep, tier):
    rep.rule('M07.read', 'every load of every kernel lies inside a packed operand, its sums, a per-channel vector that was given, or a local array')
    rep.assume += ASSUME
    run(rep, 'M07.read', 'k', 'r')


def M06(rep, tier):
    rep.rule('M06.read', 'every load of every packing routine, for both storage orders, lies inside the elements of the source matrix, the packed '
             'columns it was asked for, their sums, or a local array')
    rep.assume += ASSUME
    run(rep, 'M06.read', 'p', 'r')


def M08(rep, tier):
    rep.rule('M08.write', 'every store of every packing routine lies inside the packed columns it was asked for, their sums, or a local array')
    rep.assume += ASSUME
    run(rep, 'M08.write', 'p', 'w')


CHECKS = {'M05': M05, 'M06': M06, 'M07': M07, 'M08': M08}
