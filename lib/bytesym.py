"""Byte-precise propagation of copies and simple arithmetic through a flattened
function, one abstract state per control-flow alternative.

Values are hash-consed terms over the inputs; memory maps (object, offset) to
single bytes, so that merged or split accesses, block copies and packed stores of
several members all keep the identity of what they move.  Conditions that are not
decided by what is known split the state and become facts of it."""
import re
from ir import tup
from sym import Poly, P, entails
from scev import NEG
from build import AnalysisError
import mem


def C(v, w):
    return ('c', v & ((1 << w) - 1), w)


def width(e):
    return e[2] if e[0] == 'c' else e[1]


def sval(e):
    v, w = e[1], e[2]
    return v - (1 << w) if v >> (w - 1) & 1 else v


def leaf(name, w):
    return ('x', w, name)


def tywidth(ty):
    if ty == 'ptr':
        return 64
    m = re.match(r'^i(\d+)$', ty)
    if m:
        return int(m.group(1))
    n = mem.tysize(ty)
    return n * 8 if n else None


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def mk(op, w, *a):
    if op in COMM and a[0][0] == 'c':
        a = (a[1], a[0])
    if all(x[0] == 'c' for x in a):
        r = fold(op, w, a)
        if r is not None:
            return r
    if len(a) == 2 and a[1][0] == 'c':
        k = a[1][1]
        if k == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a[0]
        if k == 0 and op in ('and', 'mul'):
            return C(0, w)
        if op == 'and' and k == (1 << w) - 1:
            return a[0]
        if op == 'mul' and k == 1:
            return a[0]
        if op == 'sub':
            return mk('add', w, a[0], C(-k, w))
        if op == 'add' and a[0][0] == 'add' and a[0][3][0] == 'c':
            return mk('add', w, a[0][2], C(a[0][3][1] + k, w))
    if op in ('zext', 'sext', 'trunc') and width(a[0]) == w:
        return a[0]
    if op == 'zext' and a[0][0] == 'zext':
        return mk('zext', w, a[0][2])
    if op == 'sext' and a[0][0] == 'sext':
        return mk('sext', w, a[0][2])
    if op == 'sext' and a[0][0] == 'zext' and width(a[0]) > width(a[0][2]):
        return mk('zext', w, a[0][2])
    if op == 'trunc':
        b = a[0]
        if b[0] in ('zext', 'sext'):
            x = b[2]
            if width(x) == w:
                return x
            return mk('trunc', w, x) if width(x) > w else mk(b[0], w, x)
        if b[0] == 'trunc':
            return mk('trunc', w, b[2])
        if b[0] in ('add', 'sub', 'mul', 'and', 'or', 'xor') and w % 8 == 0:
            return mk(b[0], w, mk('trunc', w, b[2]), mk('trunc', w, b[3]))
        if b[0] in ('or', 'shl', 'lshr', 'join') and w % 8 == 0:
            r = join([byte(b, k) for k in range(w // 8)])
            if r[0] != 'join':
                return r
    if op == 'ashr' and a[1][0] == 'c' and a[0][0] == 'shl' and a[0][3] == a[1] and 0 < w - a[1][1] < w:
        n = w - a[1][1]
        return mk('sext', w, mk('trunc', n, a[0][2]))
    if op == 'and' and a[1][0] == 'c' and a[1][1] & (a[1][1] + 1) == 0:
        n = a[1][1].bit_length()
        if n in (8, 16, 32):
            return mk('zext', w, mk('trunc', n, a[0]))
    if op in ('or', 'xor', 'add') and w % 8 == 0 and len(a) == 2 and (op == 'or' or a[1][0] != 'c'):
        bs = [(byte(a[0], k), byte(a[1], k)) for k in range(w // 8)]
        if all(x == C(0, 8) or y == C(0, 8) for x, y in bs) and any(y != C(0, 8) for x, y in bs):
            return join([x if y == C(0, 8) else y for x, y in bs])
    if op == 'select':
        c, x, y = a
        if c[0] == 'c':
            return x if c[1] else y
        if x == y:
            return x
    if op == 'icmp' or op[:4] == 'icmp':
        p = op[5:]
        if a[0] == a[1]:
            return C(1 if p in ('eq', 'ule', 'uge', 'sle', 'sge') else 0, 1)
        if p in ('eq', 'ne') and a[1][0] == 'c' and a[0][0] in ('zext', 'sext'):
            n = width(a[0][2])
            k = a[1][1]
            lo = C(k, n)
            if fold(a[0][0], width(a[0]), (lo,)) == a[1]:
                return mk(op, 1, a[0][2], lo)
            return C(p == 'ne', 1)
        if p == 'ne' and w == 1 and a[1] == C(0, 1):
            return a[0]
        if p == 'eq' and width(a[0]) == 1 and a[1][0] == 'c':
            return a[0] if a[1][1] else mk('xor', 1, a[0], C(1, 1))
    return (op, w) + a


def fold(op, w, a):
    M = (1 << w) - 1
    v = [x[1] for x in a]
    if op == 'add':
        return C(v[0] + v[1], w)
    if op == 'sub':
        return C(v[0] - v[1], w)
    if op == 'mul':
        return C(v[0] * v[1], w)
    if op == 'and':
        return C(v[0] & v[1], w)
    if op == 'or':
        return C(v[0] | v[1], w)
    if op == 'xor':
        return C(v[0] ^ v[1], w)
    if op == 'shl':
        return C(v[0] << v[1], w) if v[1] < w else None
    if op == 'lshr':
        return C(v[0] >> v[1], w) if v[1] < w else None
    if op == 'ashr':
        return C(sval(a[0]) >> v[1], w) if v[1] < w else None
    if op == 'udiv' and v[1]:
        return C(v[0] // v[1], w)
    if op == 'urem' and v[1]:
        return C(v[0] % v[1], w)
    if op == 'zext':
        return C(v[0], w)
    if op == 'sext':
        return C(sval(a[0]), w)
    if op == 'trunc':
        return C(v[0], w)
    if op == 'select':
        return a[1] if v[0] else a[2]
    if op in ('ctlz', 'cttz'):
        if not v[0]:
            return C(w, w)
        return C(w - v[0].bit_length() if op == 'ctlz' else (v[0] & -v[0]).bit_length() - 1, w)
    if op == 'ctpop':
        return C(bin(v[0]).count('1'), w)
    if op in ('smax', 'smin', 'umax', 'umin'):
        f = max if op.endswith('max') else min
        return f(a, key=sval if op[0] == 's' else (lambda x: x[1]))
    if op.startswith('icmp.'):
        p = op[5:]
        s = [sval(x) for x in a] if p[0] == 's' else v
        return C({'eq': s[0] == s[1], 'ne': s[0] != s[1], 'lt': s[0] < s[1], 'le': s[0] <= s[1],
                  'gt': s[0] > s[1], 'ge': s[0] >= s[1]}[p if p in ('eq', 'ne') else p[1:]], 1)
    return None


def byte(e, k):
    op, w = e[0], width(e)
    if op == 'c':
        return C(e[1] >> (8 * k), 8)
    if 8 * k >= w:
        return C(0, 8)
    if w == 8:
        return e
    if op == 'join':
        return e[2][k]
    if op == 'zext':
        x = e[2]
        if 8 * k >= width(x):
            return C(0, 8)
        return byte(x, k) if width(x) % 8 == 0 else mk('zext', 8, x) if width(x) < 8 and k == 0 else ('byte', 8, e, k)
    if op == 'trunc':
        return byte(e[2], k)
    if op in ('shl', 'lshr') and e[3][0] == 'c' and e[3][1] % 8 == 0:
        m = k - e[3][1] // 8 if op == 'shl' else k + e[3][1] // 8
        return byte(e[2], m) if 0 <= m < w // 8 else C(0, 8)
    if op in ('or', 'and', 'xor'):
        return mk(op, 8, byte(e[2], k), byte(e[3], k))
    if op == 'select':
        return mk('select', 8, e[2], byte(e[3], k), byte(e[4], k))
    return ('byte', 8, e, k)


def join(bs):
    n = len(bs)
    if n == 1:
        return bs[0]
    if all(b[0] == 'c' for b in bs):
        return C(sum(b[1] << (8 * k) for k, b in enumerate(bs)), 8 * n)
    b = bs[0]
    if b[0] == 'byte' and b[3] == 0 and all(x[0] == 'byte' and x[2] == b[2] and x[3] == k for k, x in enumerate(bs)):
        return b[2] if width(b[2]) == 8 * n else mk('trunc', 8 * n, b[2]) if width(b[2]) > 8 * n else ('join', 8 * n, tuple(bs))
    if b[0] == 'm0' and all(x[0] == 'm0' and x[2] == b[2] and x[3] == b[3] + k and x[4] == b[4] for k, x in enumerate(bs)):
        return ('ld', 8 * n, b[2], b[3], b[4])
    # zero-extended narrower value
    for m in range(n - 1, 0, -1):
        if all(x == C(0, 8) for x in bs[m:]) and bs[m - 1] != C(0, 8):
            lo = join(bs[:m])
            if lo[0] != 'join':
                return mk('zext', 8 * n, lo)
            break
    # a value masked, set or flipped with a constant, byte by byte
    e = b[2] if b[0] == 'byte' else b[2][2] if b[0] in ('and', 'or', 'xor') and b[3][0] == 'c' and b[2][0] == 'byte' else None
    if e is not None and width(e) == 8 * n:
        ops = {x[0] for x in bs if x[0] != 'byte'}
        if len(ops) == 1 and ops <= {'and', 'or', 'xor'}:
            op = next(iter(ops))
            k, ok = 0, True
            for j, x in enumerate(bs):
                if x == ('byte', 8, e, j):
                    k |= (255 if op == 'and' else 0) << (8 * j)
                elif x[0] == op and x[2] == ('byte', 8, e, j) and x[3][0] == 'c':
                    k |= x[3][1] << (8 * j)
                else:
                    ok = False
            if ok:
                return mk(op, 8 * n, e, C(k, 8 * n))
    if b[0] == 'select' and all(x[0] in ('select', 'c') and (x[0] == 'c' or x[2] == b[2]) for x in bs):
        return mk('select', 8 * n, b[2], join([x if x[0] == 'c' else x[3] for x in bs]), join([x if x[0] == 'c' else x[4] for x in bs]))
    return ('join', 8 * n, tuple(bs))


def split_ptr(e):
    if e[0] == 'add' and e[3][0] == 'c':
        return e[2], sval(e[3])
    return e, 0


class St:
    __slots__ = ('env', 'mem', 'ver', 'facts', 'nots', 'events')

    def __init__(self, o=None):
        self.env = dict(o.env) if o else {}
        self.mem = dict(o.mem) if o else {}
        self.ver = dict(o.ver) if o else {}
        self.facts = dict(o.facts) if o else {}      # term -> constant
        self.nots = set(o.nots) if o else set()      # (term, constant)
        self.events = o.events if o else ()

    def copy(self):
        return St(self)

    def read(self, base, off, n):
        bs = []
        for k in range(n):
            b = self.mem.get((base, off + k))
            if b is None:
                b = ('m0', 8, base, off + k, self.ver.get(base, 0))
            bs.append(b)
        r = join(bs)
        if n == 1 and r[0] == 'm0':
            r = ('ld', 8, r[2], r[3], r[4])
        return self.known(r)

    def known(self, e):
        v = self.facts.get(e)
        return C(v, width(e)) if v is not None else e

    def write(self, base, off, n, e):
        for k in range(n):
            self.mem[(base, off + k)] = byte(e, k)

    def havoc(self, base):
        self.ver[base] = self.ver.get(base, 0) + 1
        for k in [k for k in self.mem if k[0] == base]:
            del self.mem[k]


class Run:
    """Interprets fn.  call(run, st, instr, args) -> list of states or None
    (default treatment); stop(run, st, instr, args) may record and return True to
    end the path there."""

    def __init__(self, fn, args=None, call=None, assume=None, cap=20000, pure=None):
        self.fn, self.call, self.cap = fn, call, cap
        self.assume = assume or {}
        self.pure = pure
        self.args = args or {}
        self.exits = []
        self.steps = 0
        self.entries = 0
        # loops with a constant number of iterations are followed; others are cut
        self.headers = {L.header: L for L in fn.loops if not (L.mbtc and L.mbtc[0] == 'c' and 0 <= int(L.mbtc[1]) <= 64)}

    def subst(self, st, e):
        """Applies the assumptions (input term -> constant) and the facts to a term."""
        v = self.assume.get(e)
        if v is not None:
            return C(v, width(e))
        v = st.facts.get(e)
        if v is not None:
            return C(v, width(e))
        return e

    def val(self, st, o):
        k = o[0]
        if k == 'c':
            return C(o[1], o[2])
        if k == 'n':
            return C(0, 64)
        if k == 'i':
            e = st.env.get(o[1])
            if e is None:
                i = self.fn.byid[o[1]]
                e = ('x', tywidth(i.ty) or 64, ('i', o[1]))
            return self.subst(st, e)
        if k == 'a':
            e = self.args.get(o[1])
            if e is None:
                t = mem.opty(self.fn, o)
                e = ('x', tywidth(t) or 64, o)
            return self.subst(st, e)
        if k == 'gep':
            return mk('add', 64, self.val(st, o[1]), C(o[2], 64))
        if k == 'g':
            return ('x', 64, o)
        if k == 'u':
            return ('x', 64, ('u',))
        return ('x', 64, o)

    def run(self):
        fn = self.fn
        work = [(None, fn.entry, St())]
        while work:
            frm, b, st = work.pop()
            self.steps += 1
            if self.steps > self.cap:
                raise AnalysisError('too many alternatives in %s' % fn.dem)
            st = st.copy()
            L = self.headers.get(b)
            if L is not None:
                if frm in L.blocks:
                    continue        # the body was interpreted for an arbitrary iteration
                self.enter_loop(st, L)
                work += self.block(b, st)
                continue
            vals = {}
            for i in fn.blocks[b].ins:
                if i.op != 'phi':
                    break
                o = next(v for p, v in fn.phi_in(i) if p == frm)
                vals[i.id] = self.width_fix(self.val(st, o), i.ty)
            st.env.update(vals)
            work += self.block(b, st)
        return self.exits

    def enter_loop(self, st, L):
        """Forgets everything the loop may change; a loop that copies or fills an
        array element by element becomes an event like a block copy."""
        fn = self.fn
        self.entries += 1
        ev = self.idiom(st, L)
        if ev:
            st.events += (ev,)
        for i in fn.blocks[L.header].ins:
            if i.op == 'phi':
                st.env[i.id] = ('x', tywidth(i.ty) or 64, ('phi', i.id, self.entries))
        for x in L.blocks:
            for i in fn.blocks[x].ins:
                if i.op == 'store':
                    r, off, var = fn.addr(i.ops[1])
                    base, o2 = split_ptr(self.val(st, r))
                    n = i.get('sz') or 1
                    if var or (r[0] == 'i' and fn.byid[r[1]].blk in L.blocks):
                        st.havoc(base)
                    else:
                        self.entries += 1
                        st.write(base, off + o2, n, ('x', n * 8, ('loop', i.id, self.entries)))
                elif i.op in ('call', 'invoke') and not mem.ignorable(i):
                    for o in i.ops:
                        if o[0] in ('i', 'a', 'gep'):
                            st.havoc(split_ptr(self.val(st, fn.addr(o)[0]))[0])

    def idiom(self, st, L):
        fn = self.fn
        if not L.btc or L.btc[0] in ('cnc', 'other', 'big') or any(x is not L and x.header in L.blocks for x in fn.loops):
            return None
        eff = [i for b in L.blocks for i in fn.blocks[b].ins
               if i.op in ('store', 'atomicrmw', 'cmpxchg') or (i.op in ('call', 'invoke') and not mem.ignorable(i))]
        if len(eff) != 1 or eff[0].op != 'store':
            return None
        s = eff[0]
        n = s.get('sz') or mem.store_size(fn, s)
        if not all(fn.dominates_b(s.blk, b) for b in L.blocks if L.header in fn.blocks[b].succ):
            return None
        dst = self.rec(st, s.ops[1], L, n)
        cnt = self.sterm(st, L.btc)
        if dst is None or cnt is None or n is None:
            return None
        # the exit test comes before or after the store
        ex = [b for b, c in L.exits]
        if len(ex) != 1:
            return None
        total = ('add', 64, cnt, C(0 if ex[0] == L.header and s.blk != L.header else 1, 64))
        ln = ('mul', 64, total, C(n, 64))
        v = s.ops[0]
        if v[0] == 'c':
            x = [v[1] >> (8 * k) & 255 for k in range(n)]
            if len(set(x)) != 1:
                return None
            return (s.id, 'set', dst, 0, ln, C(x[0], 8))
        if v[0] == 'i':
            ld = fn.byid[v[1]]
            if ld.op == 'load' and ld.blk in L.blocks and (ld.get('sz') or mem.tysize(ld.ty)) == n:
                src = self.rec(st, ld.ops[0], L, n)
                if src is not None:
                    sb, so = split_ptr(src)
                    return (s.id, 'copy', dst, 0, ln, sb, so)
        return None

    def rec(self, st, o, L, n):
        """Start of an address that advances by n each iteration."""
        i = self.fn.byid.get(o[1]) if o[0] == 'i' else None
        s = i.raw.get('scev') if i is not None else None
        if not s or s[0] != 'rec' or s[1] != L.id or len(s) != 4 or s[3] != ['c', str(n)]:
            return None
        e = self.sterm(st, s[2])
        return norm_add(e) if e is not None else None

    def sterm(self, st, s):
        k = s[0]
        if k == 'c':
            return C(int(s[1]), 64)
        if k == 'u':
            return self.val(st, tup(s[1]))
        if k in ('add', 'mul', 'smax', 'umax', 'smin', 'umin', 'udiv'):
            a = [self.sterm(st, x) for x in s[1:]]
            if None in a:
                return None
            r = a[0]
            for x in a[1:]:
                r = fold(k, 64, (r, x)) if r[0] == x[0] == 'c' else None or (k, 64, r, x)
            return r
        if k in ('zext', 'sext', 'p2i'):
            return self.sterm(st, s[1])
        if k == 'trunc' and s[2] >= 32:
            return self.sterm(st, s[1])
        return None

    def width_fix(self, e, ty):
        w = tywidth(ty)
        if e[0] == 'c' and w and e[2] != w:
            return C(e[1], w)
        return e

    def block(self, b, st):
        fn = self.fn
        sts = [st]
        for i in fn.blocks[b].ins:
            if i.op == 'phi':
                continue
            if i.op in ('br', 'switch', 'ret', 'unreachable'):
                break
            nx = []
            for s in sts:
                nx += self.instr(s, i)
            sts = nx
        t = fn.term(b)
        out = []
        for s in sts:
            if t.op == 'ret':
                self.exits.append((t, s, self.val(s, t.ops[0]) if t.ops else None))
            elif t.op == 'br' and len(t.ops) == 3:
                for tr, n in ((1, t.ops[2][1]), (0, t.ops[1][1])):
                    for x in self.decide(s, self.val(s, t.ops[0]), tr):
                        out.append((b, n, x))
            elif t.op == 'switch':
                v = self.val(s, t.ops[0])
                rest = [s]
                for c, n in t.raw['cases']:
                    for x in self.decide(s, mk('icmp.eq', 1, v, C(int(c), width(v))), 1):
                        out.append((b, n, x))
                    rest = [y for r in rest for y in self.decide(r, mk('icmp.eq', 1, v, C(int(c), width(v))), 0)]
                out += [(b, t.raw['default'], r) for r in rest]
            elif t.op == 'br':
                out.append((b, fn.blocks[b].succ[0], s))
        return out

    def decide(self, st, c, truth):
        """States of st in which condition c is truth (0/1)."""
        c = self.subst(st, c)
        if c[0] == 'c':
            return [st] if c[1] & 1 == truth else []
        if c[0] == 'xor' and c[3] == C(1, 1):
            return self.decide(st, c[2], 1 - truth)
        if c[0] in ('and', 'or') and width(c) == 1:
            if (c[0] == 'and') == bool(truth):
                return [y for x in self.decide(st, c[2], truth) for y in self.decide(x, c[3], truth)]
            return self.decide(st, c[2], truth) + [y for x in self.decide(st, c[2], 1 - truth) for y in self.decide(x, c[3], truth)]
        if c[0] == 'select' and width(c) == 1:
            return [y for t in (1, 0) for x in self.decide(st, c[2], t) for y in self.decide(x, c[3] if t else c[4], truth)]
        if c[0].startswith('icmp.'):
            p, a, b = c[0][5:], c[2], c[3]
            if not truth:
                p = NEG[p]
            if p in ('eq', 'ne') and b[0] == 'c':
                known = st.facts.get(a)
                if known is not None:
                    return [st] if (known == b[1]) == (p == 'eq') else []
                if (a, b[1]) in st.nots:
                    return [st] if p == 'ne' else []
                s = st.copy()
                if p == 'eq':
                    s.facts[a] = b[1]
                    self.learn(s, a, b[1])
                else:
                    s.nots.add((a, b[1]))
                return [s]
            k = ('icmp.' + p, 1, a, b)
            nk = ('icmp.' + NEG[p], 1, a, b)
            if st.facts.get(k) == 1 or st.facts.get(nk) == 0:
                return [st]
            if st.facts.get(nk) == 1 or st.facts.get(k) == 0:
                return []
            s = st.copy()
            s.facts[k], s.facts[nk] = 1, 0
            return [s]
        s = st.copy()
        s.facts[c] = truth
        return [s]

    def learn(self, st, a, v):
        if a[0] in ('zext', 'sext'):
            st.facts[a[2]] = v & ((1 << width(a[2])) - 1)

    def instr(self, st, i):
        op, v = i.op, lambda k: self.val(st, i.ops[k])
        w = tywidth(i.ty) if i.ty != 'void' else None
        env = st.env
        if op == 'alloca':
            env[i.id] = ('x', 64, ('alloca', i.id))
            return [st]
        if op == 'store':
            n = i.get('sz') or mem.store_size(self.fn, i)
            base, off = split_ptr(v(1))
            e = v(0)
            if width(e) < n * 8:
                e = mk('zext', n * 8, e)
            st.write(base, off, n, e)
            return [st]
        if op == 'load':
            n = i.get('sz') or mem.tysize(i.ty)
            base, off = split_ptr(v(0))
            e = st.read(base, off, n)
            if w and w < width(e):
                e = mk('trunc', w, e)
            env[i.id] = self.subst(st, e)
            return [st]
        if op in ('call', 'invoke'):
            if mem.ignorable(i):
                return [st]
            c = i.callee or ''
            if mem.is_memcpy(i) or mem.is_memset(i):
                return self.copyset(st, i)
            m = re.match(r'llvm\.(smax|smin|umax|umin|ctlz|cttz|ctpop|abs|bswap)\.', c)
            if m:
                a = [v(k) for k in range(2 if m.group(1)[1:] in ('max', 'min') else 1)]
                env[i.id] = mk(m.group(1), w, *a)
                return [st]
            if c.startswith('llvm.expect') or c.startswith('llvm.launder') or c.startswith('llvm.strip'):
                env[i.id] = v(0)
                return [st]
            if self.call:
                r = self.call(self, st, i, [v(k) for k in range(len(i.ops))])
                if r is not None:
                    return r
            for k in range(len(i.ops)):
                if i.ops[k][0] in ('i', 'a', 'gep'):
                    st.havoc(split_ptr(v(k))[0])
            if w:
                env[i.id] = ('x', w, ('call', i.id, len([e for e in st.events if e[0] == i.id])))
            return [st]
        if w is None:
            return [st]
        if op == 'getelementptr':
            e = mk('add', 64, v(0), C(i.raw['off'], 64))
            for x, s in i.raw['var']:
                x = self.val(st, tup(x))
                if width(x) < 64:
                    x = mk('sext', 64, x)
                e = mk('add', 64, e, mk('mul', 64, x, C(s, 64)))
            # constant part outermost
            env[i.id] = norm_add(e)
            return [st]
        if op in ('zext', 'sext', 'trunc'):
            env[i.id] = self.subst(st, mk(op, w, v(0)))
            return [st]
        if op in ('freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            e = v(0)
            env[i.id] = e if width(e) == w else mk('trunc' if width(e) > w else 'zext', w, e)
            return [st]
        if op == 'icmp':
            env[i.id] = self.subst(st, mk('icmp.' + i.raw['pred'], 1, v(0), v(1)))
            return [st]
        if op == 'select':
            out = []
            if w == 1:
                env[i.id] = mk('select', 1, v(0), v(1), v(2))
                return [st]
            c = v(0)
            if c[0] == 'c':
                env[i.id] = v(1) if c[1] & 1 else v(2)
                return [st]
            for tr in (1, 0):
                for s in self.decide(st, c, tr):
                    s = s.copy()
                    s.env[i.id] = self.val(s, i.ops[1 if tr else 2])
                    out.append(s)
            return out
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem') and not i.ty.startswith('<'):
            e = mk(op, w, v(0), v(1))
            if op in ('add', 'sub'):
                e = norm_add(e)
            env[i.id] = self.subst(st, e)
            return [st]
        env[i.id] = ('x', w, ('i', i.id))
        return [st]

    def copyset(self, st, i):
        base, off = split_ptr(self.val(st, i.ops[0]))
        n = self.val(st, i.ops[2])
        if mem.is_memcpy(i):
            sb, so = split_ptr(self.val(st, i.ops[1]))
            if n[0] == 'c' and n[1] <= 4096:
                bs = []
                for k in range(n[1]):
                    b = st.mem.get((sb, so + k))
                    bs.append(b if b is not None else ('m0', 8, sb, so + k, st.ver.get(sb, 0)))
                for k, b in enumerate(bs):
                    st.mem[(base, off + k)] = b
            else:
                st.events += ((i.id, 'copy', base, off, n, sb, so),)
                st.havoc(base)
            return [st]
        x = self.val(st, i.ops[1])
        if n[0] == 'c' and n[1] <= 4096:
            for k in range(n[1]):
                st.mem[(base, off + k)] = x
        else:
            st.events += ((i.id, 'set', base, off, n, x),)
            st.havoc(base)
        return [st]


def norm_add(e):
    """Moves the constant part of a sum outermost."""
    def parts(e):
        if e[0] == 'add':
            return parts(e[2]) + parts(e[3])
        return [e]
    if e[0] != 'add':
        return e
    w = width(e)
    ps = parts(e)
    k = sum(p[1] for p in ps if p[0] == 'c')
    ps = [p for p in ps if p[0] != 'c']
    if not ps:
        return C(k, w)
    # a pointer first, then the rest in a fixed order
    ps.sort(key=lambda p: (0 if p[0] in ('x', 'ld') and width(p) == 64 else 1, repr(p)))
    r = ps[0]
    for p in ps[1:]:
        r = ('add', w, r, p)
    return mk('add', w, r, C(k, w))


def poly(e, facts=None):
    """A term as a polynomial over opaque atoms (no wrap-around)."""
    f = facts if facts is not None else []
    op = e[0]
    if op == 'c':
        return P(sval(e))
    if op in ('zext', 'sext'):
        return poly(e[2], f)
    if op == 'trunc' and e[1] >= 32:
        return poly(e[2], f)
    if op == 'add':
        return poly(e[2], f) + poly(e[3], f)
    if op == 'sub':
        return poly(e[2], f) - poly(e[3], f)
    if op == 'mul':
        return poly(e[2], f) * poly(e[3], f)
    if len(e) == 4 and e[3][0] == 'c' if op in ('shl', 'and', 'lshr', 'ashr', 'udiv', 'urem') else False:
        k = sval(e[3])
        if op == 'shl':
            return poly(e[2], f) * (1 << k)
        if op in ('lshr', 'ashr'):
            return fdiv(poly(e[2], f), 1 << k, f)
        if op == 'udiv' and k > 0:
            return fdiv(poly(e[2], f), k, f)
        if op == 'urem' and k > 0:
            a = poly(e[2], f)
            return a - fdiv(a, k, f) * k
        if op == 'and' and k < 0 and (-k & (-k - 1)) == 0:
            return fdiv(poly(e[2], f), -k, f) * -k
        if op == 'and' and k >= 0 and (k & (k + 1)) == 0:
            a = poly(e[2], f)
            return a - fdiv(a, k + 1, f) * (k + 1)
    if op in ('smax', 'umax', 'smin', 'umin') and len(e) == 4:
        x = Poly.atom(('t', e))
        for y in (poly(e[2], f), poly(e[3], f)):
            f.append(x - y if op.endswith('max') else y - x)
        return x
    if op == 'sdiv' and e[3][0] == 'c' and sval(e[3]) > 0:
        return fdiv(poly(e[2], f), sval(e[3]), f)
    if op == 'srem' and e[3][0] == 'c' and sval(e[3]) > 0:
        a = poly(e[2], f)
        return a - fdiv(a, sval(e[3]), f) * sval(e[3])
    if op == 'xor' and len(e) == 4 and e[3][0] == 'c' and sval(e[3]) == -1:
        return -poly(e[2], f) - 1
    return Poly.atom(('t', e))


def fdiv(a, k, f):
    if k == 1 or a.divides(k):
        return a.div(k)
    q = Poly({m: c // k for m, c in a.t.items() if c % k == 0})
    r = Poly({m: c for m, c in a.t.items() if c % k})
    if r.is_const():
        return q + r.cval() // k
    x = Poly.atom(('fdiv', repr(r), k))
    f += [r - x * k, x * k + (k - 1) - r]
    return q + x


def evalt(e, vals):
    """Value of a term for constant leaves; None when it is not determined."""
    v = vals.get(e)
    if v is not None:
        return C(v, width(e))
    op = e[0]
    if op == 'c':
        return e
    if op == 'byte':
        x = evalt(e[2], vals)
        return C(x[1] >> (8 * e[3]), 8) if x else None
    if op == 'join':
        bs = [evalt(x, vals) for x in e[2]]
        return None if None in bs else C(sum(x[1] << (8 * k) for k, x in enumerate(bs)), 8 * len(bs))
    if op == 'm0':
        return evalt(('ld', 8) + e[2:], vals) if ('ld', 8) + e[2:] in vals else None
    if op in ('x', 'ld'):
        return None
    if op == 'select':
        c = evalt(e[2], vals)
        return evalt(e[3] if c[1] else e[4], vals) if c else None
    a = [evalt(x, vals) for x in e[2:]]
    if None in a:
        return None
    return fold(op, e[1], tuple(a))


def leaves(e, out=None):
    out = set() if out is None else out
    if e[0] in ('x', 'ld', 'm0'):
        out.add(e)
    elif e[0] == 'join':
        for x in e[2]:
            leaves(x, out)
    elif e[0] != 'c':
        for x in e[2:]:
            if isinstance(x, tuple):
                leaves(x, out)
    return out


def linear(st, f):
    """The facts of a state as linear inequalities."""
    out = []
    for t, v in st.facts.items():
        if t[0].startswith('icmp.') and v == 1:
            p = t[0][5:]
            d = poly(t[2], f) - poly(t[3], f)
            out += {'eq': [d, -d], 'slt': [-d - 1], 'sle': [-d], 'sgt': [d - 1], 'sge': [d],
                    'ult': [-d - 1], 'ule': [-d], 'ugt': [d - 1], 'uge': [d]}.get(p, [])
        elif not t[0].startswith('icmp.'):
            d = poly(t, f) - (v if v < 1 << (width(t) - 1) else v - (1 << width(t)))
            out += [d, -d]
    return out
