"""Forward abstract interpretation of one flattened function.

An abstract state maps SSA values and tracked memory cells to polynomials over
opaque atoms, with a conjunction of linear facts.  States are kept apart by
control flow (joined when equal); a loop body is interpreted once from a header
state in which everything the loop changes is unknown."""
from ir import tup
from sym import Poly, P, entails
from scev import NEG
import mem


class TooMany(Exception):
    pass


class State:
    __slots__ = ('env', 'cells', 'facts', 'events')

    def __init__(self, env=None, cells=None, facts=(), events=()):
        self.env, self.cells, self.facts, self.events = dict(env or {}), dict(cells or {}), tuple(facts), tuple(events)

    def copy(self):
        return State(self.env, self.cells, self.facts, self.events)

    def with_(self, *facts):
        s = self.copy()
        s.facts = tuple(dict.fromkeys(s.facts + tuple(f for f in facts if not (f.is_const() and f.cval() >= 0))))
        return s

    def feasible(self):
        return not entails(list(self.facts), P(-1))

    def proves(self, goal, extra=()):
        return entails(list(self.facts) + list(extra), P(goal))

    def zero(self, p):
        return self.proves(p) and self.proves(-P(p))

    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.facts), self.events, frozenset(self.env.items()))


def base_of(p):
    """The single pointer atom of an address polynomial (coefficient one)."""
    return [m[0] for m, c in p.t.items() if len(m) == 1 and c == 1]


class AI:
    def __init__(self, fn, init, call=None, load=None, cap=4000, stop=None):
        self.fn, self.call, self.load, self.cap, self.stop = fn, call, load, cap, stop
        self.steps = 0
        self.exits = []         # (instr, state) at ret
        self.init = init

    def run(self):
        fn = self.fn
        seen = {}
        work = [(None, fn.entry, self.init.copy())]
        while work:
            frm, b, st = work.pop()
            self.steps += 1
            if self.steps > self.cap:
                raise TooMany()
            st = self.enter(frm, b, st)
            if st is None:
                continue
            k = st.key()
            if k in seen.setdefault(b, set()):
                continue
            seen[b].add(k)
            for st2, nxt in self.block(b, st):
                if nxt is None:
                    continue
                work.append((b, nxt, st2))
        return self.exits

    def enter(self, frm, b, st):
        fn = self.fn
        L = next((l for l in fn.loops if l.header == b), None)
        if L is not None and frm in L.blocks:
            return None         # the body was interpreted from an arbitrary iteration
        st = st.copy()
        vals = {}
        for i in fn.blocks[b].ins:
            if i.op != 'phi':
                break
            if L is not None:
                ins = {self.val(st, v) for p, v in fn.phi_in(i) if p == frm}
                vals[i.val] = Poly.atom(i.val)
            else:
                vals[i.val] = next(self.val(st, v) for p, v in fn.phi_in(i) if p == frm)
        st.env.update(vals)
        if L is not None:
            for x in L.blocks:
                for i in fn.blocks[x].ins:
                    if i.op == 'store':
                        r, off, var = fn.addr(i.ops[1])
                        a = self.val(st, r) + off
                        for c in list(st.cells):
                            d = c - a
                            if base_of(c) == base_of(self.val(st, r)) and (var or not d.is_const() or d.cval() == 0):
                                st.cells[c] = Poly.atom(('loop', L.id, c))
                    elif i.op == 'call' and not mem.ignorable(i):
                        for o in i.ops:
                            r, off, var = fn.addr(o)
                            if r[0] in ('i', 'a'):
                                self.havoc(st, self.val(st, r), ('loop', L.id))
        return st

    # ---- values
    def val(self, st, o):
        if o[0] == 'c':
            return P(o[1])
        if o[0] == 'n':
            return Poly()
        if o[0] == 'gep':
            return self.val(st, o[1]) + o[2]
        v = st.env.get(o)
        if v is None:
            return Poly.atom(o)
        return v

    def havoc(self, st, addr, why):
        b = base_of(addr)
        for c in list(st.cells):
            if base_of(c) == b:
                st.cells[c] = Poly.atom((why, c))

    def split(self, st, o, truth):
        """States refining st in which condition o has the given truth."""
        if o[0] == 'c':
            return [st] if bool(o[1]) == truth else []
        i = self.fn.inst(o)
        if i is None:
            return [st]
        if i.op == 'icmp':
            p = i.raw['pred'] if truth else NEG[i.raw['pred']]
            d = self.val(st, i.ops[0]) - self.val(st, i.ops[1])
            if p == 'eq':
                alts = [[d, -d]]
            elif p == 'ne':
                ptr = i.ops[1][0] == 'n' or i.ops[0][0] == 'n'
                alts = [[d - 1]] if i.ops[1][0] == 'n' else [[-d - 1]] if ptr else [[d - 1], [-d - 1]]
            elif p in ('slt', 'ult'):
                alts = [[-d - 1]]
            elif p in ('sle', 'ule'):
                alts = [[-d]]
            elif p in ('sgt', 'ugt'):
                alts = [[d - 1]]
            else:
                alts = [[d]]
            out = []
            for a in alts:
                s = st.with_(*a)
                if s.feasible():
                    out.append(s)
            return out
        if i.op == 'freeze':
            return self.split(st, i.ops[0], truth)
        if i.op == 'xor' and i.ops[1][0] == 'c':
            return self.split(st, i.ops[0], not truth)
        if i.op in ('and', 'or') or (i.op == 'select' and i.ty == 'i1'):
            if i.op == 'and':
                c, a, b = i.ops[0], i.ops[1], ('c', 0, 1)
            elif i.op == 'or':
                c, a, b = i.ops[0], ('c', 1, 1), i.ops[1]
            else:
                c, a, b = i.ops
            out = []
            for t, v in ((True, a), (False, b)):
                for s in self.split(st, c, t):
                    out += self.split(s, v, truth)
            return out
        v = st.env.get(o)
        if v is not None:
            d = v - (1 if truth else 0)
            s = st.with_(d, -d)
            return [s] if s.feasible() else []
        s = st.copy()
        s.env[o] = P(1 if truth else 0)
        return [s]

    def block(self, b, st):
        fn = self.fn
        sts = [st]
        for i in fn.blocks[b].ins:
            if i.op == 'phi':
                continue
            if i.op in ('br', 'switch', 'ret', 'unreachable'):
                break
            nxt = []
            for s in sts:
                nxt += self.instr(s, i)
            sts = nxt
        t = fn.term(b)
        out = []
        for s in sts:
            if t.op == 'ret':
                self.exits.append((t, s))
            elif t.op == 'br' and len(t.ops) == 3 and t.ops[1] != t.ops[2]:
                for truth, n in ((True, t.ops[2][1]), (False, t.ops[1][1])):
                    for x in self.split(s, t.ops[0], truth):
                        out.append((x, n))
            elif t.op == 'switch':
                v = self.val(s, t.ops[0])
                rest = [s]
                for c, n in t.raw['cases']:
                    d = v - int(c)
                    x = s.with_(d, -d)
                    if x.feasible():
                        out.append((x, n))
                    rest = [y for r in rest for y in (r.with_(d - 1), r.with_(-d - 1)) if y.feasible()][:8]
                out += [(r, t.raw['default']) for r in rest]
            elif t.op == 'br':
                out.append((s, fn.blocks[b].succ[0]))
        return out

    def instr(self, st, i):
        op, v = i.op, lambda k: self.val(st, i.ops[k])
        if op == 'store':
            st = st.copy()
            a = v(1)
            for c in list(st.cells):
                if c == a:
                    continue
                d = c - a
                if base_of(c) == base_of(a) and not d.is_const():
                    st.cells[c] = Poly.atom(('may', i.id, c))
            st.cells[a] = v(0) if mem.opty(self.fn, i.ops[0]) and not (mem.opty(self.fn, i.ops[0]) or '').startswith('<') else Poly.atom(('vec', i.id))
            return [st]
        if op == 'load':
            st = st.copy()
            a = v(0)
            if a in st.cells:
                st.env[i.val] = st.cells[a]
            else:
                r = self.load(self, st, i, a) if self.load else None
                if r is None:
                    r = Poly.atom(i.val)
                    st.cells[a] = r
                st.env[i.val] = r
            return [st]
        if op in ('call', 'invoke'):
            if mem.ignorable(i):
                return [st]
            if i.callee:
                for nm, mx in (('llvm.smax', True), ('llvm.umax', True), ('llvm.smin', False), ('llvm.umin', False)):
                    if i.callee.startswith(nm):
                        a, b = v(0), v(1)
                        d = (a - b) if mx else (b - a)
                        out = []
                        for p, f in ((a, d), (b, -d - 1)):
                            s = st.with_(f)
                            s.env[i.val] = p
                            if s.feasible():
                                out.append(s)
                        return out
                if i.callee.startswith('llvm.expect'):
                    st = st.copy()
                    st.env[i.val] = v(0)
                    return [st]
            r = self.call(self, st, i, [self.val(st, o) for o in i.ops]) if self.call else None
            if r is not None:
                return r
            st = st.copy()
            for o in i.ops:
                if o[0] in ('i', 'a', 'gep'):
                    self.havoc(st, self.val(st, o), ('call', i.id))
            st.env[i.val] = Poly.atom(i.val)
            return [st]
        if op == 'select':
            if i.ty == 'i1':
                return [st]
            out = []
            for truth, k in ((True, 1), (False, 2)):
                for s in self.split(st, i.ops[0], truth):
                    s = s.copy()
                    s.env[i.val] = self.val(s, i.ops[k])
                    out.append(s)
            return out
        if op in ('icmp', 'fcmp'):
            return [st]
        st = st.copy()
        f = []
        r = self.arith(st, i, f)
        if r is None:
            r = Poly.atom(i.val)
        st.env[i.val] = r
        return [st.with_(*f)] if f else [st]

    def arith(self, st, i, f):
        op, v = i.op, lambda k: self.val(st, i.ops[k])
        if i.ty.startswith('<'):
            return None
        if op in ('zext', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            s = self.fn.inst(i.ops[0])
            if op == 'zext' and s is not None and s.ty == 'i1':
                a = Poly.atom(i.val)
                f += [a, P(1) - a]
                return a
            return v(0)
        if op == 'trunc':
            return v(0) if int(i.ty[1:]) >= 32 else None
        if op == 'getelementptr':
            r = v(0) + i.raw['off']
            for x, s in i.raw['var']:
                r = r + self.val(st, tup(x)) * s
            return r
        if op == 'add' or (op == 'or' and i.raw.get('disjoint')):
            return v(0) + v(1)
        if op == 'sub':
            return v(0) - v(1)
        if op == 'mul':
            return v(0) * v(1)
        c = v(1) if len(i.ops) > 1 else None
        if c is None or not c.is_const():
            return None
        a, c = v(0), c.cval()
        if op == 'shl' and 0 <= c < 64:
            return a * (1 << c)
        if op in ('lshr', 'ashr') and 0 <= c < 64:
            return self.fdiv(a, 1 << c, f)
        if op in ('udiv', 'sdiv') and c > 0 and (op == 'udiv' or st.proves(a)):
            return self.fdiv(a, c, f)
        if op in ('urem', 'srem') and c > 0 and (op == 'urem' or st.proves(a)):
            return a - self.fdiv(a, c, f) * c
        if op == 'and':
            if c >= 0 and (c & (c + 1)) == 0:
                return a - self.fdiv(a, c + 1, f) * (c + 1)
            if c < 0 and (-c & (-c - 1)) == 0:
                return self.fdiv(a, -c, f) * -c
        if op == 'xor' and c == -1:
            return -a - 1
        return None

    def fdiv(self, a, k, f):
        if k == 1 or a.divides(k):
            return a.div(k)
        q = Poly({m: c // k for m, c in a.t.items() if c % k == 0})
        r = Poly({m: c for m, c in a.t.items() if c % k})
        if r.is_const():
            return q + r.cval() // k
        x = Poly.atom(('fdiv', repr(r), k))
        f += [r - x * k, x * k + (k - 1) - r]
        return q + x
