"""Disjunctive typestate analysis over one flattened function.

A state is a set of facts plus what is known about the (small) values branches
test: known constants and excluded constants.  States are joined only when they
are equal, so facts stay correlated with the boolean values that encode them
(e.g. "returned true" with "was packed").  The fixpoint is over finitely many
facts and constants; exceeding `cap` states is an analysis error.

Values are named canonically: a plain load is named by its address, so two loads
of the same cell are the same value until a store or call may change the cell.
"""
from collections import deque
from build import AnalysisError
from ir import tup


class Canon:
    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def __call__(self, o):
        if o in self.memo:
            return self.memo[o]
        r = self._c(o)
        self.memo[o] = r
        return r

    def _c(self, o):
        k = o[0]
        if k == 'c':
            return ('c', o[1])
        if k == 'n':
            return ('c', 0)
        if k == 'gep':
            return self.addr(o)
        if k != 'i':
            return o
        i = self.fn.byid[o[1]]
        if i.op == 'load' and i.get('ord', 'not_atomic') in ('not_atomic', None):
            return ('ld', self.addr(i.ops[0]))
        if i.op in ('sext', 'zext', 'freeze', 'bitcast'):
            return self(i.ops[0])
        if i.op == 'getelementptr':
            return self.addr(o)
        if i.op == 'phi':
            self.memo[o] = o            # cycle guard
            ins = {self(v) for _, v in self.fn.phi_in(i)} - {o}
            if len(ins) == 1:
                r = next(iter(ins))
                if r[0] == 'ld' or r[0] in ('a', 'g'):
                    return r
            return o
        if i.op == 'extractvalue':
            return ('xv', self(i.ops[0]), tuple(i.get('idx') or ()))
        return o

    def addr(self, o):
        r, off, var = self.fn.addr(o)
        vs = []
        for v, s in var:
            c = self(v)
            if c[0] == 'c':
                off += c[1] * s
            else:
                vs.append((c, s))
        return ('p', self(r), off, tuple(sorted(vs, key=repr)))


def mentions(f, ids, lds):
    """Collects instruction ids and load addresses occurring in a fact."""
    if isinstance(f, tuple):
        if len(f) == 2 and f[0] == 'i':
            ids.add(f[1])
            return
        if len(f) == 2 and f[0] == 'ld':
            lds.add(f[1])
        for x in f:
            mentions(x, ids, lds)


class State:
    __slots__ = ('eng', 'facts', 'vals', 'nots')

    def __init__(self, eng, facts, vals, nots):
        self.eng, self.facts, self.vals, self.nots = eng, set(facts), dict(vals), set(nots)

    def key(self):
        return (frozenset(self.facts), frozenset(self.vals.items()), frozenset(self.nots))

    def add(self, *f):
        self.facts.add(f)

    def drop(self, pred):
        self.facts = {f for f in self.facts if not pred(f)}

    def has(self, *f):
        return f in self.facts

    # ---- canonical names, with indices that are known constants filled in
    def c(self, o):
        return self.res(self.eng.c(o))

    def addr(self, o):
        return self.res(self.eng.c.addr(o))

    def deref(self, c):
        """The value a pointer phi was last given, when known."""
        for f in self.facts:
            if f[0] == 'eq' and f[1] == c:
                return f[2]
        return c

    def res(self, f):
        ids, _ = self.eng.ment(f)
        if not ids or not any(('i', x) in self.vals for x in ids):
            return f
        return self._res(f)

    def _res(self, f):
        if not isinstance(f, tuple) or not f:
            return f
        if f[0] == 'p' and len(f) == 4:
            off, vs = f[2], []
            for v, s in f[3]:
                v = self._res(v)
                k = self.vals.get(v)
                if v[0] == 'c':
                    k = v[1]
                if k is not None and off is not None:
                    off += k * s
                else:
                    vs.append((v, s))
            return ('p', self._res(f[1]), off, tuple(vs))
        if f[0] == 'ld':
            return ('ld', self._res(f[1]))
        if f[0] == 'i' and f in self.vals:
            return ('c', self.vals[f])
        return f

    # ---- evaluation under what is known
    def ev(self, o):
        c = self.c(o)
        if c[0] == 'c':
            return c[1]
        if c in self.vals:
            return self.vals[c]
        i = self.eng.fn.inst(o)
        if i is None:
            return None
        if i.op == 'icmp' and i.raw['pred'] in ('eq', 'ne'):
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            r = None
            if a is not None and b is not None:
                r = a == b
            elif b is not None and (self.c(i.ops[0]), b) in self.nots:
                r = False
            elif a is not None and (self.c(i.ops[1]), a) in self.nots:
                r = False
            if r is None:
                return None
            return int(r == (i.raw['pred'] == 'eq'))
        if i.op in ('zext', 'sext', 'freeze', 'trunc'):
            v = self.ev(i.ops[0])
            return None if v is None else (v & 1 if i.op == 'trunc' and i.ty == 'i1' else v)
        if i.op == 'xor':
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            if a is not None and b is not None:
                return (a & 1) ^ (b & 1) if i.ty == 'i1' else a ^ b
        if i.op == 'and':
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            if a == 0 or b == 0:
                return 0
            if a is not None and b is not None:
                return a & b
        if i.op == 'or':
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            if i.ty == 'i1' and (a or b):
                return 1
            if a is not None and b is not None:
                return a | b
        if i.op == 'select':
            s = self.ev(i.ops[0])
            if s is not None:
                return self.ev(i.ops[1] if s & 1 else i.ops[2])
        return None

    def assume(self, o, truth):
        """Refines by an i1 operand; False when contradictory."""
        v = self.ev(o)
        if v is not None:
            return bool(v & 1) == truth
        i = self.eng.fn.inst(o)
        if i is None:
            self.vals[self.c(o)] = int(truth)
            return True
        if i.op == 'icmp' and i.raw['pred'] in ('eq', 'ne'):
            eq = (i.raw['pred'] == 'eq') == truth
            for x, y in ((0, 1), (1, 0)):
                cv = self.ev(i.ops[y])
                if cv is not None:
                    k = self.c(i.ops[x])
                    if eq:
                        if (k, cv) in self.nots:
                            return False
                        return self.setval(i.ops[x], cv)
                    self.nots.add((k, cv))
                    inner = self.eng.fn.inst(i.ops[x])
                    if inner is not None and cv == 0 and inner.op in ('zext', 'sext') and self.eng.fn.inst(inner.ops[0]) is not None and self.eng.fn.inst(inner.ops[0]).ty == 'i1':
                        return self.assume(inner.ops[0], True)
                    return True
            self.vals[('i', i.id)] = int(truth)
            return True
        if i.op == 'xor' and i.ops[1][0] == 'c':
            return self.assume(i.ops[0], not truth)
        if i.op == 'freeze':
            return self.assume(i.ops[0], truth)
        if (i.op == 'and' and truth) or (i.op == 'or' and not truth):
            return self.assume(i.ops[0], truth) and self.assume(i.ops[1], truth)
        if i.op == 'select':
            if truth and i.ops[2][0] == 'c' and i.ops[2][1] == 0:
                return self.assume(i.ops[0], True) and self.assume(i.ops[1], True)
            if not truth and i.ops[1][0] == 'c' and i.ops[1][1] != 0:
                return self.assume(i.ops[0], False) and self.assume(i.ops[2], False)
        c = self.c(o)
        self.vals[c] = int(truth)
        if i.op == 'extractvalue' and c[0] == 'xv' and c[2] == (1,):
            x = self.eng.fn.inst(i.ops[0])
            if x is not None and x.op == 'cmpxchg':
                e = self.ev(x.ops[1])
                if e is not None:
                    old = ('xv', c[1], (0,))
                    if truth:
                        self.vals[old] = e
                    elif not x.get('weak'):
                        self.nots.add((old, e))
        return True

    def setval(self, o, cv):
        k = self.c(o)
        if k[0] == 'c':
            return k[1] == cv
        if k in self.vals and self.vals[k] != cv:
            return False
        self.vals[k] = cv
        i = self.eng.fn.inst(o)
        if i is not None and i.op in ('zext', 'sext', 'freeze'):
            j = self.eng.fn.inst(i.ops[0])
            if j is not None and j.ty == 'i1' and cv in (0, 1, -1):
                return self.assume(i.ops[0], bool(cv))
        return True

    def kill(self, pred_id=None, addr=None):
        """Forgets everything that depends on an instruction or an overwritten cell."""
        e = self.eng

        def dead(f):
            ids, lds = e.ment(f)
            if pred_id is not None and pred_id in ids:
                return True
            if addr is not None:
                for a in lds:
                    if e.may_alias(a, addr):
                        return True
            return False
        for f in [f for f in self.facts if dead(f)]:
            if e.on_kill:
                e.on_kill(self, f)
            self.facts.discard(f)
        for k in [k for k in self.vals if dead(k)]:
            del self.vals[k]
        self.nots = {k for k in self.nots if not dead(k[0])}


class Engine:
    def __init__(self, fn, transfer, on_edge=None, on_kill=None, cap=20000, immutable=None):
        self.fn, self.transfer, self.on_edge, self.on_kill, self.cap = fn, transfer, on_edge, on_kill, cap
        self.c = Canon(fn)
        self._m = {}
        self._al = {}
        self.immutable = immutable or (lambda a: False)
        self.live = self._liveness()

    def ment(self, f):
        r = self._m.get(f)
        if r is None:
            ids, lds = set(), set()
            mentions(f, ids, lds)
            r = self._m[f] = (ids, lds)
        return r

    def rootkind(self, a):
        r = a[1]
        if r[0] == 'i' and self.fn.byid[r[1]].op == 'alloca':
            return ('alloca', r[1])
        return ('mem', r)

    def may_alias(self, a, b):
        k = (a, b)
        if k in self._al:
            return self._al[k]
        self._al[k] = r = self._alias(a, b)
        return r

    def names(self, a):
        """(class, member) names of a canonical address, via any operand with it."""
        return self._names().get(a, frozenset())

    def _names(self):
        if not hasattr(self, '_nm'):
            m = {}
            for i in self.fn.instrs():
                p = self.fn.ptr_operand(i)
                if p is not None:
                    a = self.c.addr(p)
                    m.setdefault(a, set()).update(self.fn.fields(p))
            self._nm = m
        return self._nm

    def _alias(self, a, b):
        if self.immutable(a):
            return False
        ra, rb = self.rootkind(a), self.rootkind(b)
        if b[2] is None:                 # whole object
            return ra == rb
        if ra[0] == 'alloca' and rb[0] == 'alloca' and ra != rb:
            return False
        if (ra[0] == 'alloca') != (rb[0] == 'alloca'):
            return False                 # locals are only reached through their own address here
        if ra == rb and not a[3] and not b[3]:
            return a[2] == b[2]
        na, nb = self.names(a), self.names(b)
        if na and nb and not (set(na) & set(nb)):
            return False
        return True

    def _liveness(self):
        """Blocks -> instruction ids whose value may still be used."""
        fn = self.fn
        use, deff = {}, {}
        for b, B in fn.blocks.items():
            u, d = set(), set()
            for i in B.ins:
                if i.op != 'phi':
                    for o in i.ops:
                        if o[0] == 'i' and o[1] not in d:
                            u.add(o[1])
                    if i.get('cv'):
                        v = tup(i.get('cv'))
                        if v[0] == 'i' and v[1] not in d:
                            u.add(v[1])
                d.add(i.id)
            use[b], deff[b] = u, d
        live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in sorted(fn.blocks, reverse=True):
                out = set()
                for s in fn.blocks[b].succ:
                    out |= live[s]
                    for i in fn.blocks[s].ins:
                        if i.op != 'phi':
                            break
                        for pb, v in fn.phi_in(i):
                            if pb == b and v[0] == 'i':
                                out.add(v[1])
                n = use[b] | (out - deff[b])
                if not n <= live[b]:
                    live[b] |= n
                    ch = True
        # a value is also needed while another live value is named through it
        for b in live:
            more = set()
            for x in live[b]:
                more |= self.ment(self.c(('i', x)))[0]
            live[b] |= more
        return live

    def run(self, init=()):
        fn = self.fn
        seen = {b: set() for b in fn.blocks}
        work = deque()
        n = 0

        def push(b, st):
            # SSA-valued knowledge of values no longer used is dropped
            lv = self.live[b]
            phis = {i.id for i in fn.blocks[b].ins if i.op == 'phi'}

            def keep(k):
                ids, lds = self.ment(k)
                return bool(lds) or not ids or any(x in lv or x in phis for x in ids)
            st.vals = {k: v for k, v in st.vals.items() if keep(k)}
            st.nots = {k for k in st.nots if keep(k[0])}
            k = st.key()
            if k not in seen[b]:
                seen[b].add(k)
                work.append((b, k))
        push(fn.entry, State(self, init, {}, ()))
        while work:
            b, k = work.popleft()
            n += 1
            if n > self.cap:
                raise AnalysisError('typestate analysis of %s exceeds %d states' % (fn.dem, self.cap))
            st = State(self, *k)
            B = fn.blocks[b]
            for i in B.ins:
                if i.op == 'phi':
                    continue
                if i.ty != 'void':
                    st.kill(pred_id=i.id)
                self.transfer(i, st)
                self._writes(i, st)
            t = fn.term(b)
            for s in B.succ:
                ns = State(self, st.facts, st.vals, st.nots)
                if t.op == 'br' and len(t.ops) == 3:
                    fs, ts = t.ops[1][1], t.ops[2][1]
                    if fs != ts and not ns.assume(t.ops[0], s == ts):
                        continue
                elif t.op == 'switch':
                    vs = [int(v) for v, d in t.raw['cases'] if d == s]
                    if s != t.raw['default'] and len(vs) == 1:
                        v = ns.ev(t.ops[0])
                        if v is not None and v != vs[0]:
                            continue
                        if (ns.c(t.ops[0]), vs[0]) in ns.nots:
                            continue
                        if not ns.setval(t.ops[0], vs[0]):
                            continue
                    elif s == t.raw['default'] and not vs:
                        v = ns.ev(t.ops[0])
                        cs = [int(v_) for v_, d in t.raw['cases']]
                        if v is not None and v in cs:
                            continue
                        for c in cs:
                            ns.nots.add((ns.c(t.ops[0]), c))
                if self.on_edge and self.on_edge(b, s, ns) is False:
                    continue
                # phis, evaluated simultaneously
                new = {}
                ids = []
                eqs = []
                for i in fn.blocks[s].ins:
                    if i.op != 'phi':
                        break
                    ids.append(i)
                    for pb, v in fn.phi_in(i):
                        if pb == b:
                            c = ns.ev(v)
                            if c is not None:
                                new[('i', i.id)] = c
                            elif i.ty == 'ptr':
                                eqs.append(('eq', ('i', i.id), ns.deref(ns.c(v))))
                            elif v[0] == 'i':
                                for kk, x in list(ns.nots):
                                    if kk == ns.c(v):
                                        new[(('i', i.id), x)] = None
                for i in ids:
                    ns.kill(pred_id=i.id)
                for f in eqs:
                    if not any(i.id in self.ment(f[2])[0] for i in ids):
                        ns.facts.add(f)
                for kk, c in new.items():
                    if c is None:
                        ns.nots.add(kk)
                    else:
                        ns.vals[kk] = c
                push(s, ns)
        self.states = n
        self.seen = seen
        return seen

    def _writes(self, i, st):
        fn = self.fn
        if i.op == 'store':
            a = st.addr(i.ops[1])
            st.kill(addr=a)
            st.drop(lambda f: f[0] == 'st' and self.may_alias(f[1], a))
            st.facts.add(('st', a, st.c(i.ops[0])))
        elif i.op in ('call', 'invoke'):
            cal = i.callee or ''
            if cal.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')):
                return
            moved = []
            if cal.startswith(('llvm.memcpy', 'llvm.memmove')) and i.ops[2][0] == 'c':
                d, a, n = st.addr(i.ops[0]), st.addr(i.ops[1]), i.ops[2][1]
                for f in st.facts:
                    if f[0] == 'st' and f[1][1] == a[1] and f[1][3] == a[3] and a[2] <= f[1][2] < a[2] + n:
                        moved.append(('st', ('p', d[1], f[1][2] - a[2] + d[2], d[3]), f[2]))
                if self.on_copy:
                    self.on_copy(i, st, d, moved)
            ptrs = i.ops[:1] if cal.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) else i.ops
            ro = i.get('ro') or []
            for n, o in enumerate(ptrs):
                if o[0] not in ('i', 'gep'):
                    continue
                a = st.addr(o)
                if self.rootkind(a)[0] == 'alloca' and not self.readonly_arg(i, n):
                    # a callee may write anything in the object it is handed
                    w = a if self.out_scalar(i, n) else ('p', a[1], None, ())
                    st.kill(addr=w)
                    st.drop(lambda f: f[0] == 'st' and self.may_alias(f[1], w))
            st.facts.update(moved)

    on_copy = None

    def _sig(self, call):
        k = ('sig', call.id)
        if k not in self._al:
            self._al[k] = params_of(call.dem) if call.dem else None
        ps = self._al[k]
        if ps is None:
            return None
        d = len(call.ops) - len(ps)     # implicit this comes first
        return [''] * d + ps if d >= 0 else None

    def readonly_arg(self, call, n):
        ps = self._sig(call)
        return bool(ps) and n < len(ps) and (ps[n].endswith('const&') or ps[n].endswith('const*'))

    def out_scalar(self, call, n):
        ps = self._sig(call)
        return bool(ps) and n < len(ps) and ps[n].rstrip('*&').strip() in SCALARS


SCALARS = ('int', 'bool', 'float', 'double', 'long', 'unsigned int', 'unsigned long', 'char', 'signed char',
           'unsigned char', 'short', 'unsigned short')


def params_of(dem):
    """Parameter types of a demangled function signature."""
    d = 0
    end = dem.rfind(')')
    if end < 0:
        return None
    k = end
    while k >= 0:
        ch = dem[k]
        if ch in ')>':
            d += 1
        elif ch in '(<':
            d -= 1
            if d == 0 and ch == '(':
                break
        k -= 1
    out, cur, d = [], '', 0
    for ch in dem[k + 1:end]:
        if ch in '(<[':
            d += 1
        elif ch in ')>]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip() and cur.strip() != 'void':
        out.append(cur.strip())
    return out
