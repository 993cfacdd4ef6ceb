"""C05, C06, L01: what threads, contexts and successive multiplications share."""
import re
from build import flatten, AnalysisError
from ir import Module, tup
from scev import Sym
from sym import Poly, P, entails
from conc import edge_facts, edge_excludes_eq, locksets, sources
import mem

KEEP = (r'^ruy::(MakeBlockMap|ThreadPool::|IsObviously|Allocator::|Ctx::EnsureThread|detail::System)|'
        r'std::vector<std::unique_ptr<ruy::ThreadSpecificResource.*>::(emplace_back|push_back)')
ENSURE = r'^ruy::Ctx::EnsureThreadSpecificResources'
GROW = re.compile(r'(^| )std::vector<std::unique_ptr<ruy::ThreadSpecificResource.*>::(emplace_back|push_back)')
# library functions a task may call: they write nothing but what their arguments own
PURE = re.compile(r'^(llvm\.|cpuinfo_(get|has)_|clock_gettime$|sched_getcpu$|memcmp$|bcmp$|abort$|snprintf$|fprintf$|fputs$|fwrite$|__errno_location$|strlen$)')


class Shared:
    """TrMul and the task of each thread, with everything that has state inlined."""

    def __init__(self):
        import trmul
        self.T = T = trmul.TM(keep=KEEP, roots=[ENSURE])
        self.mod, self.tm, self.run = T.mod, T.tm, T.run
        self.S = Sym(self.tm)
        ex = list(self.tm.calls(r'^(void )?ruy::ThreadPool::Execute'))
        from dis import Canon
        self.cn = cn = Canon(self.tm)
        if not ex or len({cn(e.ops[1]) for e in ex}) != 1 or len({self.tm.addr(e.ops[3]) for e in ex}) != 1:
            raise AnalysisError('anchor vanished: batch execution (%d sites)' % len(ex))
        self.exs, self.ex = ex, ex[0]
        self.buf = self.tm.addr(self.ex.ops[3])
        self.given = {}
        for i in self.tm.instrs():
            if i.op == 'store' and self.in_buf(i.ops[1]):
                d = self.S.opnd(i.ops[1]) - Poly.atom(self.buf[0])
                self.given.setdefault(d.t.get((), 0) % T.task['size'], []).append(i)
        if not self.given:
            raise AnalysisError('anchor vanished: no task is set up')
        self._own = {}

    def in_buf(self, o):
        """Address in the memory that holds the tasks."""
        return self.tm.addr(o)[0] == self.buf[0] or self.S.opnd(o).t.get((self.buf[0],)) == 1

    # ---- what each task is given
    def own(self, off):
        """Pointer member at this offset points to something no other task is given."""
        if off not in self._own:
            st = self.given.get(off, [])
            self._own[off] = bool(st) and all(self.distinct(i) for i in st)
        return self._own[off]

    def null(self, off):
        st = self.given.get(off, [])
        return bool(st) and all(i.ops[0][0] == 'n' for i in st)

    def distinct(self, i):
        """The value stored is read from a different slot for every task."""
        fn, S = self.tm, self.S
        L = fn.innermost(i.blk)
        if L is None:
            return False
        it = ('it', L.id)
        ta = S.opnd(i.ops[1]).coeff(it)
        if ta is None or not ta[0].is_const() or abs(ta[0].cval()) < self.T.task['size']:
            return False
        r, off, var = fn.addr(i.ops[0])
        l = fn.inst(r)
        if var or l is None or l.op != 'load' or l.blk not in L.blocks:
            return False
        p = S.opnd(l.ops[0]).coeff(it)
        if p is None or not p[0].is_const() or abs(p[0].cval()) < 8:
            return False
        body = set(L.blocks)
        quiet = all(not (x.op == 'call' and not (x.callee or '').startswith('llvm.')) and
                    not (x.op == 'store' and not self.in_buf(x.ops[1]) and not self.elsewhere(x, l)) for b in body for x in fn.blocks[b].ins)
        for a in p[1].atoms():
            x = fn.inst(a) if a[0] == 'i' else None
            if x is not None and x.blk in body:
                if not (quiet and x.op == 'load' and it not in S.opnd(x.ops[0]).atoms()):
                    return False
            if a[0] == 'it' and a[1] == L.id:
                return False
        return True

    def elsewhere(self, st, l):
        """The store is to a member of a class that has no part in finding the slot."""
        fn = self.tm
        fs = {c for c, _m in fn.fields(st.ops[1])}
        used, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x is None or x in used:
                continue
            used.add(x)
            todo += [fn.inst(o) for o in x.ops] if x.op != 'phi' else []
        ls = {c for x in used if x.op == 'load' for c, _m in fn.fields(x.ops[0])}
        return bool(fs) and not fs & ls

    def slot_ok(self, i):
        """The slot read is below the number of tasks."""
        fn, S = self.tm, self.S
        l = fn.inst(fn.addr(i.ops[0])[0])
        p = S.opnd(l.ops[0])
        base = [a for a in p.atoms() if a[0] == 'i' and fn.inst(a).ty == 'ptr']
        if len(base) != 1:
            return False
        off = p - Poly.atom(base[0])
        n = S.opnd(self.ex.ops[1])
        F = S.facts_at(i.blk)
        L = fn.innermost(i.blk)
        if L.btc and L.btc[0] != 'cnc':
            F.add(S.scev(L.btc) - Poly.atom(('it', L.id)))
        return F.prove(off) and F.prove(n * 8 - off - 8)

    # ---- what a task writes
    def kind(self, o, seen=None):
        """'own', 'shared' or 'null': who can reach the object an address of the task points into."""
        seen = seen or set()
        fn = self.run
        r, off, var = fn.addr(o)
        if r in seen:
            return 'null'
        seen = seen | {r}
        if r == ('a', 0):
            return 'own'
        if r[0] == 'n':
            return 'null'
        i = fn.inst(r)
        if i is None:
            return 'shared'
        if i.op == 'alloca':
            return 'own'
        if i.op in ('phi', 'select'):
            ks = {self.kind(v, seen) for v in ([v for _b, v in fn.phi_in(i)] if i.op == 'phi' else i.ops[1:])} - {'null'}
            return 'null' if not ks else 'own' if ks == {'own'} else 'shared'
        if i.op == 'call':
            if re.match(r'ruy::Allocator::Allocate', i.dem or '') or re.match(r'\S* ?ruy::Allocator::Allocate', i.dem or ''):
                return self.kind(i.ops[0], seen)
            if i.callee in ('_Znwm', '_Znam', 'malloc', 'aligned_alloc'):
                return 'own'
            return 'shared'
        if i.op == 'load':
            q, qo, qv = fn.addr(i.ops[0])
            if q == ('a', 0):
                if qv:          # an element of an array member
                    offs = self.span(qo)
                    return 'own' if offs and all(self.member(x, seen) == 'own' for x in offs) else 'shared'
                return self.member(qo, seen)
            k = self.kind(i.ops[0], seen)
            if k == 'own':
                x = fn.inst(q)
                if x is not None and x.op == 'alloca':      # a pointer kept in a local variable
                    vs = [s.ops[0] for s in fn.instrs() if s.op == 'store' and fn.addr(s.ops[1])[0] == q]
                    ks = {self.kind(v, seen) for v in vs} - {'null'}
                    return 'own' if ks <= {'own'} and vs else 'shared'
                return 'own'
            return 'shared'
        return 'shared'

    def span(self, off):
        for m in self.T.task['members']:
            if m[1] <= off < m[1] + m[2] and m[2] % 8 == 0 and not m[4]:
                return list(range(m[1], m[1] + m[2], 8))
        return []

    def member(self, off, seen):
        """Who can reach what a pointer member of the task points to."""
        fn = self.run
        vs = []
        for s in fn.instrs():
            if s.op == 'store':
                r, o, v = fn.addr(s.ops[1])
                if r == ('a', 0) and (o == off and not v or v and off in self.span(o)):
                    vs.append(s.ops[0])
        if self.own(off) or self.null(off) or off not in self.given:
            ks = {self.kind(v, seen) for v in vs} - {'null'}
            if off not in self.given and not vs:
                return 'shared'
            return 'own' if ks <= {'own'} else 'shared'
        return 'shared'

    def writes(self):
        """(instruction, address) of everything the task may write."""
        fn = self.run
        for i in fn.instrs():
            if i.op == 'store':
                yield i, i.ops[1], i.get('ord') in (None, 'not_atomic')
            elif i.op in ('atomicrmw', 'cmpxchg'):
                yield i, i.ops[0], False
            elif i.op == 'call':
                c, d = i.callee or '', i.dem or ''
                if re.match(r'llvm\.mem(cpy|move|set)\.|mem(cpy|move|set)$', c):
                    yield i, i.ops[0], True
                elif 'ruy::Allocator::' in d:
                    yield i, i.ops[0], True
                elif re.match(r'(\w+ )?ruy::GetBlock', d):
                    for o in i.ops[1:]:
                        if fn.inst(o) is not None and fn.inst(o).ty == 'ptr':
                            yield i, o, True
                elif PURE.match(c) or c.startswith('pthread_mutex_') or self.T.callee_member(fn, i) in ('run_pack', 'run_kernel'):
                    continue
                elif c == 'cpuinfo_initialize':
                    continue
                else:
                    for o in i.ops:
                        x = fn.inst(o)
                        if o[0] == 'a' or x is not None and x.ty == 'ptr':
                            yield i, o, True

    # ---- initialised before sharing
    def once(self, i, addr):
        """Runs only if a member of the shared object has a value it cannot have while threads run."""
        fn = self.run
        r, off, var = fn.addr(addr)
        l = fn.inst(r)
        if l is None or l.op != 'load' or fn.addr(l.ops[0])[0] != ('a', 0) or fn.addr(l.ops[0])[2]:
            return False
        mo = fn.addr(l.ops[0])[1]
        objs = {self.tm.addr(s.ops[0]) for s in self.given.get(mo, [])}
        if len(objs) != 1:
            return False
        obj = next(iter(objs))
        if obj[2]:
            return False
        S = Sym(fn)
        idom = fn.idom()
        b = i.blk
        while True:
            for p in fn.blocks[b].preds:
                if len(fn.blocks[b].preds) == 1:
                    for f in self.equalities(fn, S, p, b):
                        g = fn.inst(f[0])
                        if g is not None and g.op == 'load':
                            gr, go, gv = fn.addr(g.ops[0])
                            same = gr == r or self.same_member(gr, l)
                            if same and not gv and self.excluded(obj, go, f[1]):
                                return True
            if idom.get(b, b) == b:
                return False
            b = idom[b]

    def same_member(self, r, l):
        x = self.run.inst(r)
        return x is not None and x.op == 'load' and self.run.addr(x.ops[0]) == self.run.addr(l.ops[0])

    def equalities(self, fn, S, p, b):
        """(operand, constant) known equal on this edge."""
        t = fn.term(p)
        if t.op == 'br' and len(t.ops) == 3:
            c = fn.inst(t.ops[0])
            truth = t.ops[2][1] == b
            if c is not None and c.op == 'icmp' and c.raw['pred'] == ('eq' if truth else 'ne') and c.ops[1][0] == 'c':
                yield c.ops[0], c.ops[1][1]
        elif t.op == 'switch':
            vs = [int(v) for v, s in t.raw['cases'] if s == b]
            if len(vs) == 1 and t.raw['default'] != b:
                yield t.ops[0], vs[0]

    def excluded(self, obj, off, k):
        """On every path to the batch the member differs from k, and nothing sets it back."""
        fn, S = self.tm, self.S
        cell = (obj[0], obj[1] + off, ())
        good = []
        for s in fn.instrs():
            if s.op == 'store' and fn.addr(s.ops[1]) == cell:
                vs = sources(fn, s.ops[0])
                if not all(v[0] == 'c' and v[1] != k for v in vs):
                    return False
                good.append(s)
        lds = [l for l in fn.instrs() if l.op == 'load' and fn.addr(l.ops[0]) == cell]

        def edge(b, s):
            return any(edge_excludes_eq(fn, S, b, s, Poly.atom(l.val), k) for l in lds)
        if fn.path(None, lambda i: i in self.exs, lambda i: i in good, edge) is not None:
            return False
        # the task itself only ever sets other values
        rn = self.run
        for s in rn.instrs():
            if s.op == 'store':
                q, o, v = rn.addr(s.ops[1])
                x = rn.inst(q)
                if o == off and x is not None and x.op == 'load' and rn.addr(x.ops[0])[0] == ('a', 0) \
                        and {self.tm.addr(y.ops[0]) for y in self.given.get(rn.addr(x.ops[0])[1], [])} == {obj}:
                    if not all(z[0] == 'c' and z[1] != k for z in sources(rn, s.ops[0])):
                        return False
        return True


def grow(f):
    return [i for i in f.calls() if GROW.search(i.dem or '')]


def resources(rep, sh, enough, fresh, own):
    """Per-thread resources: enough of them, each new, each task its own."""
    e = sh.mod.one(ENSURE)
    S = Sym(e)
    n = S.opnd(('a', 1))
    gs = grow(e)
    if not gs:
        raise AnalysisError('anchor vanished: per-thread resources are never added')
    vecs = {e.addr(g.ops[0]) for g in gs}
    if len(vecs) != 1:
        raise AnalysisError('per-thread resources are kept in several places')
    v = next(iter(vecs))
    cells = {(v[0], v[1], v[2]), (v[0], v[1] + 8, v[2])}

    def size_like(o, depth=0):
        """A value computed from begin and end of the list only."""
        i = e.inst(o)
        if i is None:
            return o[0] == 'c'
        if i.op == 'load':
            return e.addr(i.ops[0]) in cells
        if i.op in ('sub', 'lshr', 'ashr', 'sdiv', 'udiv', 'trunc', 'zext', 'sext', 'ptrtoint', 'freeze') and depth < 8:
            return all(size_like(x, depth + 1) for x in i.ops)
        return False

    sizes = []
    for i in e.instrs():
        if i.op in ('trunc', 'lshr', 'ashr', 'sdiv', 'udiv', 'zext', 'sext') and size_like(i.val) and i.ty in ('i32', 'i64') \
                and not all(x[0] == 'c' for x in i.ops):
            a = S.opnd(i.val)
            if any(x.op in ('lshr', 'ashr', 'sdiv', 'udiv') for x in chain(e, i)):
                sizes.append((i, a))

    def edge(b, s):
        f = edge_facts(e, S, b, s)
        if f and any(entails(list(f) + S.side, a - n) for _i, a in sizes):
            return True
        # a loop that adds one resource per iteration, as many as were missing
        for L in e.loops:
            if b in L.blocks and s not in L.blocks and L.btc and L.btc[0] != 'cnc' and len(L.exits) == 1:
                inl = [g for g in gs if g.blk in L.blocks]
                lat = [x for x in L.blocks if L.header in e.blocks[x].succ]
                if len(inl) == 1 and e.innermost(inl[0].blk) is L and all(e.dominates_b(inl[0].blk, x) for x in lat):
                    runs = S.scev(L.btc) + (1 if e.dominates_b(inl[0].blk, b) else 0)
                    F = S.facts_at(b)
                    if any(i.blk not in L.blocks and F.prove(a + runs - n) for i, a in sizes):
                        return True
        return False
    w = e.path(None, lambda i: i.op == 'ret', lambda i: False, edge)
    rep.check(w is None, enough, e.dem, 'a call can return with fewer per-thread resources than threads')
    ca = {id(c): c for c in sh.tm.calls(ENSURE)}
    cn = sh.cn
    rep.check(any(cn(c.ops[1]) == cn(sh.ex.ops[1]) and all(sh.tm.dominates(c, x) for x in sh.exs) and
                  all(sh.tm.dominates(c, s) for o in sh.given for s in sh.given[o] if sh.own(o)) for c in ca.values()),
              enough, sh.ex.where(), 'tasks are set up without per-thread resources for each of them')
    for g in gs:
        x = e.inst(e.addr(g.ops[1])[0])
        vs = [s.ops[0] for s in e.instrs() if s.op == 'store' and x is not None and e.addr(s.ops[1])[0] == x.val]
        leaf = set()
        for o in vs:
            leaf |= sources(e, o)
        news = [e.inst(o) for o in leaf if o[0] != 'n']
        ok = bool(news) and x.op == 'alloca' and all(i is not None and i.op == 'call' and i.callee == '_Znwm' for i in news)
        if ok:
            ok = e.path(g, lambda i: i in gs, lambda i: i in news) is None and e.path(None, lambda i: i is g, lambda i: i in news) is None
        rep.check(ok, fresh, g.where(), 'the resources added for a thread may be those of another one')
    lib = Module(flatten(roots=[r'^ruy::'], flags=['--no-inline', '--no-opt', '--no-scev', '--all'], tag='all'))
    for f in lib.fns.values():
        if f.dem.startswith('ruy::') and not re.search(r'::~', f.dem):
            for i in f.calls(r'std::vector<std::unique_ptr<ruy::ThreadSpecificResource.*>::(clear|erase|pop_back|resize|swap|operator=|assign|insert)\b'):
                rep.bad(fresh, i.where(), 'per-thread resources are removed or replaced')
    # each task its own
    n = 0
    for m in sh.T.task['members']:
        if re.search(r'(Allocator|TuningResolver) ?\*', m[3]):
            n += 1
            st = sh.given.get(m[1], [])
            rep.check(bool(st) and sh.own(m[1]), own, st[0].where() if st else sh.ex.where(),
                      'two tasks can be given the same %s' % m[3].rstrip(' *'))
            if st and sh.own(m[1]):
                rep.check(all(sh.slot_ok(i) for i in st), own, st[0].where(), 'a task is given resources beyond those that exist')
    if not n:
        raise AnalysisError('anchor vanished: tasks have no resources of their own')


def chain(f, i):
    out, todo = [], [i]
    while todo:
        x = todo.pop()
        if x is None or x in out:
            continue
        out.append(x)
        if x.op != 'load':
            todo += [f.inst(o) for o in x.ops]
    return out


def c05(rep, tier):
    sh = Shared()
    R = rep.rule
    R('enough', 'there are per-thread resources for every task before tasks are set up')
    R('fresh', 'the resources added for a thread are new, and are never removed or replaced')
    R('own', 'each task is given an allocator and tuning state no other task is given')
    R('private-writes', 'whatever a task writes non-atomically is its own: local, in the task, in its own resources or memory from its own allocator')
    R('init-before', 'shared state a task would initialise on first use has been initialised before the batch starts')
    rep.units += ['%s: %d blocks' % (f.dem, len(f.blocks)) for f in (sh.tm, sh.run)]
    rep.assume += ['packing routines and kernels write only the blocks they are asked for (M05, M08), each by one thread at a time (C03, C04)',
                   'the thread pool orders batches (C01)']
    resources(rep, sh, 'enough', 'fresh', 'own')
    fn = sh.run
    LS = locksets(fn, Sym(fn))
    for i, a, plain in sh.writes():
        if i.blk in fn.dead():
            continue
        k = sh.kind(a)
        if not plain:
            rep.ok('private-writes', i.where() + ' atomic')
            continue
        if k != 'shared':
            rep.ok('private-writes', '%s %s' % (i.where(), i.op))
            continue
        if LS[i] and all(LS[i]):
            rep.ok('private-writes', '%s %s under a mutex' % (i.where(), i.op))
            continue
        if i.op in ('store', 'call') and (i.op == 'store' or mem.is_memcpy(i) or mem.is_memset(i)) and sh.once(i, a):
            rep.ok('init-before', '%s %s' % (i.where(), i.op))
            continue
        what = sorted({'%s of %s' % (m, c.replace('ruy::', '')) for c, m in fn.fields(a)})
        rep.bad('private-writes', i.where(), 'threads of a multiplication share %s and write it without synchronisation' % (', '.join(what) or 'an object'))
    rep.need('private-writes', 1)
    rep.need('own', 1)
    rep.need('enough', 1)
    rep.need('fresh', 1)


# ---------------------------------------------------------------- C06

# keeps state of the whole process that another thread may be using
PROCESS = re.compile(r'^(setenv|unsetenv|putenv|clearenv|s?rand|s?random|[dejlmn]rand48|srand48|strtok|localtime|gmtime|asctime|ctime|signal|'
                     r'sigaction|sigprocmask|chdir|umask|setlocale|strerror|getpwnam|getpwuid|gethostbyname|setvbuf|freopen|'
                     r'setpriority|nice|sched_setaffinity|setrlimit|mallopt|malloc_trim)$')
LOCKING = re.compile(r'pthread_mutex_|pthread_rwlock_|__cxa_|condition_variable')
READONLY = re.compile(r'^(strlen|memcmp|bcmp|strcmp|strncmp|getenv|fprintf|snprintf|fputs|fwrite|puts|printf|abort|llvm\.(lifetime|assume|dbg|invariant).*)$')


class Escape:
    """Where addresses of a program-wide variable, and of what it points to, go."""

    def __init__(self, mod, g):
        self.mod, self.g = mod, g
        self.args = set()        # (function, argument)
        self.rets = set()        # functions that return such an address
        self.fields = set()      # members such an address is stored in
        self.through = {}        # function -> arguments it may return an address from
        while True:
            n = self.size()
            self.found = []
            for f in mod.fns.values():
                self.scan(f)
            if n == self.size():
                break

    def size(self):
        return len(self.args), len(self.rets), len(self.fields), sum(map(len, self.through.values()))

    def origins(self, f, o, seen=()):
        """'g' and argument numbers an address may come from."""
        r, off, var = f.addr(o)
        if r == ('g', self.g):
            return {'g'}
        if r[0] == 'a':
            return {r[1]}
        i = f.inst(r)
        if i is None or r in seen:
            return set()
        seen = seen + (r,)
        out = set()
        if i.op == 'phi':
            for _b, v in f.phi_in(i):
                out |= self.origins(f, v, seen)
        elif i.op == 'select':
            for v in i.ops[1:]:
                out |= self.origins(f, v, seen)
        elif i.op == 'call':
            if i.callee in self.rets:
                out.add('g')
            for k in self.through.get(i.callee, ()):
                out |= self.origins(f, i.ops[k], seen)
        elif i.op == 'load' and i.ty == 'ptr':
            out |= self.origins(f, i.ops[0], seen)
            if self.fields & set(f.fields(i.ops[0])):
                out.add('g')
        return out

    def derived(self, f, o):
        return any(x == 'g' or (f.name, x) in self.args for x in self.origins(f, o))

    def scan(self, f):
        if self.startup(f):
            return
        touched = None
        for i in f.instrs():
            if i.op == 'ret':
                org = self.origins(f, i.ops[0]) if i.ops else set()
                if 'g' in org:
                    self.rets.add(f.name)
                self.through.setdefault(f.name, set()).update(org - {'g'})
                continue
            ps = [k for k, o in enumerate(i.ops) if i.op in ('store', 'atomicrmw', 'cmpxchg', 'call') and
                  isinstance(o, tuple) and o and o[0] in ('i', 'a', 'g', 'gep') and self.derived(f, o)]
            if not ps:
                continue
            if touched is None:
                touched = (locksets(f, Sym(f)), self.guarded(f))
            locks, init = touched
            if i.op == 'store':
                if 1 in ps and i.get('ord') in (None, 'not_atomic') and not (locks[i] and all(locks[i])) and i.blk not in init:
                    self.found.append((f, i))
                if 0 in ps and 1 not in ps:
                    r = f.inst(f.addr(i.ops[1])[0])
                    if r is None or r.op != 'alloca':
                        self.fields |= set(f.fields(i.ops[1]))
            elif i.op == 'call':
                c = i.callee or ''
                if locks[i] and all(locks[i]) or i.blk in init or LOCKING.search(c) or READONLY.match(c):
                    continue
                if c in self.mod.fns:
                    self.args |= {(c, k) for k in ps}
                elif re.match(r'llvm\.mem(cpy|move)|mem(cpy|move)$', c):
                    if 0 in ps:
                        self.found.append((f, i))
                else:
                    self.found.append((f, i))

    def startup(self, f):
        return re.match(r'(_GLOBAL__sub_I_|__cxx_global_var_init|__tls_init)', f.name) is not None

    def guarded(self, f):
        """Blocks that run once, under the compiler's guard of a local static variable."""
        out = set()
        for c in f.calls():
            if c.callee != '__cxa_guard_acquire':
                continue
            for b in f.blocks:
                if b != c.blk and f.dominates_b(c.blk, b):
                    e = f.blocks[b].ins[0] if f.blocks[b].ins else None
                    # reachable after acquiring without having released
                    if f.path(c, lambda i: i.blk == b, lambda i: i.op == 'call' and i.callee in ('__cxa_guard_release', '__cxa_guard_abort')) is None:
                        continue
                    t = f.term(c.blk)
                    yes = self.acquired(f, c, t)
                    if yes is not None and f.dominates_b(yes, b) and \
                            any(i.op == 'call' and i.callee == '__cxa_guard_release' for x in f.blocks if f.dominates_b(yes, x)
                                for i in f.blocks[x].ins) and len(f.blocks[yes].preds) == 1:
                        out.add(b)
        return out

    def acquired(self, f, c, t):
        if t.op == 'br' and len(t.ops) == 3:
            x = f.inst(t.ops[0])
            if x is not None and x.op == 'icmp' and c.val in (x.ops[0], x.ops[1]):
                return t.ops[1][1] if x.raw['pred'] == 'eq' else t.ops[2][1]
        return None


def c06(rep, tier):
    R = rep.rule
    R('variables', 'a variable that outlives contexts is constant, per thread, or written only atomically, under a mutex or by its guarded initialisation')
    R('process', 'no call changes state of the whole process')
    mod = Module(flatten(roots=[r'ruy::|^verif_probe'], flags=['--no-scev', '--all'], tag='globals'))
    rep.units.append('%d functions of the library and of the client instantiations, %d program-wide variables' %
                     (len(mod.fns), len(mod.globals)))
    rep.assume.append('cpuinfo, the C++ runtime and the C library synchronise their own state')
    for n, g in sorted(mod.globals.items()):
        if not g['def'] and not (re.search(r'ruy', g['dem']) and not g['dem'].startswith('vtable')):
            continue
        if g['const'] or g['tls'] or n.startswith('_ZGV') or n.startswith('llvm.') or n.startswith('__'):
            rep.ok('variables', '%s: %s' % (g['dem'][:80], 'constant' if g['const'] else 'per thread or implicit'))
            continue
        esc = Escape(mod, n)
        for f, i in esc.found:
            rep.bad('variables', i.where(), '%s writes %s, which all contexts share, without synchronisation' % (f.dem.split('(')[0][:60], g['dem']))
        if not esc.found:
            rep.ok('variables', '%s: every write is synchronised' % g['dem'])
    for f in mod.fns.values():
        for c in f.calls():
            n = c.callee
            if n and n not in mod.fns and not n.startswith('llvm.'):
                rep.check(not PROCESS.match(n), 'process', c.where(), '%s changes state the whole process shares' % n)
    rep.need('variables', 1)
    rep.need('process', 1)


# ---------------------------------------------------------------- L01

SCRATCH = r'ruy::Allocator::Allocate'
FREE = r'ruy::Allocator::FreeAll'
MAINA = re.compile(r'ruy::Ctx::GetMainAllocator')
LKEEP = (r'ruy::(RunPack|RunKernel)|^ruy::TrMul\(|^ruy::(Allocator|PrepackedCache|ThreadPool)::|ruy::ThreadPool::Execute|^ruy::Ctx::Get(MainAllocator|ThreadSpecificAllocator)|'
         r'^ruy::(MakeBlockMap|IsObviously|Ctx::EnsureThread)')
LPROBES = ['mul_f32', 'mul_i8_u8', 'mulp_two']


def calls(f, pat):
    return [i for i in f.calls() if re.search(pat, i.dem or '')]


def l01(rep, tier):
    R = rep.rule
    R('freed', 'a multiplication that used the scratch memory of its context frees it before returning')
    R('kept', 'scratch memory is not freed before its last use')
    R('task-freed', 'a task that used the scratch memory of its thread frees it before returning')
    R('task-kept', 'a task does not use scratch memory it has freed')
    rep.assume.append('freeing a scratch allocator returns all of its memory (M01)')
    import trmul
    roots = ['^verif_probe::%s\\(' % p for p in LPROBES]
    T = trmul.TM(keep=LKEEP, roots=roots)
    tm, run = T.tm, T.run
    rep.units += ['%s: %d blocks' % (f.dem.split('(')[0], len(f.blocks)) for f in (tm, run)]

    def main(f, o):
        ss = sources(f, o)
        return bool(ss) and all(x is not None and x.op == 'call' and MAINA.search(x.dem or '') for x in (f.inst(s) for s in ss))

    def from_main(f):
        return [c for c in calls(f, SCRATCH) if main(f, c.ops[0])]

    # the multiplication
    frees_tm = [c for c in calls(tm, FREE) if main(tm, c.ops[0])]
    late = bool(frees_tm) and tm.path(None, lambda i: i.op == 'ret', lambda i: i in frees_tm) is None
    for r in roots:
        f = T.mod.one(r)
        rep.units.append('%s: %d blocks' % (f.dem.split('(')[0], len(f.blocks)))
        al = from_main(f)
        mids = calls(f, r'^ruy::TrMul\(')
        if not mids or not al:
            raise AnalysisError('anchor vanished: %s does not reach the middle end' % r)
        fr = [c for c in calls(f, FREE) if main(f, c.ops[0])]
        for u in al + mids:
            ok = f.path(u, lambda i: i.op == 'ret', lambda i: i in fr or late and i in mids) is None
            rep.check(ok, 'freed', u.where(), 'a multiplication can return without freeing scratch memory used here')
        use = mids + al + calls(f, r'ruy::RunPack|ruy::RunKernel') + [c for c in f.calls() if c.get('cv')]
        for a in al:
            for x in fr:
                if f.path(a, lambda i: i is x, lambda i: False) is None:
                    continue
                w = f.path(x, lambda i: i in use, lambda i: False)
                rep.check(w is None, 'kept', x.where(), 'scratch memory of this multiplication is freed here although the multiplication goes on')
    for c in calls(tm, FREE):
        if not main(tm, c.ops[0]):
            continue
        w = tm.path(c, lambda i: scratch_use(tm, i), lambda i: False)
        rep.check(w is None, 'kept', c.where(), 'packed operands or task state are freed here although the multiplication goes on')
    rep.ok('kept', 'middle end: %d frees' % len(frees_tm))
    # the tasks
    own = {m[1] for m in T.task['members'] if re.search(r'Allocator ?\*', m[3])}
    if not own:
        raise AnalysisError('anchor vanished: tasks have no scratch allocator')

    def mine(o):
        r, off, var = run.addr(o)
        l = run.inst(r)
        if l is None or l.op != 'load' or off or var:
            return False
        q, qo, qv = run.addr(l.ops[0])
        return q == ('a', 0) and qo in own and not qv
    al = [c for c in calls(run, SCRATCH)]
    fr = [c for c in calls(run, FREE)]
    for c in al + fr:
        if not mine(c.ops[0]):
            rep.bad('task-freed', c.where(), 'a task allocates from or frees a scratch allocator that is not its own')
    if not al:
        rep.ok('task-freed', 'tasks allocate nothing')
    later = after_batch(tm, T)
    for a in al:
        w = run.path(a, lambda i: i.op == 'ret', lambda i: i in fr)
        rep.check(w is None or later, 'task-freed', a.where(), 'a task can return without freeing scratch memory it allocates here')
    holds = set()
    for s in run.instrs():
        if s.op == 'store':
            q, o, v = run.addr(s.ops[1])
            if q == ('a', 0) and any(x in al for x in (run.inst(z) for z in sources(run, s.ops[0]))):
                holds |= set(span(T, o)) if v else {o}

    def used(i):
        if i.op not in ('load', 'store'):
            return i in al
        for z in sources(run, run.addr(i.ops[-1])[0]):
            x = run.inst(z)
            if x is None:
                continue
            if x in al:
                return True
            if x.op == 'load':
                q, o, v = run.addr(x.ops[0])
                if q == ('a', 0) and (o in holds or v and set(span(T, o)) & holds):
                    return True
        return False
    n = sum(1 for i in run.instrs() if used(i))
    rep.ok('task-kept', '%d uses of scratch memory in a task' % n)
    for x in fr:
        if not any(run.path(a, lambda i: i is x, lambda i: False) is not None for a in al):
            continue
        w = run.path(x, lambda i: used(i) and i not in al, lambda i: i in al)
        rep.check(w is None, 'task-kept', x.where(), 'a task frees its scratch memory here and uses it afterwards')
    rep.need('freed', 1)
    rep.need('kept', 1)
    rep.need('task-freed', 1)
    rep.need('task-kept', 1)


def span(T, off):
    for m in T.task['members']:
        if m[1] <= off < m[1] + m[2] and m[2] % 8 == 0 and not m[4]:
            return list(range(m[1], m[1] + m[2], 8))
    return []


def after_batch(tm, T):
    """Every task's allocator is freed by the calling thread once the batch is over."""
    ex = calls(tm, r'ruy::ThreadPool::Execute')
    return bool(ex) and all(freed_after(tm, e) for e in ex)


def freed_after(tm, ex):
    S = Sym(tm)
    n = S.opnd(ex.ops[1])
    if S.facts_at(ex.blk).prove(-n):
        return True
    for c in calls(tm, FREE):
        g = tm.inst(c.ops[0])
        if g is None or g.op != 'call' or 'GetThreadSpecificAllocator' not in (g.dem or ''):
            continue
        L = tm.innermost(c.blk)
        if L is None or not L.btc or L.btc[0] == 'cnc' or len(L.exits) != 1:
            continue
        k = S.opnd(g.ops[1])
        it = Poly.atom(('it', L.id))
        lat = [b for b in L.blocks if L.header in tm.blocks[b].succ]
        if k == it and S.scev(L.btc) == n - 1 and all(tm.dominates_b(c.blk, b) for b in lat) and \
                tm.path(ex, lambda i: i.op == 'ret', lambda i: i is c, lambda b, s: skip(tm, S, b, s, n)) is None:
            return True
    return False


def skip(fn, S, b, s, n):
    f = edge_facts(fn, S, b, s)
    return bool(f) and entails(list(f) + S.side, -n)


def scratch_use(fn, i):
    if i.op == 'call':
        return bool(i.get('cv')) or re.search(r'ruy::(ThreadPool::Execute|RunPack|RunKernel)', i.dem or '') is not None
    if i.op in ('load', 'store'):
        for z in sources(fn, fn.addr(i.ops[-1])[0]):
            x = fn.inst(z)
            if x is not None and x.op == 'call' and re.search(SCRATCH, x.dem or ''):
                return True
    return False


CHECKS = {'C05': c05, 'C06': c06, 'L01': l01}
