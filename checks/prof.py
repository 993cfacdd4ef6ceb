"""The profiler: label stacks shared with the sampling thread, life of a profile,
samples and how they are read back."""
import os, re
from collections import defaultdict
from build import flatten, bitcode, compiles, profiler_sources, AnalysisError, VERIF
from ir import Module, tup
from scev import Sym
from sym import P, entails
from conc import is_lock, is_unlock, is_join, is_start, edge_cond, null_edge, sources
import bytesym as B
import share

STACKS = 'ruy::profiler::detail::ThreadStack'
STACK = 'ruy::profiler::detail::Stack'
LABEL = 'ruy::profiler::Label'
PROFILE = 'ruy::profiler::ScopeProfile'
SEARCH = r' std::(find|remove)<'
HARMLESS = re.compile(r'^(llvm\.(lifetime|assume|dbg|invariant|threadlocal|expect|experimental)|pthread_mutex_|__cxa_)')


def module():
    bcs = list(bitcode(tag='prof', sources=profiler_sources() + [os.path.join(VERIF, 'probe', 'prof.cc')],
                       extra_flags=['-DRUY_PROFILER']).values())
    return Module(flatten(roots=[r'^verif_prof::', r'^ruy::profiler::detail::ThreadStack::~?ThreadStack\(',
                                 r'^ruy::profiler::ScopeProfile::ThreadFunc\('],
                          keep=[r'TreeView::Populate\(|^ruy::profiler::Print\(|^std::vector<.*::_M_(default_append|realloc_insert|fill_insert|insert_aux)|' + SEARCH],
                          bcs=bcs, tag='prof'))


class Where:
    """What memory of the profiler an address denotes."""

    def __init__(self, mod):
        self.mod = mod
        mod.type(STACKS)
        self.vars = {n for n, g in mod.globals.items()
                     if g['def'] and 'ruy::profiler' in g['dem'] and not g['const'] and not g['tls'] and
                     not n.startswith('_ZGV') and not re.match(r'(vtable|typeinfo|VTT)', g['dem'])}
        self.tls = {n for n, g in mod.globals.items() if g['tls'] and 'ruy::profiler' in g['dem'] and not n.startswith('_ZGV')}
        self.cache = {}

    def root(self, f, o, seen=()):
        """('var', g): the variable itself; ('in', g): memory its pointers lead to;
        ('stack', key): a label stack; None: anything else."""
        r, off, var = f.addr(o)
        k = (f.name, r)
        if k not in self.cache:
            self.cache[k] = frozenset()
            self.cache[k] = frozenset(self._root(f, r, seen))
        return self.cache[k]

    def _root(self, f, r, seen):
        if r[0] == 'g':
            if r[1] in self.vars:
                return {('var', r[1])}
            if r[1] in self.tls:
                return {('stack', ('tls', r[1]), 'own')}
            return set()
        if r[0] == 'a':
            if r[1] == 0 and f.dem.startswith(STACKS + '::'):
                return {('stack', r, 'own')}
            return set()
        i = f.inst(r)
        if i is None or r in seen:
            return set()
        seen = seen + (r,)
        if i.op == 'call' and (i.callee or '').startswith('llvm.threadlocal.address'):
            return self.root(f, i.ops[0], seen)
        out = set()
        if i.op == 'phi':
            vs = [v for _b, v in f.phi_in(i)]
        elif i.op == 'select':
            vs = list(i.ops[1:])
        elif i.op == 'load' and i.ty == 'ptr':
            for x in self.root(f, i.ops[0], seen):
                if x[0] == 'var':
                    out.add(('in', x[1]))
                elif x[0] == 'in':
                    out.add(('stack', i.val, x[1]))
            if not out and STACKS in (f.root_types().get(i.val) or ()):
                out.add(('stack', i.val, None))     # found some other way than through the list
            return out
        elif i.op == 'call' and re.search(SEARCH, i.dem or ''):
            vs = list(i.ops[:2])
        elif i.op in ('inttoptr', 'ptrtoint', 'freeze'):
            vs = [i.ops[0]]
        elif i.op in ('add', 'sub'):
            vs = list(i.ops)
        else:
            return set()
        for v in vs:
            if v[0] in ('i', 'a', 'g', 'gep'):
                for x in self.root(f, v, seen):
                    # a merged pointer is a stack of its own
                    out.add(x if x[0] != 'stack' or x[1][0] == 'tls' or len(vs) == 1 else ('stack', r, x[2]))
        return out

    def lock(self, f, o):
        """Identity of the mutex at an address: ('glob', variable, offset) or ('rel', stack, offset)."""
        r, off, var = f.addr(o)
        if var:
            return ('other', f.name, r, off)
        if r[0] == 'g' and r[1] in self.vars:
            return ('glob', r[1], off)
        xs = [x for x in self.root(f, r) if x[0] == 'stack']
        if len(xs) == 1:
            return ('rel', xs[0][1], off)
        return ('other', f.name, r, off)


def held(f, W):
    """instr -> locks certainly held before it; a lock of an object that is looked up
    again (next iteration) is forgotten."""
    inb = {f.entry: frozenset()}
    work = [f.entry]
    at = {}
    while work:
        b = work.pop()
        cur = inb[b]
        for i in f.blocks[b].ins:
            at[i] = at[i] & cur if i in at else cur
            if is_lock(i):
                cur = cur | {W.lock(f, i.ops[0])}
            elif is_unlock(i):
                cur = cur - {W.lock(f, i.ops[0])}
            elif i.op in ('load', 'phi'):
                cur = frozenset(l for l in cur if not (l[0] == 'rel' and l[1] == i.val))
        for s in f.blocks[b].succ:
            n = cur if s not in inb else inb[s] & cur
            if s not in inb or n != inb[s]:
                inb[s] = n
                work.append(s)
    return at


def touches(f, W):
    """(instr, address operand, location) for every access to the profiler's shared memory."""
    for i in f.instrs():
        if i.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            ps = [f.ptr_operand(i)]
        elif i.op == 'call':
            if HARMLESS.match(i.callee or '') or (i.dem or '').startswith('operator delete'):
                continue
            ps = [o for o in i.ops if isinstance(o, tuple) and o and o[0] in ('i', 'a', 'g', 'gep')]
            if re.match(r'llvm\.mem', i.callee or ''):
                ps = ps[:2]
            if (i.dem or '').startswith(STACKS + '::'):
                continue          # construction and destruction are examined in themselves
        else:
            continue
        for p in ps:
            if i.op == 'call' and not re.match(r'llvm\.mem', i.callee or '') and f.inst(p) is not None and f.inst(p).ty != 'ptr':
                continue
            for x in W.root(f, p):
                yield i, p, x


def published(f):
    """Instructions after which other threads can reach the object under construction."""
    return [i for i in f.instrs() if i.op == 'store' and i.ops[0] == ('a', 0) or
            i.op == 'call' and ('a', 0) in i.ops and not HARMLESS.match(i.callee or '') and not re.match(r'llvm\.mem', i.callee or '')]


def r01(rep, tier):
    R = rep.rule
    R('stack', 'every access to the labels of a thread that other threads can reach happens with one and the same lock of that stack held')
    R('globals', 'every access to a program-wide variable of the profiler, and to what it points to, happens with one and the same lock held')
    R('alive', 'a stack found through the list is used only while the lock that guards the list is held')
    R('order', 'a lock that guards the list is never waited for while the lock of a stack is held')
    R('leaves', 'a stack that goes away has been taken out of the list on every path')
    mod = module()
    W = Where(mod)
    mt = mod.type(STACKS)
    mutex = [m for m in mt['members'] if re.search(r'std::(recursive_|shared_)?mutex', m[3])]
    if len(mutex) != 1:
        raise AnalysisError('anchor vanished: the lock of a label stack')
    rep.units.append('%d functions of the profiler and of instrumented client code, profiler compiled in' % len(mod.fns))
    rep.units.append('%d program-wide variables, %d per-thread ones' % (len(W.vars), len(W.tls)))
    rep.assume.append('the list of stacks outlives the threads (destruction at process exit is not examined)')
    moff, mlen = mutex[0][1], mutex[0][2]
    accs = defaultdict(list)            # group -> [(f, i, candidates)]
    esc = share.Escape.__new__(share.Escape)
    for f in mod.fns.values():
        if re.search(r'std::vector<.*ThreadStack.*::~vector', f.dem) or re.match(r'(_GLOBAL__|__cxx_global)', f.name):
            continue
        H, init = None, None
        for i, p, x in touches(f, W):
            if H is None:
                H, init = held(f, W), esc.guarded(f)
                pub = published(f) if f.dem.startswith(STACKS + '::ThreadStack(') else None
            hs = H.get(i)
            if hs is None or i.blk in init:
                continue
            if x[0] == 'var' and any(l[0] == 'glob' and l[1] == x[1] for l in all_locks(mod, W)):
                continue            # the mutex itself
            if x[0] in ('var', 'in'):
                accs[('globals', x[1])].append((f, i, {l for l in hs if l[0] == 'glob'}))
                continue
            r, off, var = f.addr(p)
            if not var and r == x[1] and moff <= off < moff + mlen and i.op != 'call':
                continue            # initialisation of the lock
            if pub is not None and not any(i is q or f.path(q, lambda j: j is i) is not None for q in pub):
                continue            # nobody else can reach it yet
            if i.op == 'store' and i.ops[0] == p:
                continue
            accs[('stack',)].append((f, i, {('rel', l[2]) for l in hs if l[0] == 'rel' and l[1] == x[1]} |
                                     {l for l in hs if l[0] == 'glob'}))
            if x[2] is None:
                accs[('alive', None)].append((f, i, {l for l in hs if l[0] == 'glob'}))
            elif x[2] != 'own':
                accs[('globals', x[2])].append((f, i, {l for l in hs if l[0] == 'glob'}))
                accs[('alive', x[2])].append((f, i, {l for l in hs if l[0] == 'glob'}))
    for g, xs in accs.items():
        if g[0] == 'alive':
            want = guard_of(accs, ('globals', g[1])) if g[1] else set().union(*[guard_of(accs, x) for x in list(accs) if x[0] == 'globals'])
            for f, i, c in xs:
                rep.check(bool(c & want), 'alive', i.where(), 'a stack of another thread is used while its thread may be taking it out of the list')
            continue
        best = guard_of(accs, g)
        for f, i, c in xs:
            rep.check(bool(c & best), g[0], i.where(),
                      '%s %s without the lock held at its other accesses' %
                      (f.dem.split('(')[0][:60], 'touches the labels of a thread' if g[0] == 'stack' else 'touches ' + mod.globals[g[1]]['dem'].split('::', 2)[-1]))
    glob = set().union(*[guard_of(accs, g) for g in accs if g[0] == 'globals'] or [set()])
    for f in mod.fns.values():
        H = None
        for i in f.instrs():
            if is_lock(i):
                H = H or held(f, W)
                l = W.lock(f, i.ops[0])
                hs = H.get(i) or frozenset()
                if l in glob:
                    rep.check(not any(x[0] == 'rel' for x in hs), 'order', i.where(), 'the lock of the list is requested while the lock of a stack is held')
                if l in hs:
                    rep.bad('order', i.where(), 'a lock already held is requested again')
                elif l[0] == 'rel':
                    rep.ok('order', i.where())
    leaves(rep, mod, W)
    for r, n in (('stack', 3), ('globals', 5), ('alive', 1), ('order', 2), ('leaves', 1)):
        rep.need(r, n)


def all_locks(mod, W):
    if 'locks' not in W.__dict__:
        W.locks = {W.lock(f, i.ops[0]) for f in mod.fns.values() for i in f.instrs() if is_lock(i) or is_unlock(i)}
    return W.locks


def guard_of(accs, g):
    """The lock held at most accesses of a group."""
    n = defaultdict(int)
    for f, i, c in accs[g]:
        for l in c:
            n[l] += 1
    if not n:
        return set()
    m = max(n.values())
    return {l for l in n if n[l] == m}


def leaves(rep, mod, W):
    d = mod.one(r'^' + STACKS + r'::~ThreadStack\(')
    S = Sym(d)
    lists = {x[1] for i, p, x in touches(d, W) if x[0] == 'in'}
    if not lists:
        rep.bad('leaves', d.dem, 'the destructor of a stack does not look at the list of stacks')
        return
    me = ('a', 0)

    def in_list(o):
        return any(x[0] == 'in' and x[1] in lists for x in W.root(d, o))

    def is_end(o):
        """value: the list's end, or an iterator"""
        i = d.inst(o)
        if i is not None and i.op == 'load':
            return any(x[0] == 'var' and x[1] in lists for x in W.root(d, i.ops[0]))
        return in_list(o)

    def exhausted(b, s):
        c = edge_cond(d, b, s)
        if not c:
            return False
        i = d.inst(c[0])
        if i is None or i.op != 'icmp':
            return False
        pr = i.raw['pred']
        if pr in ('eq', 'ne'):
            return (pr == 'eq') == c[1] and (is_end(i.ops[0]) and is_end(i.ops[1]) and any(d.addr(o)[1] == 0 for o in i.ops) or
                                             any(is_length(o) for o in i.ops))
        if pr[1:] in ('lt', 'gt'):
            return not c[1] and is_length(i.ops[1] if pr[1:] == 'lt' else i.ops[0])
        if pr[1:] in ('le', 'ge'):
            return c[1] and is_length(i.ops[0] if pr[1:] == 'le' else i.ops[1])
        return False

    def is_length(o):
        """the number of stacks in the list"""
        i = d.inst(o)
        while i is not None and i.op in ('trunc', 'zext', 'sext'):
            i = d.inst(i.ops[0])
        if i is None or i.op not in ('ashr', 'lshr', 'sdiv'):
            return False
        i = d.inst(i.ops[0])
        return i is not None and i.op == 'sub' and all(
            d.inst(x) is not None and d.inst(x).op == 'ptrtoint' and is_end(d.inst(x).ops[0]) for x in i.ops)

    init = share.Escape.__new__(share.Escape).guarded(d)

    def shrinks(i):
        if i.blk in init:
            return False
        return i.op == 'store' and any(x[0] == 'var' and x[1] in lists for x in W.root(d, i.ops[1])) or \
            i.op == 'call' and re.search(r'std::vector<.*::(_M_erase|erase|pop_back)', i.dem or '') is not None
    miss = d.path(None, lambda i: i.op == 'ret', shrinks, exhausted)
    rep.check(miss is None, 'leaves', miss.where() if miss else d.dem,
              'a stack can go away without leaving the list, and without the list having been searched')
    # what the list holds afterwards: the matched slot is overwritten, other stores keep other stacks
    slots = []
    for i in d.instrs():
        if i.op == 'icmp' and i.raw['pred'] in ('eq', 'ne') and me in i.ops:
            o = i.ops[0] if i.ops[1] == me else i.ops[1]
            l = d.inst(o)
            if l is not None and l.op == 'load':
                slots.append((S.opnd(l.ops[0]), i))

    def searched(o, what):
        """the result of a library search of the list for this stack"""
        i = d.inst(d.addr(o)[0])
        if i is None or i.op != 'call' or not re.search(' std::%s<' % what, i.dem or '') or d.addr(o)[1] or d.addr(o)[2]:
            return False
        if not all(is_end(x) and d.inst(x) is not None and d.inst(x).op == 'load' for x in i.ops[:2]):
            return False
        v = i.ops[2]
        st = [w for w in d.instrs() if w.op == 'store' and d.addr(w.ops[1])[0] == v]
        return v == me or len(st) == 1 and st[0].ops[0] == me and d.dominates(st[0], i)

    def at_slot(o, blk):
        for i in d.instrs():
            if i.op == 'call' and re.search(SEARCH, i.dem or '') and searched(i.val, 'find') and S.opnd(o) == S.opnd(i.val):
                return True
        for p, c in slots:
            diff = S.opnd(o) - p
            if diff == P(0) and matched(d, c, blk):
                return True
        # an iterator selected among the compared ones
        vs = sources(d, d.addr(o)[0]) if d.addr(o)[1] == 0 and not d.addr(o)[2] else set()
        ps = [p for p, c in slots]
        return len(vs) > 1 and all(S.opnd(v) in ps or is_end(v) for v in vs)
    for i in d.instrs():
        if i.op == 'call' and re.match(r'llvm\.mem(move|cpy)', i.callee or '') and in_list(i.ops[0]):
            ok = at_slot(i.ops[0], i.blk) and S.opnd(i.ops[1]) - S.opnd(i.ops[0]) == P(8)
            rep.check(ok, 'leaves', i.where(), 'elements are moved over another slot of the list than the one holding this stack')
        elif i.op == 'store' and in_list(i.ops[1]) and i.ops[0][0] in ('i', 'a'):
            keep = differs(d, i)
            rep.check(keep or at_slot(i.ops[1], i.blk), 'leaves', i.where(), 'a slot of the list other than the one holding this stack is overwritten')
        elif i.op == 'store' and shrinks(i):
            v, off, var = d.addr(i.ops[0])
            l = d.inst(v)
            one = l is not None and l.op == 'load' and d.addr(l.ops[0]) == d.addr(i.ops[1]) and off == -8 and not var
            comp = l is not None and l.op == 'phi' or any(j.op == 'call' and searched(j.val, 'remove') and S.opnd(i.ops[0]) == S.opnd(j.val) for j in d.instrs())
            rep.check(one or comp or in_list(i.ops[0]) and off == -8, 'leaves', i.where(), 'the list does not get shorter by exactly the stack that goes away')


def matched(f, c, blk):
    """Every path to blk takes the edge on which comparison c says equal."""
    for b in f.blocks:
        t = f.term(b)
        if t.op == 'br' and len(t.ops) == 3 and t.ops[0] == c.val:
            s = t.ops[2][1] if c.raw['pred'] == 'eq' else t.ops[1][1]
            o = t.ops[1][1] if s == t.ops[2][1] else t.ops[2][1]
            if s != o and f.path(None, lambda i: i.blk == blk, edge_barrier=lambda x, y: (x, y) == (b, s)) is None:
                return True
    return False


def differs(f, st):
    """The value stored was compared and is not this stack."""
    l = st.ops[0]
    for b in f.blocks:
        t = f.term(b)
        if t.op == 'br' and len(t.ops) == 3:
            c = f.inst(t.ops[0])
            if c is not None and c.op == 'icmp' and c.raw['pred'] in ('eq', 'ne') and ('a', 0) in c.ops and l in c.ops:
                s = t.ops[1][1] if c.raw['pred'] == 'eq' else t.ops[2][1]
                if f.dominates_b(s, st.blk) and len(f.blocks[s].preds) == 1:
                    return True
    return False



# ---------------------------------------------------------------- R02

def profiles(mod):
    return [f for f in mod.fns.values() if f.dem.startswith('verif_prof::profile') and any(is_start(i) for i in f.instrs())]


def r02(rep, tier):
    R = rep.rule
    R('flag', 'the sampling thread leaves its loop exactly on an atomic flag of its profile')
    R('start', 'a profile starts sampling only with that flag down, the samples untouched from then on')
    R('told', 'on every path from the start to waiting for the thread the flag has been raised, and it is not lowered again')
    R('joined', 'samples are read, and the profile goes away, only after the sampling thread has ended')
    R('single', 'a profile starts only after finding, under the lock, that none is running, and says so before letting the lock go')
    R('over', 'every started profile withdraws that mark before it is gone, after its thread has ended, under the lock')
    mod = module()
    W = Where(mod)
    rep.units.append('%d functions of the profiler and of client code holding a profile for a scope' % len(mod.fns))
    rep.assume.append('code inside the scope of a profile returns (the library is compiled without exceptions)')
    t = mod.type(PROFILE)
    # the sampling loop
    th = [f for f in mod.fns.values() if f.dem.startswith(PROFILE + '::') and any(L for L in f.loops) and
          any(is_lock(i) for i in f.instrs()) and not any(is_start(i) for i in f.instrs())]
    th += [f for f in mod.fns.values() if re.search(r'_State_impl<.*profiler.*_M_run', f.dem) and any(is_lock(i) for i in f.instrs())]
    if len(th) != 1:
        raise AnalysisError('anchor vanished: the sampling loop (%d candidates)' % len(th))
    th = th[0]

    def cell(f, i):
        for c, m in f.fields(f.ptr_operand(i)):
            if c == PROFILE:
                return m
        return None
    members = {m[0]: m for m in t['members']}
    atom = [m for m in members if 'std::atomic' in members[m][3]]
    flags = set()

    for L in th.loops:
        if any(L is not x and L.header in x.blocks for x in th.loops):
            continue
        for b in L.blocks:
            for s in th.blocks[b].succ:
                if s in L.blocks:
                    continue
                if th.term(s).op == 'unreachable':
                    continue
                c = edge_cond(th, b, s)
                l = leaf_load(th, c[0]) if c else None
                ok = l is not None and l.get('ord') not in (None, 'not_atomic') and any(m in atom for m in [cell(th, l)])
                if ok:
                    flags.add(cell(th, l))
                    t_ = raised(th, c, l)
                    ok = t_ is True
                rep.check(ok, 'flag', (l or th.term(b)).where(), 'the sampling loop ends, or goes on, on something else than the raised flag')
    if len(flags) != 1:
        rep.bad('flag', th.dem, 'the sampling loop does not watch one atomic flag')
        return
    flag = flags.pop()
    off = {m: (members[m][1], members[m][2]) for m in members}
    buf = [m for m in members if re.search(r'std::vector<char', members[m][3])]
    if len(buf) != 1:
        raise AnalysisError('anchor vanished: the samples of a profile')
    buf = buf[0]
    run = running(mod, W)
    fs = profiles(mod)
    if not fs:
        raise AnalysisError('anchor vanished: profile of a scope')
    for f in fs:
        H = held(f, W)
        obj = [i for i in f.instrs() if i.op == 'alloca' and PROFILE in (f.root_types().get(i.val) or ())]
        if len(obj) != 1:
            raise AnalysisError('the profile of %s is not one local object' % f.dem)
        obj = obj[0].val

        def at(o, m):
            r, o_, v = f.addr(o)
            return r == obj and not v and off[m][0] <= o_ < off[m][0] + off[m][1]

        def sets(i, m, val=None):
            return i.op in ('store', 'atomicrmw') and at(f.ptr_operand(i), m) and (val is None or i.ops[0][0] == 'c' and (i.ops[0][1] & 1) == val)
        ptr = [m for m in members if 'std::thread' in members[m][3]]
        if len(ptr) != 1:
            raise AnalysisError('anchor vanished: the thread of a profile')
        ptr = ptr[0]

        def isthread(o):
            l = f.inst(o)
            return l is not None and l.op == 'load' and at(l.ops[0], ptr)

        def gone(b, s):
            """edge on which there is no thread: not taken after the start"""
            return null_edge(f, b, s, isthread)
        for st in [i for i in f.instrs() if is_start(i)]:
            # the thread object is kept in the profile before anything else can look
            kept = f.path(st, lambda i: i.op == 'ret', lambda i: i.op == 'store' and at(i.ops[1], ptr) and i.ops[0][0] != 'n')
            rep.check(kept is None, 'joined', st.where(), 'a started thread is not kept by its profile')
            low = f.path(None, lambda i: i is st, lambda i: sets(i, flag, 0))
            up = None
            for i in f.instrs():
                if sets(i, flag) and not sets(i, flag, 0) and f.path(i, lambda j: j is st, lambda j: sets(j, flag, 0)) is not None:
                    up = i
            rep.check(low is None and up is None, 'start', st.where(), 'the sampling thread can start with the flag that ends it not lowered')
            late = f.path(st, lambda i: sets(i, flag, 0))
            rep.check(late is None, 'told', (late or st).where(), 'the flag that ends the sampling thread is lowered after it has started')
            j = f.path(st, is_join, lambda i: sets(i, flag, 1), gone)
            rep.check(j is None, 'told', (j or st).where(), 'the sampling thread is waited for without having been told to end')

            def uses(i):
                if i.op in ('load', 'store') and at(f.ptr_operand(i), buf):
                    return True
                return i.op == 'call' and not HARMLESS.match(i.callee or '') and \
                    (re.search(r'TreeView::Populate\(|profiler::Print\(', i.dem or '') is not None or
                     any(isinstance(o, tuple) and o[0] == 'i' and at(o, buf) for o in i.ops) and not is_start(i))
            u = f.path(st, lambda i: uses(i) or i.op == 'ret', is_join, gone)
            rep.check(u is None, 'joined', (u or st).where(), 'samples are read, or the profile goes away, while its thread may be sampling')
            # mutual exclusion of profiles
            ok = None
            for q in run['sets']:
                if q[0] is f and q[2] == 1 and f.dominates(q[1], st):
                    ok = q[1]
            if rep.check(ok is not None, 'single', st.where(), 'sampling starts without the mark that a profile is running'):
                g = [l for l in H[ok] if l[0] == 'glob']
                tst = [l for l in run['loads'] if l[0] is f and f.dominates(l[1], ok)]
                good = False
                for _f, l in tst:
                    bad_edge = lambda b, s, l=l: known_zero(f, b, s, l)
                    if f.path(l, lambda i: i is ok, edge_barrier=bad_edge) is None and \
                            f.path(l, is_unlock, lambda i: i is ok, lambda b, s: not known_zero(f, b, s, l) and is_test(f, b, l)) is None:
                        good = True
                rep.check(bool(g) and good, 'single', ok.where(), 'the mark is set without having found, under the same lock, that no profile is running')
            w = f.path(st, lambda i: i.op == 'ret', lambda i: any(q[0] is f and q[1] is i and q[2] == 0 for q in run['sets']), gone)
            rep.check(w is None, 'over', (w or st).where(), 'a profile can go away leaving the mark that one is running')
            early = f.path(st, lambda i: any(q[0] is f and q[1] is i and q[2] == 0 for q in run['sets']), is_join, gone)
            rep.check(early is None, 'over', (early or st).where(), 'another profile may start while the thread of this one is still sampling')
            for q in run['sets']:
                if q[0] is f:
                    rep.check(any(l[0] == 'glob' for l in H[q[1]]), 'over', q[1].where(), 'the mark that a profile is running changes without the lock')
    for r in ('flag', 'start', 'told', 'joined', 'single', 'over'):
        rep.need(r, 1)


def leaf_load(f, o):
    i = f.inst(o)
    while i is not None and i.op in ('icmp', 'and', 'trunc', 'zext', 'xor', 'freeze'):
        ns = [x for x in i.ops if x[0] == 'i']
        if len(ns) != 1:
            return None
        i = f.inst(ns[0])
    return i if i is not None and i.op == 'load' else None


def raised(f, c, l):
    """The edge is taken exactly when the loaded flag is set: True / False / None."""
    o, truth = c

    def ev(o, v):
        if o == l.val:
            return v
        if o[0] == 'c':
            return o[1] & 0xff
        i = f.inst(o)
        if i is None:
            return None
        a = [ev(x, v) for x in i.ops]
        if None in a:
            return None
        if i.op == 'and':
            return a[0] & a[1]
        if i.op == 'xor':
            return (a[0] ^ a[1]) & (1 if i.ty == 'i1' else 0xff)
        if i.op in ('zext', 'freeze'):
            return a[0]
        if i.op == 'trunc':
            return a[0] & 1
        if i.op == 'icmp':
            return {'eq': int(a[0] == a[1]), 'ne': int(a[0] != a[1])}.get(i.raw['pred'])
        return None
    r = (ev(o, 0), ev(o, 1))
    if None in r:
        return None
    if (bool(r[1]) == truth) and (bool(r[0]) != truth):
        return True
    if (bool(r[0]) == truth) and (bool(r[1]) != truth):
        return False
    return None


def known_zero(f, b, s, l):
    c = edge_cond(f, b, s)
    return bool(c) and leaf_load(f, c[0]) is l and raised(f, c, l) is False


def is_test(f, b, l):
    t = f.term(b)
    return t.op == 'br' and len(t.ops) == 3 and leaf_load(f, t.ops[0]) is l


def running(mod, W):
    """The program-wide mark that a profile is running: byte variable set and tested by profiles."""
    sets, loads = [], []
    for f in mod.fns.values():
        for i in f.instrs():
            p = f.ptr_operand(i)
            if p is None or p[0] != 'g' or p[1] not in W.vars:
                continue
            if i.op == 'store' and i.get('sz') == 1 and i.ops[0][0] == 'c':
                sets.append((f, i, i.ops[0][1] & 1))
            elif i.op == 'load' and i.ty == 'i8':
                loads.append((f, i))
    if not loads and not sets:
        raise AnalysisError('anchor vanished: mark that a profile is running')
    return {'sets': sets, 'loads': loads}



# ---------------------------------------------------------------- R03

def interp(events):
    """Hook of the interpreter: locks succeed, stacks of threads exist, other calls are events."""
    def call(run, st, i, args):
        c, d = i.callee or '', i.dem or ''
        if c.startswith('llvm.threadlocal.address'):
            st.env[i.id] = args[0]
            return [st]
        if c.startswith('pthread_mutex_'):
            st.env[i.id] = B.C(0, 32)
            return [st]
        if d.startswith(STACKS + '::') or c == '__cxa_thread_atexit':
            return [st]
        return events(run, st, i, args)
    return call


def r03(rep, tier):
    R = rep.rule
    R('push', 'entering a scope writes exactly the next free label and counts it, for every depth below the capacity')
    R('full', 'entering a scope at the capacity does not come back')
    R('label', 'the label written is the text and the arguments given, in order, inside its slot')
    R('wide', 'a label given more arguments than it can hold is rejected or stays inside its slot')
    R('scope', 'inside the scope its label is counted; after the scope the depth is what it was before')
    R('append', 'a sample is appended behind the existing ones, in room made for exactly its bytes')
    R('sample', 'each byte of a sample is a byte of the identity, depth or labels of the sampled stack')
    R('readback', 'reading a sample restores identity, depth and each label, and goes on at the next sample')
    mod = module()
    W = Where(mod)
    T, SK, LB = mod.type(STACKS), mod.type(STACK), mod.type(LABEL)
    so = [m[1] for m in T['members'] if re.search(r'\bStack$', m[3].strip())]
    if len(so) != 1:
        raise AnalysisError('anchor vanished: labels of a thread')
    so = so[0]
    arr = [m for m in SK['members'] if m[2] > LB['size'] and m[2] % LB['size'] == 0]
    if len(arr) != 1:
        raise AnalysisError('anchor vanished: the array of labels')
    loff, llen, lsz = arr[0][1], arr[0][2], LB['size']
    cap = llen // lsz
    # the depth is what entering a scope changes besides the label
    f0 = mod.one(r'^verif_prof::label0\(')
    tls = ('x', 64, ('g', next(iter(W.tls))))
    size = depth_member(mod, W, f0, so, SK)
    soff, sn = size[1], size[2]
    leaf = ('ld', 8 * sn, tls, so + soff, 0)
    rep.units.append('instrumented scopes with 0, 1 and 4 arguments and nested ones, at every depth from 0 to %d' % cap)

    def scope(fname, n):
        f = mod.one(r'^verif_prof::%s\(' % fname)
        seen = []

        def ev(run, st, i, args):
            if (i.dem or '').startswith('verif_prof::work('):
                seen.append((i, st.copy(), args))
                return [st]
            return None
        r = B.Run(f, call=interp(ev), assume={leaf: n})
        return f, r.run(), seen
    depths = range(cap)
    for name, nargs in (('label0', 0), ('label1', 1), ('label4', 4), ('nested', None)):
        bad = defaultdict(list)
        for n in depths:
            f, ex, seen = scope(name, n)
            if not seen:
                bad['push'].append('depth %d: the scope is not entered' % n)
                continue
            for i, st, args in seen:
                d = 2 if name == 'nested' and args[0][0] != 'c' else 1
                v = st.read(tls, so + soff, sn)
                if v != B.C(n + d, 8 * sn):
                    bad['scope'].append('depth %d: inside the scope the depth is not %d' % (n, n + d))
                lo, hi = so + loff + lsz * n, so + loff + lsz * (n + 2 if name == 'nested' else n + 1)
                for (b, o) in st.mem:
                    if b == tls and not (lo <= o < hi or so + soff <= o < so + soff + sn):
                        bad['push'].append('depth %d: byte %d of the stack is written, outside the next free label' % (n, o))
                        break
                if (tls in st.ver and st.ver[tls]) or st.events:
                    bad['push'].append('depth %d: memory of the stack is written in a way not followed' % n)
                if nargs is not None and not label_ok(st, tls, lo, lsz, LB, nargs, f):
                    bad['label'].append('depth %d: text, number of arguments or arguments are not the ones given' % n)
            if not ex:
                bad['scope'].append('depth %d: the scope is not left' % n)
            for t, st, v in ex:
                if st.read(tls, so + soff, sn) != B.C(n, 8 * sn):
                    bad['scope'].append('depth %d: after the scope the depth is another one' % n)
        for r in ('push', 'scope') + (('label',) if nargs is not None else ()):
            rep.check(not bad[r], r, '%s: %s at %d depths' % (f.instrs().__next__().where(), name, len(depths)), (bad[r] or [''])[0])
        for n in (cap, cap + 1, 2 * cap):
            f, ex, seen = scope(name, n)
            rep.check(not ex and not seen, 'full', '%s at depth %d' % (name, n), 'a scope is entered with all %d labels in use' % cap)
    wide(rep, mod, LB, so, loff, lsz)
    samples(rep, mod, so, soff, sn, loff, lsz, cap, SK)
    for r in rep.rules:
        rep.need(r, 1)


def depth_member(mod, W, f, so, SK):
    c = []
    for i in f.instrs():
        if i.op == 'store':
            for x in W.root(f, i.ops[1]):
                r, off, var = f.addr(i.ops[1])
                if x[0] == 'stack' and not var:
                    c += [m for m in SK['members'] if so + m[1] <= off < so + m[1] + m[2] and m[2] <= 8]
    c = {m[0]: m for m in c}
    if len(c) != 1:
        raise AnalysisError('anchor vanished: depth of a stack (%d candidates)' % len(c))
    return next(iter(c.values()))


def label_ok(st, tls, lo, lsz, LB, nargs, f):
    ms = LB['members']
    fmt = [m for m in ms if 'char' in m[3] and '*' in m[3]]
    num = [m for m in ms if re.match(r'(int|std::\w+|unsigned)$', m[3].strip())]
    arr = [m for m in ms if m not in fmt and m not in num]
    if len(fmt) != 1 or len(num) != 1 or len(arr) != 1:
        raise AnalysisError('anchor vanished: parts of a label')
    v = st.read(tls, lo + fmt[0][1], 8)
    ok = v[0] == 'x' and v[2][0] == 'g'
    ok = ok and st.read(tls, lo + num[0][1], num[0][2]) == B.C(nargs, 8 * num[0][2])
    for k in range(nargs):
        ok = ok and 4 * (k + 1) <= arr[0][2] and st.read(tls, lo + arr[0][1] + 4 * k, 4) == ('x', 32, ('a', k))
    return ok


def wide(rep, mod, LB, so, loff, lsz):
    """A label with more arguments than it can hold is rejected by the compiler, or kept inside its slot."""
    src = os.path.join(VERIF, 'probe', 'prof_wide.cc')
    ok, why = compiles(src, ['-DRUY_PROFILER'])
    if not ok:
        # the scopes with fewer arguments do compile
        rep.ok('wide', 'a label with too many arguments does not compile')
        return
    bcs = list(bitcode(tag='profw', sources=profiler_sources() + [src], extra_flags=['-DRUY_PROFILER']).values())
    m = Module(flatten(roots=[r'^verif_prof::'], bcs=bcs, tag='profw'))
    W = Where(m)
    f = m.one(r'^verif_prof::label6\(')
    for i in f.instrs():
        if i.op == 'store':
            r, off, var = f.addr(i.ops[1])
            if var and any(x[0] == 'stack' for x in W.root(f, r)):
                o = off - so - loff
                rep.check(0 <= o and o + (i.get('sz') or 1) <= lsz, 'wide', i.where(), 'a label with too many arguments is written past its slot')


def samples(rep, mod, so, soff, sn, loff, lsz, cap, SK):
    bcs = list(bitcode(tag='prof', sources=profiler_sources() + [os.path.join(VERIF, 'probe', 'prof.cc')],
                       extra_flags=['-DRUY_PROFILER']).values())
    m2 = Module(flatten(roots=[r'^ruy::profiler::ScopeProfile::Sample\(', r'TreeView::Populate\('],
                        keep=[r'^std::vector<.*::_M_(default_append|realloc_insert|fill_insert|insert_aux|range_insert)|::(AddStack|AddOther|SortNode)\(|^std::_?_?(map|_Rb_tree|unordered_map|detail)[<:]'], bcs=bcs, tag='prof2'))
    f = m2.one(r'^ruy::profiler::ScopeProfile::Sample\(')
    g = m2.one(r'TreeView::Populate\(')
    me, ts = ('x', 64, ('a', 0)), ('x', 64, ('a', 1))
    t = mod.type(PROFILE)
    bo = [m[1] for m in t['members'] if re.search(r'std::vector<char', m[3])]
    if len(bo) != 1:
        raise AnalysisError('anchor vanished: the samples of a profile')
    bo = bo[0]
    beg, end = ('ld', 64, me, bo, 0), ('ld', 64, me, bo + 8, 0)
    maps, bad = {}, defaultdict(list)
    for n in range(1, cap + 1):
        grown = []

        def ev(run, st, i, args):
            d = i.dem or ''
            x = re.match(r'std::vector<char.*>::_M_default_append\(', d)
            if x and args[0] == B.mk('add', 64, me, B.C(bo, 64)) or x and bo == 0 and args[0] == me:
                grown.append((i, args[1]))
                st.write(me, bo, 8, ('x', 64, ('new', 'begin')))
                st.write(me, bo + 8, 8, ('x', 64, ('new', 'end')))
                st.events += (('grow', args[1]),)
                return [st]
            if x:
                st.events += (('other', i),)
            return None
        r = B.Run(f, call=interp(ev), assume={('ld', 8 * sn, ts, so + soff, 0): n})
        ex = r.run()
        grew = 0
        for tt, st, v in ex:
            gs = [e[1] for e in st.events if e[0] == 'grow']
            new = ('x', 64, ('new', 'begin'))
            wr = defaultdict(dict)
            for (b, o), e in st.mem.items():
                if b not in (me, ts) and not (b[0] == 'x' and b[2][0] == 'i'):
                    wr[b][o] = e
            if not gs:
                if infeasible(st):
                    continue
                bad['append'].append('depth %d: a sample is not appended' % n)
                continue
            grew += 1
            old = B.mk('sub', 64, end, beg)
            want = B.mk('add', 64, new, old)
            ok = len(gs) == 1 and len(wr) == 1 and not any(e[0] == 'other' or e[1] in ('copy', 'set') for e in st.events if e[0] != 'grow')
            if ok:
                b, bs = next(iter(wr.items()))
                L = gs[0]
                L = B.evalt(L, {}) if L[0] != 'c' else L
                p = B.poly(b) - B.poly(want)
                ok = p == P(0) and L is not None and L[0] == 'c' and sorted(bs) == list(range(L[1]))
                if ok:
                    mp = {}
                    for k, e in bs.items():
                        if e[0] == 'm0' and e[2] == ts:
                            mp[k] = e[3] - so
                        else:
                            mp[k] = byte_of(e, ts, so)
                    for k in sorted(bs):
                        # the depth is supposed to be n: its bytes are constants
                        if all(mp.get(k + j, 0) is None and bs[k + j] == B.C(n >> 8 * j, 8) for j in range(sn)):
                            mp.update({k + j: soff + j for j in range(sn)})
                    need = set(range(soff, soff + sn)) | set(range(loff, loff + lsz * n)) | idbytes(SK, soff, loff)
                    if None in mp.values() or len(mp) != L[1] or set(mp.values()) != need:
                        bad['sample'].append('depth %d: the sample does not hold identity, depth and the %d labels' % (n, n))
                    maps[n] = (L[1], mp)
            if not ok:
                bad['append'].append('depth %d: what is written is not exactly the room made behind the samples already there' % n)
        if not grew:
            bad['append'].append('depth %d: a sample is not appended' % n)
    rep.check(not bad['append'], 'append', '%s: depths 1 to %d' % (next(f.instrs()).where(), cap), (bad['append'] or [''])[0])
    rep.check(not bad['sample'], 'sample', '%s: depths 1 to %d' % (next(f.instrs()).where(), cap), (bad['sample'] or [''])[0])
    back(rep, g, maps, bad, soff, sn, cap)


def idbytes(SK, soff, loff):
    out = set()
    for m in SK['members']:
        if m[1] not in (soff, loff):
            later = [x[1] for x in SK['members'] if x[1] > m[1]]
            out |= set(range(m[1], m[1] + m[2] if m[2] else min(later)))
    return out


def byte_of(e, ts, so):
    """Which byte of the stack a byte term is."""
    if e[0] == 'ld' and e[2] == ts and e[1] == 8:
        return e[3] - so
    if e[0] == 'byte' and e[2][0] == 'ld' and e[2][2] == ts:
        return e[2][3] + e[3] - so
    return None


def infeasible(st):
    """The path supposes that a buffer extended by some bytes is not longer (sizes do not wrap)."""
    for t, v in st.facts.items():
        if t[0] in ('icmp.ult', 'icmp.ugt', 'icmp.ule', 'icmp.uge', 'icmp.eq', 'icmp.ne'):
            d = B.poly(t[3]) - B.poly(t[2])
            if d.is_const():
                c = d.cval()
                r = {'ult': c > 0, 'ule': c >= 0, 'ugt': c < 0, 'uge': c <= 0, 'eq': c == 0, 'ne': c != 0}[t[0][5:]]
                if int(r) != v:
                    return True
    return False


def back(rep, g, maps, bad, soff, sn, cap):
    if len(maps) != cap:
        rep.bad('readback', g.dem[:60], 'the format of samples is not known at every depth')
        return
    stk = [i for i in g.instrs() if i.op == 'alloca' and STACK in (g.root_types().get(i.val) or ())]
    if len(stk) != 1:
        raise AnalysisError('reading samples does not use one local stack')
    L = None
    out = []
    for n in range(1, cap + 1):
        L, mp = maps[n]
        inv = {v: k for k, v in mp.items()}
        hits = []

        def ev(run, st, i, args):
            if '::AddStack(' in (i.dem or ''):
                hits.append((i, st.copy(), args))
                return []
            return None
        szk = inv.get(soff)
        r = B.Run(g, call=interp(ev), assume=Sizes(szk, sn, n), cap=200000)
        r.run()
        if not hits:
            out.append('depth %d: the sample is not used' % n)
        for i, st, args in hits:
            base, o = B.split_ptr(args[0])
            pos = None
            for s, k in inv.items():
                e = st.mem.get((base, o + s))
                q = buf_byte(e)
                if q is None:
                    if soff <= s < soff + sn and e is not None and e[0] == 'c':
                        continue
                    out.append('depth %d: byte %d of the stack is not read from the sample' % (n, s))
                    break
                if pos is None:
                    pos = (q[0], q[1] - k)
                if (q[0], q[1] - k) != pos:
                    out.append('depth %d: byte %d of the stack is read from byte %d of the sample instead of %d' % (n, s, q[1] - pos[1], k))
                    break
            else:
                x = pos[0] if pos else None
                if x is None or x[0] != 'x' or x[2][0] != 'phi' or pos[1] != 0:
                    out.append('depth %d: the position of a sample is not carried from the sample before' % n)
                    continue
                ph = g.byid[x[2][1]]
                Lp = [l for l in g.loops if l.header == ph.blk][0]
                nxt = [v for p, v in g.phi_in(ph) if p in Lp.blocks]
                for v in nxt:
                    e = r.val(st, v)
                    d = B.poly(e) - B.poly(x)
                    if d != P(L):
                        out.append('depth %d: the next sample is looked for %s bytes on, the sample has %d' % (n, d, L))
    rep.check(not out, 'readback', '%s: depths 1 to %d' % (next(g.instrs()).where(), cap), (out or [''])[0])


def buf_byte(e):
    """(base, offset) of a byte that is a byte of memory as found."""
    if e is None:
        return None
    if e[0] == 'm0':
        return (e[2], e[3])
    if e[0] == 'ld' and e[1] == 8:
        return (e[2], e[3])
    if e[0] == 'byte' and e[2][0] == 'ld':
        return (e[2][2], e[2][3] + e[3])
    return None


class Sizes(dict):
    """Supposes the depth stored in the sample under the cursor, wherever the cursor is."""

    def __init__(self, k, sn, n):
        self.k, self.sn, self.n = k, sn, n

    def get(self, e, d=None):
        if e[0] == 'ld' and e[1] == 8 * self.sn and e[3] == self.k and e[2][0] == 'x' and e[2][2][0] == 'phi':
            return self.n
        return d

    def __bool__(self):
        return True


CHECKS = {'R01': r01, 'R02': r02, 'R03': r03}
