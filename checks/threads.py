"""C01, C02, C07: the thread pool's hand-off, waiting and shutdown protocols."""
from build import flatten, AnalysisError
from ir import Module, tup
from scev import Sym
from sym import Poly, P, Facts
import conc
from conc import *

TASK_SIZE = 40      # sizeof(ProbeTask) in probe/probe.cc


class Pool:
    def __init__(self):
        self.mod = Module(flatten(roots=[r'^verif_probe::pool_(execute|destroy|create)'], flags=['--thread-roots']))
        self.R = Roles(self.mod)
        self.exe = self.mod.one(r'^verif_probe::pool_execute')
        self.des = self.mod.one(r'^verif_probe::pool_destroy')
        # the function a worker thread runs
        names = set()
        for i in self.exe.instrs():
            if i.op == 'store' and i.ops[0][0] == 'g' and i.ops[0][1] in self.mod.fns:
                names.add(i.ops[0][1])
        if not any(is_start(i) for i in self.exe.instrs()):
            raise AnalysisError('anchor vanished: no thread is ever started from the pool')
        run = [f for f in self.mod.fns.values() if '::_M_run()' in f.dem]
        cand = [self.mod.fns[n] for n in names if any(True for _ in loads_of(self.mod.fns[n], self.R.thread, self.R.state))]
        cand += [f for f in run if any(True for _ in loads_of(f, self.R.thread, self.R.state))]
        if len(cand) != 1:
            raise AnalysisError('anchor vanished: worker function (%d candidates)' % len(cand))
        self.wrk = cand[0]
        self.SX, self.SW, self.SD = Sym(self.exe), Sym(self.wrk), Sym(self.des)
        R = self.R
        # constants of the protocol, taken from what the code does
        self.publish = [s for s in stores_to(self.exe, R.thread, R.state) if s.get('ord') != 'not_atomic']
        self.handoff = [s for s in stores_to(self.exe, R.thread, R.task) if s.ops[0][0] != 'n']
        self.work_consts = {s.ops[0][1] for s in self.publish if s.ops[0][0] == 'c'}
        self.ready_stores = list(stores_to(self.wrk, R.thread, R.state))
        self.ready_consts = {s.ops[0][1] for s in self.ready_stores if s.ops[0][0] == 'c'}
        self.exit_stores = [s for s in stores_to(self.des, R.thread, R.state)]
        self.exit_consts = {s.ops[0][1] for s in self.exit_stores if s.ops[0][0] == 'c'}
        if len(self.work_consts) != 1:
            raise AnalysisError('anchor vanished: no constant is published to start work')
        if len(self.ready_consts) != 1:
            raise AnalysisError('anchor vanished: worker never returns to a ready state')
        self.work = next(iter(self.work_consts))
        self.ready = next(iter(self.ready_consts))

    def describe(self, rep):
        for f in (self.exe, self.wrk, self.des):
            rep.units.append('%s: %d blocks, %d instructions after inlining' %
                             (f.dem, len(f.blocks), sum(len(b.ins) for b in f.blocks.values())))
        rep.assume += ['a batch has at least one task (documented precondition)',
                       'calls into libstdc++/pthread behave as specified; a failed lock (EINVAL etc.) aborts']


def runs(fn, is_recv):
    return [c for c, r, off in virtual_calls(fn) if is_recv(r)]


def c01(rep, tier):
    p = Pool()
    p.describe(rep)
    X, W, R = p.exe, p.wrk, p.R
    S = p.SX
    tasks, n = ('a', 2), Poly.atom(('a', 1))
    rep.rule('run-inline-once', 'every path through the batch call runs exactly one task on the calling thread')
    inl = runs(X, lambda r: ('a', 2) in S.opnd(r).atoms())
    if not inl:
        raise AnalysisError('anchor vanished: no task is run on the calling thread')
    res = X.count_on_paths(lambda i: 1 if i in inl else 0)
    for ret, counts in res.items():
        rep.check(counts == {1}, 'run-inline-once', inl[0].where(),
                  'paths to the return run %s inline tasks' % sorted(counts))

    rep.rule('handoff-range', 'inline and handed-off task indices together are exactly 0..n-1, each once')
    rep.rule('distinct-workers', 'each handed-off task goes to a different worker of the pool, inside its list')
    rep.rule('publish-after-task', 'the task pointer is written before the work state is published, with release order')
    rep.rule('armed', 'the completion counter is set to the number of handed-off tasks before the first hand-off')
    rep.rule('wait-before-return', 'no path returns after a hand-off without observing (acquire) the counter at zero')
    if len(p.publish) != 1 or len(p.handoff) != 1:
        raise AnalysisError('hand-off is not a single loop any more (%d/%d sites)' % (len(p.publish), len(p.handoff)))
    pub, hand = p.publish[0], p.handoff[0]
    L = X.innermost(pub.blk)
    if L is None or X.innermost(hand.blk) is not L:
        raise AnalysisError('hand-off is not in a loop')
    it = Poly.atom(('it', L.id))
    F = S.facts_at(pub.blk, extra=[n - 2])
    dead = X.dead()
    trips = []
    live_exits = 0
    for eb, ec in L.exits:
        outs = [s for s in X.blocks[eb].succ if s not in L.blocks]
        if all(s in dead for s in outs):
            continue
        live_exits += 1
        if ec[0] != 'cnc':
            trips.append(S.scev(ec) + 1)
    if live_exits != 1:
        rep.bad('handoff-range', pub.where(), 'the hand-off loop has %d exits besides aborting, so some task may never be handed off' % live_exits)
        return
    if len(trips) != 1:
        raise AnalysisError('hand-off loop trip count is not computable')
    # the exit test is at the latch of a rotated loop; account for a leading test
    T = trips[0]
    off = S.opnd(hand.ops[0]) - Poly.atom(tasks)
    q = off.coeff(('it', L.id))
    step = q[0] if q else None
    ok = step is not None and step.is_const() and abs(step.cval()) == TASK_SIZE and q[1].divides(TASK_SIZE)
    if ok:
        a = q[1].div(TASK_SIZE)
        sgn = 1 if step.cval() > 0 else -1
        first, last = a, a + (T - 1) * sgn
        lo, hi = (first, last) if sgn > 0 else (last, first)
        inl_idx = []
        for c in inl:
            d = S.opnd(c.ops[0]) - Poly.atom(tasks)
            if d.divides(TASK_SIZE):
                inl_idx.append((c, d.div(TASK_SIZE)))
        # runs that can be reached together with the hand-off loop
        multi = [(c, k) for c, k in inl_idx if X.path(pub, lambda i: i is c) or X.path(c, lambda i: i is pub)]
        single = [(c, k) for c, k in inl_idx if (c, k) not in multi]
        ok = len(multi) >= 1
        for c, k in multi:
            e = F.prove_eq
            good = (e(k, 0) and e(lo, 1) and e(hi, n - 1)) or (e(k, n - 1) and e(lo, 0) and e(hi, n - 2))
            rep.check(good, 'handoff-range', c.where(), 'inline task %r, handed-off %r..%r of n tasks' % (k, lo, hi))
        F1 = Facts([n - 1, P(1) - n])
        for c, k in single:
            # only reached without any hand-off: the batch must have one task
            Fs = S.facts_at(c.blk, extra=[n - 1])
            rep.check(Fs.prove_eq(k, 0) and Fs.prove(P(1) - n), 'handoff-range', c.where(),
                      'runs task %r alone although more tasks may exist' % k)
    if not ok:
        rep.bad('handoff-range', hand.where(), 'handed-off pointer %r does not step through the task array' % (off,))
    # every iteration hands off: publish executes in every iteration
    latches = [b for b in L.blocks if L.header in X.blocks[b].succ]
    rep.check(all(X.dominates_b(pub.blk, b) for b in latches) and all(X.dominates_b(hand.blk, b) for b in latches),
              'handoff-range', pub.where(), 'an iteration can skip the hand-off')
    # once per iteration
    # a no-op path through the loop when n>1 is covered by the range; the loop must be entered
    pre = X.path(None, lambda i: i.op == 'ret', is_barrier=lambda i: i is pub,
                 edge_barrier=lambda b, s: (edge_facts(X, S, b, s) and Facts(edge_facts(X, S, b, s) + [n - 2]).contradictory()))
    rep.check(pre is None, 'handoff-range', pub.where(), 'a path with more than one task returns without any hand-off')

    thr, off2, var2 = X.addr(pub.ops[1])
    thr2, _, _ = X.addr(hand.ops[1])
    li = X.inst(thr)
    good = False
    if li is not None and li.op == 'load' and thr == thr2:
        ap = S.opnd(li.ops[0])
        qq = ap.coeff(('it', L.id))
        if qq and qq[0].is_const() and abs(qq[0].cval()) == 8:
            base = [a for a in qq[1].atoms() if a[0] == 'i' and X.inst(a) and X.inst(a).op == 'load']
            vec = [a for a in base if X.fields(X.inst(a).ops[0]) and
                   any(f[0] == 'ruy::ThreadPool' or f[1] == 'threads_' for f in X.fields(X.inst(a).ops[0]))] or base
            for a in vec:
                idx = ap - Poly.atom(a)
                if idx.divides(8):
                    idx = idx.div(8)
                    if F.prove(idx) and F.prove(n - 2 - idx):
                        good = True
    rep.check(good, 'distinct-workers', pub.where(), 'worker index is not one of 0..n-2, or is reused')

    rep.check(X.dominates(hand, pub) and pub.get('ord') in RELEASE and thr == thr2 and
              X.path(pub, lambda i: i is hand and False) is None,
              'publish-after-task', pub.where(), 'task write and state publication are not ordered (order=%s)' % pub.get('ord'))

    resets = [s for s in stores_to(X, R.counter, R.count)]
    arming = [s for s in resets if X.dominates(s, pub) and X.path(s, lambda i: i is pub, is_barrier=lambda i: i in resets)]
    cnt = n - 1
    rep.check(len(arming) == 1 and F.prove_eq(S.opnd(arming[0].ops[0]), T) and
              not any(X.path(pub, lambda i: i is s) for s in resets) and L is not X.innermost(arming[0].blk),
              'armed', arming[0].where() if arming else pub.where(), 'counter is not armed with the number of handed-off tasks')
    base = X.addr(arming[0].ops[1]) if arming else None

    cloads = [l for l in loads_of(X, R.counter, R.count) if l.get('ord') in ACQUIRE]

    def zero_edge(b, s):
        for l in cloads:
            if base and X.addr(l.ops[0]) != base and S.opnd(l.ops[0]) != S.opnd(arming[0].ops[1]):
                continue
            if edge_implies(X, S, b, s, -S.opnd(l.val), extra=[S.opnd(l.val)]) and X.path(pub, lambda i: i is l):
                return True
        return False
    bad = X.path(pub, lambda i: i.op == 'ret', edge_barrier=zero_edge)
    rep.check(bad is None, 'wait-before-return', pub.where(),
              'the call can return after hand-off without an acquire read of the counter being zero')

    # workers created are ready before the counter is armed for the batch
    rep.rule('startup-settled', 'newly started workers are waited for before the counter is armed for the batch')
    starts = [i for i in X.instrs() if is_start(i)]
    for s in starts:
        def zero_edge2(b, t):
            return any(edge_implies(X, S, b, t, -S.opnd(l.val), extra=[S.opnd(l.val)]) for l in cloads)
        bad = X.path(s, lambda i: i in arming, edge_barrier=zero_edge2)
        rep.check(bad is None, 'startup-settled', s.where(), 'counter re-armed while a new worker may still count itself down')
    rep.rule('created-count', 'the counter is armed with exactly the number of workers about to be started')
    for s in starts:
        LS = X.innermost(s.blk)
        rs = [r for r in resets if r not in arming and X.dominates(r, s)]
        okc = False
        for r in rs:
            v = S.opnd(r.ops[0])
            # value is (wanted - existing): wanted == n-1 with existing the pool size
            d = v - (n - 1)
            ats = [a for a in d.atoms()]
            if len(d.t) == 1 and list(d.t.values()) == [-1] and ats and ats[0][0] == 'fdiv':
                okc = True
        rep.check(okc, 'created-count', s.where(), 'counter is not armed with (wanted - existing) workers before starting them')

    # ---- worker side
    SW = p.SW
    rep.rule('work-acquire', 'the worker observes the work state with acquire order')
    sl = [l for l in loads_of(W, R.thread, R.state)]
    work_edges = []
    for b in W.blocks:
        for s in W.blocks[b].succ:
            c = edge_cond(W, b, s)
            t = W.term(b)
            v = None
            if c:
                i = W.inst(c[0])
                if i is not None and i.op == 'icmp' and i.ops[1][0] == 'c':
                    if (i.raw['pred'] == 'eq' and c[1] and i.ops[1][1] == p.work) or \
                       (i.raw['pred'] == 'ne' and not c[1] and i.ops[1][1] == p.work):
                        v = i.ops[0]
            elif t.op == 'switch' and t.ops[0][0] != 'c':
                vs = [int(x) for x, d in t.raw['cases'] if d == s]
                if vs == [p.work] and s != t.raw['default']:
                    v = t.ops[0]
            if v is None:
                continue
            src = sources(W, v)
            ls = [W.inst(o) for o in src if W.inst(o) in sl]
            if ls:
                work_edges.append((b, s))
                for l in ls:
                    rep.check(l.get('ord') in ACQUIRE, 'work-acquire', l.where(), 'work state read with order %s' % l.get('ord'))
    if not work_edges:
        raise AnalysisError('anchor vanished: worker never tests for the work state')
    wl = W.innermost(work_edges[0][1]) or W.innermost(work_edges[0][0])
    rep.rule('run-once', 'between seeing work and counting down, the handed-off task is run exactly once')
    rep.rule('count-once', 'every picked-up task is counted down exactly once before the next wait or exit')
    rep.rule('ready-before-count', 'the worker returns to the ready state before counting down, and touches no hand-off state after')
    rep.rule('count-release', 'the count-down is a single-step decrement with release order')
    decs = [d for d in rmws_of(W, R.counter, R.count)]
    if not decs:
        raise AnalysisError('anchor vanished: worker never counts down')

    def is_task_ptr(o):
        i = W.inst(o)
        return i is not None and i.op == 'load' and is_cell(W, i.ops[0], R.thread, R.task)
    truns = [c for c, r, off in virtual_calls(W) if is_task_ptr(r)]
    others = [c for c, r, off in virtual_calls(W) if not is_task_ptr(r)]
    for d in decs:
        step = d.ops[1][1] if d.ops[1][0] == 'c' else None
        rep.check(d.op == 'atomicrmw' and ((d.get('rmw') == 'sub' and step == 1) or (d.get('rmw') == 'add' and step == -1))
                  and d.get('ord') in RELEASE, 'count-release', d.where(),
                  'count-down is %s %s order=%s' % (d.get('rmw'), step, d.get('ord')))

    class Start:     # pseudo instruction: beginning of a block
        def __init__(s, b):
            s.blk, s.idx = b, -1
    nul = lambda b, s: null_edge(W, b, s, is_task_ptr)
    for (b, s) in work_edges:
        st = Start(s)
        # runs before countdown
        got = {}
        def walk(weight, stop):
            state = {}
            res = {}
            todo = [(s, 0, 0)]
            seen = set()
            while todo:
                bb, k, c = todo.pop()
                if (bb, c) in seen and k == 0:
                    continue
                if k == 0:
                    seen.add((bb, c))
                done = False
                for i in W.blocks[bb].ins[k:]:
                    if stop(i):
                        res.setdefault(i, set()).add(c)
                        done = True
                        break
                    c = min(3, c + weight(i))
                if done:
                    continue
                for t in W.blocks[bb].succ:
                    if not nul(bb, t):
                        todo.append((t, 0, c))
            return res
        r1 = walk(lambda i: 1 if i in truns else 0, lambda i: i in decs or i.op == 'ret')
        rep.check(bool(r1) and all(v == {1} for v in r1.values()), 'run-once', truns[0].where() if truns else decs[0].where(),
                  'between work pickup and count-down the task runs %s times' % sorted(set().union(*r1.values())) if r1 else 'count-down unreachable')
        r2 = walk(lambda i: 1 if i in decs else 0, lambda i: (i in sl) or i.op == 'ret')
        rep.check(bool(r2) and all(v == {1} for v in r2.values()), 'count-once', decs[-1].where(),
                  'count-downs per task: %s' % {i.where(): sorted(v) for i, v in r2.items()})
        r3 = walk(lambda i: 1 if i in p.ready_stores else 0, lambda i: i in decs)
        rep.check(bool(r3) and all(0 not in v for v in r3.values()) and p.ready != p.work, 'ready-before-count', decs[-1].where(),
                  'counts down without having returned to the ready state first')
    for d in decs:
        bad = W.path(d, lambda i: i in truns or (i.op == 'store' and any(f[0] == R.thread for f in W.fields(i.ops[1]))),
                     is_barrier=lambda i: i in sl)
        rep.check(bad is None, 'ready-before-count', d.where(),
                  'after counting down the worker still touches the hand-off state at %s' % (bad.where() if bad else ''))
    # the task is read only after the acquire
    rep.rule('task-read-after-acquire', 'inside the work loop the task pointer is read only after the work state was observed')
    for c in truns:
        if any(W.dominates_b(s, c.blk) for b, s in work_edges):
            l = W.inst(c.ops[0])
            rep.check(any(W.dominates_b(s, l.blk) for b, s in work_edges), 'task-read-after-acquire', l.where(),
                      'task pointer read before the work state was observed')
    for n_ in ('run-inline-once', 'handoff-range', 'armed', 'wait-before-return', 'work-acquire', 'run-once', 'count-once', 'task-read-after-acquire'):
        rep.need(n_, 1)


def pool_count(rep, rule):
    """A worker is only started while the pool holds fewer than n-1 workers."""
    p = Pool()
    X, S = p.exe, p.SX
    n = Poly.atom(('a', 1))
    for s in [i for i in X.instrs() if is_start(i)]:
        L = X.innermost(s.blk)
        ok = False
        # the tests that guard another creation: size of the worker list against n-1
        edges = set()
        for b in X.blocks:
            for t in X.blocks[b].succ:
                for g in edge_facts(X, S, b, t):
                    d = (n - 2) - g      # g = n-2-size  means  size < n-1
                    if not d.is_const() and len(d.t) == 1 and list(d.t.values()) == [1] and all(a[0] == 'fdiv' for a in d.atoms()):
                        edges.add((b, t))
        bar = lambda x, y: (x, y) in edges
        ok = bool(edges) and X.path(None, lambda i: i is s, edge_barrier=bar) is None and \
            X.path(s, lambda i: i is s, edge_barrier=bar) is None
        rep.check(ok, rule, s.where(), 'a worker can be started although the pool already holds one less than the batch size')


def wait_sites(fn, S):
    out = []
    for i in fn.instrs():
        if is_wait(i):
            # mutex: pointer stored into the lock object
            lk = fn.addr(i.ops[1])[0]
            ms = [s for s in fn.instrs() if s.op == 'store' and fn.addr(s.ops[1])[0] == lk and fn.addr(s.ops[1])[1] == 0
                  and s.ops[0][0] in ('i', 'a', 'gep')]
            out.append((i, {S.opnd(s.ops[0]) for s in ms}, ms))
    return out


def c02(rep, tier):
    p = Pool()
    p.describe(rep)
    R = p.R
    fns = [(p.exe, p.SX), (p.wrk, p.SW), (p.des, p.SD)]
    rep.rule('wait-holds-mutex', 'a condition-variable wait happens with exactly its own mutex held')
    rep.rule('check-under-lock', 'the awaited condition is re-read under the mutex before every wait')
    rep.rule('recheck-after-wait', 'after a wait, the condition is re-read and found true before the mutex is given up')
    rep.rule('notify-after-change', 'every change that can satisfy a waiter is followed by a notification on the same condition variable, with the waiter\'s mutex taken after the change')
    rep.rule('lock-balance', 'every lock is released on every path, never taken twice, never nested')
    rep.rule('no-lock-across-task', 'no lock is held while running a task, joining or starting a thread')
    pairs = {}
    for fn, S in fns:
        at = locksets(fn, S)
        for i in fn.instrs():
            if fn.blocks and i.blk in fn.dead():
                continue
            if i.op == 'ret':
                rep.check(all(not s for s in at[i]), 'lock-balance', '%s return' % fn.dem.split('(')[0], 'a lock is still held at return')
            if is_lock(i):
                m = S.opnd(i.ops[0])
                rep.check(all(not s for s in at[i]), 'lock-balance', i.where(), 'lock taken while holding a lock')
            if is_unlock(i):
                m = S.opnd(i.ops[0])
                rep.check(all(m in s for s in at[i]), 'lock-balance', i.where(), 'mutex unlocked without being held')
            if is_join(i) or is_start(i) or (i.op == 'call' and i.get('cv') is not None):
                rep.check(all(not s for s in at[i]), 'no-lock-across-task', i.where(), 'lock held across the call')
        for w, ms, mst in wait_sites(fn, S):
            if len(ms) != 1:
                raise AnalysisError('cannot tell the mutex of the wait at ' + w.where())
            m = next(iter(ms))
            rep.check(all(s == frozenset([m]) for s in at[w]), 'wait-holds-mutex', w.where(), 'wait without holding exactly its mutex')
            locks = [i for i in fn.instrs() if is_lock(i) and S.opnd(i.ops[0]) == m]
            unlocks = [i for i in fn.instrs() if is_unlock(i) and S.opnd(i.ops[0]) == m]
            # awaited variable: atomic members read (and branched on) between lock/wait and the wait
            cells = set()
            for l in fn.instrs():
                if l.op == 'load' and l.get('ord') != 'not_atomic':
                    if fn.path(l, lambda i: i is w, is_barrier=lambda i: i in locks) and \
                       any(fn.path(k, lambda i: i is l, is_barrier=lambda i: i in unlocks) for k in locks):
                        fl = [f for f in fn.fields(l.ops[0]) if f in ((R.thread, R.state), (R.counter, R.count))]
                        if fl:
                            cells.add(fl[0])
            if len(cells) != 1:
                rep.bad('check-under-lock', w.where(), 'no shared condition is read between taking the mutex and waiting')
                continue
            cell = next(iter(cells))
            cl = [l for l in loads_of(fn, *cell) if l.get('ord') != 'not_atomic']
            cvf = [f for f in fn.fields(w.ops[0]) if f[0] in (R.thread, R.counter)]
            mf = [f for f in fn.fields(mst[0].ops[0]) if f[0] in (R.thread, R.counter)]
            if cvf and mf:
                pairs.setdefault(cell, set()).add((cvf[-1], mf[-1]))

            def sat(b, s, cell=cell, cl=cl):
                """edge on which the condition is known to hold"""
                for l in cl:
                    v = S.opnd(l.val)
                    if cell == (R.counter, R.count):
                        if edge_implies(fn, S, b, s, -v, extra=[v]):
                            return True
                    else:
                        if edge_excludes_eq(fn, S, b, s, v, p.ready):
                            return True
                return False

            def unsat(b, s, cell=cell, cl=cl):
                for l in cl:
                    v = S.opnd(l.val)
                    if cell == (R.counter, R.count):
                        if edge_excludes_eq(fn, S, b, s, v, 0):
                            return True
                    elif edge_implies_eq(fn, S, b, s, v, p.ready):
                        return True
                return False
            for src in locks + [w]:
                if not fn.path(src, lambda i: i is w):
                    continue
                bad = fn.path(src, lambda i: i is w, edge_barrier=unsat, is_barrier=lambda i: i in unlocks)
                rep.check(bad is None, 'check-under-lock', w.where(),
                          'can block although the condition was not found unsatisfied under the mutex (from %s)' % src.where())
            bad = fn.path(w, lambda i: i in unlocks or i.op == 'ret', edge_barrier=sat)
            rep.check(bad is None, 'recheck-after-wait', w.where(), 'a spurious wake-up leaves the wait with the condition unsatisfied')
    if set(pairs) != {(R.thread, R.state), (R.counter, R.count)}:
        raise AnalysisError('anchor vanished: waits found only on %s' % sorted(pairs))
    # notifications
    for fn, S in fns:
        at = locksets(fn, S)
        changes = []
        for i in fn.instrs():
            if i.op == 'store' and i.get('ord') != 'not_atomic' and is_cell(fn, i.ops[1], R.thread, R.state):
                if fn is not p.wrk and not (i.ops[0][0] == 'c' and i.ops[0][1] == p.ready):
                    changes.append((i, (R.thread, R.state), i.ops[1]))
            if i.op in ('atomicrmw', 'cmpxchg') and is_cell(fn, i.ops[0], R.counter, R.count):
                changes.append((i, (R.counter, R.count), i.ops[0]))
        for i, cell, ptr in changes:
            for cvf, mf in pairs[cell]:
                obj = fn.addr(ptr)[0] if cell[0] == R.thread else None

                def same(o, f):
                    return f in fn.fields(o) and (S.opnd(o) - S.opnd(ptr)).is_const()
                notes = [x for x in fn.instrs() if is_notify(x) and same(x.ops[0], cvf)]
                lks = [x for x in fn.instrs() if is_lock(x) and same(x.ops[0], mf)]
                v = S.opnd(i.val)

                def skip(b, s):
                    # the decrement did not reach zero: nobody can be satisfied
                    return cell == (R.counter, R.count) and i.op == 'atomicrmw' and edge_excludes_eq(fn, S, b, s, v, 1)
                end = lambda x: x.op == 'ret' or is_wait(x) or is_join(x) or \
                    (x is not i and x.op in ('store', 'atomicrmw', 'load') and x.get('ord') not in (None, 'not_atomic') and cell in fn.fields(fn.ptr_operand(x)))
                bad = fn.path(i, end, is_barrier=lambda x: x in notes, edge_barrier=skip)
                rep.check(bad is None, 'notify-after-change', i.where(), 'change is not followed by a notification before %s' % (bad.where() if bad else ''))
                # mutex taken between the change and the notification (or held at the change)
                held = all(any(mf in fn.fields(l.ops[0]) for l in lks if S.opnd(l.ops[0]) in s) and s for s in at[i]) if at[i] else False
                if not held:
                    bad = fn.path(i, lambda x: x in notes, is_barrier=lambda x: x in lks, edge_barrier=skip)
                    rep.check(bad is None, 'notify-after-change', i.where(),
                              'notification without taking the waiter\'s mutex after the change: the waiter can miss it')
    for n_ in ('wait-holds-mutex', 'check-under-lock', 'recheck-after-wait', 'notify-after-change', 'lock-balance', 'no-lock-across-task'):
        rep.need(n_, 1)


def c07(rep, tier):
    p = Pool()
    p.describe(rep)
    D, W, R, S = p.des, p.wrk, p.R, p.SD
    rep.rule('exit-told', 'destruction stores an exit state (release) into every worker of the pool')
    rep.rule('joined', 'every worker is joined before its object is freed')
    rep.rule('told-before-join', 'every worker is told to exit before the first join')
    rep.rule('exit-honoured', 'a worker that sees the exit state returns without waiting or working again')
    if not p.exit_stores:
        raise AnalysisError('anchor vanished: destruction never writes worker state')
    joins = [i for i in D.instrs() if is_join(i)]
    wfrees = [i for i in D.instrs() if i.op == 'call' and i.callee in ('_ZdlPv', '_ZdlPvm') and
              R.thread in D.root_types().get(D.addr(i.ops[0])[0], ())]
    if not joins and not wfrees:
        raise AnalysisError('anchor vanished: destruction neither joins nor frees workers')
    if not joins:
        rep.bad('joined', wfrees[0].where(), 'workers are freed without ever being joined')
        return

    def loop_cover(i, ptr_root):
        """Loop iterating a worker pointer over the whole list [begin,end)."""
        l = D.inst(ptr_root)
        if l is None or l.op != 'load':
            return None
        L = D.innermost(i.blk)
        if L is None:
            return None
        ap = S.opnd(l.ops[0])
        q = ap.coeff(('it', L.id))
        if not q or not q[0].is_const() or abs(q[0].cval()) != 8:
            return None
        return L, q[1], q[0].cval()

    def vec_load(poly, member_off):
        ats = list(poly.atoms())
        for a in ats:
            i = D.inst(a)
            if i is not None and i.op == 'load':
                r, off, var = D.addr(i.ops[0])
                if r == ('a', 0) and off == member_off and not var:
                    return a
        return None

    def covers(i, root):
        c = loop_cover(i, root)
        if not c:
            return None
        L, start, step = c
        dead = D.dead()
        # every iteration reaches i, unless the worker pointer itself is null
        # (the list holds only results of `new`, which never returns null here)
        hdr = D.blocks[L.header].ins[0]
        skip = D.path(hdr, lambda x: x.blk not in L.blocks or (x is hdr), is_barrier=lambda x: x is i,
                      edge_barrier=lambda b, s: s in dead or null_edge(D, b, s, lambda o: o == root)) if hdr is not i else None
        if skip is not None:
            return 'an iteration can skip it'
        exits = []
        for b in L.blocks:
            for s in D.blocks[b].succ:
                if s not in L.blocks and s not in dead:
                    exits.append((b, s))
        if len(exits) != 1:
            return 'loop can stop early'
        b, s = exits[0]
        c = edge_cond(D, b, s)
        ic = D.inst(c[0]) if c else None
        if ic is None or ic.op != 'icmp':
            return 'loop exit not understood'
        x, y = S.opnd(ic.ops[0]), S.opnd(ic.ops[1])
        d = x - y
        return (L, start, step, d, ic, c[1])

    def drained(i, root):
        """Loop taking the last element off the list until the list is empty."""
        L = D.innermost(i.blk)
        l = D.inst(root)
        if L is None or l is None or l.op != 'load':
            return False
        ap = S.opnd(l.ops[0])
        ends = [a for a in ap.atoms() if a[0] == 'i']
        if len(ends) != 1 or ap != Poly.atom(ends[0]) - 8:
            return False
        pops = [s_ for s_ in D.instrs() if s_.op == 'store' and s_.blk in L.blocks and D.addr(s_.ops[1])[0] == ('a', 0) and
                any((S.opnd(s_.ops[0]) - S.opnd(x.val)).is_const() and (S.opnd(s_.ops[0]) - S.opnd(x.val)).cval() == -8
                    for x in D.instrs() if x.op in ('load', 'phi') and x.ty == 'ptr')]
        dead = D.dead()
        outs = [(b, s_) for b in L.blocks for s_ in D.blocks[b].succ if s_ not in L.blocks and s_ not in dead]
        if len(pops) != 1 or len(outs) != 1:
            return False
        hdr = D.blocks[L.header].ins[0]
        for x in (pops[0], i):
            if x is not hdr and D.path(hdr, lambda y: y.blk not in L.blocks or y is hdr, is_barrier=lambda y: y is x,
                                       edge_barrier=lambda b, s_: s_ in dead or null_edge(D, b, s_, lambda o: o == root)) is not None:
                # leaving through the emptiness test is fine
                if D.path(hdr, lambda y: y.blk not in L.blocks or y is hdr, is_barrier=lambda y: y is x,
                          edge_barrier=lambda b, s_: s_ in dead or (b, s_) in outs or null_edge(D, b, s_, lambda o: o == root)) is not None:
                    return False
        c = edge_cond(D, *outs[0])
        ic = D.inst(c[0]) if c else None
        return ic is not None and ic.op == 'icmp' and ic.raw['pred'] in ('eq', 'ne') and (ic.raw['pred'] == 'eq') == c[1]

    def whole_list(i, root, rule):
        c = covers(i, root)
        if c is None and drained(i, root):
            rep.ok(rule, i.where())
            return D.innermost(i.blk)
        if c is None:
            raise AnalysisError('destruction does not iterate over the worker list in a recognised way at ' + i.where())
        if isinstance(c, str):
            rep.bad(rule, i.where(), c)
            return None
        L, start, step, d, ic, truth = c
        it = ('it', L.id)
        # start is the list's begin, and the exit is at its end; both are members of the pool
        def offs(a):
            out = set()
            for o in sources(D, a):
                l = D.inst(o)
                if l is None or l.op != 'load':
                    return None
                r, off, var = D.addr(l.ops[0])
                if r != ('a', 0) or var or not any('vector' in str(D.mod.member(f[0], f[1])[3]) for f in D.fields(l.ops[0]) if D.mod.member(*f)):
                    return None
                out.add(off)
            return out
        vb = list(start.atoms())
        ok = len(vb) == 1 and step == 8 and start == Poly.atom(vb[0])
        begin = offs(vb[0]) if ok else None
        ok = ok and begin is not None and len(begin) == 1
        q = d.coeff(it)
        ok2 = False
        if ok:
            off = next(iter(begin))
            if q is not None and q[0].is_const() and abs(q[0].cval()) in (1, 8):
                # exit when begin + 8*(it+1) == end, or it+1 == (end-begin)/8
                rest = q[1] if q[0].cval() > 0 else -q[1]
                unit = abs(q[0].cval())
                ok2 = rest.cval() in (unit, 0)
                seen = set()
                for a in rest.atoms():
                    if a[0] == 'i':
                        o = offs(a)
                        ok2 = ok2 and o is not None and o <= {off, off + 8}
                        seen |= o or set()
                    elif a[0] == 'fdiv':
                        seen.add(off + 8)
                ok2 = ok2 and off + 8 in seen
        if not (ok and ok2):
            rep.bad(rule, i.where(), 'does not cover every worker of the list')
            return None
        rep.ok(rule, i.where())
        return L

    first_loops = []
    for st in p.exit_stores:
        root = D.addr(st.ops[1])[0]
        c = st.ops[0][1] if st.ops[0][0] == 'c' else None
        rep.check(st.get('ord') in RELEASE and c not in (p.work, p.ready, None), 'exit-told', st.where(),
                  'exit state not published properly (value %s, order %s)' % (c, st.get('ord')))
        L = whole_list(st, root, 'exit-told')
        if L:
            first_loops.append((L, st))
    frees = [i for i in D.instrs() if i.op == 'call' and i.callee in ('_ZdlPv', '_ZdlPvm')]
    for j in joins:
        # joined thread handle is loaded from a worker object
        h = D.inst(j.ops[0])
        root = D.addr(h.ops[0])[0] if h is not None and h.op == 'load' else None
        if root is None:
            root = D.addr(j.ops[0])[0]
        wl = D.inst(root)
        if wl is None:
            raise AnalysisError('cannot tell which worker is joined at ' + j.where())
        whole_list(j, root, 'joined')
        fr = [f for f in frees if D.addr(f.ops[0])[0] == root]
        for f in fr:
            rep.check(D.dominates(j, f), 'joined', f.where(), 'worker object freed without having been joined')
        # no free of worker before
        for L, st in first_loops:
            b = D.path(j, lambda i: i is st)
            same = L is D.innermost(j.blk)
            rep.check(b is None or same, 'told-before-join', j.where(), 'a worker is told to exit only after another was joined')
            if same:
                rep.check(D.dominates(st, j), 'told-before-join', j.where(), 'joined before being told to exit')
            else:
                # the join loop is entered only after the exit loop
                bad = D.path(None, lambda i: i is j, edge_barrier=lambda b_, s_: b_ in L.blocks and s_ not in L.blocks or
                             (edge_facts(D, S, b_, s_) and entails(edge_facts(D, S, b_, s_) , P(0)) and _empty_edge(D, S, b_, s_)))
                rep.check(bad is None, 'told-before-join', j.where(), 'join reachable without telling the workers to exit')
    # worker honours exit
    sl = list(loads_of(W, R.thread, R.state))
    ex = next(iter(p.exit_consts)) if len(p.exit_consts) == 1 else None
    if ex is None:
        raise AnalysisError('exit state is not a single constant')
    SW = p.SW

    vtests = {}

    def eval_edge(b, s):
        """False if the edge cannot be taken when the last read state is the exit state."""
        c = edge_cond(W, b, s)
        if c:
            i = W.inst(c[0])
            if i is not None and i.op == 'icmp' and i.ops[1][0] == 'c' and i.raw['pred'] in ('eq', 'ne'):
                src = sources(W, i.ops[0])
                if src and all(W.inst(o) in sl or o[0] == 'c' for o in src) and any(W.inst(o) in sl for o in src):
                    val = (ex == i.ops[1][1]) == (i.raw['pred'] == 'eq')
                    return val == c[1]
            return True
        t = W.term(b)
        if t.op == 'switch' and t.ops[0][0] != 'c':
            src = sources(W, t.ops[0])
            if any(W.inst(o) in sl for o in src):
                tgt = next((d for v, d in t.raw['cases'] if int(v) == ex), t.raw['default'])
                return s == tgt
        return True
    for l in sl:
        bad = W.path(l, lambda i: is_wait(i) or i.op == 'atomicrmw' or i.get('cv') is not None,
                     edge_barrier=lambda b, s: not eval_edge(b, s))
        rep.check(bad is None, 'exit-honoured', l.where(), 'after seeing the exit state the worker still reaches %s' % (bad.where() if bad else ''))
    for n_ in ('exit-told', 'joined', 'told-before-join', 'exit-honoured'):
        rep.need(n_, 1)


def _empty_edge(D, S, b, s):
    """Edge taken only when the worker list is empty (begin == end)."""
    c = edge_cond(D, b, s)
    i = D.inst(c[0]) if c else None
    if i is None or i.op != 'icmp' or i.raw['pred'] not in ('eq', 'ne'):
        return False
    if (i.raw['pred'] == 'eq') != c[1]:
        return False
    ok = True
    for o in i.ops:
        l = D.inst(o)
        ok = ok and l is not None and l.op == 'load' and D.addr(l.ops[0])[0] == ('a', 0)
    return ok


CHECKS = {'C01': c01, 'C02': c02, 'C07': c07}
