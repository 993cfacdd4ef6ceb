"""A05 accessors of the public classes, A06 reports about the last multiplication, T01 tuning."""
import os
import re
from build import flatten, bitcode, repo_sources, AnalysisError, VERIF
from dis import Canon
from ir import Module, tup
from scev import Sym
from sym import P, Poly, entails
from trmul import TM
import bytesym as B
import front

# ---------------------------------------------------------------- A05


def calls(run, st, i, a):
    d = i.dem or i.callee or ''
    if (i.callee or '').startswith('llvm.'):
        return None
    if i.callee == '__assert_fail':
        return []
    w = B.tywidth(i.ty) if i.ty != 'void' else None
    n = sum(e[0] == i.id for e in st.events)
    r = ('x', w, ('call', re.sub(r'\(.*', '', d), i.id, n)) if w else None
    if w:
        st.env[i.id] = r
    st.events += ((i.id, 'call', d, tuple(a), r),)
    return [st]


def loads(e, out):
    """(base, offset, bytes) of the input cells a term depends on."""
    if isinstance(e, tuple):
        if e and e[0] == 'ld':
            out.add((e[2], e[3], e[1] // 8))
            loads(e[2], out)
        else:
            for x in e:
                loads(x, out)
    return out


def changed(st):
    """(base, offset) of every byte that was written, unless it got its old value."""
    out = set()
    for base, off in st.mem:
        if st.read(base, off, 1) != ('ld', 8, base, off, 0):
            out.add((base, off))
    return out


def a05(rep, tier):
    R = rep.rule
    R('readback', 'reading an option right after setting it gives the value set, whatever the object held before')
    R('apart', 'setting an option writes nothing that reading another option depends on')
    R('neutral', 'a new object has the documented neutral value for every option')
    src = os.path.join(VERIF, 'probe', 'api.cc')
    bcs = list(bitcode(tag='api', sources=repo_sources() + [src]).values())
    m = Module(flatten(roots=[r'^verif_api::'], keep=[r'^ruy::(Ctx(Impl)?|ThreadPool)::[~]?(Ctx|CtxImpl|ThreadPool)\('], bcs=bcs, tag='api'))
    by = {}
    for f in m.fns.values():
        x = re.match(r'verif_api::(\w+?)__(\w+?)__(set|get|back|new)\(', f.dem)
        if x:
            by.setdefault(x.group(1), {}).setdefault(x.group(2), {})[x.group(3)] = f
    if not by:
        raise AnalysisError('anchor vanished: accessor instantiations')
    reads, mode = {}, {}
    for cls, opts in sorted(by.items()):
        for o, fs in sorted(opts.items()):
            if 'new' in fs:
                for t, st, v in B.Run(fs['new'], call=calls).run():
                    rep.check(v is not None and v[0] == 'c' and v[1] & 1 == 1, 'neutral', '%s of a new %s' % (o, cls), 'a new object does not have the neutral value')
            if 'back' not in fs:
                continue
            n = 0
            for t, st, v in B.Run(fs['back'], call=calls).run():
                n += 1
                want = ('x', B.width(v), ('a', 1)) if v is not None else None
                rep.check(v is not None and (same(v, want) or known(st, v, want)), 'readback', '%s of %s' % (o, cls), 'reading it back gives %s' % front.show(v))
            if not n:
                raise AnalysisError('no way through the accessors of %s' % o)
            rd = set()
            for t, st, v in B.Run(fs['get'], call=calls).run():
                loads(v, rd)
                for k in st.facts:
                    loads(k, rd)
                for k in st.nots:
                    loads(k[0], rd)
            reads[cls, o] = {(b, x + j) for b, x, n in rd for j in range(n)}
        for o, fs in sorted(opts.items()):
            if 'set' not in fs:
                continue
            w = set()
            for t, st, v in B.Run(fs['set'], call=calls).run():
                w |= changed(st)
            for o2 in sorted(opts):
                if o2 == o or 'cdata' in (o, o2) or (cls, o2) not in reads or o2.startswith('multiplier') and o.startswith('multiplier'):
                    continue        # scalar and per-channel multipliers exclude each other by design
                # pointers on the way to the option are shared by all options
                x = w & reads[cls, o2]
                rep.check(not x, 'apart', '%s and %s of %s' % (o, o2, cls), 'setting %s changes %s' % (o, o2))
    for r in rep.rules:
        rep.need(r, 1)


def same(v, w):
    return v == w or v is not None and v[0] in ('zext', 'trunc', 'and') and len(v) > 2 and same_low(v[2], w)


def same_low(v, w):
    return v == w or v == ('x', B.width(v), w[2])


def known(st, v, w):
    """Equal under the conditions of the path: booleans turned into branches."""
    return st.facts.get(w) == v[1] if v[0] == 'c' else False


# ---------------------------------------------------------------- A06

KEEP6 = [r'ruy::(RunPack|RunKernel)', r'^ruy::(PreparePackedMatrices|TrMul)\(', r'^ruy::Allocator::',
         r'^ruy::Ctx::(SelectPath|GetMainAllocator|GetRuntimeEnabledPaths|SetRuntimeEnabledPaths|GetThread|GetMainThread|GetPrepacked|Ensure|mutable_cpuinfo)']
ADV, LAST = r'performance_advisory_?$', r'last_used_path_?$'


def member(m, pat):
    t = m.type('ruy::CtxImpl')
    if not t:
        raise AnalysisError('anchor vanished: no class ruy::CtxImpl')
    xs = [x for x in t['members'] if re.match(pat, x[0])]
    if len(xs) != 1:
        raise AnalysisError('anchor vanished: no member %s of the context' % pat)
    return xs[0]


class Report(front.Front):
    def __init__(self, probe):
        front.KEEP, old = KEEP6, front.KEEP
        try:
            super().__init__(probe)
        finally:
            front.KEEP = old

    def moved(self, h):
        """Per-channel buffers that are not the user's any more."""
        out = []
        mo = h.lay['mul_params_bytes'][0]
        for b in front.BUFS:
            if b in self.mp:
                o, n = self.mp[b]
                v, orig = h.raw(mo + o, n), self.inp('mp', b)
                if v != orig and h.run.subst(h.st, orig) != v:
                    out.append(b)
        return out


def a06(rep, tier):
    R = rep.rule
    R('reset', 'after a multiplication the advisories do not depend on those of earlier ones')
    R('exact', 'the advisory about copied per-channel buffers is given exactly when one was copied')
    R('late', 'nothing after the hand-off to the middle end touches the advisories')
    R('path', 'the path reported as last used is the one selected for the multiplication')
    bit = 1
    for p in front.PROBES:
        f = Report(p)
        adv = member(f.m, ADV)
        bit = (f.m.enums.get('ruy::PerformanceAdvisory') or {}).get('kReallocatedPerChannelBuffer', 1)
        rep.units.append('front end instantiated for %s x %s -> %s' % (f.types[0], f.types[1], f.types[3]))
        ctx = None
        for combo, run, hands, ends in f.runs():
            for st in ends:
                ev = [e for e in st.events if e[1] == 'multiply']
                if not ev:
                    continue        # A03
                h = front.Hand(run, st, ev[0][2], ev[0][3], f.lay, 'multiply')
                if h['path'][0] != 'c':
                    continue
                v = advisory(st, adv, run)
                w = front.where(f, combo, h)
                if v is None or v[0] != 'c':
                    rep.bad('reset', w, 'an advisory of an earlier multiplication can remain', key='reset@' + p)
                    continue
                rep.ok('reset', w)
                mv = f.moved(h)
                rep.check(bool(v[1] & bit) == bool(mv), 'exact', w,
                          'copied %s without saying so' % ', '.join(mv) if mv else 'copied nothing but says so', key='exact@%s@%s' % (p, bool(mv)))
    lib = Module(flatten(roots=[r'^ruy::TrMul\(', r'^ruy::PreparePackedMatrices\(', r'^ruy::.*::Run\(\)$', r'^ruy::Ctx::SelectPath\('],
                         keep=[r'^ruy::Ctx::GetRuntimeEnabledPaths'], tag='late'))
    adv, last = member(lib, ADV), member(lib, LAST)
    for f in lib.fns.values():
        if not f.dem.startswith('ruy::Ctx::SelectPath('):
            for i in f.instrs():
                if i.op == 'store':
                    hit = {x for c, x in f.fields(i.ops[1]) if c == 'ruy::CtxImpl'}
                    rep.check(adv[0] not in hit and last[0] not in hit, 'late', i.where(), 'the report is changed while the multiplication runs') if hit else None
            rep.ok('late', f.dem)
    s = lib.one(r'^ruy::Ctx::SelectPath\(')
    for t, st, v in B.Run(s, call=calls).run():
        got = st.read(('x', 64, ('a', 0)), last[1], last[2] or 1)
        rep.check(v is not None and (got == v or run_eq(st, got, v)), 'path', s.dem, 'the path reported is %s, the one used is %s' % (front.show(got), front.show(v)))
    for r in rep.rules:
        rep.need(r, 1)


def run_eq(st, a, b):
    return st.facts.get(a, a) == st.facts.get(b, b)


def advisory(st, adv, run):
    """The value of the advisories of the context, wherever the context is reached from."""
    vs = set()
    for base, off in st.mem:
        if off == adv[1] and base[0] == 'ld' and base[2] == ('x', 64, ('a', 3)):
            vs.add(run.subst(st, st.read(base, adv[1], adv[2] or 4)))
    return next(iter(vs)) if len(vs) == 1 else None


# ---------------------------------------------------------------- T01

def t01(rep, tier):
    R = rep.rule
    R('explicit', 'a tuning that was set explicitly is what is resolved')
    R('recent', 'a remembered automatic choice is used only when there is one and it is younger than the expiry time')
    R('remember', 'a new automatic choice is an actual tuning, asks about the current processor, and is remembered with its time')
    R('told', 'the resolver of every thread has been told the tuning of the context before the thread asks it')
    R('used', 'packing and kernels run with what the resolver of their own thread says')
    m = Module(flatten(roots=[r'^ruy::TuningResolver::Resolve\('], keep=[r'^ruy::CpuInfo::', r'CoarseNow']))
    fn = m.one(r'^ruy::TuningResolver::Resolve\(')
    lay = front.layout(m, 'ruy::TuningResolver')
    if not {'unresolved_tuning', 'last_resolved_tuning', 'last_resolved_timepoint', 'expiry_duration'} <= set(lay):
        raise AnalysisError('anchor vanished: members of the tuning resolver')
    this = ('x', 64, ('a', 0))

    def ld(k):
        return ('ld', lay[k][1] * 8, this, lay[k][0], 0)
    U, L, T, X = (ld(k) for k in ('unresolved_tuning', 'last_resolved_tuning', 'last_resolved_timepoint', 'expiry_duration'))
    n = 0
    for t, st, v in B.Run(fn, call=calls).run():
        n += 1
        if st.facts.get(U) != 0:
            ok = v == U and (U, 0) in st.nots or st.facts.get(U) is not None and v == B.C(st.facts[U], 32)
            rep.check(ok, 'explicit', fn.dem, 'with an explicit tuning set the result is %s' % front.show(v))
            continue
        now = [e[4] for e in st.events if e[1] == 'call' and 'Now' in e[2]]
        mem = st.read(this, *lay['last_resolved_tuning'])
        tm = st.read(this, *lay['last_resolved_timepoint'])
        if v == L or st.facts.get(L) is not None and not any('CpuInfo' in e[2] for e in st.events if e[1] == 'call'):
            fx = []
            f = B.linear(st, fx) + fx
            ok = (L, 0) in st.nots or bool(st.facts.get(L))
            ok = ok and len(now) == 1 and entails(f, B.poly(X, fx) - B.poly(now[0], fx) + B.poly(T, fx) - 1)
            ok = ok and mem in (L, v) and tm == T
            rep.check(ok, 'recent', fn.dem, 'a remembered choice is used although none was made, it may be too old, or its age is lost')
        else:
            asked = any(e[1] == 'call' and 'CpuInfo' in e[2] for e in st.events)
            ok = v is not None and (v[0] == 'c' and v[1] != 0) and asked and mem == v and tm in now
            rep.check(ok, 'remember', fn.dem, 'the new choice %s is not an actual one, not asked for, or not remembered' % front.show(v))
    if n < 3:
        raise AnalysisError('anchor vanished: cases of the tuning resolver')
    told(rep, lay)
    for r in rep.rules:
        rep.need(r, 1)
    rep.assume.append('the clock does not run backwards')


RESOLVE, SLOT, EXEC = r'^ruy::TuningResolver::Resolve\(', r'^ruy::Ctx::GetThreadSpecificTuningResolver\(', r'^ruy::ThreadPool::Execute'


def told(rep, lay):
    T = TM(keep=r'^ruy::(TuningResolver::Resolve|Ctx::(GetThreadSpecific|EnsureThreadSpecificResources|GetMainAllocator|GetPrepackedCache)|ThreadPool::Execute|Allocator::|PrepackedCache::|CpuInfo::)',
           roots=[r'^ruy::PreparePackedMatrices\('])
    m = T.mod
    prep = m.one(r'^ruy::PreparePackedMatrices\(')
    off = lay['unresolved_tuning'][0]
    ro = [x for x in T.task['members'] if 'TuningResolver' in x[3]]
    if len(ro) != 1:
        raise AnalysisError('anchor vanished: the resolver of a task')
    for fn in (T.tm, prep, T.run):
        S = Sym(fn)
        cn = Canon(fn)

        def slot(o):
            """The number of the thread a resolver belongs to, as an operand."""
            i = fn.inst(o)
            return i.ops[1] if i is not None and i.op == 'call' and re.match(SLOT, i.dem or '') else None
        tells = []
        for i in fn.instrs():
            if i.op == 'store':
                r, o, var = fn.addr(i.ops[1])
                if o == off and not var and slot(r) is not None:
                    v = fn.inst(i.ops[0])
                    good = v is not None and v.op == 'load' and any(c == 'ruy::CtxImpl' and re.match(r'explicit_tuning_?$', x) for c, x in fn.fields(v.ops[0]))
                    tells.append((i, slot(r), good))
        for i, _s, good in tells:
            rep.check(good, 'told', i.where(), 'a resolver is told something else than the tuning of the context')
        n = 0
        for i in fn.instrs():
            if i.op == 'call' and T.callee_member(fn, i) in ('run_pack', 'run_kernel'):
                n += 1
                srcs = origins(fn, i.ops[0])
                ok = bool(srcs)
                for o in srcs:
                    c = fn.inst(o)
                    if c is None or c.op != 'call' or not re.match(RESOLVE, c.dem or ''):
                        ok = False
                        continue
                    if fn is T.run:
                        a = fn.inst(c.ops[0])
                        own = a is not None and a.op == 'load' and fn.addr(a.ops[0]) == (('a', 0), ro[0][1], ())
                        ok = ok and own
                        continue
                    k = slot(c.ops[0])
                    ok = ok and k is not None and k[0] == 'c' and k[1] == 0
                    ts = [t for t, s, g in tells if s == k and g]
                    rep.check(ok and fn.path(None, lambda x: x is c, lambda x: x in ts) is None, 'told', c.where(), 'the resolver is asked without having been told the tuning of the context')
                rep.check(ok, 'used', i.where(), 'runs with a tuning that the resolver of its thread did not give')
        if not n:
            raise AnalysisError('anchor vanished: no packing or kernel in ' + fn.dem)
        if fn is not T.tm:
            continue
        exs = list(fn.calls(EXEC))
        if not exs:
            raise AnalysisError('anchor vanished: no batch is executed')
        for ex in exs:
            cnt = S.opnd(ex.ops[1])

            def over(b, s):
                """Leaving a loop that told every resolver."""
                for L in fn.loops:
                    if b in L.blocks and s not in L.blocks and L.btc and L.btc[0] != 'cnc' and len(L.exits) == 1:
                        lat = [x for x in L.blocks if L.header in fn.blocks[x].succ]
                        it = ('it', L.id)
                        for t, k, g in tells:
                            if not g or fn.innermost(t.blk) is not L or not all(fn.dominates_b(t.blk, x) for x in lat):
                                continue
                            p = S.opnd(k)
                            runs = S.scev(L.btc) + (1 if fn.dominates_b(t.blk, b) else 0)
                            F = S.facts_at(b)
                            q = p - Poly.atom(it)
                            if it not in q.atoms() and F.prove(-q) and F.prove(q) and F.prove(runs - cnt):
                                return True
                            q = p + Poly.atom(it) - cnt + 1       # counting down
                            if it not in q.atoms() and F.prove(-q) and F.prove(q) and F.prove(runs - cnt):
                                return True
                e = edge_none(fn, S, b, s, cnt)
                return e
            rep.check(fn.path(None, lambda i: i is ex, lambda i: False, over) is None, 'told', ex.where(),
                      'threads start without every resolver having been told the tuning of the context')


def edge_none(fn, S, b, s, cnt):
    """The edge is taken only for an empty batch."""
    t = fn.term(b)
    if t.op != 'br' or len(t.ops) != 3 or t.ops[1][1] == t.ops[2][1]:
        return False
    f = S.cond(t.ops[0], t.ops[2][1] == s)
    return bool(f) and entails(list(f) + S.side + [cnt - 1], P(-1))


def origins(fn, o, seen=None):
    seen = set() if seen is None else seen
    if o in seen:
        return set()
    seen.add(o)
    i = fn.inst(o)
    if i is not None and i.op == 'phi':
        return set().union(*[origins(fn, v, seen) for _b, v in fn.phi_in(i)])
    if i is not None and i.op == 'select':
        return origins(fn, i.ops[1], seen) | origins(fn, i.ops[2], seen)
    return {o}


CHECKS = {'A05': a05, 'A06': a06, 'T01': t01}
