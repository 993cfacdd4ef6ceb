"""Vocabulary for the thread-pool and task protocols: roles of classes and
members are found by their types, events by what they do."""
import re
from collections import defaultdict
from build import AnalysisError
from ir import tup
from sym import Poly, P, Facts, entails
from scev import Sym

RELEASE = ('release', 'acq_rel', 'seq_cst')
ACQUIRE = ('acquire', 'acq_rel', 'seq_cst')


def member_by_type(mod, cls, pat, what):
    t = mod.type(cls)
    c = [m for m in t['members'] if re.search(pat, m[3])]
    if len(c) != 1:
        raise AnalysisError('anchor vanished: %s of %s (%d candidates)' % (what, cls, len(c)))
    return c[0][0]


class Roles:
    def __init__(self, mod):
        th = [n for n, t in mod.types.items()
              if any(re.search(r'\bstd::thread\b', m[3]) for m in t['members']) and
              any('std::atomic' in m[3] for m in t['members'])]
        if len(th) != 1:
            raise AnalysisError('anchor vanished: worker class (%d candidates)' % len(th))
        self.thread = th[0]
        self.state = member_by_type(mod, self.thread, r'std::atomic', 'state')
        self.task = member_by_type(mod, self.thread, r'ruy::Task', 'task')
        ct = [n for n, t in mod.types.items() if n != self.thread and
              any('std::atomic' in m[3] for m in t['members']) and
              any('std::condition_variable' in m[3] for m in t['members'])]
        if len(ct) != 1:
            raise AnalysisError('anchor vanished: counter class (%d candidates)' % len(ct))
        self.counter = ct[0]
        self.count = member_by_type(mod, self.counter, r'std::atomic', 'count')


def is_cell(fn, o, cls, member):
    return (cls, member) in fn.fields(o)


def virtual_calls(fn):
    """(call, receiver operand, slot offset) for calls through a vtable."""
    for c in fn.calls():
        cv = c.get('cv')
        if not cv or not c.ops:
            continue
        l = fn.inst(tup(cv))
        if l is None or l.op != 'load':
            continue
        r, off, var = fn.addr(l.ops[0])
        vt = fn.inst(r)
        if vt is None or vt.op != 'load' or var:
            continue
        r2, off2, var2 = fn.addr(vt.ops[0])
        r3, off3, var3 = fn.addr(c.ops[0])
        if (r2, off2, var2) == (r3, off3, var3):
            yield c, c.ops[0], off


def stores_to(fn, cls, member):
    for i in fn.instrs():
        if i.op == 'store' and is_cell(fn, i.ops[1], cls, member):
            yield i


def loads_of(fn, cls, member):
    for i in fn.instrs():
        if i.op == 'load' and is_cell(fn, i.ops[0], cls, member):
            yield i


def rmws_of(fn, cls, member):
    for i in fn.instrs():
        if i.op in ('atomicrmw', 'cmpxchg') and is_cell(fn, i.ops[0], cls, member):
            yield i


def is_lock(i):
    return i.op == 'call' and i.callee == 'pthread_mutex_lock'


def is_unlock(i):
    return i.op == 'call' and i.callee == 'pthread_mutex_unlock'


def is_wait(i):
    return i.op == 'call' and i.dem.startswith('std::condition_variable::wait(')


def is_notify(i):
    return i.op == 'call' and re.match(r'std::condition_variable::notify_(one|all)\(', i.dem or '') is not None


def is_join(i):
    return i.op == 'call' and (i.dem or '').startswith('std::thread::join(')


def is_start(i):
    return i.op == 'call' and (i.dem or '').startswith('std::thread::_M_start_thread(')


def locksets(fn, S):
    """instr -> set of possible locksets (each a frozenset of mutex polys) before it."""
    inb = defaultdict(set)
    inb[fn.entry].add(frozenset())
    work = [fn.entry]
    at = defaultdict(set)
    problems = []
    while work:
        b = work.pop()
        cur = set(inb[b])
        for i in fn.blocks[b].ins:
            at[i] |= cur
            if is_lock(i):
                m = S.opnd(i.ops[0])
                cur = {s | {m} for s in cur}
            elif is_unlock(i):
                m = S.opnd(i.ops[0])
                cur = {s - {m} for s in cur}
        for s in fn.blocks[b].succ:
            if not cur <= inb[s]:
                inb[s] |= cur
                work.append(s)
    return at


def edge_cond(fn, b, s):
    """(cond operand, truth) when edge b->s is one side of a conditional branch."""
    t = fn.term(b)
    if t.op == 'br' and len(t.ops) == 3:
        fs, ts = t.ops[1][1], t.ops[2][1]
        if fs == ts:
            return None
        return (t.ops[0], s == ts)
    return None


def edge_facts(fn, S, b, s):
    """polys >= 0 implied by taking edge b->s."""
    c = edge_cond(fn, b, s)
    if c:
        return S.cond(*c)
    t = fn.term(b)
    if t.op == 'switch' and t.ops[0][0] != 'c':
        vs = [int(v) for v, d in t.raw['cases'] if d == s]
        if vs and s != t.raw['default'] and len(set(vs)) == 1:
            p = S.opnd(t.ops[0])
            return [p - vs[0], P(vs[0]) - p]
    return []


def edge_implies_eq(fn, S, b, s, p, c):
    """Taking edge b->s implies poly p == c (linear facts only)."""
    f = edge_facts(fn, S, b, s)
    return bool(f) and entails(f, p - c) and entails(f, P(c) - p)


def edge_implies(fn, S, b, s, goal, extra=()):
    f = edge_facts(fn, S, b, s)
    return bool(f) and entails(list(f) + list(extra), goal)


def edge_excludes_eq(fn, S, b, s, p, c):
    """Taking edge b->s implies p != c."""
    d = p - c
    f = edge_facts(fn, S, b, s)
    if f and entails(list(f) + [d, -d], P(-1)):
        return True

    def excl(o, truth):
        i = fn.inst(o)
        if i is None:
            return False
        if i.op == 'icmp':
            pr = i.raw['pred']
            if (pr == 'ne') == truth and pr in ('eq', 'ne'):
                dd = S.opnd(i.ops[0]) - S.opnd(i.ops[1])
                return dd == d or dd == -d
            return False
        if i.op == 'xor' and i.ops[1][0] == 'c':
            return excl(i.ops[0], not truth)
        if i.op == 'freeze':
            return excl(i.ops[0], truth)
        if i.op == 'and' and truth or i.op == 'or' and not truth:
            return excl(i.ops[0], truth) or excl(i.ops[1], truth)
        if i.op == 'select':
            if truth and i.ops[2] == ('c', 0, 1):
                return excl(i.ops[0], True) or excl(i.ops[1], True)
            if not truth and i.ops[1][0] == 'c' and i.ops[1][1] != 0:
                return excl(i.ops[0], False) or excl(i.ops[2], False)
        return False
    c_ = edge_cond(fn, b, s)
    if c_ and excl(*c_):
        return True
    t = fn.term(b)
    if t.op == 'switch' and t.ops[0][0] != 'c':
        sp = S.opnd(t.ops[0])
        if sp == p:
            vs = [int(v) for v, dd in t.raw['cases'] if dd == s]
            if s == t.raw['default']:
                return c in [int(v) for v, dd in t.raw['cases']] and c not in vs
            return c not in vs
    return False


def null_edge(fn, b, s, is_ptr):
    """Edge taken only when a pointer satisfying is_ptr is null."""
    c = edge_cond(fn, b, s)
    if not c:
        return False
    i = fn.inst(c[0])
    if i is None or i.op != 'icmp' or i.raw['pred'] not in ('eq', 'ne'):
        return False
    a, z = i.ops
    if z[0] != 'n':
        a, z = z, a
    if z[0] != 'n' or not is_ptr(a):
        return False
    return (i.raw['pred'] == 'eq') == c[1]


def sources(fn, o, seen=None):
    """Leaf values an operand may take through phi/select/freeze."""
    seen = set() if seen is None else seen
    if o in seen:
        return set()
    seen.add(o)
    i = fn.inst(o)
    if i is None:
        return {o}
    if i.op == 'phi':
        r = set()
        for _, v in fn.phi_in(i):
            r |= sources(fn, v, seen)
        return r
    if i.op == 'select':
        return sources(fn, i.ops[1], seen) | sources(fn, i.ops[2], seen)
    if i.op in ('freeze', 'zext', 'sext', 'trunc', 'bitcast'):
        return sources(fn, i.ops[0], seen)
    return {o}
