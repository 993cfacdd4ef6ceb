"""F01: subnormals are flushed while kernels run; the caller's floating-point
control state comes back unchanged."""
import re
from build import flatten, AnalysisError
from ir import Module, tup
from conc import virtual_calls, Roles, stores_to, rmws_of, is_start
import mem

KEEP = [r'^ruy::(Allocator::|TuningResolver::|GetBlockBy|GetBlockM|MakeBlockMap|CpuInfo::|detail::System)', r'ruy::(RunPack|RunKernel)']
FLUSH = 0x8000 | 0x0040         # results flushed to zero, operands treated as zero
FULL = (1 << 32) - 1
TOP = None
OTHER = re.compile(r'^(fesetenv|fesetround|feupdateenv|fesetexcept|feholdexcept|feenableexcept|fedisableexcept|_controlfp|fpsetmask)')
ASM = re.compile(r'ldmxcsr|fldcw|fldenv|frstor|xrstor|fxrstor|fninit|emms', re.I)


# abstract control word: (base, set bits, cleared bits); base 'E' is the value on entry, 'K' a constant zero
def v_or(a, c):
    return TOP if a is TOP else (a[0], a[1] | c, a[2] & ~c & FULL)


def v_and(a, c):
    c &= FULL
    return TOP if a is TOP else (a[0], a[1] & c, (a[2] | (~c & FULL)) & FULL) if a[0] == 'E' else ('K', a[1] & c, 0)


class Flow:
    def __init__(self, fn, entry):
        self.fn = fn
        self.state = {}
        self.at = {}
        self.csr0 = entry
        self.inb = {fn.entry: {'csr': entry}}
        self.solve()

    def val(self, st, o):
        if o[0] == 'c':
            return ('K', o[1] & FULL, 0)
        return st.get(o, TOP)

    def cell(self, o):
        r, off, var = self.fn.addr(o)
        return ('m', r, off) if not var else None

    def step(self, st, i):
        fn, op = self.fn, i.op
        n = i.callee or ''
        if n == 'llvm.x86.sse.stmxcsr':
            st[self.cell(i.ops[0])] = st.get('csr', TOP)
        elif n == 'llvm.x86.sse.ldmxcsr':
            st['csr'] = st.get(self.cell(i.ops[0]), TOP)
        elif op == 'load':
            st[i.val] = st.get(self.cell(i.ops[0]), TOP)
        elif op == 'store':
            c = self.cell(i.ops[1])
            if c is None:
                r = fn.addr(i.ops[1])[0]
                for k in [k for k in st if k[0] == 'm' and k[1] == r]:
                    del st[k]
            else:
                st[c] = self.val(st, i.ops[0])
        elif mem.is_memcpy(i) and i.ops[2][0] == 'c':
            d, s = self.cell(i.ops[0]), self.cell(i.ops[1])
            if d and s:
                for k in range(0, i.ops[2][1], 4):
                    st[('m', d[1], d[2] + k)] = st.get(('m', s[1], s[2] + k), TOP)
        elif mem.is_memset(i):
            d = self.cell(i.ops[0])
            for k in [k for k in st if d and k[0] == 'm' and k[1] == d[1]]:
                del st[k]
        elif op in ('or', 'and') and i.ops[1][0] == 'c':
            st[i.val] = (v_or if op == 'or' else v_and)(self.val(st, i.ops[0]), i.ops[1][1])
        elif op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            st[i.val] = self.val(st, i.ops[0])
        elif op == 'select':
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            st[i.val] = a if a == b else TOP
        elif op in ('call', 'invoke') and not mem.ignorable(i):
            # a callee may write what it is handed a pointer to
            for o in i.ops:
                if o[0] in ('i', 'a', 'gep'):
                    r = fn.addr(o)[0]
                    for k in [k for k in st if k[0] == 'm' and k[1] == r]:
                        del st[k]

    def solve(self):
        fn = self.fn
        work = [fn.entry]
        while work:
            b = work.pop()
            st = dict(self.inb[b])
            for i in fn.blocks[b].ins:
                self.at[i] = st.get('csr', TOP)
                if i.op != 'phi':
                    self.step(st, i)
            for s in fn.blocks[b].succ:
                out = dict(st)
                for i in fn.blocks[s].ins:
                    if i.op != 'phi':
                        break
                    out[i.val] = next((self.val(st, v) for p, v in fn.phi_in(i) if p == b), TOP)
                old = self.inb.get(s)
                if old is None:
                    self.inb[s] = out
                    work.append(s)
                else:
                    new = {k: v for k, v in old.items() if k in out and out[k] == v and v is not TOP}
                    if new != {k: v for k, v in old.items() if v is not TOP}:
                        self.inb[s] = new
                        work.append(s)


def kernel_call(fn, i):
    cv = i.get('cv')
    l = fn.inst(tup(cv)) if cv else None
    if l is None or l.op != 'load':
        return False
    return any(c == 'ruy::TrMulParams' and m == 'run_kernel' for c, m in fn.fields(l.ops[0])) and \
        not any(m == 'run_pack' for c, m in fn.fields(l.ops[0]))


def show(v):
    if v is TOP:
        return 'not known'
    if v[0] == 'K':
        return 'the constant 0x%x' % v[1]
    s = 'the state on entry'
    if v[1]:
        s += ' with 0x%x set' % v[1]
    if v[2]:
        s += ' with 0x%x cleared' % v[2]
    return s


def f01(rep, tier):
    m = Module(flatten(roots=[r'^verif_probe::mul_f32\(', r'^ruy::.*::Run\(\)$'], keep=KEEP, flags=['--thread-roots']))
    al = Module(flatten(roots=['ruy'], flags=['--all', '--no-inline', '--no-scev'], tag='all'))
    rep.rule('F01.flush', 'wherever a kernel or a task is started, results and operands that are subnormal are flushed (both control bits set)')
    rep.rule('F01.startup', 'a start of a task before the worker has announced itself finds no task: the task is null when the thread is created')
    rep.rule('F01.restored', 'when a multiplication or a worker ends, the floating-point control state is the one on entry')
    rep.rule('F01.task', 'a task keeps the flushing state it is started in until its last kernel, and leaves it unchanged')
    rep.rule('F01.only', 'nothing else in the library changes the floating-point control state')
    rep.assume.append('calls outside the library preserve the floating-point control state')
    E = ('E', 0, 0)
    mul = m.one(r'^verif_probe::mul_f32\(')
    tasks = [f for f in m.fns.values() if re.search(r'::Run\(\)$', f.dem) and any(kernel_call(f, i) for i in f.calls())]
    if not tasks:
        raise AnalysisError('anchor vanished: task that runs kernels')
    # the functions threads start in, with the virtual start of a task
    workers = [f for f in m.fns.values() if f is not mul and f not in tasks and any(own(i) for i, _, _ in virtual_calls(f))
               and not f.dem.startswith('std::')]
    workers = [f for f in workers if not any(g is not f and calls_into(f, g) for g in workers)] or workers
    if not workers:
        raise AnalysisError('anchor vanished: worker thread that starts tasks')
    covered = set()
    R = Roles(m)
    for f in [mul] + workers + tasks:
        rep.units.append(f.dem)
        fl = Flow(f, E)
        task = f in tasks
        for i in f.calls():
            if (i.callee or '') == 'llvm.x86.sse.ldmxcsr':
                covered.add(i.where())
            k = kernel_call(f, i)
            v = not task and any(i is c and own(i) for c, _, _ in virtual_calls(f))
            if not (k or v):
                continue
            s = fl.at.get(i, TOP)
            if task:
                rep.check(s is not TOP and (s[1] & FLUSH == FLUSH or (s[0] == 'E' and not s[2] & FLUSH)), 'F01.task', i.where(),
                          'the kernel is started with %s' % show(s))
            elif v and f in workers and starts_empty(rep, m, mul, f, i, R):
                rep.ok('F01.startup', i.where())
            else:
                rep.check(s is not TOP and s[1] & FLUSH == FLUSH, 'F01.flush', i.where(),
                          '%s is started while the floating-point control state is %s: subnormals are not flushed'
                          % ('a kernel' if k else 'a task', show(s)))
        for b in f.blocks:
            t = f.term(b)
            if t.op == 'ret' and b in fl.inb:
                s = fl.at.get(t, TOP)
                rep.check(s == E, 'F01.task' if task else 'F01.restored', t.where() if t.frames() else f.dem,
                          '%s ends with the floating-point control state being %s' % ('a task' if task else 'a thread or multiplication', show(s)))
    n = 0
    for f in al.fns.values():
        if f.dem.startswith('verif_probe'):
            continue
        for i in f.calls():
            cal = i.callee or ''
            asm = i.get('asm') or ''
            if cal == 'llvm.x86.sse.ldmxcsr':
                n += 1
                rep.check(i.where() in covered, 'F01.only', i.where(),
                          'the control state is changed outside the analysed multiplication and worker code')
            elif OTHER.match(cal) or (asm and ASM.search(str(asm))):
                rep.bad('F01.only', i.where(), 'the floating-point environment is changed by ' + (cal or 'inline assembly'))
    for r in ('flush', 'restored', 'task'):
        rep.need('F01.' + r, 1)
    if n == 0:
        rep.ok('F01.only', 'no other change')


def starts_empty(rep, m, mul, f, i, R):
    """Before the worker's first change of state no task has been handed over (C01),
    and the thread is created without one."""
    ann = list(stores_to(f, R.thread, R.state)) + list(rmws_of(f, R.thread, R.state))
    if not ann or any(f.path(a, lambda j: j is i) is not None for a in ann):
        return False
    starts = [j for j in mul.calls() if is_start(j)]
    if not starts:
        return False
    st = list(stores_to(mul, R.thread, R.task))
    for s in starts:
        last = [x for x in st if mul.path(x, lambda j: j is s, lambda j: j in st) is not None]
        # the constructor's own store is the one that dominates the start
        dom = [x for x in last if mul.dominates(x, s)]
        if not dom or any(x.ops[0] != ('n',) for x in dom):
            return False
    return True


def own(i):
    fr = i.frames()
    return bool(fr) and ('/ruy/' in fr[0][1] or fr[0][1].startswith('ruy/'))


def calls_into(f, g):
    return any(i.callee == f.name for i in g.calls())


CHECKS = {'F01': f01}
