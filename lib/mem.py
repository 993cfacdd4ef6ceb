"""Where the bytes of a local object come from: must-reaching stores and copies."""
import re
from ir import tup

SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'ptr': 8, 'float': 4, 'double': 8}


def tysize(ty):
    if ty in SIZES:
        return SIZES[ty]
    m = re.match(r'^<(\d+) x (\w+)>$', ty)
    if m and m.group(2) in SIZES:
        return int(m.group(1)) * SIZES[m.group(2)]
    m = re.match(r'^i(\d+)$', ty)
    if m:
        return (int(m.group(1)) + 7) // 8
    return None


def opty(fn, o):
    if o[0] == 'i':
        return fn.byid[o[1]].ty
    if o[0] == 'a':
        return fn.args[o[1]]['ty'] if isinstance(fn.args[o[1]], dict) else fn.args[o[1]]
    if o[0] == 'c':
        return 'i%d' % o[2]
    if o[0] in ('n', 'g', 'gep'):
        return 'ptr'
    return None


def store_size(fn, i):
    return tysize(opty(fn, i.ops[0]) or '') or i.get('size')


def is_memcpy(i):
    return i.op == 'call' and (i.callee or '').startswith(('llvm.memcpy', 'llvm.memmove'))


def is_memset(i):
    return i.op == 'call' and (i.callee or '').startswith('llvm.memset')


def ignorable(i):
    return i.op == 'call' and (i.callee or '').startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant'))


class Mem:
    def __init__(self, fn):
        self.fn = fn
        self.w = {}
        for i in fn.instrs():
            for root, off, size, kind in self.writes(i):
                self.w.setdefault(root, []).append((i, off, size, kind))

    def writes(self, i):
        fn = self.fn
        if i.op == 'store':
            r, off, var = fn.addr(i.ops[1])
            sz = store_size(fn, i)
            yield (r, off if not var else None, sz, 'store')
        elif is_memcpy(i) or is_memset(i):
            r, off, var = fn.addr(i.ops[0])
            n = i.ops[2][1] if i.ops[2][0] == 'c' else None
            yield (r, off if not var and n is not None else None, n, 'copy' if is_memcpy(i) else 'set')
        elif i.op in ('call', 'invoke') and not ignorable(i):
            for o in i.ops:
                if o[0] in ('i', 'a', 'gep'):
                    r, off, var = fn.addr(o)
                    if r[0] == 'i' and fn.byid[r[1]].op == 'alloca':
                        yield (r, None, None, 'call')

    def source(self, root, off, size, at, depth=0, ro=lambda i, o: False):
        """What bytes [off, off+size) of the local object root hold at instruction at:
        ('val', operand, delta) | ('mem', root, off, var, instr) | None."""
        fn = self.fn
        if depth > 8:
            return None
        ws = []
        for (i, o, n, k) in self.w.get(root, []):
            if k == 'call' and (i is at or ro(i, root)):
                continue
            if o is not None and n is not None and (o + n <= off or off + size <= o):
                continue
            ws.append((i, o, n, k))
        # writes that may reach `at`
        live = []
        for x in ws:
            others = {y[0] for y in ws if y[0] is not x[0] and y[1] is not None and y[2] is not None and y[1] <= off and off + size <= y[1] + y[2]}
            if fn.path(x[0], lambda i: i is at, lambda i: i in others) is not None:
                live.append(x)
        if len(live) != 1:
            return None
        i, o, n, k = live[0]
        if o is None or n is None or not (o <= off and off + size <= o + n):
            return None
        if fn.path(None, lambda j: j is at, lambda j: j is i) is not None:
            return None
        if k == 'store':
            return ('val', i.ops[0], off - o, i)
        if k == 'copy':
            r, so, var = fn.addr(i.ops[1])
            so += off - o
            if not var and r[0] == 'i' and fn.byid[r[1]].op == 'alloca':
                return self.source(r, so, size, i, depth + 1, ro)
            return ('mem', r, so, var, i)
        return None
