"""Development aid: runs the checks related to the changed files, beyond the ones
listed, on every behaviour-preserving edit in dev/mut."""
import concurrent.futures, glob, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
REL = [
    (r'thread_pool|wait|blocking_counter', 'C01 C02 C07 F01 C05 C06 A05'),
    (r'trmul\.cc', 'C03 C04 C05 C08 L01 T01 A06 F01 K04'),
    (r'block_map|size_util', 'B01 B02 C04 C08 M09'),
    (r'prepacked_cache|prepare_packed', 'K01 K02 K03 K04 K05 L01 T01 A06 C06'),
    (r'alloc', 'M01 L01'),
    (r'ctx|context|tune', 'P01 P02 C05 C06 C08 A05 A06 T01 F01'),
    (r'frontend|create_trmul|mul_params|/mat|ruy\.h|dispatch', 'A03 P04 M09 A06 A05 L01 C06'),
    (r'kernel|pack_|pack\.h|mat\.h', 'M05 M06 M07 M08 D01 P02'),
    (r'cpuinfo', 'P02 C06'),
    (r'denormal', 'F01'),
]
if __name__ == '__main__':
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    todo = []
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mut', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        for m in ns['MUT']:
            if m[1] != 'ref':
                continue
            files = [e[0] for e in m[3]] if isinstance(m[3], list) else [m[3]]
            cs = sorted({c for x in files for p, l in REL if re.search(p, x) for c in l.split()} - set(m[2]))
            cs = [c for c in cs if re.search(only, c)]
            if cs:
                todo.append((os.path.basename(f), m, cs))
    print(len(todo), sum(len(t[2]) for t in todo), flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
        for f, m, o in ex.map(lambda t: (t[0], t[1], mut.one(t[1], t[2])[2]), todo):
            if 'FALSE' in o or 'EDIT' in o:
                print(f, m[0], '\n' + '\n'.join(l for l in o.split('\n') if not l.startswith('  ok')), flush=True)
    print('done')
