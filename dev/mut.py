"""Development aid: applies edits to scratch copies of the sources and shows how
the checks answer.  usage: mut.py FILE.py [name-regex] [--checks C01,C02]
FILE.py defines MUT = [(name, kind, props, file, old, new) ...]; kind is 'bug'
or 'ref'; (old,new) may be a list of pairs, file may be per pair."""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')


def one(m, checks):
    name, kind, props = m[0], m[1], m[2]
    edits = m[3] if isinstance(m[3], list) else [tuple(m[3:6])]
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree(R + '/ruy', d + '/ruy')
        for (f, a, b) in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if a.startswith('@'):       # line numbers first-last
                x = a[1:].split('-')
                L = s.split('\n')
                L[int(x[0]) - 1:int(x[-1])] = b.split('\n')
                open(p, 'w').write('\n'.join(L))
                continue
            if s.count(a) != 1:
                return name, kind, 'EDIT DOES NOT APPLY (%d): %s' % (s.count(a), a[:60])
            open(p, 'w').write(s.replace(a, b))
        out = []
        for c in (checks or props):
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
            r = subprocess.run(['python3', 'checks/run.py', c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if kind == 'bug' else 0
            detail = ''
            if r.returncode:
                detail = '\n'.join('      ' + l[:230] for l in r.stdout.splitlines() if 'VIOLATED' in l or 'ERROR' in l)[:900]
                if r.returncode == 2:
                    detail += '\n' + r.stdout[-600:]
            out.append('  %s %s exit=%d%s' % ('ok  ' if r.returncode == want else 'MISS' if kind == 'bug' else 'FALSE', c, r.returncode, '\n' + detail if detail else ''))
        return name, kind, '\n'.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    pat = next((a for a in sys.argv[2:] if not a.startswith('--')), '')
    ck = next((a.split('=')[1].split(',') for a in sys.argv[2:] if a.startswith('--checks=')), None)
    ms = [m for m in ns['MUT'] if re.search(pat, m[0])]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for n, k, o in ex.map(lambda m: one(m, ck), ms):
            bad = 'MISS' in o or 'FALSE' in o or 'EDIT' in o or '-v' in sys.argv
            print('[%s] %s' % (k, n) + ('\n' + o if bad else ' ok'))
