"""Development aid: writes seeded/<id>/ from dev/seeds/*.py specs and tries the
demonstration on scratch copies.  usage: seed.py SPEC.py [name-regex] [--try]
SPEC.py: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo='...cc source', flags='...', args='', mode='sources'|'full')]"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = r'''#!/bin/bash
# Builds a small program against the library sources in the current directory
# and runs it; exit 0 means the property was observed to hold.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
CXXF="-std=gnu++14 -I. -g -w -pthread -DCPUINFO_SUPPORTED_PLATFORM=1"
'''
FULL = r'''
build_lib() {   # build_lib FLAGS... : compiles the whole library into $tmp/*.o
  for f in ruy/*.cc; do
    b=$(basename "$f" .cc)
    case "$b" in *_test|test_*|benchmark|pmu) continue;; esac
    x=""
    case "$b" in
      *_avx512*) x="-mavx512f -mavx512vl -mavx512cd -mavx512bw -mavx512dq";;
      *_avx2_fma*) x="-mavx2 -mfma";;
      *_avx*) x="-mavx";;
      cpuinfo) x="-DRUY_HAVE_CPUINFO";;
    esac
    echo "$CXXF $* $x -c $f -o $tmp/$b.o"
  done | xargs -P 8 -L 1 g++ || exit 99
}
'''


def script(s):
    out = HEAD
    t = s.get('timeout', 60)
    if s.get('script'):
        return out + FULL + s['script']
    if s.get('mode', 'full') == 'full':
        out += FULL
        out += 'build_lib %s\n' % s.get('flags', '-O1')
        out += 'g++ $CXXF %s %s "$here/demo.cc" "$tmp"/*.o -lcpuinfo -ldl -o "$tmp/demo" || exit 99\n' % (s.get('flags', '-O1'), s.get('dflags', ''))
    else:
        out += 'g++ $CXXF %s "$here/demo.cc" %s -ldl -o "$tmp/demo" || exit 99\n' % (s.get('flags', '-O1'), s['mode'])
    out += 'cd "$tmp"\n%s timeout -k 5 %d ./demo %s\n' % (s.get('env', ''), t, s.get('args', ''))
    return out


def emit(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for f, a, b in s['edits']:
            p = os.path.join(w, 'r', f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s['id'], 'EDIT DOES NOT APPLY', t.count(a), a[:60])
                return None
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if s.get('demo'):
        open(os.path.join(d, 'demo.cc'), 'w').write(s['demo'].lstrip())
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(script(s))
    os.chmod(p, 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d


def attempt(s, d):
    res = []
    for patched in (False, True):
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            shutil.copytree(os.environ.get('VERIF_REPO', '/repo') + '/ruy', w + '/ruy')
            if patched:
                subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, os.path.join(d, 'patch.diff')], cwd='/', check=True)
            r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append(r.returncode)
            if (r.returncode != 0) != patched or '-v' in sys.argv:
                print(r.stdout[-1500:])
        finally:
            shutil.rmtree(w)
    print('%s: unchanged exit %d, patched exit %d %s' % (s['id'], res[0], res[1], 'ok' if res[0] == 0 and res[1] not in (0, 99) else 'BAD'))


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    pat = next((a for a in sys.argv[2:] if not a.startswith('-')), '')
    for s in ns['SEEDS']:
        if re.search(pat, s['id']):
            d = emit(s)
            if d and '--try' in sys.argv:
                attempt(s, d)
