"""Development aid: writes one edit of a mut file into a scratch copy.  usage: mutdir.py FILE NAME DIR"""
import shutil, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
m = next(m for m in ns['MUT'] if m[0] == sys.argv[2])
d = sys.argv[3]
shutil.rmtree(d, ignore_errors=True)
shutil.copytree('/repo/ruy', d + '/ruy')
for f, a, b in (m[3] if isinstance(m[3], list) else [tuple(m[3:6])]):
    s = open(d + '/' + f).read()
    assert s.count(a) == 1, a
    open(d + '/' + f, 'w').write(s.replace(a, b))
