"""Development aid: rewrites the table of planted changes in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
rows = []
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['what_it_breaks'].split(',')[0][:110]))
s = re.sub(r'(\| change \| caught by \| what it breaks \|\n\|---\|---\|---\|\n)(\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
