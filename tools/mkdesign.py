"""DESIGN.md from its parts and the seeded changes' meta.json (key caught_by is written by tools/seeded.sh)."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
out = ''.join(open(os.path.join(R, 'tools/design', n)).read() for n in ('1.md', '2.md', '3.md'))
out += '| id | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(os.path.join(R, 'seeded/*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    out += '| %s | %s | %s | %s |\n' % (os.path.basename(d), m['what_it_breaks'], m['needs'], m.get('caught_by', m['property']))
open(os.path.join(R, 'DESIGN.md'), 'w').write(out)
