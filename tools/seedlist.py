"""rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('* `%s` (%s): %s: %s' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks']))
p = here + '/DESIGN.md'
s = open(p).read()
i = s.index('\n* `c01_')
j = re.search(r'\n(?!\* `)', s[i + 1:])
end = i + 1 + j.start() if j else len(s)
s = s[:i] + '\n' + '\n'.join(rows) + s[end:]
open(p, 'w').write(s.rstrip('\n') + '\n')
