"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks']))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
