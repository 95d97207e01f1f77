"""rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
t = '<!-- seeded -->\n| bug | caught by | what breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
p = here + '/DESIGN.md'
s = open(p).read()
open(p, 'w').write(re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S))
