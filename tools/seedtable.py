"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + '/seeded/*/meta.json'):
    d = json.load(open(f))
    rows.append((d['property'], f.split('/')[-2], d['needs'], d['what_it_breaks']))
t = '| property (and check) | change | needs | breaks |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + t + '<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
