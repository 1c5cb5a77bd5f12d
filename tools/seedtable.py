"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
t = '<!-- seeds -->\n| change | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'planted bugs')
