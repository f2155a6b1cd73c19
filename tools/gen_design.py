"""Fill DESIGN.md from its template: planted bugs, extra properties."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/design_template.md').read()
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| `%s` | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m.get('caught', 'caught by the quick check of ' + m['property'])))
t = t.replace('@@SEEDED@@', '| change | property | needs | caught |\n|---|---|---|---|\n' + '\n'.join(rows))
for k in ('EXTRA_ROWS', 'EXTRA_NOTES'):
    f = V + '/tools/design_%s.md' % k.lower()
    t = t.replace('@@%s@@' % k, open(f).read().rstrip() if os.path.exists(f) else '')
open(V + '/DESIGN.md', 'w').write(t)
