# Rewrites the per-property section of DESIGN.md from the headers of the harnesses.
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/oracles.py').read())
T = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); T[p['id']] = p['title']
out = []
for c in sorted(T):
    j = json.loads(re.search(r'/\*CHECK\s*(\{.*?\})\s*\*/', open(V + '/harness/%s.cpp' % c).read(), re.S).group(1))
    out.append('### %s %s\n' % (c, T[c]))
    out.append('%s' % O[c])
    out.append('Encoded: %s. Bounds: %s.' % (', '.join('`%s`' % s for s in j['sources']), j.get('bounds', '').rstrip('.')))
    if j.get('assumptions'): out.append('Assumed: %s.' % '; '.join(j['assumptions']))
    out.append('Entries: ' + '; '.join('`%s`%s%s' % (e['name'], ' [thorough]' if e.get('tier') == 'thorough' else '', ' (%s%s)' % ({'real': 'real: ', 'round': 'error-bounded reals: '}.get(e.get('opts', '').split(',')[0], ''), e.get('bounds', 'see above'))) for e in j['entries']) + '.\n')
d = open(V + '/DESIGN.md').read()
a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
d = d[:d.index(a) + len(a)] + '\n'.join(out) + d[d.index(b):]
open(V + '/DESIGN.md', 'w').write(d)
