"""Writes DESIGN.md: the text in design_head.md and design_tail.md, the repairs, and which check catches which planted bug
(tools/detected.txt, written by tools/detect.sh)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
out = [rd('tools', 'design_head.md').rstrip(), '', '## Genuine defects found (all repaired)', '',
       'Each was shown by a failing input against the real code, repaired by a small commit, and is reported again if it returns.', '']
kf = json.loads(rd('known_findings.json'))
for line in kf['fixed']:
    prop, commit, what = line.split(' ', 1)[1].split(' ', 2)
    out.append(f"* {prop.split('=')[1]} ({commit}): {what}")
out += ['', f"Known findings that are not repaired: {len(kf['known'])}.", '', rd('tools', 'design_tail.md').rstrip(), '',
        '## Planted bugs', '', 'Each passes the existing tests. Each was run against the check of its property when it was planted; a miss led to a stronger',
        'check (or, for the few that turned out to break nothing the property promises, to dropping it), until it was reported. The last',
        'column lists the runs (quick tier) whose output was kept; "-" stands for a run that is not repeated in this table.', '', '| id | property | what it breaks | caught by |', '|---|---|---|---|']
caught = {}
p = os.path.join(V, 'tools', 'detected.txt')
if os.path.exists(p):
    for line in open(p):
        w = line.split()
        if len(w) > 2: caught.setdefault(w[0], {})[w[1]] = w[2] == 'rc=1'
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.loads(rd('seeded', d, 'meta.json'))
    c = caught.get(d, {})
    hit = [k for k in sorted(c, key=lambda k: (k != m['property'], k)) if c[k]]
    miss = [k for k in c if not c[k]]
    txt = ', '.join(hit) + (' (not by ' + ', '.join(miss) + ')' if miss else '')
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {txt or '-'} |")
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
