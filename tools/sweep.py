#!/usr/bin/env python3
"""Development aid: run every registered analysis once against $VERIF_REPO and list the violations per property."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'engine', 'py'))
import check
import props
import specs

pids = sys.argv[1:] or sorted(set(props.ENGINE) | set(props.LIN) | set(props.CUSTOM))
jobs = sorted({(g, r) for p in pids for g, r, f in check.roots_of(p)})
for p in {g for g, r in jobs}:
    check.PROG[p] = check.dump(p)
res = {(r['prog'], r['root']) if 'prog' in r else r['root']: r for r in check.engine(jobs, 300)} if jobs else {}
tot = {}
for r in res.values():
    if 'crash' in r:
        print('CRASH', r['root'], r['crash'])
        continue
    if r['incomplete']:
        print('INCOMPLETE', r['root'])
    if os.environ.get('IMPRECISE') and r['imprecise']:
        print('IMPRECISE', r['root'], r['imprecise'])
for p in pids:
    seen = set()
    for g, r, f in check.roots_of(p):
        for v in res.get((g, r), {}).get('violations', ()):
            if f(v):
                seen.add('%s/%s' % (r, v['rule']))
    for fn in props.CUSTOM.get(p, ()):
        c, e, vs, a = fn(check.REPO, check.BUILD, 'quick', check)
        seen |= {v['key'] for v in vs}
    if seen:
        tot[p] = sorted(seen)
for p in sorted(tot):
    print('%s: %d: %s' % (p, len(tot[p]), '; '.join(tot[p][:3])))
print('DETECTED BY', ' '.join(sorted(tot)) or 'NONE')
