"""table of the seeded bugs for DESIGN.md, from the logs of their checks (catch_<id>.log in the directory given)"""
import json
import os
import sys
d = sys.argv[1]
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| bug | needs | proof (obligation) | input |')
print('|---|---|---|---|')
for i in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, i, 'meta.json')))
    p = os.path.join(d, 'catch_%s.log' % i)
    t = open(p).read() if os.path.exists(p) else ''
    ob = [l.split('failed obligation: ')[1].split('  [')[0] for l in t.splitlines() if l.startswith('failed obligation')]
    ob = sorted(set(ob))
    print('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), ('`%s`' % ob[0] + (' (+%d)' % (len(ob) - 1) if len(ob) > 1 else '')) if ob else '-', 'yes' if 'failing input:' in t else 'no'))
