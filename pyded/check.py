"""python3-vt -m pyded.check tasks [pattern]  -- developer entry: run tasks and print their obligations"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import contracts.all            # noqa
from contracts.base import REG, run_task


def main():
    pats = sys.argv[1:]
    repo = os.environ.get('REPO', '/repo')
    for n, t in REG.items():
        if pats and not any(p in n for p in pats):
            continue
        r = run_task(t, repo)
        bad = [o for o in r['obls'] if not o['ok']]
        print('%-50s obls %3d bad %2d %5.1fs q=%d passes=%d %s' % (n, len(r['obls']), len(bad), r['wall'], r['stats']['queries'],
                                                       r['stats']['passes'], r['error'] or ''))
        for o in bad[:6]:
            print('     ', o['name'], o['how'], o['detail'][:300], o['model'])


main()
