"""python3-vt tools/regress.py [pattern ...]: run every task (or the matching ones) in parallel, print failures (developer entry)"""
import multiprocessing as mp
import os
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def go(n):
    from contracts.base import REG, run_task
    import contracts.all        # noqa
    sys.setrecursionlimit(20000)
    return n, run_task(REG[n], os.environ.get('REPO', '/repo'), os.environ.get('TIER', 'quick'))


if __name__ == '__main__':
    import contracts.all        # noqa
    from contracts.base import REG
    pats = sys.argv[1:]
    names = [n for n in REG if not pats or any(p in n for p in pats)]
    t0 = time.time()
    tot = bad = 0
    slow = []
    with mp.get_context('fork').Pool(8, maxtasksperchild=12) as p:
        for n, r in p.imap_unordered(go, names):
            f = [o for o in r['obls'] if not o['ok']]
            tot += len(r['obls'])
            slow.append((r['wall'], n))
            if f or r['error']:
                bad += 1
                print(n, 'FAILED', len(f), (r['error'] or '')[-400:])
                for o in f[:3]:
                    print('   ', o['name'], o['how'], o['detail'][:200])
    print('%d tasks, %d obligations, %d tasks failed, %.0f s; slowest %s' % (len(names), tot, bad, time.time() - t0, sorted(slow)[-5:]))
