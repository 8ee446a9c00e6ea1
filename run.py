#!/usr/bin/env python3
"""run.py PROP [quick|thorough]: discharge every proof obligation of one property from /repo's current source.

1. contracts (contracts/*.py): every task serving PROP is verified by pyded (VC generation over the Python AST of
   /repo's files, z3 back end).  2. cross-check: the same contracts evaluated on concrete inputs under CPython
   (bounded, never counted as proved).  3. a failed obligation starts a search for a failing input on the real code.
"""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'


def worker(args):
    name, repo, tier, seed, slow = args
    sys.setrecursionlimit(20000)
    from contracts.base import REG, run_task
    import contracts.all        # noqa
    return run_task(REG[name], repo, tier, seed, slow)


def run_tasks(names, repo, tier, seed, limit, slow=1):
    """process pool with a hard wall limit; a task that does not finish is reported as an error"""
    ctx = mp.get_context('fork')
    out, t0 = {}, time.time()
    pool = ctx.Pool(min(8 if slow == 1 else 4, max(1, len(names))), maxtasksperchild=12)
    try:
        pend = {n: pool.apply_async(worker, ((n, repo, tier, seed, slow),)) for n in names}
        for n, r in pend.items():
            try:
                out[n] = r.get(max(.1, limit - (time.time() - t0)))
            except mp.TimeoutError:
                out[n] = dict(task=n, obls=[], covers={}, error='no answer within %d s' % limit, functions=[], assumed=[],
                              contracts_used=[], stats={}, wall=limit)
            except Exception as e:
                out[n] = dict(task=n, obls=[], covers={}, error='worker failed: %r' % e, functions=[], assumed=[],
                              contracts_used=[], stats={}, wall=0)
    finally:
        pool.terminate()
        pool.join()
    return out


def oracle(prop, repo, seconds, seed, parts, hints=None, deep=False):
    env = dict(os.environ, REPO=repo, NUMBA_DISABLE_JIT='1', PYTHONPATH=repo, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    ps = []
    for i in range(parts):
        cmd = [VENV, os.path.join(HERE, 'oracle', 'drive.py'), prop, '--seconds', str(seconds), '--seed', str(seed), '--part', '%d/%d' % (i, parts)]
        if hints:
            cmd += ['--hints', hints]
        if deep:
            cmd += ['--deep']
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/'))
    return ps


def collect(ps, limit):
    rs, t0 = [], time.time()
    for p in ps:
        try:
            o, e = p.communicate(timeout=max(1, limit - (time.time() - t0)))
            rs.append(json.loads(o.decode().strip().splitlines()[-1]))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            rs.append({'n': 0, 'distinct': 0, 'fail': None, 'msg': None, 'samples': [], 'error': 'timeout'})
        except Exception as ex:
            rs.append({'n': 0, 'distinct': 0, 'fail': None, 'msg': None, 'samples': [], 'error': 'oracle failed %r %s' % (ex, e.decode()[-600:])})
    return rs


def replay_once(prop, repo, case):
    import tempfile
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(case, f)
    try:
        env = dict(os.environ, REPO=repo, NUMBA_DISABLE_JIT='1', PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        p = subprocess.run([VENV, os.path.join(HERE, 'oracle', 'drive.py'), prop, '--case', path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, cwd='/', timeout=120)
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return None
    finally:
        os.unlink(path)


def known(prop):
    """committed known findings: list of dicts {property, obligation?|case?, what}"""
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop:
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    repo = os.environ.get('REPO', '/repo')
    t0 = time.time()
    from contracts.base import REG
    import contracts.all        # noqa
    from contracts.info import ASSUMPTIONS, TRUSTED
    tasks = [t for t in REG.values() if prop in t.props or any(prop in v for v in t.route.values()) or (prop == 'C21' and t.kernel)]
    if tier == 'quick':
        tasks = [t for t in tasks if t.tier == 'quick']
    osec = 6 if tier == 'quick' else 120
    ops = oracle(prop, repo, osec, seed, 1 if tier == 'quick' else 2)
    res = run_tasks([t.name for t in tasks], repo, tier, seed, 500 if tier == 'quick' else 5000)
    ors = collect(ops, osec + 200)
    # a solver that ran out of time (a busy machine) is no verdict: tasks failing that way get a second run with more time
    again = [n for n, r in res.items() if (r['error'] or any(not o['ok'] for o in r['obls'])) and r.get('stats', {}).get('unknown', not r['obls'])]
    if again and len(again) <= 12:
        res.update(run_tasks(again, repo, tier, seed, 150 if tier == 'quick' else 2000, 4))
    failed, total, done, hows, slv = [], 0, 0, {}, 0.0
    functions, assumed, errors, used = set(), set(), [], set()
    for t in tasks:
        r = res[t.name]
        functions |= set(r['functions'])
        assumed |= set(r['assumed'])
        used |= set(r.get('contracts_used', []))
        slv += r['wall']
        for o in r['obls']:
            if not t.serves(prop, o['name']):
                continue
            total += 1
            if o['ok']:
                done += 1
                hows[o['how'].split(':')[0]] = hows.get(o['how'].split(':')[0], 0) + 1
            else:
                failed.append({'task': t.name, 'obligation': o['name'], 'verifier': o['how'], 'goal': o['detail'], 'counterexample': o['model']})
        if r['error']:
            total += 1
            failed.append({'task': t.name, 'obligation': t.name + '/verified', 'verifier': r['error'], 'goal': '', 'counterexample': None})
    if not total:
        failed.append({'task': prop, 'obligation': prop + '/obligations', 'verifier': 'no obligations were generated', 'goal': '', 'counterexample': None})
    kn = known(prop)
    hit, fresh = {}, []
    for f in failed:
        k = next((i for i, d in enumerate(kn) if d.get('obligation') == f['obligation']), None)
        if k is None:
            fresh.append(f)
        else:
            hit[k] = f
    case = next(((r['fail'], r['msg']) for r in ors if r['fail']), None)
    oerr = [r['error'] for r in ors if r['error']]
    searched = 0
    if fresh and not case:
        # search for a failing input on the real code, guided by literals of the functions involved and by z3's model
        ints, floats = set(), set()
        for n in {f['task'] for f in fresh}:
            lits = res[n].get('literals') if n in res else None
            for v in lits or []:
                (ints if isinstance(v, int) else floats).add(v)
        models = [f['counterexample'] for f in fresh if f['counterexample']]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        hp = os.path.join(HERE, 'replays', prop + '.hints.json')
        near = sorted({abs(v) + d for v in ints for d in (-1, 0, 1, 2) if abs(v) + d >= 0})
        json.dump({'ints': near, 'floats': sorted(floats), 'models': models, 'tasks': sorted({f['task'] for f in fresh}),
                   'obligations': [f['obligation'] for f in fresh][:50]}, open(hp, 'w'))
        rs = collect(oracle(prop, repo, 45 if tier == 'quick' else 300, seed + 1, 8, hp, True), 45 + 200 if tier == 'quick' else 900)
        searched = sum(r['n'] for r in rs)
        case = next(((r['fail'], r['msg']) for r in rs if r['fail']), None)
    if case:
        again = replay_once(prop, repo, case[0])
        if not case[0].get('import') and not (again and again.get('msg')):
            oerr.append('a failing case did not fail again when replayed: %s' % json.dumps(case[0])[:500])
            case = None
    viol = 0
    for k, f in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]['what']))
    if fresh or case:
        viol = 1
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s.%s.json' % (prop, tier))
        json.dump({'property': prop, 'failing_input': case[0] if case else None, 'what_failed': case[1] if case else None,
                   'replay_cmd': 'REPO=%s %s %s/oracle/drive.py %s --case <(this file\'s failing_input)' % (repo, VENV, HERE, prop) if case else None,
                   'failed_obligations': fresh, 'cases_tried': searched + sum(r['n'] for r in ors)}, open(path, 'w'), indent=1, default=str)
        for f in fresh[:12]:
            print('failed obligation: %s  [%s] %s' % (f['obligation'], str(f['verifier'])[:300], f['counterexample'] or ''))
        if case:
            print('failing input: %s' % json.dumps(case[0])[:600])
            print('  ' + str(case[1])[-900:])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if case else ' no-failing-input-found'))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': total, 'discharged': done,
              'checker_cmd': 'python3-vt /verif/run.py %s %s' % (prop, tier),
              'trusted_base': TRUSTED,
              'back_ends': hows,
              'functions_under_contract': sorted(functions),
              'callees_by_contract': sorted(used),
              'tasks': len(tasks),
              'solver_time_s': round(slv, 2),
              'assumed_external_contracts': sorted(assumed),
              'undischarged': [f['obligation'] for f in failed],
              'known_findings': [kn[k]['what'] for k in hit],
              'cpython_crosscheck_bounded': {'evaluations': sum(r['n'] for r in ors) + searched, 'distinct': sum(r['distinct'] for r in ors),
                                             'seconds': osec, 'samples': sum([r['samples'] for r in ors], [])[:4], 'errors': oerr,
                                             'note': 'bounded cross-check of the contracts on concrete inputs; not counted as proved'}},
          'assumptions': ASSUMPTIONS.get('*', []) + ASSUMPTIONS.get(prop, []),
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged, %d tasks, %d functions under contract, cross-check %d cases, %.1f s' % (
        prop, tier, done, total, len(tasks), len(functions), sum(r['n'] for r in ors) + searched, time.time() - t0))
    if oerr:
        print('cross-check note:', oerr[0][:500])
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
