"""driver: replay/search of one property's contract on the real code.
   drive.py PROP --seconds S --seed N --part i/n [--hints FILE] | drive.py PROP --case FILE"""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('REPO', '/repo'))
os.environ['NUMBA_DISABLE_JIT'] = '1'
sys.dont_write_bytecode = True


class Endless(BaseException):
    pass


def endless(*a):
    raise Endless()


def alone(prop, case):
    """does the case fail in a fresh process?"""
    import subprocess
    import tempfile
    fd, path = tempfile.mkstemp(suffix='.json')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(case, f)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), prop, '--case', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return bool(json.loads(p.stdout.decode().strip().splitlines()[-1])['msg'])
    except Exception:
        return False
    finally:
        os.unlink(path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seconds', type=float, default=5)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--part', default='0/1')
    ap.add_argument('--hints')
    ap.add_argument('--deep', action='store_true')
    ap.add_argument('--case')
    a = ap.parse_args()
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from oracle import base
    out = {'n': 0, 'distinct': 0, 'fail': None, 'msg': None, 'samples': [], 'error': None}
    try:
        for f in sorted(os.listdir(HERE)):
            if f.startswith('o_') and f.endswith('.py'):
                importlib.import_module('oracle.' + f[:-3])
    except BaseException as e:
        # the package itself does not load
        out.update(fail={'import': True}, msg='importing the package failed: ' + traceback.format_exc()[-1200:])
        print(json.dumps(out))
        return
    mods = base.REGISTRY.get(a.prop, [])
    signal.signal(signal.SIGVTALRM, endless)

    def run(i, case):
        # (CPU time: a busy machine is no reason)
        signal.setitimer(signal.ITIMER_VIRTUAL, 40)
        try:
            with base.quiet():
                return mods[i].check(case)
        except base.Skip:
            return None
        except Endless:
            return 'the code does not end: stopped after 40 s of CPU time in ' + traceback.format_exc()[-700:]
        except Exception:
            return 'the code raised: ' + traceback.format_exc()[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    if a.case:
        case = json.load(open(a.case))
        if case.get('history'):
            for c in case['history']:
                out['msg'] = run(c.get('mod', 0), c)
        elif not case.get('import'):
            out['msg'] = run(case.get('mod', 0), case)
        out['fail'] = case if out['msg'] else None
        out['n'] = 1
        print(json.dumps(out))
        return
    part, nparts = map(int, a.part.split('/'))
    hints = json.load(open(a.hints)) if a.hints else {}
    gens = []
    for m in mods:
        r = np.random.RandomState((a.seed * 1000003 + part * 7919 + 17) % (2 ** 31))
        gens.append(m.cases(r, a.deep, hints))
    t0 = time.time()
    seen = set()
    past = []
    k = 0
    live = list(range(len(gens)))
    while live and time.time() - t0 < a.seconds:
        for i in list(live):
            try:
                case = next(gens[i])
            except StopIteration:
                live.remove(i)
                continue
            k += 1
            if case.get('enum') and k % nparts != part:
                continue
            case['mod'] = i
            t1 = time.time()
            msg = run(i, case)
            out['n'] += 1
            if len(past) < 20000:
                past.append(json.loads(json.dumps(case)))
            seen.add(json.dumps(case, sort_keys=True))
            if len(out['samples']) < 4 and (out['n'] in (1, 5, 50, 500)):
                out['samples'].append(case)
            if msg:
                # must fail again from its description alone
                again = run(i, json.loads(json.dumps(case)))
                if again and not alone(a.prop, case) and len(past) < 20000:
                    # it takes the calls before it, too: report the shortest tail of the history that fails
                    n = 1
                    while n < len(past):
                        n = min(len(past), n * 2)
                        if alone(a.prop, {'history': past[-n:]}):
                            break
                    case = {'history': past[-n:], 'mod': i}
                if again:
                    out['fail'], out['msg'] = case, msg
                    live = []
                    break
            if time.time() - t0 > a.seconds:
                break
    out['distinct'] = len(seen)
    print(json.dumps(out))


main()
