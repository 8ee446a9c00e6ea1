import time
import traceback
import z3
from pyded.engine import Engine
from pyded.values import *
from pyded import spec

REG = {}


# obligations of the memory- and integer-safety property; callee preconditions carry the shapes their bounds rest on
SAFETY = ('index-bounds', 'index-negative', 'overflow', 'pre', 'no-exception')


class Task:
    """one function (or lemma) under contract; props: property ids it serves; build(eng) -> run(eng)"""

    def __init__(self, name, props, build, contracts=None, opts=None, route=None, tier='quick', note='', kernel=False):
        self.name, self.props, self.build = name, list(props), build
        self.contracts, self.opts = contracts or {}, opts or {}
        self.route = route or {}
        self.tier = tier
        self.note = note
        self.kernel = kernel        # its index and integer-range obligations decide C21
        if kernel:
            self.opts = dict(self.opts, kernel=True)
        assert name not in REG, name
        REG[name] = self

    def serves(self, prop, oname):
        """property an obligation is reported under"""
        short = oname.split('/')[-1].split(':')[0]
        if prop == 'C21':
            return self.kernel and short in SAFETY
        if short == 'index-negative':
            return False
        if short in self.route:
            return prop in self.route[short]
        if short == 'race-free':
            return prop == 'C08' or self.props == [prop]
        if short == 'frame':
            return prop in self.route.get('frame', ['C07', self.props[0]])
        return prop in self.props and prop not in ('C08',) and not (prop == 'C07' and len(self.props) > 1)


def run_task(task, repo='/repo', tier='quick', seed=1, slow=1):
    t0 = time.time()
    cs = task.contracts() if callable(task.contracts) else task.contracts
    opts = dict(task.opts)
    if tier == 'thorough':
        opts['budget'] = 3 * opts.get('budget', 400)
        opts['timeout'] = 3 * opts.get('timeout', 10000)
    if slow > 1:
        opts['budget'] = slow * opts.get('budget', 400)
        opts['timeout'] = slow * opts.get('timeout', 10000)
    eng = Engine(repo, contracts=cs, opts=opts)
    eng.tier = tier
    out = {'task': task.name, 'obls': [], 'covers': {}, 'error': None, 'functions': [], 'assumed': []}
    try:
        run = task.build(eng)
        eng.top = eng.top or task.name
        obls = eng.verify(run)
        seen = {}
        for o in obls:
            # a name may be generated on several paths: one record per name and path
            out['obls'].append({'name': o.name, 'ok': o.ok, 'how': o.how, 'model': o.model, 'detail': o.detail[:1500]})
        if not obls:
            out['error'] = 'no obligations generated'
        out['covers'] = eng.covers
        for k, v in eng.covers.items():
            if not v:
                out['error'] = 'unreachable contract point %s (vacuous)' % k
        if not eng.covers:
            out['error'] = 'no reachability cover recorded'
    except Unsupported as e:
        out['error'] = 'outside the verified subset: %s' % e
        if getattr(eng, 'fnstack', None):
            out['error'] += ' (in %s)' % eng.fnstack[-1].qual
    except RecursionError:
        out['error'] = 'recursion limit'
    except Exception as e:      # engine failure: undischarged, never silently passed
        out['error'] = 'engine error %r\n%s' % (e, traceback.format_exc()[-1500:])
    out['functions'] = sorted('%s.%s' % f for f in eng.functions)
    out['assumed'] = sorted(eng.assumed)
    out['contracts_used'] = sorted('%s.%s' % k for k in cs)
    out['stats'] = eng.stats
    out["literals"] = sorted(set(eng.literals()), key=float)
    out["wall"] = time.time() - t0
    return out


def need(eng, mod, qual):
    f = eng.func(mod, qual)
    if f is None:
        raise Unsupported('function %s.%s not found' % (mod, qual))
    return f
