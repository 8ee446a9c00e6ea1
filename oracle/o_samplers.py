"""C06, C07, C08, C09 on object graphs built with the repository's classes"""
import ast
import itertools
import sys
from .base import *
import lom.machine as MACH
import lom.matrix_update_wrappers as WR
import lom.lambda_update_wrappers as LW
import lom._numba.matrix_updates_numba as MU
import lom._numba.lambda_updates_numba as LU
import lom._numba.lom_outputs as OUT
from .o_outputs import patterned
from .o_scalars import ref_score


def build(c):
    """graph from a case: {'child': model or None, 'K', 'axis', 'dims', 'L', 'parents': [models], 'PL': sizes, ...}"""
    r = rs(c)
    g = {}
    m = MACH.Machine()
    K = c['K']
    if c['child']:
        X = data(r, c['dims'], [.5, .8, .2, .5][r.randint(4)], [0, .2, .5][r.randint(3)])
        if c.get('crowd'):
            X = data(r, c['dims'], 1, 0)
        d = m.add_matrix(val=X, fixed=True)
        lay = m.add_layer(latent_size=c['L'], child=d, model=c['child'])
        vals = patterned(r, c['dims'], c['L'], c['pat'])
        lay.lbda.val = float([.3, .7, 1.3, .05][r.randint(4)] * (1 + r.rand())) * c.get('scale', [1, 1])[0]
        for f, v in zip(lay.factors, vals):
            f.val = v
        g.update(X=X, layer=lay, data=d)
        mat = lay.factors[c['axis']]
    else:
        mat = m.add_matrix(val=pm(r, c['dims'], .5), fixed=False)
    g['parents'] = []
    for pmodel, pl in zip(c['parents'], c['PL']):
        lay = m.add_layer(latent_size=pl, child=mat, model=pmodel)
        vals = patterned(r, mat.val.shape, pl, int(r.randint(3)))
        for f, v in zip(lay.factors, vals):
            f.val = v
        lay.lbda.val = float([.4, .9, 1.7][r.randint(3)] * (1 + r.rand())) * c.get('scale', [1, 1])[1]
        g['parents'].append(lay)
    for l in m.layers:
        for f in l.factors:
            f.fixed_entries = (r.random_sample(f.val.shape) < [0, .2, .5][r.randint(3)]).astype(np.int8)
            f.bernoulli_prior = float([.5, .5, .3, .8, .987][r.randint(5)])
    if not c['child']:
        mat.fixed_entries = (r.random_sample(mat.val.shape) < .2).astype(np.int8)
        mat.bernoulli_prior = float([.5, .3, .8][r.randint(3)])
    g.update(machine=m, mat=mat)
    return g


def state(g):
    """every array and parameter of the graph, by name"""
    out = {}
    m = g['machine']
    for i, x in enumerate(m.members):
        out['matrix %d' % i] = (x, x.val, x.val.copy())
        out['mask %d' % i] = (x, x.fixed_entries, x.fixed_entries.copy())
    for i, l in enumerate(m.layers):
        out['lbda %d' % i] = (l.lbda, None, l.lbda.val)
    return out


def changed(st, skip=()):
    for k, (o, a, v) in st.items():
        if k.startswith('matrix') and o in skip or k.startswith('lbda') and o in skip:
            continue
        if a is None:
            if not np.array_equal(o.val, v):
                return '%s changed from %r to %r' % (k, v, o.val)
        elif k.startswith('matrix'):
            if o.val.shape != v.shape or (o.val != v).any():
                return '%s changed' % k
        elif (o.fixed_entries.shape != v.shape) or (o.fixed_entries != v).any():
            return '%s changed' % k
    return None


def early(m, getf, obj, seed):
    """the update of obj, created and used once while the machine was in another state; then the machine gets the state it has now"""
    r = np.random.RandomState(seed % 2 ** 31)
    saved = []

    def put(o, k, v):
        saved.append((o, k, getattr(o, k)))
        setattr(o, k, v)
    simple = len(m.layers) == 1 and np.ndim(m.layers[0].lbda.val) == 0
    extra = int(r.randint(2)) if simple else 0
    for x in m.members:
        sh = list(x.val.shape)
        if simple and x in m.layers[0].factors:
            sh[1] += extra
            put(x, 'fixed_entries', np.zeros(sh, dtype=np.int8))
        put(x, 'val', pm(r, sh))
    for lay in m.layers:
        if np.ndim(lay.lbda.val) == 0:
            put(lay.lbda, 'val', float(r.rand() * 2))
        else:
            v = np.array(lay.lbda.val)
            put(lay.lbda, 'val', v[np.append(r.permutation(len(v) - 1), len(v) - 1)])
            if isinstance(getattr(lay, 'lbda_ratios', None), np.ndarray):
                put(lay, 'lbda_ratios', np.zeros_like(lay.lbda_ratios))
    f = getf(obj)
    state = np.random.get_state()
    f(obj)
    np.random.set_state(state)
    for o, k, v in reversed(saved):
        setattr(o, k, v)
    return f


def cond_logit(g, c, Z, idx, cache={}):
    mat = g['mat']
    p = mat.bernoulli_prior
    t = float(np.log(p) - np.log(1 - p))
    if c['child']:
        ax = c['axis']
        sib = [f.val for i, f in enumerate(g['layer'].factors) if i != ax]
        Xt = np.transpose(g['X'], [ax] + [i for i in range(c['K']) if i != ax])
        t += g['layer'].lbda.val * ref_score(c['child'], Z[idx[0]], sib, Xt[idx[0]], idx[1])
    for lay in g['parents']:
        t += lay.lbda.val * lom(lay.model, [f.val[i] for f, i in zip(lay.factors, idx)])
    return t


def row_results(g, c, Z, n, u):
    """reachable rows, over all orders of updating the unfixed entries of row n once with the constant draw u"""
    mask = g['mat'].fixed_entries
    free = [l for l in range(Z.shape[1]) if mask[n, l] != 1]
    out = set()
    for order in itertools.permutations(free):
        W = Z.copy()
        for l in order:
            t = cond_logit(g, c, W, (n, l))
            zt = int(W[n, l]) * t
            if abs(zt) > 1e-9 and abs(np.exp(-abs(zt)) - u) < 1e-7:
                return None
            if zt <= 1e-9 and zt > -1e-9 and False:
                return None
            if zt <= 0 or np.exp(-zt) > u:
                W[n, l] = -W[n, l]
        out.add(tuple(int(x) for x in W[n]))
    return out


def sweep_cases(r, deep, hints):
    k = 0
    while True:
        k += 1
        kind = [0, 0, 0, 1, 1, 2, 3, 4][r.randint(8)]
        K = 2 if kind in (2, 3, 4) else int(2 + r.randint(2))
        c = {'K': K, 'axis': int(r.randint(K)), 'dims': [int(1 + r.randint(4)) for _ in range(K)], 'L': int(1 + r.randint(4 if deep else 3)),
             'pat': int(r.randint(4)), 'child': MODELS[r.randint(8)], 'parents': [], 'PL': [], 'seed': int(r.randint(2 ** 30))}
        if kind == 1:
            c['parents'] = [MODELS[r.randint(8)]]
        elif kind == 2:
            c['parents'] = [MODELS[r.randint(8)], MODELS[r.randint(8)]]
        elif kind in (3, 4):
            c['child'] = None
            c['parents'] = [MODELS[r.randint(8)] for _ in range(kind - 2)]
        c['PL'] = [int(1 + r.randint(3)) for _ in c['parents']]
        if r.randint(15) == 0:      # many data points
            c['dims'][r.randint(K)] = int([130, 260][r.randint(2)])
            c['L'] = int(1 + r.randint(2))
            c['crowd'] = int(r.randint(2))
            if c['child'] is None:
                c['dims'] = [min(x, 40) for x in c['dims']]
        if c['child'] is None:
            c['dims'] = [c['dims'][0], min(c['dims'][1], 3)]
            c['L'] = c['dims'][1]
        yield c


U_GRID = [.0005, .06, .21, .37, .52, .74, .93, .9997]


@oracle('C06')
class Sweeps:
    def cases(self, r, deep, hints):
        for c in sweep_cases(r, deep, hints):
            c['u'] = U_GRID[r.randint(len(U_GRID))]
            if r.randint(3) == 0:       # dispersions set by hand: none, or favouring the opposite
                c['scale'] = [int([0, -1, 1][r.randint(3)]) for _ in range(2)]
            c['near'] = float([0, 0, 1e-4, -1e-4, 1e-5, -1e-5][r.randint(6)])
            yield c

    def check(self, c):
        g = build(c)
        mat = g['mat']
        Z = mat.val.copy()
        u = c['u']
        if c.get('near'):       # a draw next to the probability of a flip
            free = np.argwhere(mat.fixed_entries != 1)
            if len(free):
                n, l = [int(x) for x in free[c['seed'] % len(free)]]
                u = float(min(.9999, np.exp(-abs(cond_logit(g, c, Z, (n, l)))) * (1 + c['near'])))
        f = early(g['machine'], WR.get_sampling_fct, mat, c['seed']) if c['seed'] % 2 else WR.get_sampling_fct(mat)
        for rep in range(2):
            Z = mat.val.copy()
            with uniforms(u):
                f(mat)
            got = mat.val
            if got.shape != Z.shape:
                return 'the sweep changed the shape'
            free = int((mat.fixed_entries != 1).sum())
            if U.count > free:
                return '%d uniform draws for %d unfixed entries' % (U.count, free)
            rows = range(Z.shape[0]) if Z.shape[0] <= 12 else list(range(4)) + [Z.shape[0] - 1]
            for n in rows:
                ok = row_results(g, c, Z, n, u)
                if ok is None:
                    continue
                if tuple(int(x) for x in got[n]) not in ok:
                    return 'sweep %d with all uniform draws %r: row %d became %s from %s, reachable by one full-conditional update of each unfixed entry: %s' % (
                        rep + 1, u, n, got[n].tolist(), Z[n].tolist(), sorted(ok)[:6])


@oracle('C07')
class Frame:
    def cases(self, r, deep, hints):
        for c in sweep_cases(r, deep, hints):
            c['op'] = int(r.randint(3))
            yield c

    def check(self, c):
        g = build(c)
        mat = g['mat']
        st = state(g)
        if c['op'] < 2:
            f = WR.get_sampling_fct(mat)
            r = rs(c, 'u')
            for _ in range(3):
                keep = mat.val.copy()
                with uniforms(lambda: r.random_sample()):
                    f(mat)
                fixed = mat.fixed_entries == 1
                if (mat.val[fixed] != keep[fixed]).any():
                    return 'a sweep changed entries marked as fixed'
                msg = changed(st, (mat,))
                if msg:
                    return 'a sweep of one matrix: ' + msg
        else:
            for lay in g['machine'].layers:
                st = state(g)
                LW.get_update_fct(lay.lbda)(lay.lbda)
                msg = changed(st, (lay.lbda,))
                if msg:
                    return 'a dispersion update: ' + msg


@oracle('C07')
class InferFrame:
    def cases(self, r, deep, hints):
        while True:
            c = next(sweep_cases(r, deep, hints))
            c['dims'] = [min(x, 5) for x in c['dims']]
            c['fix'] = int(r.randint(16))
            c['bi'] = int(r.randint(3))
            c['anneal'] = int(r.randint(4) == 0)
            yield c

    def check(self, c):
        g = build(c)
        m = g['machine']
        mats = list(m.members)
        for i, x in enumerate(mats):
            if x is not g.get('data') and x is not g['mat']:
                x.fixed = bool((c['fix'] >> (i % 4)) & 1)
        for i, l in enumerate(m.layers):
            l.lbda.fixed = bool((c['fix'] >> (3 - i % 4)) & 1)
        keep = {id(x): x.val.copy() for x in mats}
        lk = [l.lbda.val for l in m.layers]
        np.random.seed(c['seed'] % 2 ** 31)
        m.anneal = bool(c['anneal'])
        m.infer(no_samples=3, burn_in_min=c['bi'] + 1, burn_in_max=6, convergence_window=2)
        for x in mats:
            if x.fixed and (x.val != keep[id(x)]).any():
                return 'inference changed a matrix marked as fixed'
            f = x.fixed_entries == 1
            if (x.val[f] != keep[id(x)][f]).any():
                return 'inference changed entries marked as fixed'
        for l, v in zip(m.layers, lk):
            if l.lbda.fixed and l.lbda.val != v:
                return 'inference changed a dispersion marked as fixed'


class Kernels:
    """samplers of data tensors below one or two three-factor layers, called directly"""

    def cases(self, r, deep, hints):
        while True:
            n = int(1 + r.randint(2))
            sq = int(1 + r.randint(4))
            dims = [int(1 + r.randint(3)), sq, sq if r.randint(2) else int(1 + r.randint(4))]
            yield {'models': [MODELS[r.randint(8)] for _ in range(n)], 'dims': dims, 'u': U_GRID[r.randint(len(U_GRID))], 'seed': int(r.randint(2 ** 30))}

    def make(self, c):
        r = rs(c)
        n = len(c['models'])
        f = getattr(MU, 'make_sampling_fct_nochild_' + ['oneparent', 'twoparents'][n - 1])(*[m.replace('-', '_') + '_3D' for m in c['models']])
        Z = pm(r, c['dims'])
        fix = (r.random_sample(Z.shape) < [.2, .5][r.randint(2)]).astype(np.int8)
        lam = [float([.4, .9, 1.7][r.randint(3)] * (1 + r.rand())) * [1, 1, 1, 1, 0, -1][r.randint(6)] for _ in range(n)]
        pas = [patterned(r, c['dims'], int(1 + r.randint(3)), int(r.randint(3))) for _ in range(n)]
        prior = float(r.randn() * [0, .7][r.randint(2)])
        args = [Z, fix]
        for l, p in zip(lam, pas):
            args += p + [l]
        t = prior + sum(l * np_lom(m, p) for m, l, p in zip(c['models'], lam, pas))
        return f, args + [prior], t


@oracle('C06')
class KernelRule(Kernels):
    def check(self, c):
        f, args, t = self.make(c)
        Z, fix = args[:2]
        old = Z.copy()
        with uniforms(c['u']):
            f(*args)
        zt = old * t
        if (np.abs(np.exp(-np.abs(zt)) - c['u']) < 1e-7).any() or (np.abs(zt) < 1e-9).any():
            return None
        want = np.where(fix == 1, old, np.where((zt <= 0) | (np.exp(-zt) > c['u']), -old, old))
        if (Z != want)[fix != 1].any():
            i = tuple(int(x) for x in np.argwhere((Z != want) & (fix != 1))[0])
            return 'sampler of a data tensor below %s: entry %s became %d from %d with logit %r and uniform draw %r' % (
                ' and '.join(c['models']), i, Z[i], old[i], float(t[i]), c['u'])


@oracle('C07')
class KernelFrame(Kernels):
    def check(self, c):
        f, args, t = self.make(c)
        keep = [np.array(a) for a in args]
        r = rs(c, 'u')
        for _ in range(3):
            with uniforms(lambda: r.random_sample()):
                f(*args)
        fix = args[1]
        if (args[0] != keep[0])[fix == 1].any():
            return 'the sampler of a data tensor below %s changed fixed entries' % ' and '.join(c['models'])
        for a, b in list(zip(args, keep))[1:]:
            if not np.array_equal(a, b):
                return 'the sampler of a data tensor changed its arguments'


@oracle('C08')
class KernelRaces(Kernels):
    def check(self, c):
        res = []
        for order in (0, 1, 2):
            f, args, t = self.make(c)
            args = [traced(a) if isinstance(a, np.ndarray) else a for a in args]

            def go():
                with uniforms(c['u']):
                    f(*args)
                return args[0].copy()
            x, bad = par_run(order, go)
            if bad:
                return 'parallel loop: ' + bad
            res.append(np.array(x))
        for x in res[1:]:
            if not np.array_equal(x, res[0]):
                return 'the result depends on the order of the parallel iterations'


def ref_lbda(model, factors, X, a, b):
    out = np_lom(model, factors)
    nd = int((X != 0).sum())
    p = int(((out == X) & (X != 0)).sum())
    return max(0.0, float(np.log((p + a) / (nd - p + b))))


@oracle('C09')
class Dispersion:
    def cases(self, r, deep, hints):
        # long axes, every data point predicted correctly or wrongly
        for big in (129, 260):
            for K in (2, 3):
                for ax in range(K):
                    for noise in (0, 1):
                        yield {'m': MODELS[r.randint(8)], 'K': K, 'dims': [big if i == ax else int(1 + r.randint(3)) for i in range(K)], 'L': int(1 + r.randint(3)),
                               'pat': int(r.randint(4)), 'noise': float(noise), 'miss': float([0, .1][r.randint(2)]), 'prior': int(r.randint(4)), 'seed': int(r.randint(2 ** 30)), 'enum': 1}
        while True:
            K = int(2 + r.randint(2))
            c = {'m': MODELS[r.randint(8)], 'K': K, 'dims': [int([1, 1, 2, 3, 4, 6][r.randint(6)]) for _ in range(K)],
                 'L': int(1 + r.randint(4)), 'pat': int(r.randint(4)), 'noise': float([0, 0, .05, .2, .5, 1][r.randint(6)]),
                 'miss': float([0, 0, .3, .9, 1][r.randint(5)]), 'prior': int(r.randint(4)), 'seed': int(r.randint(2 ** 30))}
            if r.randint(20) == 0:
                ext = [130, 300] + ([s for s in hints.get('ints', []) if 1 <= s <= 2000] if deep else [])
                c['dims'][0] = int(ext[r.randint(len(ext))])
                c['dims'][1] = int([2, 130][r.randint(2)]) if K == 2 else 2
            yield c

    def check(self, c):
        r = rs(c)
        fs = patterned(r, c['dims'], c['L'], c['pat'])
        X = np_lom(c['m'], fs).astype(np.int8)
        X[r.random_sample(X.shape) < c['noise']] *= -1
        X[r.random_sample(X.shape) < c['miss']] = 0
        m = MACH.Machine()
        d = m.add_matrix(val=X, fixed=True)
        lay = m.add_layer(latent_size=c['L'], child=d, model=c['m'])
        for f, v in zip(lay.factors, fs):
            f.val = v.copy()
        lay.lbda.beta_prior = [(1, 1), (1, 1), (3, 1.5), (.5, 7)][c['prior']]
        keep = X.copy()
        (early(m, LW.get_update_fct, lay.lbda, c['seed']) if c['seed'] % 2 else LW.get_update_fct(lay.lbda))(lay.lbda)
        if (d.val != keep).any() or any((f.val != v).any() for f, v in zip(lay.factors, fs)):
            return 'the dispersion update changed a matrix'
        want = ref_lbda(c['m'], fs, X, *lay.lbda.beta_prior)
        if not close(lay.lbda.val, want, 1e-9):
            return 'dispersion %r, the clipped MAP estimate is %r (%s, shapes %s)' % (float(lay.lbda.val), want, c['m'], c['dims'])


# ---------------------------------------------------------------- C08
def parallel_lines(mod):
    """line ranges of functions compiled with parallel=True"""
    out = []
    for n in ast.walk(ast.parse(open(mod.__file__).read())):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and any(k.arg == 'parallel' and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords):
                    out.append((n.lineno, n.end_lineno))
    return out


class Log:
    """per parallel loop: addresses read and written by each iteration"""

    def __init__(self):
        self.stack = []
        self.order = 0
        self.bad = None

    def access(self, addrs, write):
        for fr in self.stack:
            for a in addrs:
                k = fr['log'].get(a)
                it = fr['it']
                if k is None:
                    fr['log'][a] = [{it}, {it} if write else set()]
                else:
                    k[0].add(it)
                    if write:
                        k[1].add(it)
                    if k[1] and len(k[0]) > 1 and self.bad is None:
                        self.bad = 'iterations %s access an element that iteration %s writes' % (sorted(k[0])[:4], sorted(k[1])[:4])


LOG = Log()


def addrs(a):
    p = a.__array_interface__['data'][0]
    if a.ndim == 0:
        return [p]
    off = np.zeros(a.shape, dtype=np.int64)
    for ax, (n, s) in enumerate(zip(a.shape, a.strides)):
        off = off + (np.arange(n) * s).reshape([-1 if i == ax else 1 for i in range(a.ndim)])
    return [p + int(o) for o in off.ravel()]


class Traced(np.ndarray):
    def __getitem__(self, i):
        v = np.ndarray.__getitem__(self, i)
        if not isinstance(v, np.ndarray):
            if LOG.stack:
                LOG.access(addrs(self.view(np.ndarray)[tuple([slice(x, x + 1 if x != -1 else None) for x in (i if isinstance(i, tuple) else (i,))])]), False)
        return v

    def __setitem__(self, i, v):
        if LOG.stack:
            w = self.view(np.ndarray)
            idx = i if isinstance(i, tuple) else (i,)
            try:
                t = w[tuple(slice(x, x + 1 if x != -1 else None) if isinstance(x, (int, np.integer)) else x for x in idx)]
                LOG.access(addrs(t), True)
            except Exception:
                pass
        np.ndarray.__setitem__(self, i, v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = []
        for x in inputs:
            if isinstance(x, Traced):
                if LOG.stack:
                    LOG.access(addrs(x.view(np.ndarray)), False)
                ins.append(x.view(np.ndarray))
            else:
                ins.append(x)
        outs = kw.get('out')
        if outs:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, Traced) else o for o in outs)
            if LOG.stack:
                for o in kw['out']:
                    if isinstance(o, np.ndarray):
                        LOG.access(addrs(o), True)
        r = getattr(ufunc, method)(*ins, **kw)
        return outs[0] if outs and method == '__call__' and len(outs) == 1 else r

    def __array_function__(self, func, types, args, kwargs):
        def strip(x):
            if isinstance(x, Traced):
                if LOG.stack:
                    LOG.access(addrs(x.view(np.ndarray)), False)
                return x.view(np.ndarray)
            if isinstance(x, (list, tuple)):
                return type(x)(strip(y) for y in x)
            return x
        return func(*strip(list(args)), **{k: strip(v) for k, v in kwargs.items()})


def traced(a):
    return np.array(a).view(Traced)


def make_prange(mod):
    lines = parallel_lines(mod)

    def prange(*a):
        fr = sys._getframe(1)
        line = fr.f_lineno
        par = any(lo <= line <= hi for lo, hi in lines) and fr.f_code.co_filename == mod.__file__
        its = list(range(*a))
        if not par:
            for i in its:
                yield i
            return
        if LOG.order == 1:
            its = its[::-1]
        elif LOG.order == 2:
            its = its[1::2] + its[0::2]
        e = {'it': None, 'log': {}}
        LOG.stack.append(e)
        try:
            for i in its:
                e['it'] = i
                yield i
        finally:
            LOG.stack[:] = [x for x in LOG.stack if x is not e]
    return prange


class TracedZeros:
    """numpy namespace for the kernel modules: newly allocated arrays are traced as well"""

    def __init__(self):
        self.__dict__['np'] = np

    def __getattr__(self, n):
        v = getattr(np, n)
        if n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'empty_like', 'ones_like', 'full_like'):
            def f(*a, **k):
                return traced(v(*a, **k))
            return f
        return v


MODS = [LU, MU, OUT]


def par_run(order, thunk):
    LOG.stack, LOG.order, LOG.bad = [], order, None
    sv = [(m, {k: m.__dict__[k] for k in ('prange', 'np') if k in m.__dict__}) for m in MODS]
    try:
        for m, d in sv:
            if 'prange' in d:
                m.prange = make_prange(m)
            if 'np' in d:
                m.np = TracedZeros()
        r = thunk()
        return r, LOG.bad
    finally:
        for m, d in sv:
            for k, v in d.items():
                setattr(m, k, v)


@oracle('C08')
class Races:
    def cases(self, r, deep, hints):
        while True:
            t = int(r.randint(3))
            if t == 0:
                K = int(2 + r.randint(2))
                yield {'t': 'out', 'm': MODELS[r.randint(8)], 'K': K, 'dims': [int(1 + r.randint(4)) for _ in range(K)], 'L': int(1 + r.randint(3)),
                       'fz': int(r.randint(2)), 'pat': int(r.randint(4)), 'seed': int(r.randint(2 ** 30))}
            elif t == 1:
                c = next(sweep_cases(r, deep, hints))
                c['dims'] = [min(5, x) for x in c['dims']]
                c.update(t='sweep', u=U_GRID[r.randint(len(U_GRID))])
                yield c
            else:
                c = next(sweep_cases(r, deep, hints))
                c['dims'] = [min(5, x) for x in c['dims']]
                c.update(t='lbda')
                yield c

    def check(self, c):
        res = []
        for order in (0, 1, 2):
            if c['t'] == 'out':
                fs = patterned(rs(c), c['dims'], c['L'], c['pat'])
                if c['fz']:
                    fs = [rs(c, i).random_sample(f.shape) for i, f in enumerate(fs)]
                mk = getattr(LU, 'make_output_function_%dd%s' % (c['K'], '_fuzzy' if c['fz'] else ''))
                r, bad = par_run(order, lambda: mk(c['m'])(*[traced(f) for f in fs]))
            else:
                g = build(c)
                for x in g['machine'].members:
                    x.val = traced(x.val)
                    x.fixed_entries = traced(x.fixed_entries)
                if c['t'] == 'sweep':
                    f = WR.get_sampling_fct(g['mat'])

                    def go():
                        with uniforms(c['u']):
                            f(g['mat'])
                        return g['mat'].val.copy()
                    r, bad = par_run(order, go)
                else:
                    lay = g['machine'].layers[-1]

                    def go2():
                        LW.get_update_fct(lay.lbda)(lay.lbda)
                        return lay.lbda.val
                    r, bad = par_run(order, go2)
            if bad:
                return 'parallel loop: ' + bad
            res.append(np.array(r))
        for x in res[1:]:
            if not np.array_equal(x, res[0]):
                return 'the result depends on the order of the parallel iterations'
