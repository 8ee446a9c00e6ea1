"""C20: the OR-AND-IBP model"""
from .base import *
import lom.machine as MACH
import lom.matrix_update_wrappers as WR
import lom.lambda_update_wrappers as LW
from .o_samplers import Sweeps, U_GRID

MODEL = 'OR-AND-IBP'


def machine(c, r):
    m = MACH.Machine()
    X = data(r, c['dims'], [.5, .8, .1, 1.0][r.randint(4)], [0, .3][r.randint(2)])
    d = m.add_matrix(val=X.copy(), fixed=True)
    lay = m.add_layer(latent_size=c['L'], child=d, model=MODEL)
    for f, n in zip(lay.factors, c['dims']):
        f.val = pm(r, (n, c['L']), [.5, .2, .9, .05][r.randint(4)])
        f.fixed_entries = (r.random_sample((n, c['L'])) < c['fixed']).astype(np.int8)
        f.bernoulli_prior = float([.5, .3, .8][r.randint(3)])
    lay.lbda.val = float([.1, 1., 2.5, 6., 15.][r.randint(5)])
    if c['alpha']:
        lay.alpha = c['alpha']
    return m, lay, d, X


def consistent(lay, dims, what):
    z, u = lay.factors
    for f, n, nm in ((z, dims[0], 'first'), (u, dims[1], 'second')):
        v = f.val
        if not isinstance(v, np.ndarray) or v.ndim != 2 or v.shape[0] != n:
            return '%s: the %s factor has shape %s, %d rows before' % (what, nm, np.shape(v), n)
        if not np.isin(v, (-1, 1)).all():
            return '%s: the %s factor has entries %s' % (what, nm, np.unique(v).tolist())
        if v.dtype != np.int8:
            return '%s: the %s factor is %s' % (what, nm, v.dtype)
        if np.shape(f.fixed_entries) != v.shape:
            return '%s: the %s factor has shape %s, its mask of fixed entries %s' % (what, nm, v.shape, np.shape(f.fixed_entries))
        if not np.isin(f.fixed_entries, (0, 1)).all():
            return '%s: the mask of the %s factor has entries %s' % (what, nm, np.unique(f.fixed_entries).tolist())
    if z.val.shape[1] != u.val.shape[1]:
        return '%s: the factors have %d and %d columns' % (what, z.val.shape[1], u.val.shape[1])


@oracle('C20')
class Updates:
    def cases(self, r, deep, hints):
        while True:
            yield {'dims': [int([1, 2, 3, 5, 8][r.randint(5)]), int([1, 2, 3, 6][r.randint(4)])], 'L': int(r.randint(5)), 'alpha': float([0, 0, .3, 3, 40, 400][r.randint(6)]),
                   'fixed': float([0, 0, .3, 1][r.randint(4)]), 'seq': [int(r.randint(3)) for _ in range(1 + r.randint(6))], 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        np.random.seed(int(r.randint(2 ** 31)))
        m, lay, d, X = machine(c, r)
        z, u = lay.factors
        get = fn(WR, 'get_sampling_fct')
        fs = [get(z), get(u)]
        alpha = lay.alpha
        prior = [f.bernoulli_prior for f in (z, u)]
        for k, s in enumerate(c['seq']):
            what = 'update %d' % (k + 1)
            lam = lay.lbda.val
            other = [u, z, None][s]
            keep = [(f, f.val.copy(), f.fixed_entries.copy()) for f in ((z, u) if s == 2 else (z,) if s == 1 else ())]
            if s == 2:
                fn(LW, 'get_update_fct')(lay.lbda)(lay.lbda)
                if not np.isfinite(lay.lbda.val):
                    lay.lbda.val = lam
                lay.lbda.val = min(float(lay.lbda.val), 15.)
            else:
                fixed = u.fixed_entries == 1
                was = u.val.copy()
                fs[s](lay.factors[s])
                if s == 1 and (u.val.shape != was.shape or (u.val[fixed] != was[fixed]).any()):
                    return '%s of the second factor changed its shape or fixed entries' % what
            for f, v, k2 in keep:
                if f.val.shape != v.shape or (f.val != v).any() or f.fixed_entries.shape != k2.shape or (f.fixed_entries != k2).any():
                    return '%s of %s changed a factor' % (what, ['', 'the second factor', 'the dispersion'][s])
            msg = consistent(lay, c['dims'], what + ' of ' + ['the first factor', 'the second factor', 'the dispersion'][s])
            if msg:
                return msg
            if d.val.shape != X.shape or (d.val != X).any():
                return '%s changed the data' % what
            if s < 2 and lay.lbda.val != lam:
                return '%s changed the dispersion' % what
            if lay.alpha != alpha or [f.bernoulli_prior for f in (z, u)] != prior or lay.model != MODEL:
                return '%s changed the model or its parameters' % what


@oracle('C20')
class Second(Sweeps):
    """the second factor is updated as in the OR-AND model"""

    def cases(self, r, deep, hints):
        while True:
            yield {'K': 2, 'axis': 1, 'dims': [int(1 + r.randint(4)), int(1 + r.randint(4))], 'L': int(1 + r.randint(3)), 'pat': int(r.randint(4)), 'child': MODEL, 'parents': [], 'PL': [],
                   'u': U_GRID[r.randint(len(U_GRID))], 'seed': 2 * int(r.randint(2 ** 29))}


@oracle('C20')
class Traces:
    def cases(self, r, deep, hints):
        while True:
            yield {'dims': [int([2, 4, 20][r.randint(3)]), int([1, 3, 6][r.randint(3)])], 'L': int(1 + r.randint(3)), 'alpha': float([0, 3, 20, 60][r.randint(4)]), 'fixed': float([0, .3][r.randint(2)]),
                   'S': int([1, 3, 8][r.randint(3)]), 'direct': int(r.randint(2)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        np.random.seed(int(r.randint(2 ** 31)))
        m, lay, d, X = machine(c, r)
        z, u = lay.factors
        log = {0: [], 1: []}
        if c['direct']:
            # the recording alone, of factors that grow and shrink
            for f in (z, u):
                f.trace_index = 0
                f.allocate_trace_arrays_IBP(c['S'])
            for t in range(c['S']):
                L = int(r.randint(1 + c['L'] + [3, 30][r.randint(2)]))
                for i, f in enumerate((z, u)):
                    f.val = pm(r, (c['dims'][i], L))
                    log[i].append(f.val.copy())
                    f.update_trace_IBP()
        else:
            get = fn(WR, 'get_sampling_fct')

            def wrap(f):
                def run(x):
                    f(x)
                    now.append([y.val.copy() for y in (z, u)])
                return run
            now = []
            fs = [get(f) for f in (z, u)]
            for f, g in zip((z, u), fs):
                f.sampling_fct = wrap(g)
            lay.lbda.fixed = True
            m.infer(no_samples=c['S'], burn_in_min=2, burn_in_max=3, convergence_window=2)
            for t in range(c['S']):
                for i in range(2):
                    log[i].append(now[len(now) - 2 * c['S'] + 2 * t + 1][i])
        for i, f in enumerate((z, u)):
            T = f.trace
            if T.shape[:2] != (c['S'], c['dims'][i]):
                return 'trace of factor %d has shape %s' % (i, T.shape)
            for t, v in enumerate(log[i]):
                L = v.shape[1]
                if T.shape[2] < L or (T[t, :, :L] != v).any():
                    return 'sample %d of factor %d is not recorded: %s, the factor was %s' % (t, i, T[t].tolist()[:3], v.tolist()[:3])
                if (T[t, :, L:] != -1).any():
                    return 'sample %d of factor %d is not padded with -1' % (t, i)
        msg = consistent(lay, c['dims'], 'after inference')
        if msg and not c['direct']:
            return msg
        if (d.val != X).any():
            return 'inference changed the data'
