"""C16: MAX-AND layers"""
import itertools
from .base import *
import lom.machine as MACH
import lom.matrix_update_wrappers as WR
import lom.lambda_update_wrappers as LW
import lom.auxiliary_functions as AUX
import lom._numba.max_machine_sampler as MM
import lom._numba.lom_outputs as OUT
from .o_samplers import U_GRID, early
from .o_layers import TECH


def prob(Z, U, lam):
    """probability of a 1: the largest active dispersion, or the clamped one"""
    on = (Z == 1)[:, None, :] & (U == 1)[None, :, :]
    if on.shape[2] == 0:
        return np.full(on.shape[:2], lam[-1])
    return np.where(on.any(axis=2), np.where(on, np.asarray(lam)[:-1], -1).max(axis=2), lam[-1])


def loglik(Z, U, lam, X):
    p = prob(Z, U, lam)
    return float(np.where(X == 1, np.log(p), np.where(X == -1, np.log(1 - p), 0)).sum())


def gain(F, lam, X, ax, n, l):
    out = []
    for v in (1, -1):
        G = [f.copy() for f in F]
        G[ax][n, l] = v
        out.append(loglik(G[0], G[1], lam, X))
    return out[0] - out[1]


def expected(Z, U, lam):
    """expected output for independent entries, by enumeration of which dimensions are active"""
    N, L = Z.shape
    out = np.zeros((N, len(U)))
    for n in range(N):
        for d in range(len(U)):
            p = Z[n] * U[d]
            for on in itertools.product((0, 1), repeat=L):
                w = float(np.prod([q if o else 1 - q for q, o in zip(p, on)]))
                act = [lam[l] for l in range(L) if on[l]]
                out[n, d] += w * (max(act) if act else lam[-1])
    return out


def greedy(Z, U, X, tol=1e-12):
    """all dispersions a greedy ranking by smoothed precision on what is left to explain can give (ties in any order)"""
    L = Z.shape[1]
    pred = [np.outer(Z[:, l] == 1, U[:, l] == 1) for l in range(L)]
    res = []

    def go(todo, left, lam):
        if len(res) > 200:
            return
        if not todo:
            P, N = int((left & (X == 1)).sum()), int((left & (X == -1)).sum())
            v = dict(lam)
            v[L] = (P + 1) / float(P + N + 2)
            v[L] = min(v.values())
            res.append([v[i] for i in range(L + 1)])
            return
        rate = {}
        for l in todo:
            P, N = int((left & pred[l] & (X == 1)).sum()), int((left & pred[l] & (X == -1)).sum())
            rate[l] = (P + 1) / float(P + N + 2)
        best = max(rate.values())
        for l in todo:
            if rate[l] >= best - tol:
                go([k for k in todo if k != l], left & ~pred[l], dict(lam, **{}) | {l: rate[l]})
    go(list(range(L)), np.ones(X.shape, dtype=bool), {})
    return res


def ratios(lam):
    lam = np.asarray(lam, dtype=float)
    f = lambda x: np.log(x)[:, None] - np.log(x)[None, :]
    return np.array([f(lam), f(1 - lam)])


def ratios_ok(lay):
    R = np.asarray(lay.lbda_ratios)
    want = ratios(lay.lbda.val)
    return R.shape == want.shape and np.allclose(R, want, rtol=1e-4, atol=1e-5)


@oracle('C16')
class Max:
    def cases(self, r, deep, hints):
        for t in range(4):
            for w in (1, 0):
                yield {'N': 3, 'D': 2, 'L': 3, 'p': .5, 'axis': 0, 'u': .5, 'what': 4, 'tech': t, 'probs': w, 'traced': 1, 'T': 3, 'fixed': 0, 'lam': 'rand', 'seed': 7 + t, 'enum': 1}
        for i in range(8):
            yield {'N': 3, 'D': 3, 'L': 3, 'p': .6, 'axis': i % 2, 'u': .37, 'what': i // 2, 'tech': 0, 'probs': 1, 'traced': 0, 'T': 1, 'fixed': .2, 'lam': 'rand', 'seed': 70 + i, 'enum': 1}
        while True:
            c = {'N': int(1 + r.randint(4)), 'D': int(1 + r.randint(4)), 'L': int(1 + r.randint(4)), 'p': float([.5, .8, 1, .3][r.randint(4)]), 'axis': int(r.randint(2)),
                 'u': U_GRID[r.randint(8)], 'what': int(r.randint(7)), 'tech': int(r.randint(4)), 'probs': int(r.randint(2)), 'traced': int(r.randint(4) > 0),
                 'T': int([1, 2, 3, 20][r.randint(4)]), 'fixed': float([0, .3, .6][r.randint(3)]), 'lam': ['rand', 'ties', 'wild', 'sorted', 'revsort', 'clamphigh'][r.randint(6)],
                 'seed': int(r.randint(2 ** 30))}
            if r.randint(12) == 0 and c['what'] in (0, 1, 3, 6):
                if r.randint(2):
                    c['L'] = int([129, 200, 260][r.randint(3)]) if c['what'] != 3 else 5
                else:
                    c['N' if r.randint(2) else 'D'] = int([130, 200, 300][r.randint(3)])
            yield c

    def lam(self, c, r):
        L = c['L']
        k = c['lam']
        x = .02 + .96 * r.random_sample(L + 1)
        if k == 'ties':
            x = np.array([.3, .6, .6, .8])[r.randint(4, size=L + 1)]
        elif k == 'wild':
            x = np.where(r.random_sample(L + 1) < .5, 1e-6 + 1e-3 * x, 1 - 1e-6 - 1e-3 * x)
        elif k == 'sorted':
            x = np.sort(x)
        elif k == 'revsort':
            x = np.sort(x)[::-1].copy()
        if k == 'clamphigh':
            x[-1] = max(x[-1], .9)
        elif k != 'rand' or r.randint(2):
            x[-1] = min(x)
        return x

    def build(self, c):
        r = rs(c)
        N, D, L = c['N'], c['D'], c['L']
        X = data(r, (N, D))
        m = MACH.Machine()
        d = m.add_matrix(val=X.copy(), fixed=True)
        lay = m.add_layer(latent_size=L, child=d, model='MAX-AND')
        for f, n in zip(lay.factors, (N, D)):
            f.val = pm(r, (n, L), c['p'])
            f.fixed_entries = (r.random_sample(f.val.shape) < c['fixed']).astype(np.int8)
        if not ratios_ok(lay):
            raise AssertionError('a new MAX-AND layer does not have the log-likelihood ratios of its dispersions')
        lay.lbda.val = self.lam(c, r)
        fn(MM, 'compute_lbda_ratios')(lay)
        return m, d, lay, X, r

    def check(self, c):
        m, d, lay, X, r = self.build(c)
        lam = np.array(lay.lbda.val, copy=True)
        F = [np.array(f.val, copy=True) for f in lay.factors]
        if not ratios_ok(lay):
            return 'log-likelihood ratios are not those of the dispersions %s' % lam.tolist()[:8]
        if c['what'] == 6:
            # the dispersions follow the latent dimensions when one is removed
            if c['L'] < 2:
                return
            l = int(r.randint(c['L']))
            fn(AUX, 'remove_dimension')(l, lay)
            want = np.delete(lam, l)
            if np.asarray(lay.lbda.val).shape != want.shape or (np.asarray(lay.lbda.val) != want).any():
                return 'removing latent dimension %d: dispersions %s became %s' % (l, lam.tolist()[:8], np.asarray(lay.lbda.val).tolist()[:8])
            if not ratios_ok(lay):
                return 'removing latent dimension %d leaves ratios that are not those of the dispersions' % l
            return
        if c['what'] == 3:
            LW.get_update_fct(lay.lbda)(lay.lbda)
            got = np.asarray(lay.lbda.val, dtype=float)
            if any((f.val != g).any() for f, g in zip(lay.factors, F)) or (d.val != X).any():
                return 'the dispersion update changed a matrix'
            if got.shape != lam.shape or not ((got > 0) & (got < 1)).all() or got[-1] > got.min():
                return 'dispersions after the update: %s, must lie in (0,1) with the last one smallest' % got.tolist()
            w = greedy(F[0], F[1], X)
            if len(w) < 200 and not any(np.allclose(got, x, rtol=1e-9) for x in w):
                return 'dispersions after the update: %s, wanted one of %s' % (got.tolist(), w[:4])
            if not ratios_ok(lay):
                return 'the dispersion update leaves ratios that are not those of the dispersions'
            return
        if c['what'] == 4:
            return self.output(c, lay, lam, F, r)
        if c['what'] == 5:
            Z, U = r.random_sample(F[0].shape), r.random_sample(F[1].shape)
            for x in (Z, U):
                x[r.random_sample(x.shape) < .2] = r.randint(2)
            got = np.asarray(fn(OUT_FUZZY, 'MAX_AND_product_fuzzy')(Z, U, lam))
            want = expected(Z, U, lam)
            if got.shape != want.shape or not np.allclose(got, want, atol=1e-9):
                return 'MAX_AND_product_fuzzy(%s, %s, %s) = %s, the expected output is %s' % (Z.tolist(), U.tolist(), lam.tolist(), got.tolist(), want.tolist())
            return
        if c['what'] == 0:
            got = np.asarray(fn(OUT, 'MAX_AND_product_2d')([f.val for f in lay.factors], lay.lbda.val))
            want = prob(F[0], F[1], lam)
            if got.shape != want.shape or not np.allclose(got, want, atol=1e-12):
                at = tuple(int(i[0]) for i in np.nonzero(np.abs(got - want) > 1e-12)) if got.shape == want.shape else ()
                return 'MAX_AND_product_2d: entry %s is %r, the largest active dispersion is %r (dispersions %s)' % (at, got[at], want[at], lam.tolist()[:8])
            return
        ax = c['axis']
        mat = lay.factors[ax]
        Xt = X if ax == 0 else X.T
        if c['what'] == 1 and hasattr(MM, 'posterior_score_MAX_AND_2D'):
            n, l = int(r.randint(len(F[ax]))), int(r.randint(c['L']))
            order = np.argsort(-lam[:-1])
            got = float(fn(MM, 'posterior_score_MAX_AND_2D')(F[ax][n, :], F[1 - ax], Xt[n, :], l, order, lay.lbda_ratios))
            want = gain(F, lam, X, ax, n, l)
            if abs(got - want) > 1e-4 * (1 + abs(want)) + 1e-5 * X.size:
                return 'score of entry (%d, %d) of factor %d is %r, the log-likelihood difference is %r (dispersions %s)' % (n, l, ax, got, want, lam.tolist()[:8])
            return
        mask = mat.fixed_entries.copy()
        u = c['u']
        f = early(lay.machine, WR.get_sampling_fct, mat, c['seed']) if c['seed'] % 2 else WR.get_sampling_fct(mat)
        with uniforms(u):
            f(mat)
        got = mat.val
        if (got[mask == 1] != F[ax][mask == 1]).any():
            return 'a MAX-AND sweep changed entries marked as fixed'
        if (lay.factors[1 - ax].val != F[1 - ax]).any() or (d.val != X).any() or (np.asarray(lay.lbda.val) != lam).any():
            return 'a MAX-AND sweep changed another matrix or the dispersions'
        for n in range(len(got)):
            free = [l for l in range(c['L']) if mask[n, l] != 1]
            if len(free) > 4:
                continue
            ok, skip = set(), False
            for perm in itertools.permutations(free):
                G = [x.copy() for x in F]
                for l in perm:
                    t = gain(G, lam, X, ax, n, l)
                    zt = int(G[ax][n, l]) * t
                    if abs(np.exp(-abs(zt)) - u) < 1e-3 or 1e-9 < abs(zt) < 1e-3:
                        skip = True
                    if zt <= 1e-9 or np.exp(-zt) > u:
                        G[ax][n, l] *= -1
                ok.add(tuple(int(x) for x in G[ax][n]))
            if not skip and tuple(int(x) for x in got[n]) not in ok:
                return 'sweep of factor %d with all uniform draws %r: row %d became %s from %s, reachable by one update of each unfixed entry: %s' % (
                    ax, u, n, got[n].tolist(), F[ax][n].tolist(), sorted(ok)[:6])

    def output(self, c, lay, lam, F, r):
        T = c['T']
        t = TECH[c['tech']]
        if c['traced']:
            for f in lay.factors:
                f.trace = np.where(r.random_sample((T,) + f.val.shape) < c['p'], 1, -1).astype(np.int8)
                f.trace_index = T
            lay.lbda.trace = np.array([self.lam(c, r) for _ in range(T)]).astype(np.float32)
            lay.lbda.trace_index = T
        elif t == 'mc':
            return
        mean = [f.trace.astype(float).mean(axis=0) if c['traced'] else f.val.astype(float) for f in lay.factors]
        lm = lay.lbda.trace.astype(float).mean(axis=0) if c['traced'] else lam
        if t == 'point_estimate':
            want = prob(F[0], F[1], lam)
        elif t == 'factor_map':
            want = prob(*[np.where(x > 0, 1, -1) for x in mean], lam=lam)
        elif t == 'factor_mean':
            want = expected(*[(x + 1) / 2 for x in mean], lam=lm)
        else:
            want = np.mean([prob(lay.factors[0].trace[i], lay.factors[1].trace[i], lay.lbda.trace[i]) for i in range(T)], axis=0)
        if not c['probs']:
            want = 2 * want - 1
        got = np.asarray(lay.output(technique=t, map_to_probabilities=bool(c['probs'])))
        if got.shape != want.shape:
            return 'output(%s): shape %s, wanted %s' % (t, got.shape, want.shape)
        bad = np.abs(got - want) > 1e-6
        if bad.any():
            at = tuple(int(i[0]) for i in np.nonzero(bad))
            return 'output(%s, map_to_probabilities=%s) of a MAX-AND layer: entry %s is %r, wanted %r (dispersions %s)' % (t, bool(c['probs']), at, float(got[at]), float(want[at]), lam.tolist())


import lom._numba.lom_outputs_fuzzy as OUT_FUZZY
