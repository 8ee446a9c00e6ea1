"""C19: qL-AND layers"""
import itertools
from .base import *
import lom.machine as MACH
import lom.matrix_update_wrappers as WR
import lom.lambda_update_wrappers as LW
import lom._numba.matrix_updates_numba as MU
import lom._numba.lom_outputs as OUT
from .o_samplers import U_GRID, early


def ref_out(Z, U, q):
    cnt = (Z == 1).astype(np.int64) @ (U == 1).astype(np.int64).T
    return np.where(cnt >= np.asarray(q, dtype=np.int64)[None, :], 1, -1)


def gain(Z, U, X, q, axis, n, l):
    """half the change of sum X*output when entry (n, l) of factor `axis` goes from -1 to 1"""
    out = []
    for v in (1, -1):
        F = [Z.copy(), U.copy()]
        F[axis][n, l] = v
        out.append(ref_out(F[0], F[1], q))
    return int(np.sum(X.astype(np.int64) * (out[0] - out[1]) // 2))


@oracle('C19')
class QL:
    def cases(self, r, deep, hints):
        k = 0
        while True:
            k += 1
            big = r.randint(12) == 0
            c = {'N': int(1 + r.randint(4)), 'D': int(1 + r.randint(4)), 'L': int(1 + r.randint(4)), 'q': int(1 + r.randint(4)),
                 'p': float([.5, .8, 1, .3][r.randint(4)]), 'axis': int(r.randint(2)), 'u': U_GRID[r.randint(8)], 'what': int(r.randint(5)), 'gamma': float([.3, 1, 2.5][r.randint(3)]),
                 'fixed': float([0, .3, .6][r.randint(3)]), 'lam': float([.2, .6, 1.4][r.randint(3)]), 'prior': float([.5, .5, .2, .85][r.randint(4)]),
                 'zero': float([0, .3][r.randint(2)]), 'seed': int(r.randint(2 ** 30))}
            if big:
                c['N' if r.randint(2) else 'D'] = int([130, 200, 300][r.randint(3)])
                c['L'] = int([1, 2, 130][r.randint(3)])
                c['p'] = float([1, .97][r.randint(2)])
                c['q'] = int([1, 2, 100, 127][r.randint(4)])
                c['what'] = int([0, 1, 3][r.randint(3)])
                c['zero'] = 0.0
            yield c

    def build(self, c):
        r = rs(c)
        N, D, L = c['N'], c['D'], c['L']
        Z, U = pm(r, (N, L), c['p']), pm(r, (D, L), c['p'])
        q = np.clip(c['q'] + r.randint(-1, 2, D), 1, 127).astype(np.int8)
        X = data(r, (N, D), [.5, 1][int(c['p'] == 1)], c['zero'])
        return Z, U, q, X, r

    def check(self, c):
        Z, U, q, X, r = self.build(c)
        ax = c['axis']
        if c['what'] == 0:
            want = ref_out(Z, U, q)
            f = fn(OUT, 'qL_AND_product')
            for n in range(min(4, len(Z))):
                for d in range(min(4, len(U))):
                    got = f(U[d, :], Z[n, :], q[d])
                    if int(got) != want[n, d]:
                        return 'qL_AND_product(%s, %s, %d) = %r, %d active' % (U[d].tolist()[:40], Z[n].tolist()[:40], q[d], got, ((U[d] == 1) & (Z[n] == 1)).sum())
        elif c['what'] == 1:
            F = [Z, U][ax]
            n, l = int(r.randint(len(F))), int(r.randint(c['L']))
            want = gain(Z, U, X, q, ax, n, l)
            if ax == 0:
                got = fn(MU, 'posterior_score_fct_qL_Z')(Z[n, :], U, X[n, :], l, q[None, :])
            else:
                got = fn(MU, 'posterior_score_fct_qL_U')(U[n, :], Z, X[:, n], l, q[n])
            if int(got) != want:
                return 'score of entry (%d, %d) of factor %d is %r, the output change summed over the data is %d (N=%d, D=%d, L=%d, q=%s)' % (
                    n, l, ax, got, want, c['N'], c['D'], c['L'], q.tolist()[:12])
        else:
            m = MACH.Machine()
            d = m.add_matrix(val=X.copy(), fixed=True)
            lay = m.add_layer(latent_size=c['L'], child=d, model='qL-AND')
            lay.factors[0].val, lay.factors[1].val = Z.copy(), U.copy()
            lay.q.val = q[None, :].copy()
            lay.lbda.val = c['lam']
            mats = lay.factors
            for f in mats:
                f.fixed_entries = (r.random_sample(f.val.shape) < c['fixed']).astype(np.int8)
                f.bernoulli_prior = c['prior']
            if c['what'] == 4:
                return self.thresholds(c, lay, mats, Z, U, q, X)
            if c['what'] == 2:
                return self.sweep(c, lay, mats, Z, U, q, X)
            want = (ref_out(Z, U, q) + 1) / 2
            got = np.asarray(lay.output(technique='point_estimate'))
            if got.shape != want.shape or (got != want).any():
                return 'output of a qL-AND layer: values %s, wanted 1 where at least q dimensions are active and 0 elsewhere' % sorted(set(got.ravel().tolist()))
            (early(lay.machine, LW.get_update_fct, lay.lbda, c['seed']) if c['seed'] % 2 else LW.get_update_fct(lay.lbda))(lay.lbda)
            P = int((ref_out(Z, U, q) == X).sum())
            nd = int((X != 0).sum())
            a, b = lay.lbda.beta_prior
            w = max(0.0, float(np.log((P + a) / (nd - P + b))))
            if not close(lay.lbda.val, w, 1e-9):
                return 'dispersion %r, %d of %d data agree, the clipped MAP estimate is %r' % (float(lay.lbda.val), P, nd, w)
            if (lay.q.val[0] != q).any() or (d.val != X).any() or (mats[0].val != Z).any() or (mats[1].val != U).any():
                return 'the dispersion update or output changed a matrix'

    def sweep(self, c, lay, mats, Z, U, q, X):
        ax, u = c['axis'], c['u']
        mat = mats[ax]
        mask = mat.fixed_entries.copy()
        f = early(lay.machine, WR.get_sampling_fct, mat, c['seed']) if c['seed'] % 2 else WR.get_sampling_fct(mat)
        with uniforms(u):
            f(mat)
        got = mat.val
        if (got[mask == 1] != [Z, U][ax][mask == 1]).any():
            return 'a qL-AND sweep changed entries marked as fixed'
        if (mats[1 - ax].val != [Z, U][1 - ax]).any() or (lay.child.val != X).any() or (lay.q.val[0] != q).any():
            return 'a qL-AND sweep changed another matrix'
        lp = float(np.log(c['prior']) - np.log(1 - c['prior']))
        for n in range(len(got)):
            free = [l for l in range(c['L']) if mask[n, l] != 1]
            ok, skip = set(), False
            for order in itertools.permutations(free):
                F = [Z.copy(), U.copy()]
                for l in order:
                    t = c['lam'] * gain(F[0], F[1], X, q, ax, n, l) + lp
                    zt = int(F[ax][n, l]) * t
                    if 1e-9 < abs(zt) and abs(np.exp(-abs(zt)) - u) < 1e-7:
                        skip = True
                    if zt <= 1e-9 or np.exp(-zt) > u:
                        F[ax][n, l] *= -1
                ok.add(tuple(int(x) for x in F[ax][n]))
            if not skip and tuple(int(x) for x in got[n]) not in ok:
                return 'sweep of factor %d with all uniform draws %r: row %d became %s from %s, reachable by one full-conditional update of each unfixed entry: %s' % (
                    ax, u, n, got[n].tolist(), [Z, U][ax][n].tolist(), sorted(ok)[:6])

    def thresholds(self, c, lay, mats, Z, U, q, X):
        """the draw at an evenly spaced grid of uniforms follows the posterior of every threshold"""
        lay.gamma = c['gamma']
        for f in mats:
            WR.get_sampling_fct(f)
        f = WR.get_sampling_fct(lay.q)
        K = 60
        freq = np.zeros((len(U), 7))
        for i in range(K):
            with uniforms((i + .5) / K):
                f(lay.q)
            for d, v in enumerate(np.asarray(lay.q.val).ravel()):
                if not 1 <= v <= 5:
                    return 'threshold %r drawn for column %d, the thresholds are 1 to 5' % (v, d)
                freq[d, int(v)] += 1. / K
        if (mats[0].val != Z).any() or (mats[1].val != U).any() or (lay.child.val != X).any():
            return 'drawing the thresholds changed a factor or the data'
        lw = np.zeros((len(U), 7)) - np.inf
        for k in range(1, 6):
            A = ((ref_out(Z, U, np.full(len(U), k)) == X) & (X != 0)).sum(axis=0)
            lw[:, k] = k * np.log(c['gamma']) - sum(np.log(j) for j in range(1, k + 1)) + c['lam'] * A
        # log P(x | output) = -log(1 + exp(-lam)) for agreement and lower by lam for disagreement
        w = np.exp(lw - lw.max(axis=1, keepdims=True))
        w /= w.sum(axis=1, keepdims=True)
        bad = np.abs(freq - w).max(axis=1)
        if bad.max() > .04:
            d = int(bad.argmax())
            return 'thresholds of column %d drawn with frequencies %s for q = 1..5, their posterior is %s (gamma=%r, lambda=%r)' % (
                d, freq[d, 1:6].round(3).tolist(), w[d, 1:6].round(3).tolist(), c['gamma'], c['lam'])
