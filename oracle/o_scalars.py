"""C01, C03, C04, C05"""
import numpy as np
from .base import *
import lom._numba.lom_outputs as OUT
import lom._numba.lom_outputs_fuzzy as FZ
import lom._numba.posterior_score_fcts as SC
import lom._numba.matrix_updates_numba as MU
import lom._numba.lambda_updates_numba as LU


def ident(m):
    return m.replace('-', '_')


def sizes(r, deep, hints, big=True):
    """vector lengths: small ones, machine-integer boundaries, and neighbours of literals in the code under test"""
    base = [1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 0]
    out = base + [12, 20]
    if big:
        out += [127, 128, 129, 255, 256, 257]
    if deep:
        out += [300, 511, 513, 1000] + [s for s in hints.get('ints', []) if 0 <= s <= 70000]
        if r.randint(20) == 0:
            out = [32767, 32768, 33000, 65536, 65537]
    return out[r.randint(len(out))]


@oracle('C01')
class Products:
    def cases(self, r, deep, hints):
        # every pair of small vectors first
        for L in (0, 1, 2):
            for K in (2, 3):
                for code in range(2 ** (K * L)):
                    for m in MODELS:
                        yield {'m': m, 'K': K, 'L': L, 'code': code, 'enum': 1}
        while True:
            L = sizes(r, deep, hints)
            yield {'m': MODELS[r.randint(8)], 'K': int(2 + r.randint(2)), 'L': int(L), 'pat': int(r.randint(6)), 'seed': int(r.randint(2 ** 30))}

    def vecs(self, c):
        K, L = c['K'], c['L']
        if 'vecs' in c:
            return [np.array(v, dtype=np.int8) for v in c['vecs']]
        if 'code' in c:
            b = [(c['code'] >> i) & 1 for i in range(K * L)]
            return [np.array([2 * x - 1 for x in b[k * L:(k + 1) * L]], dtype=np.int8) for k in range(K)]
        r = rs(c)
        pat = c['pat']
        if pat == 0:
            return [pm(r, L, p) for p in [density(r)] * K]
        if pat == 1:      # few counted latent dimensions
            vs = [pm(r, L, 0) for _ in range(K)]
            for _ in range(r.randint(4)):
                if L:
                    l = r.randint(L)
                    for v in vs:
                        v[l] = [-1, 1][r.randint(2)] if r.randint(4) == 0 else 1
            return vs
        if pat == 2:      # almost everything on
            vs = [pm(r, L, 1) for _ in range(K)]
            for _ in range(r.randint(4)):
                if L:
                    vs[r.randint(K)][r.randint(L)] = -1
            return vs
        if pat == 3:      # complementary
            v = pm(r, L, density(r))
            vs = [v, -v] + [pm(r, L, density(r)) for _ in range(K - 2)]
            for _ in range(r.randint(4)):
                if L:
                    l = r.randint(L)
                    vs[0][l] = -vs[0][l]
            return vs
        if pat == 4:
            return [pm(r, L, density(r)) for _ in range(K)]
        v = pm(r, L, density(r))
        vs = [v.copy() for _ in range(K)]
        for _ in range(r.randint(3)):
            if L:
                vs[r.randint(K)][r.randint(L)] *= -1
        return vs

    def check(self, c):
        vs = self.vecs(c)
        want = lom(c['m'], vs)
        fs = [fn(OUT, ident(c['m']) + '_product' + ('_3d' if c['K'] == 3 else ''))]
        fs.append((LU.get_scalar_output_function_2d if c['K'] == 2 else LU.get_scalar_output_function_3d)(c['m']))
        for f in fs:
            keep = [v.copy() for v in vs]
            got = f(*vs)
            if any((a != b).any() for a, b in zip(keep, vs)):
                return '%s changed its input' % f.__name__
            if int(got) != want or got != want:
                return '%s(%s) = %r, the %s product is %d' % (f.__name__, [v.tolist()[:40] for v in vs], got, c['m'], want)


@oracle('C03')
class Fuzzy:
    def cases(self, r, deep, hints):
        while True:
            L = [0, 1, 1, 2, 2, 3, 3, 4, 5, 7][r.randint(10)]
            if deep and r.randint(10) == 0:
                L = [s for s in [10, 20, 64, 130] + [h for h in hints.get('ints', []) if 0 <= h <= 300]][r.randint(4)]
            yield {'m': MODELS[r.randint(8)], 'K': int(2 + r.randint(2)), 'L': int(L), 'pat': int(r.randint(5)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        K, L = c['K'], c['L']
        vs = [r.random_sample(L) for _ in range(K)]
        if c['pat'] == 1:
            vs = [np.where(r.random_sample(L) < .3, np.round(v), v) for v in vs]
        elif c['pat'] == 2:
            vs = [np.round(v) for v in vs]
        elif c['pat'] == 3:
            vs = [np.where(v < .5, v * 1e-3, 1 - (1 - v) * 1e-3) for v in vs]
        elif c['pat'] == 4:
            vs = [np.round(v * 4) / 4 for v in vs]
        want = p_lom(c['m'], vs)
        fs = [fn(FZ, ident(c['m']) + '_product_fuzzy' + ('_3d' if K == 3 else ''))]
        fs.append((LU.get_scalar_output_function_2d if K == 2 else LU.get_scalar_output_function_3d)(c['m'], fuzzy=True))
        for f in fs:
            keep = [v.copy() for v in vs]
            got = f(*vs)
            if any((a != b).any() for a, b in zip(keep, vs)):
                return '%s changed its input' % f.__name__
            if not close(got, want, 1e-8) or not -1e-9 <= got <= 1 + 1e-9:
                return '%s(%s) = %r, the probability of a 1 is %r' % (f.__name__, [v.tolist()[:20] for v in vs], float(got), want)


def ref_score(model, Z, fs, X, l):
    """half the log-likelihood difference per unit of dispersion between Z_l = 1 and Z_l = -1"""
    out = []
    for v in (1, -1):
        z = Z.copy()
        z[l] = v
        out.append(np_lom(model, [z[None, :]] + fs)[0])
    return int(np.sum(X.astype(np.int64) * (out[0] - out[1]).astype(np.int64) // 2))


@oracle('C04')
class Scores:
    def cases(self, r, deep, hints):
        while True:
            K = int(2 + r.randint(2))
            L = [1, 1, 2, 2, 3, 3, 4, 5, 6][r.randint(9)]
            dims = [[0, 1, 1, 2, 3, 4, 5, 7][r.randint(8)] for _ in range(K - 1)]
            k = r.randint(10)
            ext = ([130, 140, 200, 260, 300] + ([s + d for s in hints.get('ints', []) for d in (0, 1) if 0 < s <= 40000] if deep else []))
            if k == 0:
                dims[r.randint(len(dims))] = ext[r.randint(len(ext))]
            elif k == 1:
                L = ext[r.randint(len(ext))]
                if L > 1000:
                    dims = [min(d, 2) for d in dims]
            elif k == 2 and deep and r.randint(5) == 0:
                dims[0] = [33000, 70000][r.randint(2)]
                L = [1, 2, 3][r.randint(3)]
                dims[1:] = [1] * (K - 2)
            yield {'m': MODELS[r.randint(8)], 'K': K, 'L': int(L), 'dims': [int(d) for d in dims], 'pat': int(r.randint(7)),
                   'l': int(r.randint(L)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        K, L = c['K'], c['L']
        p = density(r)
        ps = [p] * K if r.randint(2) else [density(r) for _ in range(K)]
        Z = pm(r, L, ps[0])
        fs = [pm(r, (d, L), q) for d, q in zip(c['dims'], ps[1:])]
        X = data(r, c['dims'], [.5, 1, 0, .8, .2][r.randint(5)], [0, 0, .2, .6][r.randint(4)])
        if c['pat'] >= 4:      # few dimensions compete
            Z = pm(r, L, 0)
            for _ in range(r.randint(4)):
                Z[r.randint(L)] = 1
            fs = [pm(r, (d, L), [1, .95, .8][r.randint(3)]) for d in c['dims']]
        if c['pat'] == 6:      # everything explained by this dimension
            fs = [pm(r, (d, L), 0) for d in c['dims']]
            for f in fs:
                f[:, c['l']] = 1
            X = data(r, c['dims'], 1, 0)
        f = fn(SC, 'posterior_score_' + ident(c['m']) + '_%dD' % K)
        g = MU.get_posterior_score_fct(ident(c['m']) + '_%dD' % K)
        want = ref_score(c['m'], Z, fs, X, c['l'])
        args = [Z] + fs + [X]
        for h in (f, g):
            keep = [x.copy() for x in args]
            got = h(*args, c['l'])
            if any((a != b).any() for a, b in zip(keep, args)):
                return '%s changed its input' % h.__name__
            if int(got) != want:
                return '%s = %r, half the log-likelihood difference is %d (shapes %s, l=%d)' % (h.__name__, got, want, [a.shape for a in args], c['l'])


@oracle('C05')
class Flips:
    """acceptance measured on a grid of uniforms: independent of how the draw is mapped to the decision"""

    def cases(self, r, deep, hints):
        for lg in (0.0, 1e-12, -1e-12, 1e-3, -1e-3, .5, -.5, 1, -1, 2.5, -2.5, 8, -8, 12, -12, 16, -16, 22, -22, 30, -30, 50, -50, 700, -700, 1000, -1000, 1e6, -1e6, 1e300, -1e300):
            for z in (1, -1):
                yield {'logit': float(lg), 'z': z}
        while True:
            s = [.1, 1, 3, 30][r.randint(4)]
            if deep and hints.get('floats') and r.randint(3) == 0:
                f = hints['floats'][r.randint(len(hints['floats']))]
                yield {'logit': float(f * (1 + [0, 1e-6, -1e-6, .1, -.1][r.randint(5)]) * [1, -1][r.randint(2)]), 'z': int(2 * r.randint(2) - 1)}
            yield {'logit': float(r.randn() * s), 'z': int(2 * r.randint(2) - 1)}

    def accept(self, f, z, N=400):
        k = 0
        for i in range(N):
            with uniforms((i + .5) / N):
                v = f()
                if v not in (1, -1):
                    return None, 'returned %r' % (v,)
                k += int(v) != z
        return k / N, None

    def tail(self, f, z, a):
        """draws of small probability: whichever tail of the uniform is used for the rarer outcome"""
        q = min(a, 1 - a)
        if not 1e-15 < q < .01:
            return None
        rare = -z if a < .5 else z
        for k, want in ((.5, True), (.97, True), (1.03, False), (2, False)):
            got = []
            for u in (k * q, 1 - k * q):
                with uniforms(u):
                    got.append(int(f()) == rare)
            if any(got) != want:
                return 'the draws %r and %r give %s' % (k * q, 1 - k * q, got)

    def check(self, c):
        lg, z = c['logit'], c['z']
        want = min(1.0, float(np.exp(min(0.0, -z * lg))))
        N = 400
        a, bad = self.accept(lambda: fn(MU, 'flip_metropolised_gibbs_numba')(np.float64(lg), np.int8(z)), z, N)
        if bad or abs(a - want) > 1.01 / N:
            return 'flip_metropolised_gibbs_numba(%r, %d): %s, wanted flip probability %r' % (lg, z, bad or 'flips with probability %r' % a, want)
        bad = self.tail(lambda: fn(MU, 'flip_metropolised_gibbs_numba')(np.float64(lg), np.int8(z)), z, want)
        if bad:
            return 'flip_metropolised_gibbs_numba(%r, %d): flip probability %r, but %s' % (lg, z, want, bad)
        p = 1 / (1 + np.exp(-lg)) if lg > -700 else 0.0
        b, bad = self.accept(lambda: fn(MU, 'flip_gibbs_numba')(np.float64(p)), -1, N)
        if bad or abs(b - p) > 1.01 / N:
            return 'flip_gibbs_numba(%r): %s' % (p, bad or 'is 1 with probability %r' % b)
        if 1e-9 < p < 1 - 1e-9:
            b, bad = self.accept(lambda: fn(MU, 'flip_metropolised_gibbs_numba_classic')(np.float64(p), np.int8(z)), z, N)
            if bad or abs(b - want) > 1.01 / N:
                return 'flip_metropolised_gibbs_numba_classic(%r, %d): %s, wanted %r' % (p, z, bad or 'flips with probability %r' % b, want)
