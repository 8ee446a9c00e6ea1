"""C12 and C13"""
from .base import *
import lom.auxiliary_functions as AUX
import lom.machine as MACH

OPS = ['OR', 'NOR', 'AND', 'NAND', 'XOR', 'NXOR']


@oracle('C12')
class Canonical:
    def cases(self, r, deep, hints):
        for via in (0, 1):
            for o in OPS:
                for i in OPS:
                    yield {'m': o + '-' + i, 'K': 2 + via, 'dims': [3, 4, 2][:2 + via], 'L': 2, 'via': via, 'seed': 7, 'enum': 1}
        while True:
            K = int(2 + r.randint(2))
            yield {'m': OPS[r.randint(6)] + '-' + OPS[r.randint(6)], 'K': K, 'dims': [int(r.randint(5)) for _ in range(K)],
                   'L': int(r.randint(5)), 'via': int(r.randint(2)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        X = data(r, c['dims'], .5, [0, .3][r.randint(2)])
        keep = X.copy()
        m = MACH.Machine()
        d = m.add_matrix(val=X, fixed=True)
        arr = d.val
        if c['via']:
            lay = m.add_layer(latent_size=c['L'], child=d, model=c['m'])
            new, idat, ifac = lay.model, lay.invert_data, lay.invert_factors
        else:
            new, idat, ifac = fn(AUX, 'canonise_model')(c['m'], d)
        if new not in MODELS:
            return '%s is replaced by %s, which is not implemented' % (c['m'], new)
        if d.val is not arr or (X is arr and d.val is not X):
            return 'the child data are another array'
        if not np.array_equal(d.val, -keep if idat else keep):
            return '%s: invert_data is %r, but the data are %s' % (c['m'], idat, 'negated' if np.array_equal(d.val, -keep) else 'kept' if np.array_equal(d.val, keep) else 'changed otherwise')
        p = density(r)
        fs = [pm(r, (n, c['L']), p) for n in (c['dims'] if min(c['dims']) else [4] * c['K'])]
        a = np_lom(c['m'], fs)
        b = np_lom(new, [-f for f in fs] if ifac else fs)
        if idat:
            b = -b
        if (a != b).any():
            at = tuple(int(x) for x in np.argwhere(a != b)[0])
            return '%s is replaced by %s (data inverted: %r, factors inverted: %r), but the products of the rows %s differ: %d and %d' % (
                c['m'], new, idat, ifac, [f[i].tolist() for f, i in zip(fs, at)], a[at], b[at])


@oracle('C13')
class Density:
    def cases(self, r, deep, hints):
        for o in OPS:
            for i in OPS:
                for L, K, f in ((1, 1, .3), (1, 2, .5), (2, 2, .25), (3, 3, .7), (2, 4, 1.), (5, 2, 0.), (40, 3, .2)):
                    yield {'m': o + '-' + i, 'L': L, 'K': K, 'f': f, 'enum': 1}
        while True:
            big = r.randint(5) == 0
            yield {'m': OPS[r.randint(6)] + '-' + OPS[r.randint(6)], 'L': int(1 + r.randint(200 if big else 8)), 'K': int(1 + r.randint(12 if big else 5)),
                   'f': float([0, 1, .5, r.rand(), r.rand(), r.rand() ** 4, 1 - r.rand() ** 4][r.randint(7)])}

    def check(self, c):
        o, i = c['m'].split('-')
        want = p_op(o, [p_op(i, [c['f']] * c['K'])] * c['L'])
        got = fn(AUX, 'expected_density')(c['m'], c['L'], c['K'], c['f'])
        if not close(got, want, 1e-9):
            return 'expected_density(%r, L=%d, K=%d, f=%r) = %r, the expectation is %r' % (c['m'], c['L'], c['K'], c['f'], float(got), want)
