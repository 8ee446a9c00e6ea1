"""C15"""
from .base import *
import lom.auxiliary_functions as AUX

FNS = ['add_bernoulli_noise', 'add_bernoulli_noise_2d', 'add_bernoulli_noise_2d_biased']


@oracle('C15')
class Noise:
    def cases(self, r, deep, hints):
        for f in range(3):
            for dims in ([0, 2, 1], [2, 3, 2], [1, 1, 1], [3, 2, 4], [4, 4, 3]):
                for seed in (0, 3):
                    yield {'f': f, 'dims': dims[:3 if f == 0 else 2], 'p': [.5, .25], 'rs': seed, 'seed': 5, 'enum': 1}
        for f in range(3):
            yield {'f': f, 'dims': [60, 70, 4] if f == 0 else [120, 130], 'p': [.3, .1], 'rs': 11, 'seed': 3, 'big': 1, 'enum': 1}
        sizes = [300] + [h for h in (hints or {}).get('ints', []) if 50 < h <= 6000]
        for n in sizes:
            for f in range(3):
                for d in ([n + 100, 64], [64, n + 100]):
                    yield {'f': f, 'dims': d if f else d + [1], 'p': [.5, .5], 'rs': 4, 'seed': 3, 'uniq': 1, 'enum': 1}
        while True:
            f = int(r.randint(3))
            yield {'f': f, 'dims': [int(r.randint(6)) for _ in range(3 if f == 0 else 2)],
                   'p': [float([0, 1, r.rand(), r.rand()][r.randint(4)]) for _ in range(2)], 'rs': int([0, 1, r.randint(2 ** 31)][r.randint(3)]),
                   'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        f = fn(AUX, FNS[c['f']])
        biased = c['f'] == 2
        if c['f'] == 0:
            X = r.rand(*c['dims']) < .5
        else:
            X = data(r, c['dims'], [.5, .1, .9][r.randint(3)], [0, .3][r.randint(2)])
            if r.randint(4) == 0:
                X = X.astype([np.int64, float][r.randint(2)])
        keep = X.copy()
        neg = ~X if c['f'] == 0 else -X
        ps = c['p'] if biased else c['p'][:1]
        P = np.where(keep == 1, ps[0], ps[-1])
        skw = {} if c['f'] == 0 else {'seed': c['rs']}

        def same(out, want, what):
            if not isinstance(out, np.ndarray) or out.shape != X.shape:
                return 'the result is not an array of the shape of the input'
            if out is X or np.shares_memory(out, X) and X.size:
                return 'the result shares memory with the input'
            if not np.array_equal(X, keep):
                return 'the input was modified'
            if not np.array_equal(out, want):
                i = tuple(int(x) for x in np.argwhere(out != want)[0])
                return '%s: entry %s of value %s with flip probability %s became %s' % (what, i, keep[i], P[i], out[i])
        # (the larger cases only look for draws shared by entries)
        # the whole range of a single value of all draws
        scripted = True
        for u in (0., .2, .4, .6, .9999)[:1 if c.get('uniq') else 5]:
            with uniforms(u) as U:
                out = f(X, *ps, **skw)
                if U.count == 0 and np.any(keep != (2 if c['f'] == 0 else 0)):
                    scripted = False
            if scripted:
                m = same(out, np.where(u < P, neg, keep), 'all draws %s' % u)
                if m:
                    return m
        # one draw differs from the others: it decides one entry, and every entry is decided by one
        if scripted and X.size <= 64 and not c.get('uniq') and not c.get('big'):
            qs = [.5] * len(ps)
            with uniforms(.75) as U:
                f(X, *qs, **skw)
                n = U.count
            if n <= 400:
                hits = np.zeros(X.shape, dtype=int)
                for k in range(n):
                    it = {'i': -1}

                    def src():
                        it['i'] += 1
                        return 0. if it['i'] == k else .75
                    with uniforms(src):
                        out = f(X, *qs, **skw)
                    d = (out != keep)
                    if d.sum() > 1:
                        return 'draw %d of %d decides %d entries: %s' % (k, n, d.sum(), np.argwhere(d)[:3].tolist())
                    hits += d
                bad = (hits != 1) & ((keep != 0) if c['f'] else True)
                if bad.any():
                    i = tuple(int(x) for x in np.argwhere(bad)[0])
                    return 'entry %s is decided by %d draws' % (i, hits[i])
        # seed
        if c['f']:
            np.random.seed(int(r.randint(1000)))
            a = f(X, *ps, seed=c['rs'])
            np.random.rand(int(r.randint(1, 5)))
            b = f(X, *ps, seed=c['rs'])
            if not np.array_equal(a, b):
                return 'seed %d: two calls differ' % c['rs']
        if c.get('uniq'):
            X[...] = 1
            d = np.asarray(f(X, *ps) != 1)
            for what, m in (('rows', d.reshape(d.shape[0], -1)), ('columns', d.swapaxes(0, 1).reshape(d.shape[1], -1))):
                seen = {}
                for n in range(m.shape[0]):
                    k = m[n].tobytes()
                    if k in seen:
                        return '%s %d and %d of %s carry the same noise' % (what, seen[k], n, d.shape)
                    seen[k] = n
            return
        if c.get('big'):
            out = f(X, *ps)
            if not np.array_equal(np.abs(out.astype(int)), np.abs(keep.astype(int))) and c['f']:
                return 'values were changed'
            for v in (True, False) if c['f'] == 0 else (1, -1):
                m = keep == v
                k, n = int((out != keep)[m].sum()), int(m.sum())
                p = P[m][0] if n else 0
                if abs(k - n * p) > 7 * np.sqrt(n * p * (1 - p) + 1):
                    return '%d of %d entries of value %s were flipped at probability %s' % (k, n, v, p)
