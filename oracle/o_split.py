"""C14"""
from .base import *
import lom.auxiliary_functions as AUX
import lom.experiments as EXP


@contextlib.contextmanager
def choices():
    """np.random.choice with probabilities draws its values through the scripted uniforms"""
    orig = np.random.choice

    def choice(a, size=None, replace=True, p=None):
        if p is None or not replace or U.source is None:
            return orig(a, size, replace, p)
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        c = np.cumsum(np.asarray(p, float))
        u = np.asarray(U.draw(_sz(size)))
        return a[np.minimum(np.searchsorted(c, u, side='right'), len(a) - 1)]

    def _sz(size):
        return () if size is None else tuple(size) if hasattr(size, '__iter__') else (int(size),)
    np.random.choice = choice
    try:
        yield
    finally:
        np.random.choice = orig


@oracle('C14')
class Splits:
    def cases(self, r, deep, hints):
        s = 0
        for kind in ('random', 'balanced', 'test'):
            for dims in ([3, 4], [1, 6], [6, 1], [5, 5], [2, 3, 4], [4, 2, 2], [2, 2, 2, 3], [12, 9], [1, 1]):
                for sp in (.1, .25, .5, .0, .9):
                    s += 1
                    yield {'kind': kind, 'dims': dims, 'split': sp, 'miss': [0, .3, .6][s % 3], 'p': [.5, .3, .8][s // 3 % 3], 'seed': s, 'dt': s % 4, 'enum': 1}
        for kind in ('random', 'balanced', 'test'):
            for dims in ([300, 20], [20, 300], [150, 140], [30, 20, 10]) + (([33000, 3], [3, 33000], [66000, 2]) if kind != 'test' else ()):
                s += 1
                yield {'kind': kind, 'dims': dims, 'split': .2, 'miss': .2, 'p': .5, 'seed': s, 'dt': 0, 'enum': 1}
        for n in [h for h in (hints or {}).get('ints', []) if 50 < h <= 70000]:
            for kind in ('random', 'balanced', 'test') if n < 3000 else ('random', 'balanced'):
                for d in ([n + 7, 5], [5, n + 7]):
                    yield {'kind': kind, 'dims': d, 'split': .2, 'miss': .1, 'p': .5, 'seed': n, 'dt': 0, 'enum': 1}
        while True:
            K = [2, 2, 3, 4][r.randint(4)]
            yield {'kind': ['random', 'balanced', 'test'][r.randint(3)], 'dims': [int(r.randint(1, [25, 8, 5][K - 2])) for _ in range(K)],
                   'split': float([.1, .5, r.rand(), r.rand() ** 3][r.randint(4)]), 'miss': float([0, .2, .7, r.rand()][r.randint(4)]),
                   'p': float(r.rand()), 'seed': int(r.randint(2 ** 30)), 'dt': int(r.randint(6))}

    def check(self, c):
        r = rs(c)
        kind = c['kind']
        dims = c['dims'] if kind != 'test' else c['dims'][:2]
        X = data(r, dims, c['p'], c['miss'] if kind != 'test' else 0)
        X = X.astype([np.int8, np.int64, np.int8, np.int32, float, np.int8][c['dt']], order='K')
        zo = kind == 'test' and r.randint(3) == 0
        if zo:
            X = (X == 1).astype(X.dtype)
        keep = X.copy()
        ref = 2 * keep - 1 if zo else keep
        np.random.seed(c['seed'] % 2 ** 31)
        n1, n0, obs = int((ref == 1).sum()), int((ref == -1).sum()), int((ref != 0).sum())
        if kind == 'test':
            f = fn(AUX, 'split_test_train')
            p = c['split']
            Ss = {int(np.prod(X.shape) * p / 2), int(X.size * (p / 2)), int(p / 2 * X.size)}
            if max(Ss) > min(n1, n0):
                return
            out = f(X, p) if c['seed'] % 2 or p != .1 else f(X)
            m = self.basics(X, keep, out)
            if m:
                return m
            hid = out == 0
            return self.hidden(hid, out, ref, Ss, 'split_test_train(p=%s) of %d ones and %d minus ones' % (p, n1, n0))
        f = fn(EXP, 'split_train_test')
        sp = c['split']
        what = 'split_train_test(split=%s, balanced=%s) of %s' % (sp, kind == 'balanced', X.shape)
        if kind == 'balanced':
            Ss = {int(obs * sp * .5), int(sp / 2 * obs)}
            if max(Ss) > min(n1, n0) or min(n1, n0) == 0:
                return
        else:
            if obs == 0 or sp * X.size > obs:
                return
            p = sp / (1 - np.mean(ref == 0))
            if not 0 <= p <= 1:
                return
        res = f(X, split=sp, balanced=kind == 'balanced')
        if not (isinstance(res, tuple) and len(res) == 2):
            return '%s did not return a pair' % what
        out, mask = res
        m = self.basics(X, keep, out)
        if m:
            return m
        mask = np.asarray(mask)
        if mask.dtype != bool or mask.shape != X.shape:
            return '%s: the mask has type %s and shape %s' % (what, mask.dtype, mask.shape)
        m = self.consistent(out, mask, ref, what)
        if m:
            return m
        if kind == 'balanced':
            return self.hidden(mask, out, ref, Ss, what)
        # every observed entry is hidden by a draw of its own with the same probability
        with choices():
            for u in (0., p * .999 if p else .5, min(p * 1.001 + 1e-9, .999999), .999999):
                with uniforms(u) as UU:
                    out, mask = f(X, split=sp, balanced=False)
                    n = UU.count
                if n == 0:
                    break
                want = (ref != 0) & (u < p)
                if not np.array_equal(mask, want):
                    i = tuple(int(x) for x in np.argwhere(mask != want)[0])
                    return '%s: with all draws %s and probability %s the entry %s of value %s is %shidden' % (what, u, p, i, ref[i], '' if mask[i] else 'not ')
                m = self.consistent(out, mask, ref, what)
                if m:
                    return m
            if n and X.size <= 48 and 0 < p < 1 and n <= 200:
                hits = np.zeros(X.shape, int)
                for k in range(n):
                    it = {'i': -1}

                    def src():
                        it['i'] += 1
                        return 0. if it['i'] == k else .999999
                    if p >= .999:
                        break
                    with uniforms(src):
                        out, mask = f(X, split=sp, balanced=False)
                    if mask.sum() > 1:
                        return '%s: draw %d of %d decides %d entries' % (what, k, n, mask.sum())
                    hits += mask
                else:
                    bad = (hits != 1) & (ref != 0)
                    if bad.any():
                        i = tuple(int(x) for x in np.argwhere(bad)[0])
                        return '%s: the entry %s is decided by %d draws' % (what, i, hits[i])
        # statistics with real draws
        if X.size >= 1000:
            out, mask = f(X, split=sp, balanced=False)
            for v in (1, -1):
                m = ref == v
                k, n = int(mask[m].sum()), int(m.sum())
                if abs(k - n * p) > 7 * np.sqrt(n * p * (1 - p) + 1):
                    return '%s: %d of %d entries of value %d are hidden at probability %s' % (what, k, n, v, p)
            for ax in range(X.ndim):
                h = X.shape[ax] // 2
                for sl in (slice(0, h), slice(h, None)):
                    ix = tuple(sl if a == ax else slice(None) for a in range(X.ndim))
                    k, n = int(mask[ix].sum()), int((ref[ix] != 0).sum())
                    if abs(k - n * p) > 7 * np.sqrt(n * p * (1 - p) + 1):
                        return '%s: %d of %d entries of %s are hidden at probability %s' % (what, k, n, ix, p)

    def basics(self, X, keep, out):
        if not np.array_equal(X, keep):
            i = tuple(int(x) for x in np.argwhere(X != keep)[0])
            return 'the input was modified at %s' % (i,)
        if not isinstance(out, np.ndarray) or out.shape != X.shape:
            return 'the training data are not an array of the shape of the input'
        if out.size and np.shares_memory(out, X):
            return 'the training data share memory with the input'

    def consistent(self, out, mask, ref, what):
        want = np.where(mask, 0, ref)
        if not np.array_equal(out, want):
            i = tuple(int(x) for x in np.argwhere(out != want)[0])
            return '%s: the training entry %s is %s, the data %s, the mask %s' % (what, i, out[i], ref[i], mask[i])
        if np.any(mask & (ref == 0)):
            return '%s: the mask selects a missing entry %s' % (what, np.argwhere(mask & (ref == 0))[0].tolist())

    def hidden(self, hid, out, ref, Ss, what):
        want = np.where(hid, 0, ref)
        if not np.array_equal(out, want):
            i = tuple(int(x) for x in np.argwhere(out != want)[0])
            return '%s: the training entry %s is %s, the data %s' % (what, i, out[i], ref[i])
        a, b = int((hid & (ref == 1)).sum()), int((hid & (ref == -1)).sum())
        if a != b or a not in Ss or hid.sum() != a + b:
            return '%s: %d ones and %d minus ones are hidden, not %s each' % (what, a, b, sorted(Ss))
