"""C22: predictive experiments, the grid search and random tensors"""
from .base import *
import multiprocessing
import lom.machine as MACH
import lom.experiments as EX

INVERTED = ['NOR-AND', 'NOR-NAND', 'NOR-XOR', 'AND-XOR', 'NXOR-NAND', 'NXOR-AND', 'NXOR-NXOR', 'NXOR-XOR']
NAMES = MODELS + INVERTED
CANON = dict(zip(['NOR-AND', 'NOR-NAND', 'NOR-XOR', 'NXOR-NAND', 'NXOR-AND', 'NXOR-NXOR', 'NXOR-XOR', 'AND-XOR'],
                 ['OR-AND', 'OR-NAND', 'OR-XOR', 'XOR-NAND', 'XOR-AND', 'XOR-NXOR', 'XOR-XOR', 'NAND-XOR']))


class Wrong(Exception):
    pass


class Trained:
    """stand-in for the inference: leaves chosen factors and traces and checks what the machine was given"""

    def __init__(self, c):
        self.c = c
        self.seen = []

    def traces(self, model, L, data, anneal, lam):
        # what comes out depends on everything that went in
        data = np.ascontiguousarray(data).astype(np.int8)
        dims = data.shape
        r = rs({'seed': self.c['seed']}, model, int(L), dims, hashlib.sha256(data.tobytes()).hexdigest(), bool(anneal), float(lam))
        p = [.5, .3, .8][r.randint(3)]
        return [np.where(r.random_sample((self.c['T'], n, L)) < p, 1, -1).astype(np.int8) for n in dims]

    def infer(self, m, *a, **k):
        if len(m.layers) != 1:
            raise Wrong('%d layers' % len(m.layers))
        lay = m.layers[0]
        self.seen.append((m, lay, np.array(lay.child.val), lay.lbda.val, m.anneal, lay.child.fixed, a, k))
        for f, t in zip(lay.factors, self.traces(lay.model, lay.size, lay.child.val, m.anneal, lay.lbda.val)):
            f.trace = t
            f.trace_index = t.shape[0]
            f.val = t[-1].copy()
        lay.lbda.val = float(lay.lbda.val) + 1.
        lay.lbda.trace = np.array([lay.lbda.val], dtype=np.float32)

    def __enter__(self):
        self.old = MACH.Machine.infer
        me = self
        MACH.Machine.infer = lambda m, *a, **k: me.infer(m, *a, **k)
        return self

    def __exit__(self, *a):
        MACH.Machine.infer = self.old

    def expect(self, c, X, train, mask, name, L, anneal, lam):
        """fraction of the test entries predicted, and the factor means"""
        model, inv = CANON.get(name, name), name in CANON
        ts = self.traces(model, L, (-1 if inv else 1) * train.astype(int), anneal, lam)
        mean = [t.astype(float).mean(axis=0) for t in ts]
        ok, n = 0, 0
        for at in zip(*np.nonzero(mask)):
            p = p_lom(model, [(x[i] + 1) / 2. for x, i in zip(mean, at)])
            if abs(p - .5) < 1e-9:
                raise Skip('tie')
            p = 1 - p if inv else p
            ok += (p > .5) == (X[at] == 1)
            n += 1
        return ok / n, mean


@oracle('C22')
class Predictive:
    def cases(self, r, deep, hints):
        for s, m in enumerate(NAMES):
            for K in (2, 3):
                yield {'m': m, 'K': K, 'dims': [4, 3, 2][:K], 'L': 2, 'lam': .1, 'anneal': s % 2, 'back': 1, 'kind': 0, 'T': 3, 'miss': .2, 'seed': s, 'enum': 1}
        yield {'m': 'OR-AND', 'K': 2, 'dims': [5, 4], 'L': 2, 'lam': .2, 'anneal': 0, 'back': 0, 'kind': 0, 'T': 5, 'miss': .2, 'seed': 7, 'real': 1, 'enum': 1}
        yield {'m': 'NXOR-AND', 'K': 2, 'dims': [5, 4], 'L': 1, 'lam': .2, 'anneal': 0, 'back': 1, 'kind': 0, 'T': 5, 'miss': .2, 'seed': 8, 'real': 1, 'enum': 1}
        while True:
            K = int(2 + r.randint(2))
            yield {'m': NAMES[r.randint(16)], 'K': K, 'dims': [int(1 + r.randint(6)) for _ in range(K)], 'L': int(1 + r.randint(4)), 'lam': float(np.round(.05 + 3 * r.rand(), 3)),
                   'anneal': int(r.randint(2)), 'back': int(r.randint(3)), 'kind': int(r.randint(3)), 'T': int([1, 3, 5, 7][r.randint(4)]), 'miss': float([0, .2, .5][r.randint(3)]),
                   'calls': int(1 + r.randint(3)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        f = fn(EX, 'LOM_predictive')
        r = rs(c)
        X = data(r, c['dims'], [.5, .2, .8][r.randint(3)], c['miss'])
        X = X.astype([np.int8, np.int64, float][c['kind']])
        mask = (r.random_sample(X.shape) < [.3, .7][r.randint(2)]) & (X != 0)
        if not mask.any():
            return
        train = np.array(X)
        train[mask] = 0
        keep = [X.copy(), train.copy(), mask.copy()]
        if c.get('real'):
            return self.real(c, f, X, train, mask, keep)
        for call in range(c.get('calls', 2)):
            name = c['m'] if not call else NAMES[r.randint(16)] if call == 1 else c['m']
            with Trained(c) as t:
                kw = {} if c['back'] == 2 else {'return_machine': bool(c['back'])}
                try:
                    out = f([X, train, mask, name, c['L'], 0, c['lam'], bool(c['anneal'])], **kw)
                except Wrong as e:
                    return '%s: %s' % (name, e)
                if len(t.seen) != 1:
                    return '%s: trained %d times' % (name, len(t.seen))
                m, lay, child, lam, ann, fixed, a, k = t.seen[0]
                what = 'call %d, %s' % (call, name)
                if (child.astype(float) != (-1 if name in CANON else 1) * keep[1].astype(float)).any() or not fixed:
                    return '%s: the machine was not trained on the training data' % what
                if lam != c['lam'] or ann is not bool(c['anneal']) or lay.size != c['L'] or lay.model != CANON.get(name, name):
                    return '%s: trained with model %s, %d dimensions, dispersion %r, annealing %r' % (what, lay.model, lay.size, lam, ann)
                if c['anneal'] and (a or k.get('fix_lbda_iters', 0) or k.get('burn_in_min', 30) < 1):
                    return '%s: annealing with %r' % (what, k)
                for x, w, n in zip((X, train, mask), keep, ('data', 'training data', 'mask')):
                    if (x != w).any():
                        return '%s: the %s were changed' % (what, n)
                want, mean = t.expect(c, X, train, mask, name, c['L'], bool(c['anneal']), c['lam'])
            if c['back']:
                if len(out) != 2 or len(out[1]) != c['K'] or any(np.asarray(x).shape != y.shape or not np.allclose(x, y) for x, y in zip(out[1], mean)):
                    return '%s: factor means' % what
                out = out[0]
            if len(out) != 3 or out[1] != name or out[2] != c['L'] or not close(out[0], want):
                return '%s: result %r, wanted accuracy %r' % (what, list(out), want)

    def real(self, c, f, X, train, mask, keep):
        """with the real inference: the machine is captured and its output scored"""
        got = []
        old = MACH.Machine.add_layer

        def add(m, *a, **k):
            lay = old(m, *a, **k)
            got.append(lay)
            return lay
        MACH.Machine.add_layer = add
        try:
            np.random.seed(c['seed'])
            out = f([X, train, mask, c['m'], c['L'], 0, c['lam'], bool(c['anneal'])], return_machine=True)
        finally:
            MACH.Machine.add_layer = old
        for x, w, n in zip((X, train, mask), keep, ('data', 'training data', 'mask')):
            if (x != w).any():
                return 'the %s were changed' % n
        if len(got) != 1:
            return '%d layers' % len(got)
        lay = got[0]
        ok = n = 0
        mean = [x.trace.astype(float).mean(axis=0) for x in lay.factors]
        for at in zip(*np.nonzero(mask)):
            p = p_lom(lay.model, [(x[i] + 1) / 2. for x, i in zip(mean, at)])
            if abs(p - .5) < 1e-9:
                return
            p = 1 - p if lay.invert_data else p
            ok += (p > .5) == (X[at] == 1)
            n += 1
        if not close(out[0][0], ok / n):
            return 'accuracy %r, wanted %r' % (out[0][0], ok / n)


@oracle('C22')
class Reconstruct:
    def cases(self, r, deep, hints):
        for s in range(6):
            yield {'dims': [3, 2, 4], 'L': 2, 'code': s, 'T': 3, 'layer': s % 2, 'p': .5, 'seed': s, 'enum': 1}
        while True:
            yield {'dims': [int(1 + r.randint(5)) for _ in range(3)], 'L': int(1 + r.randint(4)), 'code': int(r.randint(6)), 'T': int([1, 2, 3, 5][r.randint(4)]), 'layer': int(r.randint(2)),
                   'p': float([0, .1, .5, .9, 1][r.randint(5)]), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        f = fn(EX, 'tensorm_reconstruct')
        r = rs(c)
        b = r.random_sample(c['dims']) < c['p']
        s = np.where(b, 1, -1)
        miss = r.random_sample(c['dims']) < .2
        # coded as bool, {0,1} or {-1,1}, the latter possibly with missing entries
        X, want = [(b, s), (b.astype(np.int8), s), (b.astype(np.int64), s), (s.astype(np.int8), s), (s.astype(np.int64), s), (np.where(miss, 0, s).astype(np.int8),) * 2][c['code']]
        if c['code'] == 5 and not (X == -1).any():
            return      # indistinguishable from {0,1} data
        keep = X.copy()
        with Trained(c) as t:
            try:
                out = f(X, c['L'], return_layer=bool(c['layer']))
            except Wrong as e:
                return str(e)
            if len(t.seen) != 1:
                return 'trained %d times' % len(t.seen)
            m, lay, child, lam, ann, fixed, a, k = t.seen[0]
            if child.shape != want.shape or (child.astype(int) != want).any() or not fixed:
                return 'trained on other data: %s, wanted %s' % (child.tolist(), want.tolist())
            if lay.size != c['L'] or lay.model != 'OR-AND' or ann:
                return 'trained with model %s, %d dimensions, annealing %r' % (lay.model, lay.size, ann)
            if (X != keep).any():
                return 'the data were changed'
            if c['layer']:
                return None if out is lay else 'not the trained layer'
            mean = [x.astype(float).mean(axis=0) for x in t.traces('OR-AND', c['L'], want, False, lam)]
            if len(out) != 3 or len(out[1]) != 3 or any(np.asarray(a).shape != b.shape or not np.allclose(a, b) for a, b in zip(out[1], mean)):
                return 'factor means'
            plug = (np_lom('OR-AND', [np.where(x > 0, 1, -1) for x in mean]) + 1) / 2.
            for at in np.ndindex(*X.shape):
                p = p_lom('OR-AND', [(x[i] + 1) / 2. for x, i in zip(mean, at)])
                if abs(float(out[0][at]) - p) > 1e-9 or float(out[2][at]) != plug[at]:
                    return 'entry %s: %r and %r, wanted %r and %r' % (at, float(out[0][at]), float(out[2][at]), p, plug[at])


@oracle('C22')
class Grid:
    def cases(self, r, deep, hints):
        yield {'ms': [0, 8], 'Ls': [2, 1], 'ids': [0], 'balanced': 1, 'anneal': 1, 'dims': [6, 5], 'T': 3, 'lam': .3, 'seed': 1, 'enum': 1}
        yield {'ms': None, 'Ls': [2], 'ids': [0, 1], 'balanced': 0, 'anneal': 0, 'dims': [7, 6], 'T': 3, 'lam': .3, 'seed': 2, 'enum': 1}
        yield {'ms': [11, 11, 9, 0, 8, 8, 3], 'Ls': [1, 2], 'ids': [0, 3, 3], 'balanced': 1, 'anneal': 0, 'dims': [5, 6], 'T': 3, 'lam': .2, 'seed': 3, 'enum': 1}
        yield {'ms': [2, 8], 'Ls': [2], 'ids': [0], 'balanced': 1, 'anneal': 0, 'dims': [6, 6], 'T': 3, 'lam': .3, 'seed': 4, 'refuse': 2, 'enum': 1}
        for k in range(4 if deep else 1):
            yield {'ms': [int(r.randint(16)) for _ in range(1 + r.randint(4))], 'Ls': [int(1 + r.randint(3)) for _ in range(1 + r.randint(3))], 'ids': [int(r.randint(9))], 'balanced': int(r.randint(2)),
                   'anneal': int(r.randint(2)), 'dims': [int(4 + r.randint(6)) for _ in range(2)], 'T': int([1, 3, 5][r.randint(3)]), 'lam': float(np.round(.1 + r.rand(), 3)), 'refuse': int(r.randint(2)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        f = fn(EX, 'LOM_hyperparms_parallel_gridsearch')
        r = rs(c)
        X = pm(r, c['dims'])
        keep = X.copy()
        ms = None if c['ms'] is None else [NAMES[i] for i in c['ms']]
        pool, split = multiprocessing.Pool, EX.split_train_test
        splits = []

        def splitter(tensor, split=.1, balanced=False, real=split):
            if len(splits) < c.get('refuse', 0):
                splits.append((split, balanced, None))
                assert False
            # hides entries for certain, also of small data
            hide = r.random_sample(tensor.shape) < .4
            hide[0, 0] = True
            t = np.array(tensor)
            t[hide] = 0
            splits.append((split, balanced, (t, t.copy(), hide)))
            return t, hide
        multiprocessing.Pool = lambda processes=None, *a, **k: pool(1, *a, **k)
        EX.split_train_test = splitter
        np.random.seed(c['seed'] % 2 ** 31)
        try:
            with Trained(c) as t:
                table, means = f(X, machines=ms, L_inits=list(c['Ls']), random_idxs=list(c['ids']), lbda_init=c['lam'], balanced=bool(c['balanced']), anneal=bool(c['anneal']))
                if (X != keep).any():
                    return 'the data were changed'
                if len(splits) != c.get('refuse', 0) + 1:
                    return 'the data were split %d times' % len(splits)
                if any(b is not bool(c['balanced']) for _, b, _ in splits) or any(not q[0] < p[0] for p, q in zip(splits, splits[1:])):
                    return 'splits %r' % ([x[:2] for x in splits],)
                hide = splits[-1][2][2]
                todo = sorted((m, l) for m in (ms or MODELS) for l in c['Ls'] for _ in c['ids'])
                rows = [list(x) for x in table.values.tolist()]
                if list(table.columns) != ['test accuracy', 'LOM', 'L']:
                    return 'columns %r' % (list(table.columns),)
                if sorted((x[1], x[2]) for x in rows) != todo or len(means) != len(rows):
                    return 'configurations %r, wanted %r' % (sorted((x[1], x[2]) for x in rows), todo)
                for x, mm in zip(rows, means):
                    try:
                        want, mean = t.expect(c, X, splits[-1][2][1], hide, x[1], x[2], bool(c['anneal']), c['lam'])
                    except Skip:
                        continue
                    if not close(x[0], want):
                        return 'row %r: wanted accuracy %r' % (x, want)
                    if len(mm) != 2 or any(np.asarray(a).shape != b.shape or not np.allclose(a, b) for a, b in zip(mm, mean)):
                        return 'row %r: factor means of another experiment' % (x,)
        finally:
            multiprocessing.Pool, EX.split_train_test = pool, split


@oracle('C22')
class Tensor:
    def cases(self, r, deep, hints):
        for s in range(3):
            yield {'L': s + 1, 'dims': [3, 4, 2], 'noise': [0, .3, 1][s], 'dens': [.5, .2, .9][s], 'seed': s, 'enum': 1}
        yield {'L': 3, 'dims': [3000, 1, 1], 'noise': 0, 'dens': .4, 'seed': 5, 'big': 1, 'enum': 1}
        yield {'L': 2, 'dims': [1, 4000, 1], 'noise': .25, 'dens': .6, 'seed': 6, 'big': 1, 'enum': 1}
        yield {'L': 2, 'dims': [2, 1, 4000], 'noise': .25, 'dens': .3, 'seed': 6, 'big': 1, 'enum': 1}
        yield {'L': 2, 'dims': [3, 3, 2], 'noise': 0, 'dens': .5, 'seed': 9, 'default': 1, 'enum': 1}
        for d in ([90, 90, 1], [90, 1, 90], [1, 90, 90]):
            yield {'L': 2, 'dims': d, 'noise': .1, 'dens': .4, 'seed': 10, 'big': 1, 'enum': 1}
        while True:
            yield {'L': int(1 + r.randint(5)), 'dims': [int(1 + r.randint(6)) for _ in range(3)], 'noise': float(np.round([0, 1, r.rand(), r.rand()][r.randint(4)], 3)),
                   'dens': float(np.round(.02 + .96 * r.rand(), 3)), 'default': int(r.randint(6) == 0), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        f = fn(EX, 'generate_random_tensor')
        L, dims = c['L'], c['dims']
        noise, dens = (0, .5) if c.get('default') else (c['noise'], c['dens'])
        kw = {} if c.get('default') else {'noise': noise, 'density': dens}
        want = (1 - (1 - dens) ** (1. / L)) ** (1. / 3)

        def parts(out):
            if len(out) != 4 or len(out[2]) != 3:
                return 'result of %d parts' % len(out)
            Xn, X, fs, d = out
            if not close(d, want):
                return 'density %r of the factors, wanted %r' % (d, want)
            fs = [np.asarray(a) for a in fs]
            if any(a.shape != (n, L) for a, n in zip(fs, dims)):
                return 'factors of shapes %r' % ([a.shape for a in fs],)
            p = np_lom('OR-AND', [np.where(np.asarray(a) == 1, 1, -1) for a in fs]) == 1
            if np.asarray(X).shape != p.shape or ((np.asarray(X) == 1) != p).any():
                return 'the tensor is not the product of the factors'
            if np.asarray(Xn).shape != p.shape or np.shares_memory(Xn, X):
                return 'the noisy tensor is not a new tensor'
            return None
        np.random.seed(c['seed'] % 2 ** 31)
        out = f(L, tuple(dims), **kw)
        m = parts(out)
        if m:
            return m
        Xn, X, fs, d = out
        flips = np.asarray(Xn) != np.asarray(X)
        if noise in (0, 1) and (flips != (noise == 1)).any():
            return '%d of %d entries flipped at noise %r' % (flips.sum(), flips.size, noise)
        if c.get('big'):
            for a in range(3):
                for b in range(a):
                    if fs[a].size > 100 and np.array_equal(fs[a], fs[b]):
                        return 'factors %d and %d are equal' % (b, a)
            for k, (v, p) in enumerate([(np.asarray(a), want) for a in fs] + [(flips, noise)]):
                n, s = v.size, int(np.sum(v))
                if n > 100 and abs(s - n * p) > 7 * np.sqrt(n * p * (1 - p) + 1):
                    return '%s: %d of %d are set, probability %r' % ('flips' if k == 3 else 'factor %d' % k, s, n, p)
            return
        for u in (0., .3, .6, .9999):
            with uniforms(u) as U_:
                out = f(L, tuple(dims), **kw)
                if U_.count == 0:
                    return
            m = parts(out)
            if m:
                return m
            # all draws equal: all factor entries equal, and flips as the noise says
            vals = np.concatenate([np.asarray(a).ravel() for a in out[2]])
            if vals.any() != vals.all():
                return 'entries of different probability'
            if abs(u - want) > 1e-6 and abs(u - (1 - want)) > 1e-6 and bool(vals.any()) not in (u < want, u > 1 - want):
                return 'draw %r, density %r: entry %r' % (u, want, bool(vals.any()))
