"""C11: layer.output by technique"""
from .base import *
from scipy.special import expit
import lom.machine as MACH

TECH = ['point_estimate', 'factor_map', 'factor_mean', 'mc', 'factor_mean_old']


@oracle('C11')
class LayerOutput:
    def cases(self, r, deep, hints):
        for m in MODELS:
            for K in (2, 3):
                for t in range(5):
                    yield {'m': m, 'K': K, 'dims': [2, 3, 2][:K], 'L': 2, 'calls': [[t, 0, 1, 0], [t, 1, 0, 3]], 'traced': 1, 'lam': .7, 'T': 3, 'seed': t, 'enum': 1}
        big = [h for h in (hints or {}).get('ints', []) if 40 < h <= 40000] if deep else []
        while True:
            K = int(2 + r.randint(2))
            n = int(1 + r.randint(3))
            yield {'m': (MODELS + ['OR-AND-IBP'])[r.randint(len(MODELS) + (K == 2))], 'K': K, 'dims': [int([0, 1, 2, 3, 4][r.randint(5)]) for _ in range(K)], 'L': int(1 + r.randint(4)),
                   'calls': [[int(r.randint(5)), int(r.randint(2)), int(r.randint(2)), int(r.randint(4))] for _ in range(n)],
                   'traced': int(r.randint(5) > 0), 'lam': float(np.round([0, r.normal(), 5 * r.normal(), 700 * (r.randint(2) - .5)][r.randint(4)], 3)),
                   'T': int([1, 1, 2, 3, 4, 5, 12, 40, 130, 300][r.randint(10)]) if not big or r.randint(4) else big[r.randint(len(big))], 'seed': int(r.randint(2 ** 30))}

    def state(self, r, c, lay, what):
        """new states: bit 0 the current values, bit 1 the traces"""
        d, L, K = c['dims'], c['L'], c['K']
        if what & 1:
            for f, n in zip(lay.factors, d):
                f.val = pm(r, (n, L), density(r))
            lay.lbda.val = c['lam'] * (.5 + r.random_sample())
        if what & 2 and c['traced']:
            T = c['T']
            p = [.5, .2, .9][r.randint(3)]
            for f, n in zip(lay.factors, d):
                f.trace = np.where(r.random_sample((T, n, L)) < p, 1, -1).astype(np.int8)
                f.trace_index = T
            lay.lbda.trace = (c['lam'] * (.5 + r.random_sample(T))).astype(np.float32)
            lay.lbda.trace_index = T

    def check(self, c):
        r = rs(c)
        m = MACH.Machine()
        X = data(r, c['dims'])
        ibp = c['m'] == 'OR-AND-IBP'
        d = m.add_matrix(val=X, fixed=True)
        model = 'OR-AND' if ibp else c['m']
        lay = m.add_layer(latent_size=c['L'], child=d, model=model)
        if ibp:
            lay.model = c['m']
        self.state(r, c, lay, 3)
        for t, noisy, probs, what in c['calls']:
            self.state(r, c, lay, what)
            t = TECH[t]
            if t == 'mc' and not c['traced']:
                continue
            keep = [(f, f.val, f.val.copy()) for f in lay.factors]
            mean = [f.trace.astype(float).mean(axis=0) if c['traced'] else f.val.astype(float) for f in lay.factors]
            lm = lay.lbda.trace.astype(float).mean() if c['traced'] else lay.lbda.val
            if t == 'point_estimate':
                want = (np_lom(model, [f.val for f in lay.factors]) + 1) / 2.
            elif t == 'factor_map':
                want = (np_lom(model, [np.where(x > 0, 1, -1) for x in mean]) + 1) / 2.
            elif t in ('factor_mean', 'factor_mean_old'):
                want = np.zeros(c['dims'])
                for at in np.ndindex(*c['dims']):
                    want[at] = p_lom(model, [(x[i] + 1) / 2. for x, i in zip(mean, at)])
            else:
                want = np.mean([(np_lom(model, [f.trace[i] for f in lay.factors]) + 1) / 2. for i in range(c['T'])], axis=0).reshape(c['dims'])
            if noisy:
                want = want * expit(lm) + (1 - want) * (1 - expit(lm))
            if not probs:
                want = 2 * want - 1
            got = np.asarray(lay.output(technique=t, noisy_emission=bool(noisy), map_to_probabilities=bool(probs)))
            if got.shape != tuple(c['dims']):
                return 'output(%s): shape %s, wanted %s' % (t, got.shape, c['dims'])
            bad = np.abs(got.astype(float) - want) > 1e-6
            if bad.any():
                at = tuple(int(i[0]) for i in np.nonzero(bad))
                return 'output(%s, noisy_emission=%s, map_to_probabilities=%s): entry %s is %r, wanted %r' % (t, bool(noisy), bool(probs), at, float(got[at]), float(want[at]))
            if any(f.val is not v or (v != w).any() for f, v, w in keep) or (d.val != X).any() or lay.model != c['m']:
                return 'output(%s) changed the layer' % t
