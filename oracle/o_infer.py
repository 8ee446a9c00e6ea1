"""C10: traces"""
from .base import *
import lom.machine as MACH
import lom.matrix_update_wrappers as WR
import lom.lambda_update_wrappers as LW


@oracle('C10')
class Traces:
    def cases(self, r, deep, hints):
        for K in (2, 3):
            for S in (1, 2, 7):
                for par in (0, 1):
                    yield {'K': K, 'dims': [3, 4, 2][:K], 'L': 2, 'm': 'OR-AND', 'par': par and K == 2, 'runs': [S, 3], 'bmin': 1, 'bmax': 4, 'win': 3, 'clean': 0, 'fix': 0, 'seed': S, 'enum': 1}
        big = [h for h in (hints or {}).get('ints', []) if 3 < h <= 400]
        for S in big[:12]:
            yield {'K': 2, 'dims': [2, 2], 'L': 1, 'm': 'XOR-AND', 'par': 0, 'runs': [S, S + 1], 'bmin': 0, 'bmax': 2, 'win': 2, 'clean': 0, 'fix': 0, 'seed': 1, 'enum': 1}
        while True:
            K = int(2 + (r.randint(3) == 0))
            m = (MODELS + ['MAX-AND', 'qL-AND'])[r.randint(len(MODELS) + (2 if K == 2 else 0))]
            yield {'K': K, 'dims': [int(1 + r.randint(4)) for _ in range(K)], 'L': int(1 + r.randint(3)), 'm': m,
                   'par': int(r.randint(3) == 0 and K == 2 and m in MODELS), 'runs': [int([1, 2, 3, 9, 17][r.randint(5)]) for _ in range(1 + r.randint(2))],
                   'bmin': int(r.randint(4)), 'bmax': int([0, 2, 6, 12][r.randint(4)]), 'win': int(2 + r.randint(5)),
                   'clean': int(r.randint(4) == 0), 'fix': int([0, 0, r.randint(256)][r.randint(3)]), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        np.random.seed(int(r.randint(2 ** 31)))
        m = MACH.Machine()
        X = data(r, c['dims'], .5, [0, .3][r.randint(2)])
        d = m.add_matrix(val=X, fixed=True)
        lay = m.add_layer(latent_size=c['L'], child=d, model=c['m'])
        layers = [lay]
        if c['par']:
            layers.append(m.add_layer(latent_size=int(1 + r.randint(3)), child=lay.factors[r.randint(2)], model=MODELS[r.randint(8)]))
        mats = [f for l in layers for f in l.factors] + [l.q for l in layers if c['m'] == 'qL-AND']
        par = [l.lbda for l in layers]
        if c['clean'] and not c['par']:
            lay.auto_clean = True
            for f in lay.factors:
                f.val[:, 0] = -1
        names = ['factor %d' % i for i in range(len(mats))] + ['dispersion %d' % i for i in range(len(par))]
        for i, o in enumerate(mats + par):
            o.fixed = bool(c['fix'] >> i & 1)
        log = {}

        def wrap(o, f):
            def run(x):
                f(x)
                log.setdefault(id(o), []).append(np.array(o.val, copy=True))
            return run
        for o in mats:
            f = fn(WR, 'get_sampling_fct')(o)
            o.sampling_fct = wrap(o, o.sampling_fct if o.sampling_fct is not None and c['m'] == 'qL-AND' and o is mats[-1] else f)
        for o in par:
            o.sampling_fct = wrap(o, fn(LW, 'get_update_fct')(o))
        for S in c['runs']:
            log.clear()
            keep = [np.array(o.val, copy=True) for o in mats + par]
            m.infer(no_samples=S, convergence_window=c['win'], convergence_eps=.01, burn_in_min=c['bmin'], burn_in_max=c['bmax'], print_step=5)
            if not np.array_equal(d.val, X):
                return 'the data were changed'
            for nm, o, was in zip(names, mats + par, keep):
                if o.fixed:
                    if id(o) in log or not (c['clean'] or np.array_equal(o.val, was)):
                        return '%s is fixed but was updated' % nm
                    continue
                st = log.get(id(o), [])
                if len(st) < S:
                    return '%s was updated %d times in an inference with %d samples' % (nm, len(st), S)
                tr = getattr(o, 'trace', None)
                if not isinstance(tr, np.ndarray) or tr.shape != (S,) + np.shape(o.val):
                    return '%s: the trace has shape %s, expected %s' % (nm, np.shape(tr), (S,) + np.shape(o.val))
                for t in range(S):
                    if not np.allclose(tr[t], st[len(st) - S + t], rtol=1e-6, atol=0):
                        return '%s: entry %d of %d of the trace is %s, the state after this update was %s' % (nm, t, S, tr[t].tolist(), st[len(st) - S + t].tolist())
                if not np.allclose(tr[-1], o.val, rtol=1e-6, atol=0):
                    return '%s: the last entry of the trace is not the current value' % nm
                if not np.allclose(o.mean(), np.asarray(tr, dtype=float).mean(axis=0), rtol=1e-5, atol=1e-9):
                    return '%s: mean() is not the average of the trace' % nm
                if o in mats and (c['m'] != 'qL-AND' or o is not mats[-1]) and not np.isin(tr, [-1, 1]).all():
                    return '%s: the trace has entries other than -1 and 1' % nm
        for nm, o in zip(names, mats):
            tr = getattr(o, 'trace', None)
            if tr is None and np.isin(o.val, [-1, 1]).all():
                was = o.val.copy()
                o.set_to_map()
                if not np.array_equal(o.val, was):
                    return '%s: set_to_map() without a trace changes the state' % nm
                continue
            if o.fixed or not isinstance(tr, np.ndarray) or not np.isin(tr, [-1, 1]).all():
                continue
            if r.randint(2):
                # a history with ties
                tr = o.trace = np.array(r.randint(0, 2, size=(2 * int(1 + r.randint(3)),) + tr.shape[1:]) * 2 - 1, dtype=tr.dtype)
                o.trace_index = tr.shape[0]
            tot = tr.astype(int).sum(axis=0)
            o.set_to_map()
            if not np.array_equal(o.val, np.where(tot > 0, 1, -1)):
                return '%s: set_to_map() yields %s where the trace adds up to %s' % (nm, np.array(o.val).tolist(), tot.tolist())
