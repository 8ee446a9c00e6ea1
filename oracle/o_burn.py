"""C18: burn-in against a reference run with scripted dispersions"""
from .base import *
from scipy.special import expit
import lom.machine as MACH


class TooFar(Exception):
    pass


class Wrong(Exception):
    pass


@oracle('C18')
class BurnIn:
    def cases(self, r, deep, hints):
        for kind in range(6):
            for bmin in (0, 3, 7):
                yield {'via': kind % 2, 'bmin': bmin, 'bmax': 25, 'win': 4, 'eps': .01, 'fix': 0, 'anneal': 0, 'kind': kind, 'at': 6, 'par': kind == 5, 'max': 0, 'clean': int(kind == 4), 'seed': kind, 'enum': 1}
        for bmin in (1, 4, 9):
            yield {'via': 1, 'bmin': bmin, 'bmax': 20, 'win': 5, 'eps': .01, 'fix': 0, 'anneal': 1, 'kind': 0, 'at': 0, 'par': bmin == 4, 'max': 0, 'clean': 0, 'seed': bmin, 'enum': 1}
        for fix in (2, 5, 9):
            yield {'via': 0, 'bmin': 5, 'bmax': 20, 'win': 3, 'eps': .01, 'fix': fix, 'anneal': 0, 'kind': 1, 'at': 9, 'par': 0, 'max': 0, 'clean': 0, 'seed': fix, 'enum': 1}
        for two, clean, lf, anneal in ((1, 1, 0, 0), (1, 1, 2, 0), (1, 1, 1, 0), (1, 2, 0, 0), (0, 2, 0, 0), (1, 0, 1, 1), (1, 0, 2, 1), (0, 0, 2, 1), (0, 0, 1, 1), (1, 3, 0, 0)):
            yield {'via': lf % 2, 'bmin': 4, 'bmax': 30, 'win': 4, 'eps': .01, 'fix': 0, 'anneal': anneal, 'kind': 0, 'at': 0, 'par': 1 - two, 'two': two, 'lf': lf, 'mf': lf, 'max': 0, 'clean': clean * two or clean, 'seed': 1, 'enum': 1}
        big = [h for h in (hints or {}).get('ints', []) if 3 < h <= 3000]
        for h in big[:8]:
            yield {'via': 0, 'bmin': 2, 'bmax': h + 5, 'win': min(h, 40), 'eps': .01, 'fix': 0, 'anneal': 0, 'kind': 2, 'at': h, 'par': 0, 'max': 0, 'clean': 0, 'seed': 1, 'enum': 1}
        while True:
            yield {'via': int(r.randint(3)), 'bmin': int([0, 0, 1, 2, 5, 13][r.randint(6)]), 'bmax': int([0, 1, 4, 17, 40, 120][r.randint(6)]), 'win': int([2, 3, 4, 5, 8, 15][r.randint(6)]),
                   'eps': float([.1, .01, 1e-3, 0][r.randint(4)]), 'fix': int([0, 0, 1, 3, 8][r.randint(5)]), 'anneal': int(r.randint(4) == 0), 'kind': int(r.randint(6)), 'at': int(r.randint(60)),
                   'par': int(r.randint(3) == 0), 'max': int(r.randint(5) == 0), 'clean': int(r.randint(4) == 0) * int(1 + r.randint(3)), 'two': int(r.randint(3) == 0), 'lf': int(r.randint(4)), 'mf': int(r.randint(16)), 'seed': int(r.randint(2 ** 30))}

    def script(self, c, r, j):
        """dispersion after its t-th update, t = 1, 2, .."""
        kind, at, s = c['kind'], c['at'], [1.0, .3, 2.5][(j + c['seed']) % 3]
        noise = r.random_sample(4000)

        def f(t):
            if kind == 0:
                v = s
            elif kind == 1:
                v = s if t <= at else 2 * s          # one step
            elif kind == 2:
                v = s * .05 * t if t < at else s * .05 * at     # drift that stops
            elif kind == 3:
                v = s + (.5 if t % 2 else -.5)       # alternates
            elif kind == 4:
                v = s + .2 * (noise[t % 4000] - .5)
            else:
                v = s * (1 + 4.0 / t)                # settles
            return max(v, 0.0)
        return f

    def check(self, c):
        if c['anneal'] and (c['max'] or c['fix']):
            c = dict(c, fix=0, max=0)
        r = rs(c)
        np.random.seed(c['seed'] % 2 ** 31)
        m = MACH.Machine()
        d = m.add_matrix(val=data(r, (4, 5)), fixed=True)
        lay = m.add_layer(latent_size=3, child=d, model='MAX-AND' if c['max'] else 'OR-AND')
        layers = [lay]
        if c.get('two') and not c['max']:
            d2 = m.add_matrix(val=data(r, (3, 4)), fixed=True)
            layers.append(m.add_layer(latent_size=3, child=d2, model='XOR-AND'))
        elif c['par'] and not c['max']:
            layers.append(m.add_layer(latent_size=2, child=lay.factors[0], model='OR-AND'))
        for l in layers:
            for f in l.factors:
                f.val = np.array([[1 if i == k % f.val.shape[0] else -1 for k in range(f.val.shape[1])] for i in range(f.val.shape[0])], dtype=np.int8)
        redundant, stays, width = False, False, [l.size for l in layers]
        if c['clean'] and (c.get('two') or not c['par']):
            for j, l in enumerate(layers):
                # 1: auto-clean; 2: auto-reset; 3: both kinds of layer
                l.auto_reset = c['clean'] == 2 or c['clean'] == 3 and j == 0
                l.auto_clean = not l.auto_reset
                if (c['seed'] + j) % 3:
                    redundant = True
                    stays |= l.auto_reset       # the scripted draws never use the dimension again
                    l.factors[c['seed'] % 2].val[:, 1] = -1
                    width[j] -= 1
        mats = [f for i, f in enumerate(f for l in layers for f in l.factors) if not c.get('mf', 0) >> i & 1]
        par = [l.lbda for j, l in enumerate(layers) if not (len(layers) > 1 and c.get('lf', 0) >> j & 1)]
        if not mats or not par:
            return
        for l in layers:
            for f in l.factors:
                f.fixed = not any(f is x for x in mats)
            l.lbda.fixed = not any(l.lbda is x for x in par)
        still = [(p, np.array(p.val, copy=True)) for p in [l.lbda for l in layers] if p.fixed]
        m.anneal = bool(c['anneal'])
        bmin, bmax, W, eps, fix = c['bmin'], c['bmax'], c['win'], c['eps'], c['fix']
        init = [np.array(p.val, copy=True, dtype=float) for p in par]
        scripts = [self.script(c, r, j) for j in range(len(par))]
        events, ups = [], [0] * len(par)
        limit = max(bmin, bmax) + 60

        def draw(o, i):
            def f(x):
                if x is not o:
                    raise AssertionError('the sampling function of one matrix was called with another')
                if len(events) > limit * len(mats):
                    raise TooFar()
                for p, v in still:
                    if not np.array_equal(p.val, v):
                        raise Wrong('burn-in changed a fixed dispersion from %s to %s (burn_in_min=%d, anneal=%s)' % (v.tolist(), np.array(p.val).tolist(), bmin, bool(c['anneal'])))
                events.append((i, [np.array(p.val, copy=True) for p in par], list(ups)))
            return f

        def update(p, j):
            def f(x):
                ups[j] += 1
                v = scripts[j](ups[j])
                p.val = np.array([v * (k + 1) / 8. for k in range(len(p.val))]) if c['max'] else v
            return f
        for i, o in enumerate(mats):
            o.sampling_fct = draw(o, i)
        for j, p in enumerate(par):
            p.sampling_fct = update(p, j)
        # expected run
        val = lambda j, t: scripts[j](t)
        base = 0 if c['anneal'] else max(0, bmin - fix)
        n, clean, found = 0, redundant, False
        while True:
            k = n - bmin
            if k > 0 and k % W == 0:
                ok = True
                for j in range(len(par)):
                    w = np.array([val(j, base + k - W + i + 1) for i in range(W)], dtype=np.float32)
                    for sc in ([(i + 1) / 8. for i in range(4 - (redundant and not clean))] if c['max'] else [1.0]):
                        a, b = expit(np.mean(w[:W // 2] * sc)), expit(np.mean(w[W // 2:] * sc))
                        if abs(abs(a - b) - eps) < 1e-6 and not (eps == 0 and a == b):
                            return      # too close to call
                        ok &= bool(abs(a - b) < eps)
                if ok and clean:
                    found = True
                    clean = stays
                elif ok:
                    break
            if n >= bmin and n >= bmax:
                found |= c['clean'] == 2 and stays
                break
            n += 1
        want = n
        kw = dict(convergence_window=W, burn_in_min=bmin, burn_in_max=bmax, fix_lbda_iters=fix, print_step=7)
        S = 0
        try:
            if c['via'] == 0:
                m.burn_in(mats, par, eps=eps, **kw)
            else:
                S = [0, 2][c['via'] - 1]
                m.infer(no_samples=S, convergence_eps=eps, **kw)
        except Wrong as x:
            return str(x)
        except TooFar:
            return 'burn-in goes on after %d iterations; it should have stopped after %d (burn_in_min=%d, burn_in_max=%d, window=%d)' % (len(events) // len(mats), want, bmin, bmax, W)
        its = len(events) / float(len(mats))
        if its != want + S:
            return 'burn-in drew %s iterations, wanted %d (burn_in_min=%d, burn_in_max=%d, window=%d, eps=%g, dispersions %s..)' % (
                its - S, want, bmin, bmax, W, eps, [[round(val(j, t), 4) for t in range(1, 8)] for j in range(len(par))])
        for t in range(want):
            ev = events[t * len(mats):(t + 1) * len(mats)]
            if sorted(e[0] for e in ev) != list(range(len(mats))):
                return 'iteration %d does not draw every matrix once' % (t + 1)
            for i, vals, u in ev:
                for j in range(len(par)):
                    if t <= bmin:
                        cnt = 0 if c['anneal'] else max(0, t - fix)
                    else:
                        cnt = base + t - bmin
                    if u[j] != cnt:
                        return 'dispersion %d was updated %d times before iteration %d, wanted %d (fix_lbda_iters=%d)' % (j, u[j], t + 1, cnt, fix)
                    if c['anneal'] and 0 < t <= bmin and not np.allclose(vals[j], init[j] * t / bmin, rtol=1e-6):
                        return 'annealed dispersion in iteration %d is %s, wanted %s (initial value %s, burn_in_min=%d)' % (t + 1, vals[j].tolist(), (init[j] * t / bmin).tolist(), init[j].tolist(), bmin)
                    if c['anneal'] and t == 0 and not np.allclose(vals[j], init[j]):
                        return 'dispersion before the first iteration is %s, not the initial value' % vals[j].tolist()
        if redundant and c['clean'] < 3:
            for l, w in zip(layers, width):
                for f in l.factors:
                    if f.val.shape[1] != (w if found else 3):
                        return 'a layer marked %s has factors of %d columns after burn-in, wanted %d of 3 (dimension 1 is inactive, convergence %s)' % (
                            'auto_reset' if l.auto_reset else 'auto_clean', f.val.shape[1], w if found else 3, 'found' if found else 'not found')
