"""C17: clean-up of latent dimensions"""
from .base import *
import lom.machine as MACH
import lom.auxiliary_functions as AUX
import lom._numba.max_machine_sampler as MM


def reference(F, masks, reset):
    """earlier dimensions win: a dimension is redundant if it is all -1 in some factor or equal, in some factor, to an earlier dimension that stays"""
    F = [f.copy() for f in F]
    L = F[0].shape[1]
    bad = []
    for c in range(L):
        stays = [w for w in range(c) if reset or w not in bad]
        if any((f[:, c] == -1).all() for f in F) or any((f[:, c] == f[:, w]).all() for w in stays for f in F):
            bad.append(c)
            if reset:
                for f, m in zip(F, masks):
                    f[m[:, c] != 1, c] = -1
    keep = [c for c in range(L) if reset or c not in bad]
    return keep, bad, [f[:, keep] for f in F]


@oracle('C17')
class Clean:
    def cases(self, r, deep, hints):
        while True:
            K = int(2 + r.randint(2))
            mx = int(K == 2 and r.randint(3) == 0)
            c = {'K': K, 'max': mx, 'dims': [int([1, 1, 2, 2, 3, 4, 5][r.randint(7)]) for _ in range(K)], 'L': int(1 + r.randint(7 if deep else 6)),
                 'p': float([.5, .2, .8, .9][r.randint(4)]), 'fixed': float([0, .2, .5, 1][r.randint(4)]), 'reset': int(r.randint(2)), 'copies': int(r.randint(3)),
                 'dead': int(r.randint(3)), 'what': int(r.randint(4) == 0), 'par': int(r.randint(6) == 0), 'seed': int(r.randint(2 ** 30))}
            if r.randint(12) == 0:
                c['dims'][r.randint(K)] = int([130, 260][r.randint(2)])
            if r.randint(5) == 0:
                # dimensions that are redundant but for one entry
                c.update(dims=[6] * K, L=int(2 + r.randint(3)), p=.5, copies=0, dead=0, what=0, near=int(1 + r.randint(2)))
                c['dims'][r.randint(K)] = int([3, 40, 150, 400, 1500][r.randint(5)])
            yield c

    def check(self, c):
        r = rs(c)
        K, L = c['K'], c['L']
        m = MACH.Machine()
        X = data(r, c['dims'])
        d = m.add_matrix(val=X.copy(), fixed=True)
        lay = m.add_layer(latent_size=L, child=d, model='MAX-AND' if c['max'] else MODELS[r.randint(8)])
        other = m.add_layer(latent_size=2, child=m.add_matrix(val=pm(r, (2, 3)), fixed=True), model='OR-AND')
        for f, n in zip(lay.factors, c['dims']):
            v = pm(r, (n, L), c['p'])
            for _ in range(c['copies']):
                if r.randint(2):
                    v[:, r.randint(L)] = v[:, r.randint(L)]
            for _ in range(c['dead']):
                if r.randint(3) == 0:
                    v[:, r.randint(L)] = -1
            if c.get('near') and n == c['dims'][c['seed'] % K]:
                a, b = r.randint(L), r.randint(L)
                v[:, b] = v[:, a] if c['near'] == 1 else -1
                v[r.randint(n), b] *= -1
            f.val = v
            f.fixed_entries = (r.random_sample((n, L)) < c['fixed']).astype(np.int8)
            for l in range(L):
                if r.randint(3) == 0:
                    f.fixed_entries[:, l] = int(r.randint(2))
        lam = np.array(lay.lbda.val, copy=True)
        if c['max']:
            lam = np.clip(r.random_sample(L + 1), .01, .99)
            lam[-1] = lam.min()
            lay.lbda.val = lam.copy()
            fn(MM, 'compute_lbda_ratios')(lay)
        F = [f.val.copy() for f in lay.factors]
        masks = [f.fixed_entries.copy() for f in lay.factors]
        if c['what']:
            l = int(r.randint(L))
            if c['reset']:
                fn(AUX, 'reset_dimension')(l, lay)
                keep, want, done = list(range(L)), [f.copy() for f in F], None
                for f, k in zip(want, masks):
                    f[k[:, l] != 1, l] = -1
            else:
                fn(AUX, 'remove_dimension')(l, lay)
                keep, done = [x for x in range(L) if x != l], None
                want = [f[:, keep] for f in F]
            what = '%s of dimension %d' % (['removal', 'reset'][c['reset']], l)
        else:
            keep, bad, want = reference(F, masks, bool(c['reset']))
            if c['reset']:
                done = AUX.clean_up_codes(lay) if r.randint(2) else AUX.clean_up_codes(lay, reset=True, clean=False)
            else:
                done = AUX.clean_up_codes(lay, reset=False, clean=True)
            what = 'clean-up by %s' % ['removal', 'resetting'][c['reset']]
            if bool(done) != bool(bad):
                return '%s returned %r, redundant dimensions: %s' % (what, done, bad)
        for i, (f, w, k) in enumerate(zip(lay.factors, want, masks)):
            if f.val.shape != w.shape:
                return '%s: factor %d has shape %s, wanted %s (dimensions kept: %s)' % (what, i, f.val.shape, w.shape, keep)
            if (f.val != w).any():
                return '%s: factor %d is %s, wanted %s from %s' % (what, i, f.val.tolist()[:6], w.tolist()[:6], F[i].tolist()[:6])
            if f.fixed_entries.shape != w.shape or (f.fixed_entries != k[:, keep]).any():
                return '%s: the fixed entries of factor %d do not follow its values' % (what, i)
        if lay.size != len(keep):
            return '%s: layer size %r, wanted %d' % (what, lay.size, len(keep))
        if c['max']:
            wl = lam[keep + [L]]
            if np.shape(lay.lbda.val) != wl.shape or (lay.lbda.val != wl).any():
                return '%s: dispersions %s, wanted %s' % (what, np.asarray(lay.lbda.val).tolist(), wl.tolist())
            if lay.lbda_ratios.shape[1] != len(wl):
                return '%s: log-likelihood ratios of another number of dimensions' % what
        elif not np.array_equal(lay.lbda.val, lam):
            return '%s changed the dispersion' % what
        if (d.val != X).any():
            return '%s changed the data' % what
