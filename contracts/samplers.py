"""C06/C07/C08: sampling sweeps, obtained through get_sampling_fct on an object graph built by the repository's own classes."""
from .base import *
from . import apps
from pyded.engine import POISON
from .apps import MU, ident
from .outputs import row, snapshot
from .scalars import flip_rule

MACH, WR, LW = 'lom.machine', 'lom.matrix_update_wrappers', 'lom.lambda_update_wrappers'


def perm(a, order):
    """specification view: transpose"""
    inv = {o: i for i, o in enumerate(order)}
    m = tuple(('a', inv[x[1]], x[2], x[3]) if x[0] == 'a' else x for x in a.imap)
    return Arr(a.buf, tuple(a.shape[o] for o in order), m)


def logit_app(e, p):
    from pyded import npmodel
    return z_real(npmodel.ufunc(e, 'logit', SV(p, 'f64')))


def graph(e, child_model, K, axis, parent_models, zdims=None):
    """Machine with (optionally) a layer above fixed data and parent layers above the matrix to be sampled.
    All dimensions, contents, masks, dispersions and priors are arbitrary.  Returns a namespace-like dict."""
    g = {}
    m = e.call(need(e, MACH, 'Machine'), [], {})
    g['machine'] = m
    call = lambda o, name, args, kw=None: e.call(e.getattr(o, name), args, kw or {})

    def dim(nm):
        d = e.fresh(nm, 'int').t
        e.assume(d >= 0)
        return d
    ro = []

    def param(layer, nm):
        lam = e.fresh(nm, 'f64')
        e.inputs[nm] = lam
        e.setattr(e.getattr(layer, 'lbda'), 'val', lam)
        return lam

    def setmat(mat, nm, shape):
        a = e.input_arr(nm, shape, 'i8', -1, 1, nz=True)
        f = e.input_arr(nm + '_fixed', shape, 'i8', 0, 1)
        e.setattr(mat, 'val', a)
        e.setattr(mat, 'fixed_entries', f)
        ro.append(f)
        return a, f
    g['L'] = L = dim('L')
    if child_model is not None:
        dims = [dim('D%d' % i) for i in range(K)]
        X = e.input_arr('X', dims, 'i8', -1, 1)
        ro.append(X)
        data = call(m, 'add_matrix', [], {'val': X, 'fixed': True})
        layer = call(m, 'add_layer', [], {'latent_size': SV(L, 'int'), 'child': data, 'model': child_model})
        fs = list(e.to_list(e.getattr(layer, 'factors')))
        arrs, masks = [], []
        for i, f in enumerate(fs):
            a, k = setmat(f, 'F%d' % i, [dims[i], L])
            arrs.append(a)
            masks.append(k)
        g.update(layer=layer, factors=fs, arrs=arrs, masks=masks, X=X, dims=dims, lam=param(layer, 'lbda'), data=data)
        mat, Z, mask = fs[axis], arrs[axis], masks[axis]
        for i, a in enumerate(arrs):
            if i != axis:
                ro.append(a)
        g['sib'] = [a for i, a in enumerate(arrs) if i != axis]
        g['Xt'] = perm(X, [axis] + [i for i in range(K) if i != axis])
    else:
        zdims = [dim('N%d' % i) for i in range(K)]
        Z0 = e.input_arr('F0', zdims, 'i8', -1, 1, nz=True)
        mat = call(m, 'add_matrix', [], {'val': Z0})
        Z, mask = Z0, e.input_arr('F0_fixed', zdims, 'i8', 0, 1)
        e.setattr(mat, 'fixed_entries', mask)
        ro.append(mask)
        g['lam'] = None
    g.update(mat=mat, Z=Z, mask=mask)
    g['parents'] = []
    for j, pm in enumerate(parent_models):
        L2 = dim('P%d' % j)
        pl = call(m, 'add_layer', [], {'latent_size': SV(L2, 'int'), 'child': mat, 'model': pm})
        pf = list(e.to_list(e.getattr(pl, 'factors')))
        pa = []
        for i, f in enumerate(pf):
            a, k = setmat(f, 'pa%d_%d' % (j, i), [Z.shape[i], L2])
            pa.append(a)
            ro.append(a)
        g['parents'].append((pm, pa, param(pl, 'lbda_pa%d' % j), pl))
    p = e.fresh('prior', 'f64')
    e.assume(z3.And(p.t > 0, p.t < 1))
    e.inputs['prior'] = p
    e.setattr(mat, 'bernoulli_prior', p)
    g['prior'] = p
    for a in ro:
        a.buf.ro = True
    return g


def logit_spec(e, g, child_model, idx):
    """logit of the full conditional of entry idx at the current state"""
    if 'logit' in g:
        return g['logit'](idx)
    t = g['logit_prior'].t if 'logit_prior' in g else logit_app(e, g['prior'].t)
    n = idx[0]
    if 'score' in g:
        t = t + g['lam'].t * z3.ToReal(g['score'](idx))
    elif child_model is not None:
        s = apps.score(e, child_model, row(g['Z'], n), g['sib'], row(g['Xt'], n), idx[1])
        t = t + g['lam'].t * z3.ToReal(s)
    for pm, pa, lam, _ in g['parents']:
        t = t + lam.t * z3.ToReal(apps.product(e, pm, [row(a, i) for a, i in zip(pa, idx)]))
    return t


def freeze(e, g):
    """attributes that no sweep may change: name -> value"""
    out = {}
    for o in e.objs.values():
        for k, v in o.attrs.items():
            out[o.oid, k] = v
    return out


def earlier(e, g, getf, obj):
    """The update of obj is created, and used once, at another state of the same machine (no data yet, other dispersions);
    then the machine moves on to the state under study.  An update that remembers a state it saw before is thereby wrong."""
    saved = []
    for o in list(e.objs.values()):
        for k, v in list(o.attrs.items()):
            if isinstance(v, Arr):
                short = 1 if k == 'lbda_ratios' or len(v.shape) == 1 else 0
                shape = tuple(d if z3.is_int_value(d) else z3.IntVal(short) for d in map(z3.simplify, map(z_int, v.shape)))
                kind = v.buf.k
                was = e.new_arr(shape, kind, lambda i, kind=kind: z3.RealVal(0) if kind in FLK else (z3.BoolVal(False) if kind in BOOLK else z3.IntVal(1)), 'earlier')
            elif k == 'val' and isinstance(v, SV) and v.k in FLK:
                was = e.fresh('earlier', v.k)
            else:
                continue
            saved.append((o, k, v))
            e.setattr(o, k, was)
    f = e.inline(getf, [obj], {})
    ctx, e.ctx = e.ctx, e.ctx + ('earlier',)
    e.call(f, [obj], {})
    e.ctx = ctx
    for o, k, v in saved:
        e.setattr(o, k, v)
    e.draws = []
    e.ghost.pop('order', None)
    return f


def sampler_contracts():
    d = apps.products()
    d.update(apps.scores())
    return d


def flip_contract(e, args, fv):
    """flip_metropolised_gibbs_numba(logit, z): proved for C05"""
    t, z = args
    if not (isnum(t) and isnum(z)):
        raise Unsupported('flip arguments')
    zt = z_int(z)
    e.prove(z3.Or(zt == 1, zt == -1), 'pre:flip_metropolised_gibbs_numba')
    u = e.fresh('u', 'f64')
    e.assume(z3.And(u.t >= 0, u.t < 1))
    v = e.fresh('flipped', 'int', -1, 1, True)
    e.draws.append(('rand', u.t))
    e.assume(flip_rule(e, zt, z_real(t), u.t, v.t))
    return v


def kernel_graph(e, parent_models, K):
    """arguments of the compiled samplers for matrices without a child, as arrays (tensors with K axes)"""
    dims = []
    for i in range(K):
        d = e.fresh('N%d' % i, 'int').t
        e.assume(d >= 0)
        dims.append(d)
    Z = e.input_arr('F0', dims, 'i8', -1, 1, nz=True)
    mask = e.input_arr('F0_fixed', dims, 'i8', 0, 1)
    mask.buf.ro = True
    g = {'Z': Z, 'mask': mask, 'parents': [], 'lam': None}
    args = [Z, mask]
    for j, pm in enumerate(parent_models):
        L2 = e.fresh('P%d' % j, 'int').t
        e.assume(L2 >= 0)
        pa = [e.input_arr('pa%d_%d' % (j, i), [dims[i], L2], 'i8', -1, 1, nz=True) for i in range(K)]
        for a in pa:
            a.buf.ro = True
        lam = e.fresh('lbda_pa%d' % j, 'f64')
        e.inputs['lbda_pa%d' % j] = lam
        g['parents'].append((pm, pa, lam, None))
        args += pa + [lam]
    g['logit_prior'] = e.fresh('logit_prior', 'f64')
    e.inputs['logit_prior'] = g['logit_prior']
    return g, args + [g['logit_prior']]


def with_counts(e, g, child_model, act):
    """run act() and prove that every store to the sampled matrix is the update rule of an unfixed entry, one per entry"""
    Z, mask = g['Z'], g['mask']
    cnt = e.new_arr(Z.shape, 'i64', lambda i: z3.IntVal(0), 'updates')
    fixed = lambda i: e.at(mask, list(i)) == 1
    cnt.buf.target = [(lambda i: z3.If(fixed(i), z3.IntVal(0), z3.IntVal(1)), ())]
    cnt.buf.name = 'updates'

    def hook(eng, b, bi, val):
        if eng.replaying():
            eng.store(cnt, bi, SV(z3.simplify(z_int(eng.read(cnt, bi)) + 1), 'i64'))
            eng.draws = []
            return
        eng.prove(z3.Not(fixed(bi)), 'frame:fixed-entry')
        want = logit_spec(eng, g, child_model, bi)
        us = [x for w, x in eng.draws]
        old = z_int(eng.read(Z, bi))
        new = z_int(val)
        if len(us) > 1:
            eng.prove(False, 'update:one-draw', '%d uniform draws for one entry' % len(us))
        elif us:
            eng.prove(flip_rule(eng, old, want, us[0], new), 'update:full-conditional')
        else:
            zt = z3.If(old == 1, -want, want)
            eng.prove(z3.And(zt >= 0, new == -old), 'update:full-conditional')
        eng.draws = []
        eng.store(cnt, bi, SV(z3.simplify(z_int(eng.read(cnt, bi)) + 1), 'i64'))
    Z.buf.hooks.append(hook)
    e.draws = []
    act()
    Z.buf.hooks.remove(hook)
    ix = [z3.Int(e.fresh_name('ix')) for _ in Z.shape]
    e.assume(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, Z.shape)]))
    e.prove(z_int(e.read(cnt, ix)) == z3.If(fixed(ix), z3.IntVal(0), z3.IntVal(1)), 'post:updates')


ROUTE = {'frame': ['C07'], 'update': ['C06'], 'domain': ['C06', 'C10'], 'pre': ['C06'], 'race-free': ['C08'], 'index-bounds': ['C06', 'C21']}


def flip_contracts():
    d = sampler_contracts()
    d[MU, 'flip_metropolised_gibbs_numba'] = flip_contract
    return d


def sweep_task(child_model, K, axis, parent_models, tier, props=()):
    name = 'sweep:%s:%s' % ('%s/%dD/%d' % (child_model, K, axis) if child_model else 'nochild', '+'.join(parent_models) or 'noparent')

    def build(eng):
        getf = need(eng, WR, 'get_sampling_fct')
        eng.top = 'get_sampling_fct'

        def run(e):
            g = graph(e, child_model, K, axis, parent_models)
            Z = g['Z']
            e.cover('pre')
            f = earlier(e, g, getf, g['mat'])
            before = freeze(e, g)
            with_counts(e, g, child_model, lambda: e.call(f, [g['mat']], {}))
            now = e.getattr(g['mat'], 'val')
            e.prove(isinstance(now, Arr) and now.buf is Z.buf, 'frame:matrix-object')
            for (oid, k), v in before.items():
                w = e.objs[oid].attrs.get(k, POISON)
                if w is not v and k not in ('sampling_fct',):
                    ok = isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))
                    e.prove(bool(ok), 'frame:attribute-%s' % k)
            e.cover('end')
        return run
    route = {k: v + list(props) for k, v in ROUTE.items()}
    Task(name, ['C06', 'C07', 'C08'] + list(props), build, contracts=flip_contracts, tier=tier, route=route, kernel=True)


def kernel_task(parent_models, tier):
    """samplers of data tensors below three-factor layers: no wrapper reaches them yet, so they are called directly"""
    fname = 'make_sampling_fct_nochild_' + ['oneparent', 'twoparents'][len(parent_models) - 1]

    def build(eng):
        make = need(eng, MU, fname)
        eng.top = fname

        def run(e):
            g, args = kernel_graph(e, parent_models, 3)
            e.cover('pre')
            f = e.inline(make, [ident(m) + '_3D' for m in parent_models], {})
            with_counts(e, g, None, lambda: e.call(f, args, {}))
            e.cover('end')
        return run
    Task('kernel:nochild/3D:%s' % '+'.join(parent_models), ['C06', 'C07', 'C08'], build, contracts=flip_contracts, tier=tier, route=ROUTE, kernel=True)


def register():
    M = spec.MODELS
    k = 0
    for ci, cm in enumerate(M):
        for K in (2, 3):
            for axis in range(K):
                sweep_task(cm, K, axis, [], 'quick')
                for pi, pm in enumerate(M):
                    sweep_task(cm, K, axis, [pm], 'quick' if pi == (ci + axis + 2 * K) % 8 else 'thorough')
        for axis in range(2):
            for pi, pm in enumerate(M):
                for qi, qm in enumerate(M):
                    quick = pi == (ci + 1 + axis) % 8 and qi == (3 * ci + 2 + 5 * axis) % 8
                    sweep_task(cm, 2, axis, [pm, qm], 'quick' if quick else 'thorough')
    for pi, pm in enumerate(M):
        sweep_task(None, 2, 0, [pm], 'quick')
        kernel_task([pm], 'quick')
        for qi, qm in enumerate(M):
            kernel_task([pm, qm], 'quick' if (qi - pi) % 8 == 5 else 'thorough')
        for qi, qm in enumerate(M):
            sweep_task(None, 2, 0, [pm, qm], 'quick' if (qi - pi) % 8 in (0, 3) else 'thorough')


register()
