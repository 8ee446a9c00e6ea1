"""C01, C03, C04, C05: scalar functions against the mathematical operator products."""
from .base import *

OUT, SC, MU, FZ = ('lom._numba.lom_outputs', 'lom._numba.posterior_score_fcts', 'lom._numba.matrix_updates_numba',
                   'lom._numba.lom_outputs_fuzzy')


def ident(model):
    return model.replace('-', '_')


def product_task(model, K):
    fn = ident(model) + '_product' + ('_3d' if K == 3 else '')

    def build(eng):
        fv = need(eng, OUT, fn)
        eng.top = fn

        def run(e):
            L = e.fresh('L', 'int').t
            e.assume(L >= 0)
            xs = [e.input_arr('zuv'[i], [L], 'i8', -1, 1, nz=True) for i in range(K)]
            for x in xs:
                x.buf.ro = True
            F = e.fold('cnt', [], L, lambda i: spec.cterm(model, [e.at(x, [i]) for x in xs]))
            e.cover('pre')
            r = e.inline(fv, xs, {})
            e.prove(z_int(r) == spec.outer(model, F.total()), 'post')
            e.cover('end')
        return run
    Task('product:' + fn, ['C01'], build, kernel=True)


def score_parts(e, model, K, Z, fs, X, l, dims, L):
    """ghost folds of the score specification; returns the total as a term"""
    def ct(*a):
        i = a[-1]
        xs = [e.at(Z, [i])] + [e.at(f, [d, i]) for f, d in zip(fs, a)]
        return z3.If(i == l, z3.IntVal(0), spec.cterm(model, xs))
    C = e.fold('cnt', dims, L, ct)

    def term(*a):
        us = [e.at(f, [d, l]) for f, d in zip(fs, a)]
        on = spec.cterm(model, [z3.IntVal(1)] + us)
        off = spec.cterm(model, [z3.IntVal(-1)] + us)
        return spec.smul(e.at(X, list(a)), spec.flip_gain(model, C.total(*a), on, off))
    if K == 2:
        return e.fold('score', [], dims[0], term, kind='sum').total()
    S1 = e.fold('rowscore', [dims[0]], dims[1], term, kind='sum')
    return e.fold('score', [], dims[0], lambda d: S1.total(d), kind='sum').total()


def score_task(model, K):
    fn = 'posterior_score_' + ident(model) + '_%dD' % K

    def build(eng):
        fv = need(eng, SC, fn)
        eng.top = fn

        def run(e):
            L, D = e.fresh('L', 'int').t, e.fresh('D', 'int').t
            e.assume(L >= 1)
            e.assume(D >= 0)
            l = e.fresh('l', 'int')
            e.assume(z3.And(l.t >= 0, l.t < L))
            e.inputs['l'] = l
            Z = e.input_arr('z', [L], 'i8', -1, 1, nz=True)
            dims = [D]
            if K == 3:
                M = e.fresh('M', 'int').t
                e.assume(M >= 0)
                dims.append(M)
            fs = [e.input_arr('uv'[i], [dims[i], L], 'i8', -1, 1, nz=True) for i in range(K - 1)]
            X = e.input_arr('x', dims, 'i8', -1, 1)
            for a in [Z, X] + fs:
                a.buf.ro = True
            tot = score_parts(e, model, K, Z, fs, X, l.t, dims, L)
            e.cover('pre')
            r = e.inline(fv, [Z] + fs + [X, l], {})
            e.prove(z_int(r) == tot, 'post')
            e.cover('end')
        return run
    Task('score:' + fn, ['C04'], build, kernel=True)


for _K in (2, 3):
    for _m in spec.MODELS:
        product_task(_m, _K)
        score_task(_m, _K)


# ---- C04: the specification's flip-one-index lemma: replacing entry l of z by v changes the count by the single term
def lemma_flip(model, K):
    def build(eng):
        def run(e):
            # counts over l' != l plus the term at l equals the full count of the vector with z_l = v (induction on k)
            L, k, l = z3.Int('L'), z3.Int('k'), z3.Int('l')
            rest, full, restn, fulln = z3.Ints('rest full restn fulln')
            xs = [z3.Int('x%d' % i) for i in range(K)]
            v = z3.Int('v')
            tl = spec.cterm(model, [v] + [z3.Int('u%d' % i) for i in range(K - 1)])
            e.assume(z3.And(L >= 1, k >= 0, k < L, l >= 0, l < L))
            for x in xs + [v]:
                e.assume(z3.Or(x == 1, x == -1))
            # invariant at k: full = rest + [l < k] * t_l
            t = spec.cterm(model, xs)
            e.cover('pre')
            e.prove(z3.Implies(z3.And(rest == 0, full == 0), full == rest + z3.If(l < 0, tl, 0)), 'lemma-base')
            inv = full == rest + z3.If(l < k, tl, 0)
            step = z3.And(restn == rest + z3.If(k == l, 0, t), fulln == full + z3.If(k == l, tl, t))
            e.prove(z3.Implies(z3.And(inv, step), fulln == restn + z3.If(l < k + 1, tl, 0)), 'lemma-step')
            e.cover('end')
        return run
    Task('lemma:flip-one-index:%s:%d' % (model, K), ['C04'], build)


for _K in (2, 3):
    for _m in spec.MODELS:
        lemma_flip(_m, _K)


# ---- C05: single entry updates
def exp_app(e, t):
    """the term exp(t) as the code's model of exp builds it"""
    from pyded import npmodel
    return z_real(npmodel.ufunc(e, 'exp', SV(t, 'f64')))


def flip_rule(e, z, t, u, v):
    """metropolised Gibbs on {-1,1} with logit t, uniform u in [0,1): accept the flip with min(1, exp(-z t))"""
    zt = z3.If(z == 1, -t, t)
    ex = exp_app(e, zt)
    return z3.And(z3.Or(v == 1, v == -1),
                  z3.Implies(zt >= 0, v == -z),
                  z3.Implies(z3.And(zt < 0, ex > u), v == -z),
                  z3.Implies(z3.And(zt < 0, ex < u), v == z))


def flip_task():
    fn = 'flip_metropolised_gibbs_numba'

    def build(eng):
        fv = need(eng, MU, fn)
        eng.top = fn

        def run(e):
            t = e.fresh('logit_p', 'f64')
            z = e.fresh('z', 'i8', -1, 1, nz=True)
            e.inputs.update(logit_p=t, z=z)
            e.cover('pre')
            r = e.inline(fv, [t, z], {})
            us = [x for w, x in e.draws]
            zt = z3.If(z.t == 1, -t.t, t.t)
            e.prove(len(us) <= 1, 'one-draw')
            if us:
                e.prove(flip_rule(e, z.t, t.t, us[0], z_int(r)), 'post')
            else:
                e.prove(z3.And(zt >= 0, z_int(r) == -z.t), 'post')
            e.cover('end')
        return run
    Task('flip:' + fn, ['C05'], build, kernel=True)

    fn2 = 'flip_gibbs_numba'

    def build2(eng):
        fv = need(eng, MU, fn2)
        eng.top = fn2

        def run(e):
            p = e.fresh('p', 'f64')
            e.assume(z3.And(p.t >= 0, p.t <= 1))
            e.inputs.update(p=p)
            e.cover('pre')
            r = e.inline(fv, [p], {})
            us = [x for w, x in e.draws]
            e.prove(len(us) == 1, 'one-draw')
            u = us[0]
            v = z_int(r)
            e.prove(z3.And(z3.Or(v == 1, v == -1), z3.Implies(p.t > u, v == 1), z3.Implies(p.t < u, v == -1)), 'post')
            e.cover('end')
        return run
    Task('flip:' + fn2, ['C05'], build2, kernel=True)

    fn3 = 'flip_metropolised_gibbs_numba_classic'

    def build3(eng):
        fv = need(eng, MU, fn3)
        eng.top = fn3

        def run(e):
            p = e.fresh('p', 'f64')
            z = e.fresh('z', 'i8', -1, 1, nz=True)
            e.assume(z3.And(p.t > 0, p.t < 1))
            e.inputs.update(p=p, z=z)
            e.cover('pre')
            r = e.inline(fv, [p, z], {})
            us = [x for w, x in e.draws]
            e.prove(len(us) <= 1, 'one-draw')
            v = z_int(r)
            q = z3.If(z.t == 1, 1 - p.t, p.t)      # probability of the other value
            if us:
                u = us[0]
                e.prove(z3.And(z3.Or(v == 1, v == -1), z3.Implies(q >= 1 - q, v == -z.t),
                               z3.Implies(z3.And(q < 1 - q, u * (1 - q) < q), v == -z.t),
                               z3.Implies(z3.And(q < 1 - q, u * (1 - q) > q), v == z.t)), 'post')
            else:
                e.prove(z3.And(q >= 1 - q, v == -z.t), 'post')
            e.cover('end')
        return run
    Task('flip:' + fn3, ['C05'], build3, kernel=True)


flip_task()
