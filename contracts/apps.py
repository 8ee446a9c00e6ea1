"""callees by contract: applications of the specification functions to array views.

An application F(view_1, .., view_k, scalars) is encoded by lambda lifting: each view's content at canonical bound
indices is an expression; its maximal subterms free of bound indices become arguments of an uninterpreted function named
by the remaining pattern.  Equal patterns with equal arguments are congruent; two applications of the same F with
different patterns get the extensionality axiom (equal, or some in-range element differs)."""
import z3
from pyded.values import *
from pyded import spec

OUT, SC, MU, FZ, LU = ('lom._numba.lom_outputs', 'lom._numba.posterior_score_fcts', 'lom._numba.matrix_updates_numba',
                       'lom._numba.lom_outputs_fuzzy', 'lom._numba.lambda_updates_numba')


def ident(model):
    return model.replace('-', '_')


BV = [z3.Int('bv!%d' % i) for i in range(8)]
BVID = {b.get_id() for b in BV}


def has_bv(t, memo):
    i = t.get_id()
    if i in memo:
        return memo[i]
    if i in BVID:
        r = True
    else:
        r = any(has_bv(c, memo) for c in t.children())
    memo[i] = r
    return r


def lift(t):
    """(pattern string, argument terms)"""
    memo, args, pats = {}, [], {}

    def go(t):
        if not has_bv(t, memo):
            if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                return str(t)
            for j, a in enumerate(args):
                if a.eq(t):
                    return '#%d:%s' % (j, t.sort())
            args.append(t)
            return '#%d:%s' % (len(args) - 1, t.sort())
        if t.num_args() == 0:
            return str(t)
        return '(' + t.decl().name() + ' ' + ' '.join(go(c) for c in t.children()) + ')'
    return go(t), args


def view_term(a, n0=0, conv=z_any):
    """content of view a at canonical indices"""
    idx = [BV[n0 + i] for i in range(a.ndim)]
    t = a.buf.content([raw(i) for i in a.bidx(idx)])
    t = t.t if isinstance(t, SV) else t
    return z3.simplify(conv(t) if not isz(t) else conv(t)), idx


def apply(e, name, views, scalars, real=False):
    """application term of specification function `name`"""
    key, args, bodies = [name], [], []
    for a in views:
        t, idx = view_term(a, 0, z_real if real else z_int)
        p, ar = lift(t)
        key.append('%s|%d' % (p, len(ar)))
        args += ar
        bodies.append((a, t, idx))
    lens = []
    for a in views:
        lens += [z_int(s) for s in a.shape]
    sc = [z_int(s) for s in scalars]
    allargs = args + lens + sc
    key = '~'.join(key)
    sorts = [x.sort() for x in allargs] + [z3.RealSort() if real else z3.IntSort()]
    f = z3.Function(key, *sorts)
    r = f(*allargs) if allargs else z3.Const(key, sorts[-1])
    seen = e.apps.setdefault('spec:' + name, {})
    if r.get_id() not in seen:
        for k2, r2, b2, l2, s2 in list(seen.values()):
            if k2 == key and all(x.eq(y) for x, y in zip(l2, lens)):
                continue        # congruence does it
            diff = []
            for (a, t, idx), (a2, t2, idx2) in zip(bodies, b2):
                sk = [z3.Int(e.fresh_name('ext')) for _ in idx]
                sub = list(zip(idx, sk))
                diff.append(z3.And(*([z3.And(k >= 0, k < z_int(s)) for k, s in zip(sk, a.shape)] +
                                     [z3.substitute(t, *sub) != z3.substitute(t2, *sub)])))
            for x, y in zip(lens, l2):
                if not same(x, y):
                    diff.append(x != y)
            for x, y in zip(sc, s2):
                if not same(x, y):
                    diff.append(x != y)
            e.assume(z3.Or(r == r2, *diff))
        seen[r.get_id()] = (key, r, bodies, lens, sc)
    return r


def same_len(e, name, ts):
    for t in ts[1:]:
        if not same(t, ts[0]):
            e.prove(z_int(t) == z_int(ts[0]), 'pre:%s:shape' % name)


def need_arr(e, name, a, ndim):
    if not isinstance(a, Arr) or a.ndim != ndim:
        e.prove(False, 'pre:%s:argument' % name, 'not a %d-dimensional array' % ndim)
        raise PathEnd()


def need_domain(e, name, a, lo, hi, nz):
    """every element of the view lies in the contract's domain"""
    b = a.buf
    if b.lo is not None and b.hi is not None and b.lo >= lo and b.hi <= hi and (not nz or b.nz):
        return
    ix = [z3.Int(e.fresh_name('dom')) for _ in a.shape]
    rng = z3.And(*[z3.And(i >= 0, i < z_int(s)) for i, s in zip(ix, a.shape)]) if ix else z3.BoolVal(True)
    t = e.read(a, ix).t
    t = z_int(t) if not (isz(t) and t.is_real()) else t
    e.prove(z3.Implies(rng, z3.And(t >= lo, t <= hi, *([t != 0] if nz else []))), 'pre:%s:domain' % name)


# ---- product contracts
def core(model):
    """OR-AND-IBP has the output and the scores of OR-AND"""
    return model[:-4] if model.endswith('-IBP') else model


def product(e, model, vs):
    """the spec application PROD_model(vs): value in {-1,1}"""
    model = core(model)
    r = apply(e, 'PROD:%s:%d' % (model, len(vs)), vs, [])
    e.assume(z3.Or(r == 1, r == -1))
    return r


def product_contract(model, K):
    def c(e, args, fv):
        nm = ident(model) + '_product'
        for a in args:
            need_arr(e, nm, a, 1)
        same_len(e, nm, [a.shape[0] for a in args])
        for a in args:
            need_domain(e, nm, a, -1, 1, True)
            e.par_view(a)
        return SV(product(e, model, args), 'int', -1, 1, True)
    return c


def fuzzy(e, model, vs):
    r = apply(e, 'PFZ:%s:%d' % (model, len(vs)), vs, [], real=True)
    e.assume(z3.And(r >= 0, r <= 1))
    return r


def fuzzy_contract(model, K):
    def c(e, args, fv):
        nm = ident(model) + '_product_fuzzy'
        for a in args:
            need_arr(e, nm, a, 1)
        same_len(e, nm, [a.shape[0] for a in args])
        for a in args:
            if a.k not in FLK:
                e.prove(False, 'pre:%s:float' % nm)
            ix = [z3.Int(e.fresh_name('dom'))]
            t = z_real(e.read(a, ix).t)
            e.prove(z3.Implies(z3.And(ix[0] >= 0, ix[0] < z_int(a.shape[0])), z3.And(t >= 0, t <= 1)), 'pre:%s:domain' % nm)
            e.par_view(a)
        return SV(fuzzy(e, model, args), 'f64')
    return c


# ---- posterior score contracts
def score(e, model, Z, fs, X, l):
    """the spec application SCORE_model: half log-likelihood difference of flipping entry l"""
    model = core(model)
    return apply(e, 'SCORE:%s:%d' % (model, len(fs) + 1), [Z] + fs + [X], [l])


def score_contract(model, K):
    def c(e, args, fv):
        nm = 'posterior_score_' + ident(model)
        Z, fs, X, l = args[0], list(args[1:K]), args[K], args[K + 1]
        need_arr(e, nm, Z, 1)
        for f in fs:
            need_arr(e, nm, f, 2)
        need_arr(e, nm, X, K - 1)
        same_len(e, nm, [Z.shape[0]] + [f.shape[1] for f in fs])
        for i, f in enumerate(fs):
            same_len(e, nm, [f.shape[0], X.shape[i]])
        e.prove(z3.And(z_int(l) >= 0, z_int(l) < z_int(Z.shape[0])), 'pre:%s:index' % nm)
        for a in [Z] + fs:
            need_domain(e, nm, a, -1, 1, True)
        need_domain(e, nm, X, -1, 1, False)
        for a in [Z] + fs + [X]:
            e.par_view(a)
        return SV(score(e, model, Z, fs, X, l), 'i64')
    return c


def products():
    d = {}
    for m in spec.MODELS:
        d[OUT, ident(m) + '_product'] = product_contract(m, 2)
        d[OUT, ident(m) + '_product_3d'] = product_contract(m, 3)
        d[FZ, ident(m) + '_product_fuzzy'] = fuzzy_contract(m, 2)
        d[FZ, ident(m) + '_product_fuzzy_3d'] = fuzzy_contract(m, 3)
    return d


def scores():
    d = {}
    for m in spec.MODELS:
        for K in (2, 3):
            d[SC, 'posterior_score_' + ident(m) + '_%dD' % K] = score_contract(m, K)
    return d
