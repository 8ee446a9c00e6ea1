"""C12: canonical models.  C13: expected densities."""
from .base import *

AUX, MACH = 'lom.auxiliary_functions', 'lom.machine'


def outer_bool(model, c, L):
    """outer operator on L truth values, c of which are true"""
    return {'OR': c >= 1, 'NOR': c == 0, 'AND': c == L, 'NAND': c != L, 'XOR': c == 1, 'NXOR': c != 1}[model.split('-')[0]]


def equivalent(e, old, new, invd, invf, K):
    """product(old, fs) == (+-) product(new, (+-) fs) for all factors with K entries per latent dimension and any number of those"""
    xs = [z3.Int('x%d' % i) for i in range(K)]
    dom = z3.And(*[z3.Or(x == 1, x == -1) for x in xs])
    a = spec.inner(old, xs)
    b = spec.inner(new, [-x for x in xs] if invf else xs)
    same = e.valid(z3.Implies(dom, a == b))
    if not same:
        e.prove(z3.Implies(dom, a == z3.Not(b)), 'post:inner-operators', 'models %s and %s, %d factors' % (old, new, K))
    c, L = z3.Ints('c L')
    o = outer_bool(old, c, L)
    n = outer_bool(new, c if same else L - c, L)
    e.prove(z3.Implies(z3.And(0 <= c, c <= L), o == (z3.Not(n) if invd else n)), 'post:equivalent',
            'model %s replaced by %s, data inverted: %s, factors inverted: %s, %d factors' % (old, new, invd, invf, K))


def canonise_task(model, K, layer):
    def build(eng):
        fv = need(eng, AUX, 'canonise_model')
        eng.top = 'canonise_model'

        def run(e):
            m = e.call(need(e, MACH, 'Machine'), [], {})
            dims = []
            for i in range(K):
                d = e.fresh('D%d' % i, 'int').t
                e.assume(d >= 0)
                dims.append(d)
            X = e.input_arr('X', dims, 'i8', -1, 1)
            data = e.call(e.getattr(m, 'add_matrix'), [], {'val': X, 'fixed': True})
            # add_matrix keeps the array; a change to a copying version is fine
            X = e.getattr(data, 'val')
            e.prove(isinstance(X, Arr), 'post:data-array')
            e.cover('pre')
            if layer:
                L = e.fresh('L', 'int').t
                e.assume(L >= 0)
                lay = e.call(e.getattr(m, 'add_layer'), [], {'latent_size': SV(L, 'int'), 'child': data, 'model': model})
                new, invd, invf = [e.getattr(lay, a) for a in ('model', 'invert_data', 'invert_factors')]
                child = e.getattr(lay, 'child')
                e.prove(child is data, 'post:child')
            else:
                r = list(e.to_list(e.inline(fv, [model, data], {})))
                e.prove(len(r) == 3, 'post:result')
                new, invd, invf = r
            e.prove(isinstance(new, str) and new in spec.MODELS, 'post:implemented', 'canonical model %r' % (new,))
            e.prove(isinstance(invd, bool) and isinstance(invf, bool), 'post:flags')
            for k in (2, 3):
                equivalent(e, model, new, invd, invf, k)
            now = e.getattr(data, 'val')
            e.prove(isinstance(now, Arr) and len(now.shape) == K, 'post:data')
            for a, b in zip(now.shape, dims):
                e.prove(z_int(a) == b, 'post:data-shape')
            if not layer and invd is False:
                e.prove(now.buf is X.buf, 'post:data-in-place')
            ix = [z3.Int(e.fresh_name('i')) for _ in dims]
            e.assume(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, dims)]))
            a, b = z_int(e.read(now, ix)), z_int(e.at(X, ix))
            e.prove(a == (-b if invd else b), 'post:data-values')
            # the caller's array is the child's array: negated in place
            e.prove(now.buf is X.buf, 'post:data-in-place')
            e.cover('end')
        return run
    Task('%s:%s:%d' % ('add_layer' if layer else 'canonise', model, K), ['C12'], build, route={'frame': ['C12']})


for _o in spec.OPS:
    for _i in spec.OPS:
        canonise_task(_o + '-' + _i, 2, False)
        canonise_task(_o + '-' + _i, 3, True)


# ---------------------------------------------------------------- C13
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def exactly(op, n, p):
    """probability that op holds for n independent events of probability p"""
    pw = lambda x, k: POW(z3.simplify(x, som=True), z3.simplify(z3.ToReal(k), som=True))
    none, all_, one = pw(1 - p, n), pw(p, n), z3.ToReal(n) * p * pw(1 - p, n - 1)
    return {'OR': 1 - none, 'NOR': none, 'AND': all_, 'NAND': 1 - all_, 'XOR': one, 'NXOR': 1 - one}[op]


def density_task(model):
    def build(eng):
        fv = need(eng, AUX, 'expected_density')
        eng.top = 'expected_density'

        def run(e):
            L, K, f = e.fresh('L', 'int'), e.fresh('K', 'int'), e.fresh('f', 'float')
            e.assume(z3.And(L.t >= 1, K.t >= 1, f.t >= 0, f.t <= 1))
            e.inputs.update(L=L, K=K, f=f)
            e.cover('pre')
            r = e.inline(fv, [model, L, K, f], {})
            o, i = model.split('-')
            e.prove(z_real(r) == exactly(o, L.t, exactly(i, K.t, f.t)), 'post')
            e.cover('end')
        return run
    Task('density:' + model, ['C13'], build)


def lemma_binomial():
    """the closed forms in exactly() are the probabilities of 'none', 'all' and 'exactly one' of n independent events: they satisfy the
    recursions over n (pow being defined by pow(x,0)=1, pow(x,n+1)=x pow(x,n))"""
    def build(eng):
        eng.top = 'lemma-binomial'

        def run(e):
            n, p, q = z3.Int('n'), z3.Real('p'), z3.Real('q')
            R = z3.ToReal
            e.assume(z3.And(n >= 0, p >= 0, p <= 1, q == 1 - p))
            e.assume(z3.And(POW(q, 0) == 1, POW(p, 0) == 1, POW(q, R(n) + 1) == q * POW(q, R(n)), POW(p, R(n) + 1) == p * POW(p, R(n))))
            e.assume(z3.Implies(n >= 1, POW(q, R(n)) == q * POW(q, R(n) - 1)))
            e.cover('pre')
            none = lambda k: POW(q, k)
            e.prove(none(z3.RealVal(0)) == 1, 'lemma-none-base')
            e.prove(none(R(n) + 1) == none(R(n)) * (1 - p), 'lemma-none-step')
            e.prove(POW(p, R(n) + 1) == POW(p, R(n)) * p, 'lemma-all-step')
            # one(n) = n p q^(n-1): one(0) = 0, one(1) = p, one(n+1) = one(n)(1-p) + none(n) p
            t = z3.Real('t')            # q^(n-1)
            e.prove(z3.Implies(n == 0, (R(n) + 1) * p * POW(q, R(n)) == 0 * (1 - p) + none(R(n)) * p), 'lemma-one-base')
            e.prove(z3.Implies(none(R(n)) == q * t, (R(n) + 1) * p * none(R(n)) == R(n) * p * t * (1 - p) + none(R(n)) * p), 'lemma-one-step')
            e.cover('end')
        return run
    Task('lemma-binomial', ['C13'], build)


for _o in spec.OPS:
    for _i in spec.OPS:
        density_task(_o + '-' + _i)
lemma_binomial()
