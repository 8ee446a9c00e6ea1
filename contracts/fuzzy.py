"""C03: probabilistic operator products."""
from .base import *
from .scalars import ident, FZ


def fuzzy_fold(e, model, xs, L, at=None):
    """term of the exact probability that the product is true; xs: arrays of probabilities"""
    at = at or e.at
    p = lambda i: spec.inner_prob(model, [z_real(at(x, [i])) for x in xs])
    if spec.counted(model)[1] == 'ge1':
        P = e.fold('none', [], L, lambda i: 1 - p(i), kind='prod')
        return z3.RealVal(1) - P.total()
    E = e.fold('others', [L], L, lambda l, i: z3.If(l == i, z3.RealVal(1), 1 - p(i)), kind='prod')
    S = e.fold('one', [], L, lambda l: p(l) * E.total(l), kind='rsum')
    # the same probability by recursion over the latent dimensions (equal to the sum by lemma:exactly-one)
    N = e.fold('none', [], L, lambda i: 1 - p(i), kind='prod')
    T = e.fold('exactly-one', [], L, lambda i: p(i) * N(i), kind='lin')
    T.mul = lambda i: 1 - p(i)
    e.assume(T.total() == S.total())
    return S.total()


def fuzzy_task(model, K):
    fn = ident(model) + '_product_fuzzy' + ('_3d' if K == 3 else '')

    def build(eng):
        fv = need(eng, FZ, fn)
        eng.top = fn

        def run(e):
            L = e.fresh('L', 'int').t
            e.assume(L >= 0)
            xs = [e.input_arr('zuv'[i], [L], 'f64', einv=lambda t: z3.And(t >= 0, t <= 1)) for i in range(K)]
            for x in xs:
                x.buf.ro = True
            tot = fuzzy_fold(e, model, xs, L)
            e.cover('pre')
            r = e.inline(fv, xs, {})
            e.prove(z_real(r) == tot, 'post')
            e.cover('end')
        return run
    Task('fuzzy:' + fn, ['C03'], build, kernel=True)


for _K in (2, 3):
    for _m in spec.MODELS:
        fuzzy_task(_m, _K)


def lemma_prob(model, K):
    """0 <= P(product) <= 1, by induction over the latent dimensions"""
    def build(eng):
        def run(e):
            xs = [z3.Real('x%d' % i) for i in range(K)]
            for x in xs:
                e.assume(z3.And(x >= 0, x <= 1))
            p = z3.Real('p')
            e.cover('pre')
            e.prove(z3.Implies(p == spec.inner_prob(model, xs), z3.And(p >= 0, p <= 1)), 'lemma-inner')
            # from here on only 0 <= p <= 1 is used: fresh variables
            q, n0, n1, s0, s1 = z3.Reals('q n0 n1 s0 s1')
            q_ok = z3.And(q >= 0, q <= 1)
            e.prove(z3.Implies(z3.And(q_ok, n0 >= 0, n0 <= 1, n1 == n0 * (1 - q)), z3.And(n1 >= 0, n1 <= 1)), 'lemma-none')
            # S(k+1) = S(k)(1-q) + q N(k)
            e.prove(z3.Implies(z3.And(q_ok, n0 >= 0, s0 >= 0, s0 + n0 <= 1, n1 == n0 * (1 - q), s1 == s0 * (1 - q) + q * n0),
                               z3.And(n1 >= 0, s1 >= 0, s1 + n1 <= 1)), 'lemma-one')
            # per-summand step: p_l E(l,k+1) = p_l E(l,k) (1-q) for l < k and E(k,k+1) = N(k)
            e.prove(z3.Implies(z3.And(s1 == s0 * (1 - q), n1 == n0 * (1 - q)), s1 + n1 == (s0 + n0) * (1 - q)), 'lemma-sum')
            e.cover('end')
        return run
    Task('lemma:probability:%s:%d' % (model, K), ['C03'], build, opts={'simple': False})


for _K in (2, 3):
    for _m in spec.MODELS:
        lemma_prob(_m, _K)


def lemma_one():
    """sum_{l<k} p(l) prod_{i<k, i!=l} (1-p(i)) = T(k) with T(k+1) = T(k)(1-p(k)) + p(k) N(k), by induction on k and, inside, on l"""
    def build(eng):
        def run(e):
            I, Re = z3.IntSort(), z3.RealSort()
            p, N, T = [z3.Function(n, I, Re) for n in ('p', 'N', 'T')]
            E, Q = [z3.Function(n, I, I, Re) for n in ('E', 'Q')]
            k, l, m = z3.Ints('k l m')
            # definitions, instantiated where they are used
            e.assume(z3.And(k >= 0, l >= 0, m >= 0))
            stepE = lambda a, b: E(a, b + 1) == E(a, b) * z3.If(a == b, z3.RealVal(1), 1 - p(b))
            stepQ = lambda a, b: Q(a + 1, b) == Q(a, b) + p(a) * E(a, b)
            e.assume(z3.And(N(m + 1) == N(m) * (1 - p(m)), E(k, 0) == 1, N(0) == 1, Q(0, k) == 0, Q(0, k + 1) == 0, Q(0, 0) == 0, T(0) == 0,
                            T(k + 1) == T(k) * (1 - p(k)) + p(k) * N(k),
                            stepE(k, m), stepE(l, k), stepE(k, k), stepQ(l, k + 1), stepQ(l, k), stepQ(k, k + 1)))
            e.cover('pre')
            e.prove(E(k, 0) == N(0), 'lemma-others:base')
            e.prove(z3.Implies(z3.And(m < k, E(k, m) == N(m)), E(k, m + 1) == N(m + 1)), 'lemma-others:step')
            e.prove(Q(0, k + 1) == Q(0, k) * (1 - p(k)), 'lemma-prefix:base')
            a, b, c, q, x = z3.Reals('a b c q x')
            e.prove(z3.Implies(c == b * (1 - q), a * (1 - q) + x * c == (a + x * b) * (1 - q)), 'lemma-prefix:algebra')
            e.prove(z3.Implies(z3.And(l < k, Q(l, k + 1) == Q(l, k) * (1 - p(k)),
                                      Q(l, k) * (1 - p(k)) + p(l) * E(l, k + 1) == (Q(l, k) + p(l) * E(l, k)) * (1 - p(k))),
                               Q(l + 1, k + 1) == Q(l + 1, k) * (1 - p(k))), 'lemma-prefix:step')
            e.prove(T(0) == Q(0, 0), 'lemma-recursion:base')
            e.prove(z3.Implies(z3.And(T(k) == Q(k, k), E(k, k) == N(k), Q(k, k + 1) == Q(k, k) * (1 - p(k))), T(k + 1) == Q(k + 1, k + 1)), 'lemma-recursion:step')
            e.cover('end')
        return run
    Task('lemma:exactly-one', ['C03'], build, opts={'simple': False})


lemma_one()


def pxor_task():
    def build(eng):
        fv = need(eng, FZ, 'p_XOR_fuzzy_3d')
        eng.top = 'p_XOR_fuzzy_3d'

        def run(e):
            xs = [e.fresh('p%d' % i, 'f64') for i in range(3)]
            for x in xs:
                e.assume(z3.And(x.t >= 0, x.t <= 1))
            e.cover('pre')
            r = e.inline(fv, xs, {})
            e.prove(z_real(r) == spec.inner_prob('XOR-XOR', [x.t for x in xs]), 'post')
            e.cover('end')
        return run
    Task('fuzzy:p_XOR_fuzzy_3d', ['C03'], build)


pxor_task()
