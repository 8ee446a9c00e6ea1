"""C16: the max machine (MAX-AND, two factors).  A data point is 1 with probability equal to the largest dispersion of a
latent dimension that is on in both its vectors, or the clamped dispersion (the last one) if none is.

The latent dimensions are ranked by a permutation s of 0..L-1 (inverse r) with descending dispersions, which get_sampling_fct
and MAX_AND_product_2d obtain from np.argsort (assumed contract: a permutation that sorts)."""
from .base import *
from . import apps
from .apps import OUT, MU, FZ, need_arr, need_domain, same_len
from .outputs import row, prove_array, factors, snapshot
from .samplers import graph, earlier, freeze, with_counts, flip_contract, ROUTE, WR, LW, MACH
from .layers import mean
from pyded import npmodel
from pyded.engine import POISON

MM = 'lom._numba.max_machine_sampler'


def size(e, nm, lo=0):
    d = e.fresh(nm, 'int').t
    e.assume(d >= lo)
    return d


def dispersions(e, L, nm='lbda'):
    lam = e.input_arr(nm, [z3.simplify(L + 1)], 'f64', einv=lambda t: z3.And(t > 0, t < 1))
    lam.buf.ro = True
    return lam


def lg(e, a, b):
    """log(a / b)"""
    return z_real(npmodel.ufunc(e, 'log', SV(z3.simplify(a / b), 'f64')))


def ratio_spec(e, lam):
    """log-likelihood ratios of a one (0) or minus one (1) between dispersions i and j"""
    at = lambda i: z_real(e.at(lam, [i]))

    def f(ix):
        x, i, j = [z_int(t) for t in ix]
        a, b = at(i), at(j)
        e.assume(z3.And(a > 0, a < 1, b > 0, b < 1))
        p, q = lg(e, a, b), lg(e, 1 - a, 1 - b)
        # log(a/b) = -log(b/a)
        e.assume(z3.And(p == -lg(e, b, a), q == -lg(e, 1 - b, 1 - a)))
        return z3.If(x == 0, p, q)
    return f


def order(e, nm, L):
    """an arbitrary permutation of 0..L-1 as an int64 array, with its inverse"""
    s = z3.Function(e.fresh_name(nm), z3.IntSort(), z3.IntSort())
    r = z3.Function(e.fresh_name(nm + 'inv'), z3.IntSort(), z3.IntSort())
    a = e.new_arr((L,), 'i64', lambda ix: s(z_int(ix[0])), nm)
    a.buf.einv = lambda t: z3.And(t >= 0, t < L)
    a.buf.ro = True
    return a, s, r


def perm_facts(e, s, r, L, p=None, l=None):
    if p is not None:
        e.assume(z3.Implies(z3.And(p >= 0, p < L), z3.And(r(s(p)) == p, s(p) >= 0, s(p) < L)))
    if l is not None:
        e.assume(z3.Implies(z3.And(l >= 0, l < L), z3.And(s(r(l)) == l, r(l) >= 0, r(l) < L)))


# ---- score
def score(e, Z, U, X, l, sigma, ratios):
    return apps.apply(e, 'SCORE:MAX-AND', [Z, U, X, sigma, ratios], [l], real=True)


def score_contract(e, args, fv):
    nm = 'posterior_score_MAX_AND_2D'
    Z, U, X, l, sg, R = args
    for a, d in ((Z, 1), (U, 2), (X, 1), (sg, 1), (R, 3)):
        need_arr(e, nm, a, d)
    same_len(e, nm, [Z.shape[0], U.shape[1], sg.shape[0]])
    same_len(e, nm, [U.shape[0], X.shape[0]])
    L1 = z3.simplify(z_int(Z.shape[0]) + 1)
    same_len(e, nm, [R.shape[1], L1])
    same_len(e, nm, [R.shape[2], L1])
    e.prove(z3.And(z_int(l) >= 0, z_int(l) < z_int(Z.shape[0])), 'pre:%s:index' % nm)
    for a in (Z, U):
        need_domain(e, nm, a, -1, 1, True)
    need_domain(e, nm, X, -1, 1, False)
    # the ranks are those of the current dispersions
    gh = e.ghost.get('max')
    if gh is not None:
        ok = ('argsort', sg.buf.id) in e.ghost
        e.prove(ok, 'pre:%s:order' % nm, 'the order is not an argsort')
        if ok:
            _, _, arr, rd = e.ghost['argsort', sg.buf.id]
            e.prove(z_int(arr.shape[0]) == z_int(Z.shape[0]), 'pre:%s:order' % nm)
            i = z3.Int(e.fresh_name('i'))
            e.prove(z3.Implies(z3.And(i >= 0, i < z_int(Z.shape[0])), z_real(rd([i])) == -z_real(e.at(gh['lam'], [i]))), 'pre:%s:order' % nm,
                    'not sorted by descending dispersion')
        e.prove(R.buf is gh['ratios'].buf, 'pre:%s:ratios' % nm)
        e.ghost['order'] = sg
    for a in (Z, U, X, sg, R):
        e.par_view(a)
    return SV(score(e, Z, U, X, l, sg, R), 'f64')


def score_task():
    def build(eng):
        fv = need(eng, MM, 'posterior_score_MAX_AND_2D')
        eng.top = 'posterior_score_MAX_AND_2D'

        def run(e):
            L, D = size(e, 'L', 1), size(e, 'D')
            l = e.fresh('l', 'int')
            e.assume(z3.And(l.t >= 0, l.t < L))
            e.inputs['l'] = l
            mk = lambda nm, sh, nz=True: e.input_arr(nm, sh, 'i8', -1, 1, nz=nz)
            Z, U, X = mk('z', [L]), mk('u', [D, L]), mk('x', [D], False)
            sg, s, r = order(e, 'sigma', L)
            L1 = z3.simplify(L + 1)
            R = e.input_arr('ratios', [z3.IntVal(2), L1, L1], 'f32')
            for a in (Z, U, X, R):
                a.buf.ro = True
            perm_facts(e, s, r, L, l=l.t)
            e.ghost['rank'] = r(l.t)

            def pos(p):
                perm_facts(e, s, r, L, p=p)
                return s(p) == l.t
            e.fold('rank', [], L, pos, kind='first')
            on = lambda d, j: z3.And(j != l.t, e.at(Z, [j]) == 1, e.at(U, [d, j]) == 1)

            def active(d, p):
                perm_facts(e, s, r, L, p=p)
                return on(d, s(p))
            A = e.fold('active', [D], L, active, kind='first')

            def term(d):
                # the largest dispersion among the other active dimensions, or the clamped one
                first = A(d, z3.IntVal(0))
                e.inst(A, (d,), z3.IntVal(0))
                j = z3.If(first < L, s(first), L)
                ratio = z3.If(e.at(X, [d]) == 1, z_real(e.at(R, [z3.IntVal(0), l.t, j])), z3.If(e.at(X, [d]) == -1, z_real(e.at(R, [z3.IntVal(1), l.t, j])), z3.RealVal(0)))
                return z3.If(z3.And(e.at(U, [d, l.t]) == 1, first > r(l.t)), ratio, z3.RealVal(0))
            S = e.fold('score', [], D, term, kind='rsum')
            e.cover('pre')
            res = e.inline(fv, [Z, U, X, l, sg, R], {})
            e.prove(z_real(res) == S.total(), 'post')
            # lemma: ranked by descending dispersion, the first active dimension has the largest dispersion of all active ones
            lam = dispersions(e, L)
            at = lambda i: z_real(e.at(lam, [i]))
            d, k = z3.Int(e.fresh_name('d')), z3.Int(e.fresh_name('k'))
            e.assume(z3.And(d >= 0, d < D, k >= 0, k < L))
            desc = lambda p, q: e.assume(z3.Implies(z3.And(0 <= p, p <= q, q < L), at(s(p)) >= at(s(q))))
            first = A(d, z3.IntVal(0))
            e.inst(A, (d,), z3.IntVal(0))
            perm_facts(e, s, r, L, p=first, l=k)
            # induction: no active position before the first one
            p = z3.Int(e.fresh_name('p'))
            e.push()
            e.assume(z3.And(p >= 0, p < L, z3.Implies(p <= first, A(d, p) == first), p < first))
            e.inst(A, (d,), p)
            e.prove(z3.And(z3.Not(active(d, p)), A(d, p + 1) == first), 'lemma-step:first-active')
            e.pop()
            e.push()
            e.assume(z3.And(p >= 0, p < L, p == first, A(d, p) == first))
            e.inst(A, (d,), p)
            e.inst(A, (d,), z3.simplify(p + 1))
            e.prove(active(d, p), 'lemma-step:first-is-active')
            e.pop()
            e.assume(z3.Implies(z3.And(r(k) < first), z3.Not(active(d, r(k)))))
            e.assume(z3.Implies(first < L, active(d, first)))
            desc(first, r(k))
            desc(r(l.t), first)
            desc(first, r(l.t))
            e.prove(z3.Implies(on(d, k), z3.And(first < L, at(s(first)) >= at(k))), 'post:largest', 'first active dimension has the largest dispersion')
            e.prove(z3.Implies(first == L, z3.Not(on(d, k))), 'post:clamped')
            e.prove(z3.Implies(z3.And(first < L, first > r(l.t)), at(l.t) >= at(s(first))), 'post:decides')
            e.prove(z3.Implies(z3.And(first < L, first < r(l.t)), at(l.t) <= at(s(first))), 'post:explained-away')
            e.cover('end')
        return run
    Task('max:score', ['C16'], build, kernel=True, opts={'bounds': lambda e: [e.ghost['rank']] if 'rank' in e.ghost else []})


# ---- sweep over a factor
def max_graph(e, axis):
    g = graph(e, 'MAX-AND', 2, axis, [])
    lay = g['layer']
    lam = dispersions(e, g['L'])
    e.setattr(e.getattr(lay, 'lbda'), 'val', lam)
    L1 = z3.simplify(g['L'] + 1)
    R = e.new_arr((z3.IntVal(2), L1, L1), 'f32', ratio_spec(e, lam), 'ratios')
    R.buf.ro = True
    e.setattr(lay, 'lbda_ratios', R)
    e.ghost['max'] = {'lam': lam, 'ratios': R}
    g.update(lbdas=lam, ratios=R)
    return g


def sweep_task(axis):
    def build(eng):
        getf = need(eng, WR, 'get_sampling_fct')
        eng.top = 'get_sampling_fct'

        def run(e):
            g = max_graph(e, axis)
            sib = g['sib'][0]

            def sc(i):
                sg = e.ghost.get('order')
                if sg is None:
                    return z3.Real(e.fresh_name('noscore'))
                return score(e, row(g['Z'], i[0]), sib, row(g['Xt'], i[0]), i[1], sg, g['ratios'])
            g['logit'] = sc
            e.cover('pre')
            f = earlier(e, g, getf, g['mat'])
            before = freeze(e, g)
            with_counts(e, g, 'MAX-AND', lambda: e.call(f, [g['mat']], {}))
            now = e.getattr(g['mat'], 'val')
            e.prove(isinstance(now, Arr) and now.buf is g['Z'].buf, 'frame:matrix-object')
            for (oid, k), v in before.items():
                w = e.objs[oid].attrs.get(k, POISON)
                if w is not v and k != 'sampling_fct':
                    e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)
            e.cover('end')
        return run
    route = dict(ROUTE, update=['C16'], domain=['C16'], pre=['C16'], post=['C16'], frame=['C07', 'C16'])
    Task('max:sweep:%d' % axis, ['C16', 'C07', 'C08'], build,
         contracts={(MM, 'posterior_score_MAX_AND_2D'): score_contract, (MU, 'flip_metropolised_gibbs_numba'): flip_contract}, route=route, kernel=True)


# ---- ratios
def ratios_task():
    def build(eng):
        fv = need(eng, MM, 'compute_lbda_ratios')
        eng.top = 'compute_lbda_ratios'

        def run(e):
            g = graph(e, 'MAX-AND', 2, 0, [])
            lay = g['layer']
            lam = dispersions(e, g['L'])
            e.setattr(e.getattr(lay, 'lbda'), 'val', lam)
            L1 = z3.simplify(g['L'] + 1)
            want = ratio_spec(e, lam)
            dims = [z3.IntVal(2), L1, L1]
            e.targets.append((dims, want, ()))
            e.cover('pre')
            e.inline(fv, [lay], {})
            prove_array(e, e.getattr(lay, 'lbda_ratios'), dims, None, want)
            e.prove(e.getattr(e.getattr(lay, 'lbda'), 'val') is lam, 'frame:dispersions')
            e.cover('end')
        return run
    Task('max:ratios', ['C16'], build, kernel=True)


# ---- outputs
def expand_contract(e, args, fv):
    z, u = args
    for a in (z, u):
        need_arr(e, 'OR_AND_product_expand', a, 1)
        need_domain(e, 'OR_AND_product_expand', a, -1, 1, True)
    z, u = snapshot(z), snapshot(u)
    return e.new_arr([z.shape[0], u.shape[0]], 'i8', lambda ix: z3.If(z3.And(e.at(z, [ix[0]]) == 1, e.at(u, [ix[1]]) == 1), z3.IntVal(1), z3.IntVal(0)), 'expanded', lo=0, hi=1)


def expand_task():
    def build(eng):
        fv = need(eng, OUT, 'OR_AND_product_expand')
        eng.top = 'OR_AND_product_expand'

        def run(e):
            N, D = size(e, 'N'), size(e, 'D')
            z, u = e.input_arr('z', [N], 'i8', -1, 1, nz=True), e.input_arr('u', [D], 'i8', -1, 1, nz=True)
            z.buf.ro = u.buf.ro = True
            want = lambda ix: z3.If(z3.And(e.at(z, [ix[0]]) == 1, e.at(u, [ix[1]]) == 1), z3.IntVal(1), z3.IntVal(0))
            e.targets.append(([N, D], want))
            e.cover('pre')
            prove_array(e, e.inline(fv, [z, u], {}), [N, D], 'i8', want)
            e.cover('end')
        return run
    Task('max:expand', ['C16', 'C08'], build, kernel=True)


def single_task():
    """output of one row of an OR-AND layer"""
    def build(eng):
        fv = need(eng, OUT, 'OR_AND_single_n')
        eng.top = 'OR_AND_single_n'

        def run(e):
            L, D = size(e, 'L'), size(e, 'D')
            z, U = e.input_arr('z', [L], 'i8', -1, 1, nz=True), e.input_arr('u', [D, L], 'i8', -1, 1, nz=True)
            z.buf.ro = U.buf.ro = True
            want = lambda ix: apps.product(e, 'OR-AND', [z, row(U, ix[0])])
            e.targets.append(([D], want))
            e.cover('pre')
            prove_array(e, e.inline(fv, [z, U], {}), [D], 'i8', want)
            e.cover('end')
        return run
    Task('single-row', ['C02', 'C08'], build, contracts=apps.products, kernel=True)


class Output:
    """the largest active dispersion, by the order the code sorted the latent dimensions in"""

    def __init__(self, e, fs, lam, dims, L, name='first'):
        self.e, self.fs, self.lam, self.L = e, fs, lam, L
        self.F = e.fold(name, dims, L, self.term, kind='first')

    def s(self, p):
        a = self.e.ghost.get('argsorts')
        return a[-1][0](p) if a else None

    def on(self, ix, j):
        e = self.e
        return z3.And(*[e.at(f, [i, j]) == 1 for f, i in zip(self.fs, ix)])

    def term(self, *a):
        p = a[-1]
        if self.s(p) is None:
            return z3.BoolVal(False)
        self.e.assume(z3.Implies(z3.And(p >= 0, p < self.L), z3.And(self.s(p) >= 0, self.s(p) < self.L)))
        return self.on(a[:-1], self.s(p))

    def lamat(self, j):
        return z_real(self.e.at(self.lam, [j]))

    def upto(self, ix, t):
        """dispersion of the first active dimension if it is among the first t ranks, else 0"""
        e, F = self.e, self.F
        ix = [z_int(i) for i in ix]
        if self.s(t) is None:
            return z3.RealVal(0)
        for p in (z3.IntVal(0), z3.simplify(t - 1), z_int(t)):
            e.inst(F, ix, p)
        first = F(*ix, z3.IntVal(0))
        # lemma (induction over p <= first): F(p) == first, so that nothing is active before it
        for p in (z3.simplify(t - 1), z_int(t)):
            e.assume(z3.Implies(z3.And(0 <= p, p <= first), F(*ix, p) == first))
        e.assume(z3.Implies(first < self.L, z3.And(self.on(ix, self.s(first)), first >= 0, self.s(first) >= 0, self.s(first) < self.L)))
        return z3.If(first < t, self.lamat(self.s(first)), z3.RealVal(0))

    def total(self, ix):
        first = self.F(*ix, z3.IntVal(0))
        self.e.inst(self.F, ix, z3.IntVal(0))
        if self.s(first) is None:
            return z3.RealVal(-1)
        return z3.If(first < self.L, self.lamat(self.s(first)), self.lamat(self.L))


def max_output(e, fs, lam):
    """specification of MAX_AND_product_2d: an uninterpreted function of the two rows and the dispersions"""
    fs = [snapshot(f) for f in fs]
    lam = snapshot(lam)
    return lambda ix: apps.apply(e, 'OUT:MAX-AND', [row(f, i) for f, i in zip(fs, ix)] + [lam], [], real=True)


def product_contract(e, args, fv):
    nm = 'MAX_AND_product_2d'
    fs, lam = list(e.to_list(args[0])), args[1]
    e.prove(len(fs) == 2, 'pre:%s:factors' % nm)
    for f in fs:
        need_arr(e, nm, f, 2)
        ix = [z3.Int(e.fresh_name('ix')) for _ in f.shape]
        t = z_real(e.read(f, ix))
        e.prove(z3.Implies(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, f.shape)]), z3.Or(t == 1, t == -1)), 'pre:%s:domain' % nm)
    need_arr(e, nm, lam, 1)
    same_len(e, nm, [f.shape[1] for f in fs])
    e.prove(z_int(lam.shape[0]) == z_int(fs[0].shape[1]) + 1, 'pre:%s:dispersions' % nm)
    i = z3.Int(e.fresh_name('i'))
    t = z_real(e.read(lam, [i]))
    e.prove(z3.Implies(z3.And(i >= 0, i < z_int(lam.shape[0])), z3.And(t > 0, t < 1)), 'pre:%s:dispersions' % nm)
    return e.new_arr([f.shape[0] for f in fs], 'f64', max_output(e, fs, lam), 'output')


def product_task():
    def build(eng):
        fv = need(eng, OUT, 'MAX_AND_product_2d')
        eng.top = 'MAX_AND_product_2d'

        def run(e):
            L, dims, fs = factors(e, 2)
            lam = dispersions(e, L)
            O = Output(e, fs, lam, dims, L)
            e.evolving.append((tuple(dims), O.upto))
            # induction step of the lemma used in Output.upto
            e.cover('pre')
            r = e.inline(fv, [list(fs), lam], {})
            prove_array(e, r, dims, None, O.total)
            srt = e.ghost.get('argsorts')
            if not srt:
                e.prove(False, 'post:order', 'the dimensions are not sorted')
                return
            fn, inv, arr, rd, nn = srt[-1]
            i = z3.Int(e.fresh_name('i'))
            e.prove(nn == L, 'post:order')
            e.prove(z3.Implies(z3.And(i >= 0, i < L), z_real(rd([i])) == -O.lamat(i)), 'post:order', 'not sorted by descending dispersion')
            # lemma: the value is the largest dispersion of an active dimension
            ix = [z3.Int(e.fresh_name('ix')) for _ in dims]
            e.assume(z3.And(*[z3.And(a >= 0, a < d) for a, d in zip(ix, dims)]))
            first = O.F(*ix, z3.IntVal(0))
            p, k = z3.Int(e.fresh_name('p')), z3.Int(e.fresh_name('k'))
            e.push()
            e.assume(z3.And(p >= 0, p < L, p < first, O.F(*ix, p) == first))
            e.inst(O.F, ix, p)
            e.prove(z3.And(z3.Not(O.term(*ix, p)), O.F(*ix, p + 1) == first), 'lemma-step:first-active')
            e.pop()
            e.push()
            e.assume(z3.And(p >= 0, p < L, p == first, O.F(*ix, p) == first))
            e.inst(O.F, ix, p)
            e.inst(O.F, ix, z3.simplify(p + 1))
            e.prove(O.term(*ix, p), 'lemma-step:first-is-active')
            e.pop()
            e.assume(z3.And(k >= 0, k < L, fn(inv(k)) == k, inv(k) >= 0, inv(k) < L))
            e.assume(z3.Implies(inv(k) < first, z3.Not(O.on(ix, fn(inv(k))))))
            e.assume(z3.Implies(first < L, O.on(ix, fn(first))))
            e.assume(z3.Implies(z3.And(0 <= first, first <= inv(k)), O.lamat(fn(first)) >= O.lamat(fn(inv(k)))))
            v = O.total(ix)
            e.prove(z3.Implies(O.on(ix, k), v >= O.lamat(k)), 'post:largest')
            e.prove(z3.Or(z3.And(first < L, O.on(ix, fn(first)), v == O.lamat(fn(first))), z3.And(z3.Not(O.on(ix, k)), v == O.lamat(L))), 'post:attained')
            e.cover('end')
        return run
    Task('max:product', ['C16'], build, contracts={(OUT, 'OR_AND_product_expand'): expand_contract}, kernel=True)


def before(e, lam, j, i):
    """dimension j outranks dimension i"""
    a, b = z_real(e.at(lam, [j])), z_real(e.at(lam, [i]))
    return z3.Or(a > b, z3.And(a == b, j < i))


def fuzzy_output(e, fs, lam):
    fs, lam = [snapshot(f) for f in fs], snapshot(lam)
    return lambda ix: apps.apply(e, 'FUZZY:MAX-AND', [row(f, i) for f, i in zip(fs, ix)] + [lam], [], real=True)


def fuzzy_contract(e, args, fv):
    nm = 'MAX_AND_product_fuzzy'
    Z, U, lam = args
    for f in (Z, U):
        need_arr(e, nm, f, 2)
        ix = [z3.Int(e.fresh_name('ix')) for _ in f.shape]
        t = z_real(e.read(f, ix))
        e.prove(z3.Implies(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, f.shape)]), z3.And(t >= 0, t <= 1)), 'pre:%s:domain' % nm)
    need_arr(e, nm, lam, 1)
    same_len(e, nm, [Z.shape[1], U.shape[1]])
    e.prove(z_int(lam.shape[0]) == z_int(Z.shape[1]) + 1, 'pre:%s:dispersions' % nm)
    return e.new_arr([Z.shape[0], U.shape[0]], 'f64', fuzzy_output(e, [Z, U], lam), 'output')


def fuzzy_task():
    def build(eng):
        fv = need(eng, FZ, 'MAX_AND_product_fuzzy')
        eng.top = 'MAX_AND_product_fuzzy'

        def run(e):
            L, dims, fs = factors(e, 2, 'f64')
            lam = dispersions(e, L)
            p = lambda n, d, l: z_real(e.at(fs[0], [n, l])) * z_real(e.at(fs[1], [d, l]))
            off = e.fold('off', dims + [L], L, lambda n, d, i, j: z3.If(before(e, lam, j, i), 1 - p(n, d, j), z3.RealVal(1)), 'prod')
            none = e.fold('none', dims, L, lambda n, d, j: 1 - p(n, d, j), 'prod')
            tot = e.fold('expected', dims, L, lambda n, d, i: z_real(e.at(lam, [i])) * p(n, d, i) * off.total(n, d, i), 'rsum')
            want = lambda ix: tot.total(*ix) + z_real(e.at(lam, [L])) * none.total(*ix)
            e.targets.append((dims, want))
            e.cover('pre')
            r = e.inline(fv, list(fs) + [lam], {})
            prove_array(e, r, dims, 'f64', want)
            e.cover('end')
        return run
    Task('max:fuzzy', ['C16', 'C08'], build, kernel=True)


def output_task(technique, probs):
    def build(eng):
        need(eng, MACH, 'MachineLayer.output')
        eng.top = 'MachineLayer.output'

        def run(e):
            g = graph(e, 'MAX-AND', 2, 0, [])
            lay, dims, L = g['layer'], g['dims'], g['L']
            for a in g['arrs']:
                a.buf.ro = True
            lam = dispersions(e, L)
            lbda = e.getattr(lay, 'lbda')
            e.setattr(lbda, 'val', lam)
            T = size(e, 'T', 1)
            traces, means = [], []
            e.ghost['mean'] = {}
            for i, f in enumerate(g['factors']):
                tr = e.input_arr('T%d' % i, [T, dims[i], L], 'i8', -1, 1, nz=True)
                M = e.input_arr('M%d' % i, [dims[i], L], 'f64', einv=lambda t: z3.And(t >= -1, t <= 1))
                tr.buf.ro = M.buf.ro = True
                e.setattr(f, 'trace', tr)
                e.ghost['mean'][f.oid] = M
                traces.append(tr)
                means.append(M)
            L1 = z3.simplify(L + 1)
            ltr = e.input_arr('Tl', [T, L1], 'f64', einv=lambda t: z3.And(t > 0, t < 1))
            lm = e.input_arr('Ml', [L1], 'f64', einv=lambda t: z3.And(t > 0, t < 1))
            ltr.buf.ro = lm.buf.ro = True
            e.setattr(lbda, 'trace', ltr)
            e.ghost['mean'][lbda.oid] = lm
            if technique == 'point_estimate':
                p = max_output(e, g['arrs'], lam)
            elif technique == 'factor_map':
                rounded = [e.new_arr(m.shape, 'i8', (lambda ix, m=m: z3.If(z_real(e.at(m, ix)) > 0, z3.IntVal(1), z3.IntVal(-1))), 'rounded', lo=-1, hi=1, nz=True)
                           for m in means]
                p = max_output(e, rounded, lam)
            elif technique == 'factor_mean':
                mapped = [e.new_arr(m.shape, 'f64', (lambda ix, m=m: (z_real(e.at(m, ix)) + 1) / 2), 'mapped') for m in means]
                p = fuzzy_output(e, mapped, lm)
            else:
                F = e.fold('samples', dims, T, lambda *a: max_output(e, [row(t, a[-1]) for t in traces], row(ltr, a[-1]))(a[:-1]), 'rsum')
                e.accs.append((tuple(dims), F))
                p = lambda ix: F.total(*ix) / z3.ToReal(T)
            e.cover('pre')
            r = e.call(e.getattr(lay, 'output'), [], dict(technique=technique, map_to_probabilities=probs))
            prove_array(e, r, dims, None, p if probs else (lambda ix: 2 * p(ix) - 1))
            e.cover('end')
        return run
    Task('max:output:%s%s' % (technique, '' if probs else ':signed'), ['C16'], build,
         contracts={(OUT, 'MAX_AND_product_2d'): product_contract, (FZ, 'MAX_AND_product_fuzzy'): fuzzy_contract, (MACH, 'Trace.mean'): mean})


score_task()
ratios_task()
expand_task()
single_task()
product_task()
fuzzy_task()
for _t in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
    for _p in (True, False):
        output_task(_t, _p)
for _a in (0, 1):
    sweep_task(_a)
