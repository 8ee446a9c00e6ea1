"""C19: the qL-AND model.  An output is 1 iff at least q latent dimensions are on in both vectors; each column has its own q >= 1."""
import math
from .base import *
from . import apps
from .apps import OUT, MU, need_arr, need_domain, same_len
from .outputs import row, prove_array
from .samplers import graph, earlier, freeze, with_counts, flip_contract, perm, ROUTE, WR, LW, MACH
from .dispersion import nested_count, sum_bound, finish_update, nl_valid
from pyded.engine import POISON
from pyded.npmodel import real_fn


def both(e, z, u, i):
    return z3.And(e.at(z, [i]) == 1, e.at(u, [i]) == 1)


def threshold(e, nm='q'):
    q = e.fresh(nm, 'i8')
    e.assume(z3.And(q.t >= 1, q.t <= 127))
    e.inputs[nm] = q
    return q


def vec(e, nm, L, lo=-1, hi=1, nz=True):
    a = e.input_arr(nm, [L] if not isinstance(L, list) else L, 'i8', lo, hi, nz=nz)
    a.buf.ro = True
    return a


def size(e, nm, lo=0):
    d = e.fresh(nm, 'int').t
    e.assume(d >= lo)
    return d


# ---- applications and contracts
def product(e, z, u, q):
    """symmetric in the two vectors by definition: canonical argument order by caller (rows of the first factor first)"""
    r = apps.apply(e, 'PROD:qL-AND', [z, u], [q])
    e.assume(z3.Or(r == 1, r == -1))
    return r


def product_contract(e, args, fv):
    u, z, q = args
    for a in (u, z):
        need_arr(e, 'qL_AND_product', a, 1)
    same_len(e, 'qL_AND_product', [u.shape[0], z.shape[0]])
    for a in (u, z):
        need_domain(e, 'qL_AND_product', a, -1, 1, True)
        e.par_view(a)
    e.prove(z3.And(z_int(q) >= 1, z_int(q) <= 127), 'pre:qL_AND_product:threshold')
    # the count is symmetric: both argument orders are the same application
    r = product(e, u, z, q)
    e.assume(r == product(e, z, u, q))
    return SV(r, 'int', -1, 1, True)


def score_z(e, Z, U, X, l, q):
    return apps.apply(e, 'SCORE:qL-AND:Z', [Z, U, X, q], [l])


def score_u(e, U, Z, X, l, q):
    return apps.apply(e, 'SCORE:qL-AND:U', [U, Z, X], [l, q])


def score_contract(which):
    nm = 'posterior_score_fct_qL_' + which

    def c(e, args, fv):
        Z, U, X, l, q = args
        need_arr(e, nm, Z, 1)
        need_arr(e, nm, U, 2)
        need_arr(e, nm, X, 1)
        same_len(e, nm, [Z.shape[0], U.shape[1]])
        same_len(e, nm, [U.shape[0], X.shape[0]])
        e.prove(z3.And(z_int(l) >= 0, z_int(l) < z_int(Z.shape[0])), 'pre:%s:index' % nm)
        for a in (Z, U):
            need_domain(e, nm, a, -1, 1, True)
        need_domain(e, nm, X, -1, 1, False)
        if which == 'Z':
            need_arr(e, nm, q, 2)
            e.prove(z_int(q.shape[0]) >= 1, 'pre:%s:thresholds' % nm)
            same_len(e, nm, [U.shape[0], q.shape[1]])
            qr = row(q, z3.IntVal(0))
            need_domain(e, nm, qr, 1, 127, True)
            for a in (Z, U, X, qr):
                e.par_view(a)
            return SV(score_z(e, Z, U, X, l, qr), 'i64')
        e.prove(z3.And(z_int(q) >= 1, z_int(q) <= 127), 'pre:%s:threshold' % nm)
        for a in (Z, U, X):
            e.par_view(a)
        return SV(score_u(e, Z, U, X, l, q), 'i64')
    return c


def contracts():
    return {(OUT, 'qL_AND_product'): product_contract, (MU, 'posterior_score_fct_qL_Z'): score_contract('Z'),
            (MU, 'posterior_score_fct_qL_U'): score_contract('U'), (MU, 'flip_metropolised_gibbs_numba'): flip_contract}


# ---- the functions themselves
def product_task():
    def build(eng):
        fv = need(eng, OUT, 'qL_AND_product')
        eng.top = 'qL_AND_product'

        def run(e):
            L = size(e, 'L')
            u, z = vec(e, 'u', L), vec(e, 'z', L)
            q = threshold(e)
            F = e.fold('cnt', [], L, lambda i: z3.If(both(e, z, u, i), z3.IntVal(1), z3.IntVal(0)))
            e.cover('pre')
            r = e.inline(fv, [u, z, q], {})
            e.prove(z_int(r) == z3.If(F.total() >= q.t, z3.IntVal(1), z3.IntVal(-1)), 'post')
            e.cover('end')
        return run
    Task('qL:product', ['C19'], build, kernel=True, opts={'bounds': lambda e: [z_int(e.inputs['q'])] if 'q' in e.inputs else []})


def score_task(which):
    fn = 'posterior_score_fct_qL_' + which

    def build(eng):
        fv = need(eng, MU, fn)
        eng.top = fn

        def run(e):
            L, D = size(e, 'L', 1), size(e, 'D')
            l = e.fresh('l', 'int')
            e.assume(z3.And(l.t >= 0, l.t < L))
            e.inputs['l'] = l
            Z, U, X = vec(e, 'z', L), vec(e, 'u', [D, L]), vec(e, 'x', D, nz=False)
            if which == 'Z':
                q = vec(e, 'q', [z3.IntVal(1), D], 1, 127)
                qd = lambda d: e.at(q, [z3.IntVal(0), d])
            else:
                q = threshold(e)
                qd = lambda d: q.t
            C = e.fold('cnt', [D], L, lambda d, i: z3.If(z3.And(i != l.t, e.at(Z, [i]) == 1, e.at(U, [d, i]) == 1), z3.IntVal(1), z3.IntVal(0)))

            def term(d):
                on = z3.If(C.total(d) + z3.If(e.at(U, [d, l.t]) == 1, 1, 0) >= qd(d), z3.IntVal(1), z3.IntVal(-1))
                off = z3.If(C.total(d) >= qd(d), z3.IntVal(1), z3.IntVal(-1))
                # half the change of the output, as a difference of truth values
                return spec.smul(e.at(X, [d]), z3.If(on == off, z3.IntVal(0), on))
            S = e.fold('score', [], D, term, kind='sum')
            e.cover('pre')
            r = e.inline(fv, [Z, U, X, l, q], {})
            e.prove(z_int(r) == S.total(), 'post')
            e.cover('end')
        return run
    Task('qL:score:' + which, ['C19'], build, kernel=True)


def ql_graph(e, axis):
    g = graph(e, 'qL-AND', 2, axis, [])
    D = g['dims'][1]
    q = e.input_arr('q', [z3.IntVal(1), D], 'i8', 1, 127, nz=True)
    q.buf.ro = True
    e.setattr(e.getattr(g['layer'], 'q'), 'val', q)
    g['q'] = q
    sib, Z = g['sib'][0], g['Z']
    if axis == 0:
        g['score'] = lambda i: score_z(e, row(Z, i[0]), sib, row(g['Xt'], i[0]), i[1], row(q, z3.IntVal(0)))
    else:
        g['score'] = lambda i: score_u(e, row(Z, i[0]), sib, row(g['Xt'], i[0]), i[1], e.at(q, [z3.IntVal(0), i[0]]))
    return g


def sweep_task(axis):
    def build(eng):
        getf = need(eng, WR, 'get_sampling_fct')
        eng.top = 'get_sampling_fct'

        def run(e):
            g = ql_graph(e, axis)
            e.cover('pre')
            f = earlier(e, g, getf, g['mat'])
            before = freeze(e, g)
            with_counts(e, g, 'qL-AND', lambda: e.call(f, [g['mat']], {}))
            now = e.getattr(g['mat'], 'val')
            e.prove(isinstance(now, Arr) and now.buf is g['Z'].buf, 'frame:matrix-object')
            for (oid, k), v in before.items():
                w = e.objs[oid].attrs.get(k, POISON)
                if w is not v and k != 'sampling_fct':
                    e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)
            e.cover('end')
        return run
    route = dict(ROUTE, update=['C19'], domain=['C19'], pre=['C19'], post=['C19'], frame=['C07', 'C19'])
    Task('qL:sweep:%d' % axis, ['C19', 'C07', 'C08'], build, contracts=contracts, route=route, kernel=True)


def dispersion_task():
    def build(eng):
        getf = need(eng, LW, 'get_update_fct')
        eng.top = 'get_update_fct'

        def run(e):
            g = ql_graph(e, 0)
            g['Z'].buf.ro = True
            X, dims, q = g['X'], g['dims'], g['q']
            xs = lambda ix: z_int(e.at(X, ix))
            P = nested_count(e, 'agree', dims, lambda ix: product(e, row(g['arrs'][0], ix[0]), row(g['arrs'][1], ix[1]),
                                                                 e.at(q, [z3.IntVal(0), ix[1]])) == xs(ix))
            Q = nested_count(e, 'missing', dims, lambda ix: xs(ix) == 0)
            finish_update(e, g, getf, P, Q, dims)
        return run
    Task('qL:dispersion', ['C19', 'C07', 'C08'], build, contracts=contracts,
         route={'frame': ['C07', 'C19'], 'race-free': ['C08'], 'index-bounds': ['C19']}, kernel=True)


def output_task():
    def build(eng):
        fv = need(eng, MACH, 'MachineLayer.output')
        eng.top = 'MachineLayer.output'

        def run(e):
            g = ql_graph(e, 0)
            g['Z'].buf.ro = True
            a, b = g['arrs']
            want = lambda ix: z3.If(product(e, row(a, ix[0]), row(b, ix[1]), e.at(g['q'], [z3.IntVal(0), ix[1]])) == 1, z3.RealVal(1), z3.RealVal(0))
            signed = lambda ix: z3.ToReal(product(e, row(a, ix[0]), row(b, ix[1]), e.at(g['q'], [z3.IntVal(0), ix[1]])))
            e.targets.append((g['dims'], want))
            e.targets.append((g['dims'], signed))
            e.cover('pre')
            r = e.call(e.getattr(g['layer'], 'output'), [], {})
            prove_array(e, r, g['dims'], None, want)
            e.cover('end')
        return run
    Task('qL:output', ['C19'], build, contracts=contracts, kernel=True)


product_task()
for _w in 'ZU':
    score_task(_w)
for _a in (0, 1):
    sweep_task(_a)
dispersion_task()
output_task()


# ---- the thresholds
QMAX = 5


def choice_contract(e, args, fv):
    """random_choice(p): category i (counted from 1) with probability p[i-1], by one uniform draw (proved: task qL:choice)"""
    p = args[0]
    need_arr(e, 'random_choice', p, 1)
    n = conc(p.shape[0])
    if n is None or not 1 <= n <= 16:
        raise Unsupported('random_choice')
    ps = [z_real(e.read(p, [z3.IntVal(i)])) for i in range(n)]
    e.prove(z3.And(*[x >= 0 for x in ps]), 'pre:random_choice:negative')
    r = e.fresh('category', 'i8', 1, n)
    e.assume(z3.And(r.t >= 1, r.t <= n))
    e.draws.append(('category', (r.t, ps)))
    return r


def choice_task():
    def build(eng):
        fv = need(eng, MU, 'random_choice')
        eng.top = 'random_choice'

        def run(e):
            n = size(e, 'n', 1)
            e.assume(n <= 100)
            p = e.input_arr('p', [n], 'f64')
            p.buf.ro = True
            acc = e.fold('acc', [], n, lambda i: z_real(e.at(p, [i])), kind='rsum')
            j = z3.Int(e.fresh_name('j'))
            e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z_real(e.at(p, [j])) >= 0)))
            e.assume(acc.total() == 1)
            e.ghost['uniforms'] = []

            def below(en):
                """the cumulated probability has not passed the draw"""
                us = en.ghost.get('uniforms', [])
                vs = [v for v in en.envs[-1].vars.values() if isinstance(v, SV) and v.k in FLK]
                return z3.And(*[z_real(v) <= us[0] for v in vs]) if us else z3.BoolVal(True)
            e.extra_cands.append(('below', below))
            e.cover('pre')
            r = z_int(e.inline(fv, [p], {}))
            us = e.ghost.get('uniforms', [])
            e.prove(len(us) == 1, 'post:one-draw')
            if len(us) != 1:
                return
            e.prove(z3.And(r >= 1, r <= n), 'post:range')
            e.prove(us[0] < acc(r), 'post:probability')
            e.prove(acc(r - 1) <= us[0], 'post:probability')
            e.cover('end')
        return run
    Task('qL:choice', ['C19'], build, kernel=True)


def threshold_task():
    """every threshold is drawn once from P(q) ~ gamma^q / q! exp(lambda A_q), q = 1..5, A_q the observed data that agree with the output at q"""
    def build(eng):
        getf = need(eng, WR, 'get_sampling_fct')
        eng.top = 'get_sampling_fct'

        def run(e):
            g = graph(e, 'qL-AND', 2, 0, [])
            N, D = g['dims']
            layer, X, (a, b) = g['layer'], g['X'], g['arrs']
            qm = e.getattr(layer, 'q')
            q = e.input_arr('q', [z3.IntVal(1), D], 'i8', 1, 127, nz=True)
            e.setattr(qm, 'val', q)
            gamma = e.fresh('gamma', 'f64')
            e.assume(gamma.t > 0)
            e.inputs['gamma'] = gamma
            e.setattr(layer, 'gamma', gamma)
            g['Z'].buf.ro = True
            lam = z_real(g['lam'])
            xs = lambda n, d: z_int(e.at(X, [n, d]))
            one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
            seen = e.fold('observed', [D], N, lambda d, n: one(xs(n, d) != 0))
            A, B = {}, {}
            for k in range(1, QMAX + 1):
                out = lambda d, n, k=k: product(e, row(a, n), row(b, d), SV(z3.IntVal(k), 'i8'))
                A[k] = e.fold('agree%d' % k, [D], N, lambda d, n, out=out: one(out(d, n) == xs(n, d)))
                B[k] = e.fold('disagree%d' % k, [D], N, lambda d, n, out=out: one(z3.And(xs(n, d) != 0, out(d, n) != xs(n, d))))
                # lemma (induction over n): A + B = observed
                e.push()
                d, n = z3.Int(e.fresh_name('d')), z3.Int(e.fresh_name('n'))
                e.assume(z3.And(0 <= d, d < D, 0 <= n, n < N, A[k](d, n) + B[k](d, n) == seen(d, n)))
                for f in (A[k], B[k], seen):
                    e.inst(f, (d,), n)
                e.prove(A[k](d, n + 1) + B[k](d, n + 1) == seen(d, n + 1), 'lemma-step:observed')
                e.pop()
            cnt = e.new_arr(q.shape, 'i64', lambda i: z3.IntVal(0), 'updates')
            cnt.buf.target = [(lambda i: z3.IntVal(1), ())]
            cnt.buf.name = 'updates'
            log, exp = (lambda x: z_real(e.np.ufunc(e, 'log', SV(x, 'f64')))), (lambda x: z_real(e.np.ufunc(e, 'exp', SV(x, 'f64'))))

            def hook(eng, buf, bi, val):
                eng.store(cnt, bi, SV(z3.simplify(z_int(eng.read(cnt, bi)) + 1), 'i64'))
                draws, eng.draws = eng.draws, []
                if eng.replaying():
                    return
                if len(draws) != 1 or draws[0][0] != 'category':
                    eng.prove(False, 'update:one-draw', 'draws for one threshold: %r' % ([w for w, _ in draws],))
                    return
                r, ps = draws[0][1]
                eng.prove(z_int(val) == r, 'update:threshold')
                if len(ps) != QMAX:
                    eng.prove(False, 'update:threshold-distribution', '%d categories' % len(ps))
                    return
                prove_distribution(eng, ps, bi[1])

            def prove_distribution(e, ps, d):
                used = list(e.apps.get('exp', []))
                fact = 1
                w, W = {}, {}
                Ad = {k: z3.ToReal(A[k].total(d)) for k in A}
                Bd = {k: z3.ToReal(B[k].total(d)) for k in B}
                obs = z3.ToReal(seen.total(d))
                for k in range(1, QMAX + 1):
                    fact *= k
                    w[k] = k * log(gamma.t) - log(z3.RealVal(fact)) + lam * Ad[k]
                    W[k] = exp(w[k])
                    e.assume(Ad[k] + Bd[k] == obs)
                # facts about log and exp: gammaln(k) = log((k-1)!), log(1 + exp(x)) = x + log(1 + exp(-x))
                facts = [(real_fn('gammaln')(z3.RealVal(k)), log(z3.RealVal(math.factorial(k - 1)))) for k in range(2, QMAX + 2)]
                facts.append((log(1 + exp(lam)), lam + log(1 + exp(-lam))))
                counts = [(f.total(d), r) for k in A for f, r in ((A[k], Ad[k]), (B[k], obs - Ad[k]))]

                known = {}

                def named(t):
                    """the count that a counter equals"""
                    if t.get_id() not in known:
                        known[t.get_id()] = t, next((r for c, r in counts if e.valid(t.arg(0) == c)), None)
                    return known[t.get_id()][1]

                def normal(x):
                    """exponent with its counters named by the counts they equal"""
                    todo, sub, seen_terms = [x], [], set()
                    while todo:
                        t = todo.pop()
                        if t.get_id() in seen_terms:
                            continue
                        seen_terms.add(t.get_id())
                        if z3.is_app_of(t, z3.Z3_OP_TO_REAL) and not z3.is_int_value(t.arg(0)):
                            if named(t) is not None:
                                sub.append((t, named(t)))
                        else:
                            todo += t.children()
                    return z3.substitute(z3.substitute(x, *facts), *sub)
                args = [(normal(x), f) for x, f in used if not x.eq(lam)]
                # exp(x_k) = exp(w_k) C for all k with the same C = exp(x_k - w_k)
                C = z3.Real(e.fresh_name('scale'))
                which = None
                for x0, _ in args:
                    which = {}
                    for k in w:
                        hit = [f for x, f in args if nl_valid([], x - w[k] == x0 - w[1], 2000)]
                        if not hit:
                            which = None
                            break
                        which[k] = hit[0]
                    if which:
                        break
                if not which:
                    e.prove(False, 'update:threshold-distribution', 'the weights are not those of the posterior')
                    return
                sub = [(which[k], W[k] * C) for k in w]
                tot = z3.Sum(*W.values())
                pos = [C > 0] + [x > 0 for x in W.values()]
                for k in w:
                    pk = z3.substitute(ps[k - 1], *sub)
                    e.prove(nl_valid(pos, pk * tot == W[k]), 'update:threshold-distribution', 'threshold %d has another probability' % k)
            q.buf.hooks.append(hook)
            e.cover('pre')
            for o in e.getattr(layer, 'factors'):
                e.call(getf, [o], {})
            f = e.call(getf, [qm], {})
            before = freeze(e, g)
            e.draws = []
            e.call(f, [qm], {})
            q.buf.hooks.remove(hook)
            ix = [z3.IntVal(0), z3.Int(e.fresh_name('ix'))]
            e.assume(z3.And(ix[1] >= 0, ix[1] < D))
            e.prove(z_int(e.read(cnt, ix)) == 1, 'post:updates')
            for (oid, k), v in before.items():
                x = e.objs[oid].attrs.get(k, POISON)
                if x is not v and k != 'sampling_fct':
                    e.prove(bool(isnum(x) and isnum(v) and e.valid(z_any(x) == z_any(v))), 'frame:attribute-%s' % k)
            e.cover('end')
        return run
    route = dict(ROUTE, update=['C19'], domain=['C19'], pre=['C19'], post=['C19'], frame=['C07', 'C19'])
    Task('qL:thresholds', ['C19', 'C07'], build, contracts=lambda: {**contracts(), (MU, 'random_choice'): choice_contract}, route=route, kernel=True)


choice_task()
threshold_task()
