"""C09: dispersion updates.  The counter of correct predictions by contract; the update as a postcondition."""
from .base import *
from . import apps
from .apps import LU, ident
from .outputs import row
from .samplers import graph, earlier, freeze, LW
from pyded.engine import POISON
from pyded import npmodel


def nested_count(e, name, dims, ind):
    """number of index tuples with ind(idx): nested ghost folds; returns (term, inner folds)"""
    inner = e.fold(name + '%d' % (len(dims) - 1), dims[:-1], dims[-1], lambda *a: z3.If(ind(list(a)), z3.IntVal(1), z3.IntVal(0)))
    fs = [inner]
    for k in range(len(dims) - 2, -1, -1):
        prev = fs[-1]
        fs.append(e.fold(name + '%d' % k, dims[:k], dims[k], lambda *a, prev=prev: prev.total(*a), kind='sum'))
        fs[-1].nonneg = True
    return fs


def sum_bound(e, fs, gs, dims, size):
    """lemma (induction over each loop level): count(F) + count(G) <= number of index tuples, for disjoint indicators"""
    bound = z3.IntVal(1)
    for lev, (f, g) in enumerate(zip(fs, gs)):
        n = z_int(f.length)
        ps = [z3.Int(e.fresh_name('lp')) for _ in f.pdims]
        i = z3.Int(e.fresh_name('li'))
        e.push()
        rng = [z3.And(p >= 0, p < z_int(d)) for p, d in zip(ps + [i], list(f.pdims) + [n])]
        e.assume(z3.And(*rng))
        if lev:
            # induction hypothesis of the level below, already established for arbitrary parameters
            e.assume(fs[lev - 1].total(*ps, i) + gs[lev - 1].total(*ps, i) <= bound)
            e.assume(z3.And(fs[lev - 1].total(*ps, i) >= 0, gs[lev - 1].total(*ps, i) >= 0))
        ft, gt = z_int(f.term(*ps, i)), z_int(g.term(*ps, i))
        e.prove(z3.And(ft >= 0, gt >= 0, ft + gt <= bound), 'lemma-step:%d' % lev)
        e.pop()
        bound = z3.simplify(bound * z3.If(n >= 0, n, z3.IntVal(0)))
    e.assume(z3.And(fs[-1].total() >= 0, gs[-1].total() >= 0))
    # the size term is the same product of non-negative dimensions
    b = z3.IntVal(1)
    for d in dims:
        b = b * z_int(d)
    e.assume(fs[-1].total() + gs[-1].total() <= b)
    return b


def nl_valid(hyps, goal, timeout=20000):
    """validity over the reals, integer subterms and applications abstracted by real variables"""
    memo = {}

    def go(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return z3.RealVal(t.as_fraction()) if z3.is_rational_value(t) else z3.RealVal(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return go(t.arg(0))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
            c = [go(x) for x in t.children()]
            if k == z3.Z3_OP_DIV:
                return c[0] / c[1]
            if k == z3.Z3_OP_UMINUS:
                return -c[0]
            r = c[0]
            for x in c[1:]:
                r = r + x if k == z3.Z3_OP_ADD else (r - x if k == z3.Z3_OP_SUB else r * x)
            return r
        if z3.is_bool(t):
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
                c = [go(x) for x in t.children()]
                return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies}[k](*c)
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and not z3.is_bool(t.arg(0)):
                a, b = go(t.arg(0)), go(t.arg(1))
                return {z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_GE: lambda: a >= b,
                        z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GT: lambda: a > b}[k]()
            return z3.Bool('ab!%d' % memo.setdefault(t.get_id(), len(memo)))
        return z3.Real('ar!%d' % memo.setdefault(t.get_id(), len(memo)))
    s = z3.Solver()
    s.set('timeout', timeout)
    for h in hyps:
        s.add(go(h))
    s.add(z3.Not(go(goal)))
    return s.check() == z3.unsat


def finish_update(e, g, getf, P, Q, dims):
    """run the dispersion update of the layer and prove max(0, logit of the smoothed accuracy), P counting the agreeing and Q the missing data"""
    lbda = e.getattr(g['layer'], 'lbda')
    a, b = e.fresh('alpha', 'f64'), e.fresh('beta', 'f64')
    e.assume(z3.And(a.t > 0, b.t > 0))
    e.inputs.update(alpha=a, beta=b)
    e.setattr(lbda, 'beta_prior', (a, b))
    e.cover('pre')
    size = sum_bound(e, P, Q, dims, None)
    nd = z3.ToReal(size - Q[-1].total())
    p = z3.ToReal(P[-1].total())
    f = earlier(e, g, getf, lbda)
    before = freeze(e, g)
    e.call(f, [lbda], {})
    val = e.getattr(lbda, 'val')
    e.prove(isnum(val), 'post-scalar')
    # max(0, log r) with r = (P + alpha) / (ND - P + beta)
    r = z3.Real(e.fresh_name('ratio'))
    hy = [p + a.t > 0, nd - p + b.t > 0, r * (nd - p + b.t) == p + a.t, r > 0]
    e.assume(z3.And(*hy))
    lg = npmodel.real_fn('log')(r)
    e.assume(z3.Implies(r >= 1, lg >= 0))
    e.assume(z3.Implies(r < 1, lg < 0))
    apl = list(e.apps.get('log', []))
    for t, ft in apl:
        if nl_valid(hy, t * r == 1):
            e.assume(ft == -lg)
        elif nl_valid(hy, t == r):
            e.assume(ft == lg)
        else:
            for t2, ft2 in apl:
                if not t2.eq(t) and nl_valid(hy, t == r * t2):
                    e.assume(ft - ft2 == lg)
    e.prove(z_real(val) == z3.If(lg >= 0, lg, z3.RealVal(0)), 'post')
    for (oid, k), v in before.items():
        w = e.objs[oid].attrs.get(k, POISON)
        if w is not v and (oid, k) != (lbda.oid, 'val') and k != 'sampling_fct':
            ok = isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))
            e.prove(bool(ok), 'frame:attribute-%s' % k)
    e.cover('end')


def update_task(model, K, props=()):
    def build(eng):
        getf = need(eng, LW, 'get_update_fct')
        eng.top = 'get_update_fct'

        def run(e):
            g = graph(e, model, K, 0, [])
            Z = g['Z']
            Z.buf.ro = True
            X, dims = g['X'], g['dims']
            xs = lambda ix: z_int(e.at(X, ix))
            P = nested_count(e, 'agree', dims, lambda ix: apps.product(e, model, [row(a, i) for a, i in zip(g['arrs'], ix)]) == xs(ix))
            Q = nested_count(e, 'missing', dims, lambda ix: xs(ix) == 0)
            finish_update(e, g, getf, P, Q, dims)
        return run
    Task('dispersion:%s:%d' % (model, K), ['C09', 'C07', 'C08'] + list(props), build, contracts=apps.products, kernel=True,
         route={'frame': ['C07'] + list(props), 'race-free': ['C08'], 'index-bounds': ['C09', 'C21']})


for _m in spec.MODELS:
    for _K in (2, 3):
        update_task(_m, _K)
update_task('OR-AND-IBP', 2, ['C20'])
