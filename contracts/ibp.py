"""C20: an update of the OR-AND-IBP model keeps the factors consistent.

The sampler obtained from get_sampling_fct for the first factor is verified as it is, with its own loops: the factors are
rebound to arrays with other numbers of columns in every iteration, so the loop heads know them only by the invariants
inferred for them (pyded/loops.py, rebound arrays)."""
from .base import *
from . import apps
from .samplers import graph, freeze, WR, MU, MACH, sampler_contracts, earlier, sweep_task
from pyded.engine import POISON

IBP = 'OR-AND-IBP'


def bernoulli_contract(e, args, fv):
    """flip_gibbs_numba(p) (task flip:gibbs): 1 or -1"""
    p, = args
    v = e.fresh('drawn', 'int', -1, 1, True)
    return v


def update_task(alpha):
    def build(eng):
        getf = need(eng, WR, 'get_sampling_fct')
        eng.top = 'get_sampling_fct'

        def run(e):
            g = graph(e, IBP, 2, 0, [])
            lay = g['layer']
            Z, U = g['arrs']
            U.buf.ro = False
            if alpha:
                al = e.fresh('alpha', 'f64')
                e.assume(al.t > 0)
                e.inputs['alpha'] = al
                e.setattr(lay, 'alpha', al)
            q = e.fresh('q', 'f64')
            e.assume(z3.And(q.t > 0, q.t < 1))
            e.inputs['q'] = q
            e.setattr(g['factors'][1], 'bernoulli_prior', q)
            e.cover('pre')
            f = e.inline(getf, [g['mat']], {})
            before = freeze(e, g)
            e.call(f, [g['mat']], {})
            z, u = g['factors']
            got = {}
            for o, nm, rows in ((z, 'z', g['dims'][0]), (u, 'u', g['dims'][1])):
                for at in ('val', 'fixed_entries'):
                    a = e.getattr(o, at)
                    ok = isinstance(a, Arr) and a.ndim == 2 and a.k == 'i8'
                    e.prove(bool(ok), 'post:%s-%s-array' % (nm, at))
                    if not ok:
                        return
                    got[nm, at] = a
                    e.prove(z_int(a.shape[0]) == rows, 'post:%s-%s-rows' % (nm, at))
                    e.prove(z_int(a.shape[1]) == z_int(got['z', 'val'].shape[1]), 'post:%s-%s-columns' % (nm, at))
                    e.push()
                    ix = [z3.Int(e.fresh_name('ix')) for _ in range(2)]
                    e.assume(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, a.shape)]))
                    x = z_int(e.read(a, ix))
                    e.prove(z3.Or(x == 1, x == (-1 if at == 'val' else 0)), 'post:%s-%s-domain' % (nm, at))
                    e.pop()
            for (oid, k), v in before.items():
                w = e.objs[oid].attrs.get(k, POISON)
                if w is v or k in ('val', 'fixed_entries') and oid in (z.oid, u.oid):
                    continue
                e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)
            e.cover('end')
        return run
    def contracts():
        d = sampler_contracts()
        d[MU, 'flip_gibbs_numba'] = bernoulli_contract
        return d
    Task('ibp:update:%s' % ('given' if alpha else 'default'), ['C20'], build, contracts=contracts, opts={'rebound': True})


update_task(True)
update_task(False)
sweep_task(IBP, 2, 1, [], 'quick', ['C20'])


# ---- traces
TR = 'Trace.'


def factor(e):
    """a factor of an OR-AND-IBP layer, with N rows and L columns"""
    g = graph(e, IBP, 2, 0, [])
    for a in g['arrs'] + g['masks']:
        a.buf.ro = True
    return g


def allocate_task():
    def build(eng):
        eng.top = 'Trace.allocate_trace_arrays_IBP'
        need(eng, MACH, 'Trace')

        def run(e):
            g = factor(e)
            S = e.fresh('S', 'int', 0)
            e.inputs['S'] = S
            e.assume(S.t >= 0)
            e.cover('pre')
            before = freeze(e, g)
            m = g['mat']
            e.call(e.getattr(m, 'allocate_trace_arrays_IBP'), [S], {})
            tr = e.objs[m.oid].attrs.get('trace')
            ok = isinstance(tr, Arr) and tr.ndim == 3 and tr.k == 'i8'
            e.prove(bool(ok), 'post:trace', 'the trace is no int8 array of three dimensions')
            if not ok:
                return
            N, L = g['Z'].shape
            e.prove(z3.And(z_int(tr.shape[0]) == S.t, z_int(tr.shape[1]) == z_int(N), z_int(tr.shape[2]) >= z_int(L)), 'post:trace-shape')
            ix = [z3.Int(e.fresh_name('ix')) for _ in range(3)]
            e.assume(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, tr.shape)]))
            e.prove(z_int(e.read(tr, ix)) == -1, 'post:trace-empty')
            unchanged(e, before, m)
            e.cover('end')
        return run
    Task('ibp:allocate', ['C20'], build, route={'frame': ['C20']})


def unchanged(e, before, m):
    for (oid, k), v in before.items():
        w = e.objs[oid].attrs.get(k, POISON)
        if w is not v and (oid, k) not in ((m.oid, 'trace'), (m.oid, 'trace_index')):
            e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)


def record_task():
    def build(eng):
        eng.top = 'Trace.update_trace_IBP'
        need(eng, MACH, 'Trace')

        def run(e):
            g = factor(e)
            m = g['mat']
            N, L = (z_int(d) for d in g['Z'].shape)
            S, W, t = (e.fresh(nm, 'int', 0) for nm in ('S', 'W', 't'))
            e.inputs.update(S=S, W=W, t=t)
            e.assume(z3.And(W.t >= 0, t.t >= 0, t.t < S.t))
            T = e.input_arr('trace', [S.t, N, W.t], 'i8', -1, 1, nz=True)
            # entries not yet recorded are empty
            base = T.buf.content
            T.buf.content = T.buf.base = lambda i: z3.If(z_int(i[0]) < t.t, base(i), z3.IntVal(-1))
            e.setattr(m, 'trace', T)
            e.setattr(m, 'trace_index', t)
            e.cover('pre')
            before = freeze(e, g)
            e.call(e.getattr(m, 'update_trace_IBP'), [], {})
            tr = e.objs[m.oid].attrs.get('trace')
            ok = isinstance(tr, Arr) and tr.ndim == 3 and tr.k == 'i8'
            e.prove(bool(ok), 'post:trace', 'the trace is no int8 array of three dimensions')
            if not ok:
                return
            w = z_int(tr.shape[2])
            e.prove(z3.And(z_int(tr.shape[0]) == S.t, z_int(tr.shape[1]) == N, w >= L, w >= W.t), 'post:trace-shape')
            s, n, c = ix = [z3.Int(e.fresh_name('ix')) for _ in range(3)]
            e.assume(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, tr.shape)]))
            old = z3.If(c < W.t, z_int(e.at(T, ix)), z3.IntVal(-1))
            now = z3.If(c < L, z_int(e.at(g['Z'], [n, c])), z3.IntVal(-1))
            e.prove(z_int(e.read(tr, ix)) == z3.If(s == t.t, now, old), 'post:trace', 'the factor is recorded at its place, padded with -1')
            ti = e.getattr(m, 'trace_index')
            e.prove(z_int(ti) == t.t + 1, 'post:trace-index')
            unchanged(e, before, m)
            e.cover('end')
        return run
    Task('ibp:record', ['C20'], build, route={'frame': ['C20']})


allocate_task()
record_task()
