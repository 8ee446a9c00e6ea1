"""C10: inference records the states it sampled.  C07: inference leaves fixed matrices and parameters alone.

The sampling function of a matrix is used by its contract (C06): its t-th call of the sampling phase leaves the matrix with
contents V(t), arbitrary but in {-1,1}; the dispersion update (C09) likewise leaves the dispersion at W(t).  Burn-in is used by
its contract (C18): it leaves every sampled matrix and dispersion in an arbitrary state - an auto-clean may have replaced the
matrices by narrower ones - and nothing else changed.  infer() is proved to record V(1..S) and W(1..S)."""
from .base import *
from .dispersion import nl_valid
from .samplers import graph, MACH, WR, LW

AUX = 'lom.auxiliary_functions'


def state(e, o, name):
    return e.objs[o.oid].attrs.get(name)


def put(e, o, name, v):
    """ghost or real attribute, written as the program would"""
    e.setattr(o, name, v)


def sampled(e, mat):
    """contract of a sampling function"""
    n = e.getattr(mat, '__n')
    t = z3.simplify(z_int(n) + 1)
    a = e.getattr(mat, 'val')
    V = e.ghost['V'][mat.oid]
    if a.buf.ro:
        e.prove(False, 'frame:%s' % a.buf.name)
    e.set_content(a.buf, lambda ix: V(t, *[z_int(i) for i in ix]))
    put(e, mat, '__n', SV(t, 'int') if isz(t) else t)


def updated(e, p):
    """contract of a dispersion update"""
    n = e.getattr(p, '__n')
    t = z3.simplify(z_int(n) + 1)
    W = e.ghost['V'][p.oid]
    put(e, p, 'val', SV(W(t), 'f64'))
    put(e, p, '__n', SV(t, 'int') if isz(t) else t)


def sampling_contracts():
    def fct(what):
        def c(e, args, f):
            o = args[0]

            def run(e, *a):
                e.prove(len(a) == 1 and isinstance(a[0], Obj) and a[0] is o, 'pre:sampling', 'the update function of another object is called')
                what(e, o)
            return run
        return c
    return {(WR, 'get_sampling_fct'): fct(sampled), (LW, 'get_update_fct'): fct(updated)}


BURN = ['self', 'mats', 'lbdas', 'eps', 'convergence_window', 'burn_in_min', 'burn_in_max', 'print_step', 'fix_lbda_iters']


def burn_in(e, args, f):
    """contract of Machine.burn_in"""
    g = e.ghost['g']
    a = dict(zip([x.arg for x in f.node.args.args], args))
    mats, lbdas = e.to_list(a['mats']), e.to_list(a['lbdas'])
    e.prove(len(mats) == len(g['free']) and all(any(m is x for x in g['free']) for m in mats), 'pre:burn-in-matrices', 'matrices handed to burn_in')
    e.prove(len(lbdas) == len(g['free_lbdas']) and all(any(m is x for x in g['free_lbdas']) for m in lbdas), 'pre:burn-in-dispersions')
    for n, v in g['args'].items():
        w = a.get({'convergence_eps': 'eps'}.get(n, n))
        e.prove(isnum(w) and e.valid(z_real(w) == z_real(v)), 'burn-in-setting:' + n, '%s is not passed on to burn_in' % n)
    e.ghost['burned'] = True
    for o in g['free']:
        old = e.getattr(o, 'val')
        L = e.fresh('L_' + o.oid, 'int').t
        e.assume(L >= 0)
        V = z3.Function('V_' + o.oid, *([z3.IntSort()] * (old.ndim + 2)))
        e.ghost['V'][o.oid] = V
        arr = e.input_arr('B_' + o.oid, list(old.shape[:-1]) + [L], 'i8', -1, 1, nz=True)
        put(e, o, 'val', arr)
        put(e, o, '__n', 0)
        e.timed[('buf', arr.buf.id)] = lambda i, t, V=V: V(t, *[z_int(x) for x in i])
        g['now'][o.oid] = arr
        e.targets.append(((g['S'],) + tuple(arr.shape), lambda i, V=V: V(z_int(i[0]) + 1, *[z_int(x) for x in i[1:]]), ()))
    for o in g['free_lbdas']:
        W = z3.Function('W_' + o.oid, z3.IntSort(), z3.RealSort())
        e.ghost['V'][o.oid] = W
        put(e, o, 'val', e.fresh('burned_' + o.oid, 'f64'))
        put(e, o, '__n', 0)
        e.timed[('attr', o.oid, 'val')] = W
        e.targets.append(((g['S'],), lambda i, W=W: W(z_int(i[0]) + 1), ()))
        put(e, o, 'trace_index', 0)
        n = a['convergence_window']
        put(e, o, 'trace', e.new_arr((raw(n),), 'f32', lambda ix: z3.RealVal(0), 'trace'))
    put(e, g['machine'], 'burn_in_iters', e.fresh('burn_in_iters', 'int'))
    return None


def infer_task(tag, K, parents, fixed, lfixed):
    def build(eng):
        need(eng, MACH, 'Machine.infer')
        eng.top = 'Machine.infer'

        def run(e):
            g = graph(e, 'OR-AND', K, 0, parents)
            e.ghost['g'], e.ghost['V'] = g, {}
            g['now'] = {}
            m = g['machine']
            layers = [g['layer']] + [p[3] for p in g['parents']]
            mats = [f for l in layers for f in e.to_list(e.getattr(l, 'factors'))]
            lbdas = [e.getattr(l, 'lbda') for l in layers]
            for a in g['arrs']:
                a.buf.ro = False
            for _, pa, _, _ in g['parents']:
                for a in pa:
                    a.buf.ro = False
            for i, o in enumerate(mats):
                # an earlier inference may have left any trace position
                e.setattr(o, 'trace_index', e.fresh('ti', 'int', 0))
                if i in fixed:
                    e.setattr(o, 'fixed', True)
                    e.getattr(o, 'val').buf.ro = True
            for i, o in enumerate(lbdas):
                e.setattr(o, 'trace_index', e.fresh('ti', 'int', 0))
                if i in lfixed:
                    e.setattr(o, 'fixed', True)
            g['free'] = [o for i, o in enumerate(mats) if i not in fixed]
            g['free_lbdas'] = [o for i, o in enumerate(lbdas) if i not in lfixed]
            before = {o.oid: (e.getattr(o, 'val'), e.getattr(o, 'fixed')) for o in mats + lbdas + [g['data']]}
            S = e.fresh('S', 'int')
            e.assume(S.t >= 0)
            kw = {'no_samples': S}
            for n, k in (('convergence_window', 'int'), ('convergence_eps', 'f64'), ('burn_in_min', 'int'), ('burn_in_max', 'int'), ('print_step', 'int'), ('fix_lbda_iters', 'int')):
                kw[n] = e.fresh(n, k)
            e.assume(z3.And(kw['convergence_window'].t >= 2, kw['print_step'].t >= 1, kw['burn_in_min'].t >= 0, kw['fix_lbda_iters'].t >= 0))
            g['args'] = {k: v for k, v in kw.items() if k != 'no_samples'}
            g['S'] = S.t
            e.cover('pre')
            e.call(e.getattr(m, 'infer'), [], kw)
            e.cover('end')
            for o in g['free']:
                V, arr = e.ghost['V'][o.oid], g['now'][o.oid]
                now = e.getattr(o, 'val')
                e.prove(isinstance(now, Arr) and now.buf is arr.buf, 'post:current', 'the matrix is another array')
                ix = [z3.Int(e.fresh_name('ix')) for _ in arr.shape]
                t = z3.Int(e.fresh_name('t'))
                rng = z3.And(0 <= t, t < S.t, *[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, arr.shape)])
                tr = e.objs[o.oid].attrs.get('trace')
                if not isinstance(tr, Arr) or tr.ndim != arr.ndim + 1:
                    e.prove(False, 'post:trace', 'trace %r' % (tr,))
                    continue
                for a, b in zip(tr.shape, [S.t] + list(arr.shape)):
                    e.prove(z_int(a) == z_int(b), 'post:trace-shape')
                e.prove(z3.Implies(rng, z_int(e.read(tr, [t] + ix)) == V(t + 1, *ix)), 'post:trace', 'entry t of the trace is the matrix after its t-th update')
                e.prove(z3.Implies(rng, z_int(e.read(now, ix)) == V(S.t, *ix)), 'post:last', 'the last entry is the current value')
                e.prove(z_int(e.getattr(o, '__n')) == S.t, 'post:updates', 'number of updates')
            for o in g['free_lbdas']:
                W = e.ghost['V'][o.oid]
                t = z3.Int(e.fresh_name('t'))
                tr = e.objs[o.oid].attrs.get('trace')
                if not isinstance(tr, Arr) or tr.ndim != 1:
                    e.prove(False, 'post:trace', 'trace %r' % (tr,))
                    continue
                e.prove(z_int(tr.shape[0]) == S.t, 'post:trace-shape')
                e.prove(z3.Implies(z3.And(0 <= t, t < S.t), z_real(e.read(tr, [t])) == W(t + 1)), 'post:trace', 'entry t of the trace is the dispersion after its t-th update')
                e.prove(z3.Implies(S.t >= 1, z_real(e.getattr(o, 'val')) == W(S.t)), 'post:last')
            for o in mats + lbdas + [g['data']]:
                if o in g['free'] or o in g['free_lbdas']:
                    continue
                v, fx = before[o.oid]
                e.prove(e.getattr(o, 'val') is v, 'frame:fixed', 'the value of a fixed member is replaced')
        return run
    cs = dict(sampling_contracts())
    cs[MACH, 'Machine.burn_in'] = burn_in
    Task('infer:' + tag, ['C10'], build, contracts=cs, route={'frame': ['C07'], 'burn-in-setting': ['C18'], 'pre': ['C10']})


infer_task('2d', 2, [], (), ())
infer_task('3d', 3, [], (), ())
infer_task('2d:Z-fixed', 2, [], (0,), ())
infer_task('2d:lbda-fixed', 2, [], (), (0,))
infer_task('2d:all-fixed', 2, [], (0, 1), (0,))
infer_task('3d:U-V-fixed', 3, [], (1, 2), ())
infer_task('2d:parent', 2, ['XOR-AND'], (), ())
infer_task('2d:parent:fixed', 2, ['OR-NAND'], (1, 3), (1,))


def mean_task(nd):
    """mean() is the average of the trace over its first axis; without a trace it is the current value"""
    def build(eng):
        need(eng, MACH, 'Trace.mean')
        eng.top = 'Trace.mean'

        def run(e):
            m = e.call(need(e, MACH, 'Machine'), [], {})
            dims = []
            for i in range(nd):
                d = e.fresh('D%d' % i, 'int').t
                e.assume(d >= 0)
                dims.append(d)
            T = e.fresh('T', 'int').t
            e.assume(T >= 1)
            if nd:
                o = e.call(e.getattr(m, 'add_matrix'), [], {'val': e.input_arr('V', dims, 'i8', -1, 1, nz=True)})
            else:
                o = e.call(need(e, MACH, 'MachineParameter'), [], {'val': e.fresh('lbda', 'f64')})
            val = e.getattr(o, 'val')
            e.cover('pre')
            r0 = e.call(e.getattr(o, 'mean'), [], {})
            e.prove(r0 is val, 'post:no-trace', 'without a trace the mean is the current value')
            if nd:
                e.call(e.getattr(o, 'set_to_map'), [], {})
                now = e.getattr(o, 'val')
                ix = [z3.Int(e.fresh_name('ix')) for _ in dims]
                e.assume(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, dims)]))
                if not isinstance(now, Arr) or now.ndim != nd or now.k != 'i8':
                    e.prove(False, 'post:no-trace-map', 'value %r' % (now,))
                    return
                for a, b in zip(now.shape, dims):
                    e.prove(z_int(a) == b, 'post:no-trace-map')
                e.prove(z_int(e.read(now, ix)) == z_int(e.at(val, ix)), 'post:no-trace-map', 'without a trace set_to_map() keeps the state')
            # twice: a second inference may replace the trace, so the mean must not remember the first
            for run_no in ('', '2'):
                tr = e.input_arr('trace' + run_no, [T] + dims, *(('i8', -1, 1) if nd else ('f32',)), nz=bool(nd))
                tr.buf.ro = True
                e.setattr(o, 'trace', tr)
                e.setattr(o, 'trace_index', SV(T, 'int'))
                check(e, o, tr, T, dims, run_no)
            e.cover('end')

        def check(e, o, tr, T, dims, run_no):
            ix = [z3.Int(e.fresh_name('ix')) for _ in dims]
            e.assume(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, dims)]) if nd else z3.BoolVal(True))
            total = e.fold('trace-sum' + run_no, [], T, lambda t: (z_int if nd else z_real)(e.at(tr, [t] + ix)), 'sum' if nd else 'rsum')
            r = e.call(e.getattr(o, 'mean'), [], {})
            if nd:
                # lemma (induction over t): -t <= sum of the first t entries <= t
                e.push()
                t = z3.Int(e.fresh_name('t'))
                e.assume(z3.And(0 <= t, t < T, -t <= total(t), total(t) <= t))
                e.inst(total, (), t)
                e.prove(z3.And(-(t + 1) <= total(t + 1), total(t + 1) <= t + 1), 'lemma-step:bounds')
                e.pop()
                e.assume(z3.And(-T <= total.total(), total.total() <= T))
                if not isinstance(r, Arr) or r.ndim != nd:
                    e.prove(False, 'post:mean-shape', 'result %r' % (r,))
                    return
                for a, b in zip(r.shape, dims):
                    e.prove(z_int(a) == b, 'post:mean-shape')
                r = e.read(r, ix)
            tot = total.total()
            e.prove(z_real(r) * z3.ToReal(T) == (z3.ToReal(tot) if z3.is_int(tot) else tot), 'post:mean')
            if nd:
                # sums of T entries of {-1,1}
                m, n, x = z3.Reals('m n x')
                e.prove(nl_valid([m * n == x, n >= 1, -n <= x, x <= n], z3.And(m >= -1, m <= 1)), 'post:mean-range')
                # the sign of the mean becomes the value
                e.prove(nl_valid([m * n == x, n >= 1, m > 0], x > 0) and nl_valid([m * n == x, n >= 1, x > 0], m > 0), 'lemma-step:sign')
                e.assume((z_real(r) > 0) == (tot > 0))
                e.call(e.getattr(o, 'set_to_map'), [], {})
                now = e.getattr(o, 'val')
                if not isinstance(now, Arr) or now.ndim != nd or now.k != 'i8':
                    e.prove(False, 'post:map', 'value %r' % (now,))
                    return
                for a, b in zip(now.shape, dims):
                    e.prove(z_int(a) == b, 'post:map')
                e.prove(z_int(e.read(now, ix)) == z3.If(tot > 0, z3.IntVal(1), z3.IntVal(-1)), 'post:map', 'set_to_map() does not set the sign of the mean')
        return run
    Task('mean:%d' % nd, ['C10', 'C11'], build)


for _n in (0, 2, 3):
    mean_task(_n)
