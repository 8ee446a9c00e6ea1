"""C11: layer outputs by technique.

lom_generate_data_fast is used by its contract (tasks generate_fast:*, C02/C03), mean() by its own (tasks mean:*, C10:
the average over the trace, which lies in [-1,1] for a matrix, or the current value if there is no trace)."""
from .base import *
from . import apps
from .outputs import row, prove_array, snapshot
from .samplers import graph, MACH
from pyded import spec, npmodel

AUX = 'lom.auxiliary_functions'


def fast(e, args, fv):
    """contract of lom_generate_data_fast"""
    nm = 'lom_generate_data_fast'
    fs, model = list(e.to_list(args[0])), args[1] if len(args) > 1 else 'OR-AND'
    fuzzy = args[2] if len(args) > 2 else False
    if not isinstance(model, str) or not isinstance(fuzzy, bool):
        e.prove(False, 'pre:%s:arguments' % nm, 'model %r, fuzzy %r' % (model, fuzzy))
        raise Unsupported('argument of lom_generate_data_fast')
    e.prove(model in spec.MODELS, 'pre:%s:model' % nm, model)
    e.prove(len(fs) in (2, 3), 'pre:%s:factors' % nm)
    for f in fs:
        apps.need_arr(e, nm, f, 2)
    apps.same_len(e, nm, [f.shape[1] for f in fs])
    if fuzzy:
        for f in fs:
            ix = [z3.Int(e.fresh_name('ix')) for _ in f.shape]
            t = z_real(e.read(f, ix))
            e.prove(z3.Implies(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, f.shape)]), z3.And(t >= 0, t <= 1)), 'pre:%s:domain' % nm)
    else:
        for f in fs:
            ix = [z3.Int(e.fresh_name('ix')) for _ in f.shape]
            t = z_real(e.read(f, ix))
            e.prove(z3.Implies(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, f.shape)]), z3.Or(t == 1, t == -1)), 'pre:%s:domain' % nm)
    snap = [snapshot(f) for f in fs]
    app = apps.fuzzy if fuzzy else apps.product
    # an output is named by model, fuzziness and the factors it was computed from
    ix0 = lambda ix: app(e, model, [row(f, i) for f, i in zip(snap, ix)])
    if fuzzy:
        return e.new_arr([f.shape[0] for f in fs], 'f64', ix0, 'generated')
    return e.new_arr([f.shape[0] for f in fs], 'i8', ix0, 'generated', lo=-1, hi=1, nz=True)


def general_fuzzy(e, args, fv):
    """contract of lom_generate_data_fuzzy (tasks generate-fuzzy:*)"""
    nm = 'lom_generate_data_fuzzy'
    fs, model = list(e.to_list(args[0])), args[1] if len(args) > 1 else 'OR-AND'
    e.prove(model in spec.MODELS, 'pre:%s:model' % nm, model)
    e.prove(len(fs) in (2, 3), 'pre:%s:factors' % nm)
    for f in fs:
        apps.need_arr(e, nm, f, 2)
        e.prove(f.k in ('f64', 'i8'), 'pre:%s:dtype' % nm)
    apps.same_len(e, nm, [f.shape[1] for f in fs])
    for f in fs:
        ix = [z3.Int(e.fresh_name('ix')) for _ in f.shape]
        t = z_real(e.read(f, ix))
        e.prove(z3.Implies(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, f.shape)]), z3.And(t >= -1, t <= 1) if f.k == 'f64' else z3.Or(t == 1, t == -1)), 'pre:%s:domain' % nm)
    mapped = []
    for f in fs:
        s = snapshot(f)
        s.buf.base = s.buf.content
        mapped.append(e.new_arr(f.shape, 'f64', (lambda ix, s=s: (z_real(e.at(s, ix)) + 1) / 2), 'mapped'))
    return e.new_arr([f.shape[0] for f in fs], 'f64', lambda ix: 2 * apps.fuzzy(e, model, [row(f, i) for f, i in zip(mapped, ix)]) - 1, 'generated')


def mean(e, args, fv):
    """contract of Trace.mean"""
    o = args[0]
    tr = e.objs[o.oid].attrs.get('trace')
    if tr is None:
        return e.getattr(o, 'val')
    M = e.ghost['mean'].get(o.oid)
    if M is None:
        e.prove(False, 'pre:mean', 'mean of another object')
        raise Unsupported('mean of another object')
    return M


def output_task(model, K, technique, noisy, probs, traced, ibp=False, again=False):
    def build(eng):
        need(eng, MACH, 'MachineLayer.output')
        eng.top = 'MachineLayer.output'

        def run(e):
            g = graph(e, model if not ibp else 'OR-AND', K, 0, [])
            lay, dims, L = g['layer'], g['dims'], g['L']
            if ibp:
                e.setattr(lay, 'model', 'OR-AND-IBP')
            for a in g['arrs']:
                a.buf.ro = True
            T = e.fresh('T', 'int').t
            e.assume(T >= 1)
            e.cover('pre')
            check(e, g, lay, dims, L, T, '')
            if again:
                # the state moves on (in place, as the samplers do) and inference replaces the traces: nothing may be remembered
                for i, a in enumerate(g['arrs']):
                    b = e.input_arr('F%d' % i + 'again', a.shape, 'i8', -1, 1, nz=True)
                    a.buf.base = None
                    e.set_content(a.buf, b.buf.content)
                g['lam'] = e.fresh('lbda_again', 'f64')
                e.setattr(e.getattr(lay, 'lbda'), 'val', g['lam'])
                ctx, e.ctx = e.ctx, e.ctx + ('again',)      # loops of the second call have their own invariants
                check(e, g, lay, dims, L, T, 'again')
                e.ctx = ctx
            e.prove(e.getattr(lay, 'model') == (model if not ibp else 'OR-AND-IBP'), 'post:model-kept')
            e.cover('end')

        def check(e, g, lay, dims, L, T, no):
            lbda = e.getattr(lay, 'lbda')
            e.ghost['mean'] = {}
            lmean = z_real(g['lam'])
            traces, means = [], []
            if traced:
                for i, f in enumerate(g['factors']):
                    tr = e.input_arr('T%d' % i + no, [T, dims[i], L], 'i8', -1, 1, nz=True)
                    tr.buf.ro = True
                    e.setattr(f, 'trace', tr)
                    M = e.input_arr('M%d' % i + no, [dims[i], L], 'f64', einv=lambda t: z3.And(t >= -1, t <= 1))
                    M.buf.ro = True
                    e.ghost['mean'][f.oid] = M
                    traces.append(tr)
                    means.append(M)
                e.setattr(lbda, 'trace', e.input_arr('Tl' + no, [T], 'f32'))
                lmean = e.fresh('lbda_mean', 'f64')
                e.ghost['mean'][lbda.oid] = lmean
            else:
                means = g['arrs']

            def crisp(fs):
                return lambda ix: apps.product(e, model, [row(f, i) for f, i in zip(fs, ix)])
            if technique == 'point_estimate':
                sign = crisp(g['arrs'])
                p = lambda ix: z3.If(sign(ix) == 1, z3.RealVal(1), z3.RealVal(0))
            elif technique == 'factor_map':
                rounded = [e.new_arr(m.shape, 'i8', (lambda ix, m=m: z3.If(z_real(e.at(m, ix)) > 0, z3.IntVal(1), z3.IntVal(-1))), 'rounded', lo=-1, hi=1, nz=True)
                           for m in means]
                sign = crisp(rounded)
                p = lambda ix: z3.If(sign(ix) == 1, z3.RealVal(1), z3.RealVal(0))
            elif technique in ('factor_mean', 'factor_mean_old'):
                mapped = [e.new_arr(m.shape, 'f64', (lambda ix, m=m: (z_real(e.at(m, ix)) + 1) / 2), 'mapped') for m in means]
                p = lambda ix: apps.fuzzy(e, model, [row(f, i) for f, i in zip(mapped, ix)])
            else:
                F = e.fold('samples' + no, dims, T, lambda *a: z3.ToReal(apps.product(e, model, [row(t, a[-1], i) for t, i in zip(traces, a)])), 'rsum')
                e.accs.append((tuple(dims), F))
                p = lambda ix: (F.total(*ix) / z3.ToReal(T) + 1) / 2
            r = e.call(e.getattr(lay, 'output'), [], dict(technique=technique, noisy_emission=noisy, map_to_probabilities=probs))
            s = z_real(npmodel.ufunc(e, 'expit', lmean if isnum(lmean) else SV(lmean, 'f64')))

            def want(ix):
                v = p(ix)
                if noisy:
                    v = v * s + (1 - v) * (1 - s)
                return v if probs else 2 * v - 1
            prove_array(e, r, dims, None, want)
        return run
    Task('layer-output:%s:%d:%s%s%s%s%s%s' % (model, K, technique, ':noisy' if noisy else '', '' if probs else ':signed', '' if traced else ':untraced', ':ibp' if ibp else '', ':again' if again else ''),
         ['C11'], build, contracts={(AUX, 'lom_generate_data_fast'): fast, (AUX, 'lom_generate_data_fuzzy'): general_fuzzy, (MACH, 'Trace.mean'): mean})


TECH = ('point_estimate', 'factor_map', 'factor_mean', 'factor_mean_old', 'mc')
for _m in spec.MODELS:
    for _K in (2, 3):
        for _t in TECH:
            for _o in ((False, True), (True, False)) if _m != 'OR-AND' else ((False, True), (True, False), (True, True), (False, False)):
                output_task(_m, _K, _t, _o[0], _o[1], True)
for _t in TECH[:4]:
    output_task('OR-AND', 2, _t, True, True, False)
for _t in TECH:
    output_task('OR-AND', 2, _t, True, True, True, ibp=True)
    output_task('OR-AND', 2, _t, True, True, True, again=True)
output_task('OR-AND', 2, 'factor_map', True, True, False, again=True)
