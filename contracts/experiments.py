"""C22: predictive experiments and random tensors.

Machine.infer is used by a contract - it leaves every factor and the dispersion in an arbitrary state of the same shape
(tasks infer:*, C10) - MachineLayer.output by its own (tasks output:*, C11: 'factor_mean' yields a probability for every entry)
and mean() by the one of C10.  What the experiment hands to the machine, when, and how it scores the outcome is proved here."""
from .base import *
from .dispersion import nested_count
from .splits import sizes
from .samplers import MACH
from .equiv import equivalent
from fractions import Fraction
from pyded import spec

AUX = 'lom.auxiliary_functions'
EXP = 'lom.experiments'


def arguments(f, args):
    names = [x.arg for x in f.node.args.args]
    return dict(zip(names, args))


def infer(e, args, f):
    """contract of Machine.infer; proves what the machine has been given"""
    g = e.ghost['g']
    a = arguments(f, args)
    m = a['self']
    lays = e.to_list(e.getattr(m, 'layers'))
    e.prove('layer' not in g, 'pre:trained-once', 'the machine is trained repeatedly')
    e.prove(len(lays) == 1, 'pre:one-layer', '%d layers' % len(lays))
    lay = lays[0]
    data = e.getattr(lay, 'child')
    inv = e.getattr(lay, 'invert_data')
    new = e.getattr(lay, 'model')
    e.prove(new in spec.MODELS and isinstance(inv, bool), 'pre:model', 'layer of model %r' % (new,))
    e.prove(e.valid(z_bool(e.truth(e.getattr(data, 'fixed')))), 'post:data-fixed', 'the training data are sampled')
    equivalent(e, g['machine'], new, inv, e.getattr(lay, 'invert_factors'), 2)
    now = e.getattr(data, 'val')
    e.prove(isinstance(now, Arr) and now.ndim == len(g['dims']), 'post:training-data')
    ix = [z3.Int(e.fresh_name('i')) for _ in g['dims']]
    rng = z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, g['dims'])])
    for s, d in zip(now.shape, g['dims']):
        e.prove(z_int(s) == d, 'post:training-data-shape')
    e.prove(z3.Implies(rng, z_int(e.read(now, ix)) == (-1 if inv else 1) * g['train'](ix)), 'post:training-data',
            'the machine is trained on the training data (inverted exactly if the model is replaced by one of inverted data)')
    fs = e.to_list(e.getattr(lay, 'factors'))
    for fac, d in zip(fs, g['dims']):
        v = e.getattr(fac, 'val')
        e.prove(z_int(v.shape[0]) == d, 'post:factor-rows')
        e.prove(z_int(v.shape[1]) == g['L'], 'post:latent-size', 'number of latent dimensions')
        e.prove(not e.valid(z_bool(e.truth(e.getattr(fac, 'fixed')))), 'post:factors-free', 'a factor is fixed')
    lb = e.getattr(lay, 'lbda')
    e.prove(not e.valid(z_bool(e.truth(e.getattr(lb, 'fixed')))), 'post:dispersion-free', 'the dispersion is fixed')
    lv = e.getattr(lb, 'val')
    e.prove(isnum(lv) and (g['lam'] is None or e.valid(z_real(lv) == z_real(g['lam']))), 'post:initial-dispersion', 'initial dispersion')
    ann = e.getattr(m, 'anneal')
    e.prove(ann is g['anneal'], 'post:annealing', 'anneal is %r' % (ann,))
    if g['anneal']:
        e.prove(e.valid(z3.And(z_int(a.get('burn_in_min', 30)) >= 1, z_int(a.get('fix_lbda_iters', 0)) == 0)), 'pre:annealing')
    e.prove(e.valid(z_int(a.get('no_samples', 50)) >= 1), 'pre:samples')
    g['layer'] = lay
    g['means'] = []
    for k, fac in enumerate(fs):
        v = e.getattr(fac, 'val')
        e.setattr(fac, 'val', e.input_arr('S%d' % k, list(v.shape), 'i8', -1, 1, nz=True))
        M = e.input_arr('M%d' % k, list(v.shape), 'f64')
        e.setattr(fac, '__mean', M)
        g['means'].append(M)
    e.setattr(lb, 'val', e.fresh('lbda_post', 'f64'))
    return None


def mean(e, args, f):
    """contract of Trace.mean"""
    M = e.objs[args[0].oid].attrs.get('__mean')
    if M is None:
        e.prove(False, 'pre:mean', 'mean without samples')
        raise Unsupported('mean without samples')
    return M


def output(e, args, f):
    """contract of MachineLayer.output"""
    g = e.ghost['g']
    a = arguments(f, args)
    e.prove(g.get('layer') is a['self'], 'pre:output-trained', 'output of an untrained layer')
    t = a.get('technique', 'factor_map')
    e.prove(t in g['P'], 'post:technique', 'technique %r' % (t,))
    e.prove(a.get('noisy_emission', False) is False, 'post:no-emission-noise')
    e.prove(a.get('map_to_probabilities', True) is True, 'post:probabilities')
    return g['P'][t]


def predictive_task(machine, K, anneal, back, kind):
    def build(eng):
        fv = need(eng, EXP, 'LOM_predictive')
        eng.top = 'LOM_predictive'

        def run(e):
            dims = sizes(e, K)
            L = e.fresh('L', 'int').t
            e.assume(L >= 1)
            X = e.input_arr('X', dims, kind, -1, 1)
            T = e.input_arr('X_train', dims, kind, -1, 1)
            mask = e.input_arr('mask', dims, 'b1')
            for a in (X, T, mask):
                a.buf.ro = True
            P = e.input_arr('P', dims, 'f64', einv=lambda t: z3.And(t >= 0, t <= 1))
            P.buf.ro = True
            lam = e.fresh('lbda', 'f64')
            e.assume(lam.t > 0)
            g = e.ghost['g'] = {'dims': dims, 'L': L, 'train': lambda ix: z_int(e.at(T, ix)), 'lam': lam, 'anneal': anneal, 'machine': machine, 'P': {'factor_mean': P}}
            # data of a model with inverted output agree where the model's own output is -1
            inv = machine not in spec.MODELS
            x = lambda ix: z_int(e.at(X, ix)) == (-1 if inv else 1)
            hit = lambda ix: z3.And(z_bool(e.at(mask, ix)), z3.Not(z3.Xor(z_real(e.at(P, ix)) > z3.RealVal('1/2'), x(ix))))
            A = nested_count(e, 'agree', dims, hit)[-1].total()
            N = nested_count(e, 'tested', dims, lambda ix: z_bool(e.at(mask, ix)))[-1].total()
            e.assume(N >= 1)
            e.cover('pre')
            r = e.inline(fv, [[X, T, mask, machine, SV(L, 'int'), 0, lam, anneal]] + ([] if back is None else [back]), {})
            e.cover('end')
            r = list(e.to_list(r))
            if back is not False:
                e.prove(len(r) == 2, 'post:result', '%d parts' % len(r))
                ms = list(e.to_list(r[1]))
                e.prove(len(ms) == K and all(a is b for a, b in zip(ms, g['means'])), 'post:factor-means')
                r = list(e.to_list(r[0]))
            e.prove(len(r) == 3 and r[1] == machine, 'post:result', 'model %r' % (r[1:2],))
            e.prove(isnum(r[2]) and e.valid(z_int(r[2]) == L), 'post:size')
            e.prove(isnum(r[0]) and 'layer' in g, 'post:accuracy')
            e.prove(z_real(r[0]) * z3.ToReal(N) == z3.ToReal(A), 'post:accuracy', 'fraction of the test entries that are predicted')
        return run
    cs = {(MACH, 'Machine.infer'): infer, (MACH, 'Trace.mean'): mean, (MACH, 'MachineLayer.output'): output}
    Task('predictive:%s:%d%s%s:%s' % (machine, K, ':anneal' if anneal else '', {True: '', False: ':short', None: ':default'}[back], kind), ['C22'], build, contracts=cs,
         route={'frame': ['C22'], 'pre': ['C22']})


INVERTED = ['NOR-AND', 'NOR-NAND', 'NOR-XOR', 'AND-XOR', 'NXOR-NAND', 'NXOR-AND', 'NXOR-NXOR', 'NXOR-XOR']
for _m in spec.MODELS + INVERTED:
    predictive_task(_m, 2, _m in INVERTED[::2], True, 'i8')
for _m in ('OR-AND', 'AND-XOR'):
    predictive_task(_m, 3, False, None, 'i8')
    predictive_task(_m, 2, True, False, 'i64')


def reconstruct_task(kind, layer):
    """tensorm_reconstruct: an OR-AND machine of the data, mapped to {-1,1} exactly if they are coded {0,1}"""
    def build(eng):
        fv = need(eng, EXP, 'tensorm_reconstruct')
        eng.top = 'tensorm_reconstruct'

        def run(e):
            dims = sizes(e, 3)
            L = e.fresh('L', 'int').t
            e.assume(L >= 1)
            X = e.input_arr('X', dims, kind, *((0, 1) if kind == 'b1' else (-1, 1)))
            X.buf.ro = True
            val = lambda ix: z3.If(z_bool(e.at(X, ix)), z3.IntVal(1), z3.IntVal(0)) if kind == 'b1' else z_int(e.at(X, ix))
            other = nested_count(e, 'other', dims, lambda ix: z3.And(val(ix) != 0, val(ix) != 1))[-1].total()
            P = {t: e.input_arr(t, dims, 'f64') for t in ('factor_mean', 'factor_map')}
            for a in P.values():
                a.buf.ro = True
            g = e.ghost['g'] = {'dims': dims, 'L': L, 'lam': None, 'anneal': False, 'machine': 'OR-AND', 'P': P,
                                'train': lambda ix: z3.If(other == 0, 2 * val(ix) - 1, val(ix))}
            e.cover('pre')
            r = e.inline(fv, [X, SV(L, 'int')], {'return_layer': True} if layer else {})
            e.cover('end')
            e.prove('layer' in g, 'post:trained', 'the machine is not trained')
            if layer:
                e.prove(r is g['layer'], 'post:layer')
                return
            r = list(e.to_list(r))
            e.prove(len(r) == 3, 'post:result')
            e.prove(alike(e, r[0], P['factor_mean']) and alike(e, r[2], P['factor_map']), 'post:reconstruction')
            ms = list(e.to_list(r[1]))
            e.prove(len(ms) == 3 and all(a is b for a, b in zip(ms, g['means'])), 'post:factor-means')
        return run
    cs = {(MACH, 'Machine.infer'): infer, (MACH, 'Trace.mean'): mean, (MACH, 'MachineLayer.output'): output}
    Task('reconstruct:%s%s' % (kind, ':layer' if layer else ''), ['C22'], build, contracts=cs, route={'frame': ['C22'], 'pre': ['C22']})


reconstruct_task('i8', False)
reconstruct_task('b1', False)
reconstruct_task('i64', True)


def boolprod(e, args, f):
    """contract of boolean_tensor_product (task boolean_tensor_product, C02)"""
    nm = 'pre:boolean_tensor_product'
    fs = list(args)
    for a in fs:
        e.prove(isinstance(a, Arr) and a.ndim == 2 and a.k == 'b1', nm + ':factors', 'factors of the product')
    for a in fs[1:]:
        e.prove(z_int(a.shape[1]) == z_int(fs[0].shape[1]), nm + ':width')
    r = e.new_arr([a.shape[0] for a in fs], 'b1', lambda ix, F=z3.Function(e.fresh_name('bp'), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort()): F(*[z_int(i) for i in ix]), 'product')
    r.buf.ro = True
    e.ghost['products'].append((fs, r))
    for a in fs:
        a.buf.ro = True         # part of the result: unchanged from here on
    return r


def alike(e, a, b):
    """arrays of equal shape and contents"""
    if not (isinstance(a, Arr) and a.ndim == b.ndim and a.k == b.k):
        return False
    ix = [z3.Int(e.fresh_name('ix')) for _ in b.shape]
    rng = z3.And(*[z3.And(i >= 0, i < z_int(s)) for i, s in zip(ix, b.shape)])
    if not e.valid(z3.And(*[z_int(s) == z_int(t) for s, t in zip(a.shape, b.shape)])):
        return False
    x, y = e.read(a, ix), e.read(b, ix)
    same = z_bool(x) == z_bool(y) if b.k == 'b1' else z_real(x) == z_real(y)
    return a.buf is b.buf or e.valid(z3.Implies(rng, same))


def bernoulli(e, args, f):
    """contract of add_bernoulli_noise (task add_bernoulli_noise:b1, C15)"""
    a = arguments(f, args)
    X, p = a['X'], a['p']
    e.prove(isinstance(X, Arr) and X.ndim == 3 and X.k == 'b1', 'pre:add_bernoulli_noise')
    r = e.new_arr(X.shape, 'b1', lambda ix, F=z3.Function(e.fresh_name('noisy'), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort()): F(*[z_int(i) for i in ix]), 'noisy')
    r.buf.ro = True
    e.ghost['noisy'].append(([q for _, q in e.ghost['products'] if alike(e, X, q)], p, r))
    return r


def tensor_task(default):
    def build(eng):
        fv = need(eng, EXP, 'generate_random_tensor')
        eng.top = 'generate_random_tensor'

        def run(e):
            dims = sizes(e, 3)
            L = e.fresh('L', 'int')
            e.assume(L.t >= 1)
            noise, dens = e.fresh('noise', 'float'), e.fresh('density', 'float')
            e.assume(z3.And(dens.t > 0, dens.t < 1))
            e.ghost['products'], e.ghost['noisy'] = [], []
            e.cover('pre')
            dd = tuple(SV(d, 'int') for d in dims)
            if default:
                r = e.inline(fv, [L, dd], {})
                half = Fraction(1, 2)
            else:
                r = e.inline(fv, [L, dd], {'noise': noise, 'density': dens})
                half = dens
            e.cover('end')
            r = list(e.to_list(r))
            e.prove(len(r) == 4, 'post:result', '%d parts' % len(r))
            Xn, X, fs, d = r
            fs = list(e.to_list(fs))
            e.prove(len(fs) == 3 and all(isinstance(a, Arr) and a.ndim == 2 and a.k == 'b1' for a in fs), 'post:factors')
            one = lambda n: e.binop('/', 1, n)
            want = e.power(e.binop('-', 1, e.power(e.binop('-', 1, half), one(L))), one(3))
            e.prove(isnum(d) and e.valid(z_real(d) == z_real(want)), 'post:factor-density', 'expected density of the factors')
            # the product of three such factors has the requested density, for L dimensions
            for a, n in zip(fs, dims):
                e.prove(z3.And(z_int(a.shape[0]) == n, z_int(a.shape[1]) == L.t), 'post:factor-shape')
            used = []
            for k, a in enumerate(fs):
                ix = [z3.Int(e.fresh_name('ix')) for _ in a.shape]
                rng = z3.And(*[z3.And(i >= 0, i < z_int(s)) for i, s in zip(ix, a.shape)])
                t = z_bool(e.read(a, ix))
                t0 = 1 - z_real(want)
                ok = None
                for key, f in sorted(e.drawfns.items(), key=lambda kv: str(kv[1])):
                    if key[2] + key[3] != 2 or any(f is u for u in used):
                        continue
                    for jx in (ix, ix[::-1]):
                        u = f(*jx)
                        for g in (u > t0, u >= t0, u < z_real(want), u <= z_real(want)):
                            g = z3.Implies(rng, z3.And(z3.Implies(t, g), z3.Implies(g, t)))
                            if ok is None and e.valid(g):
                                ok = (f, g)
                if ok is None:
                    e.prove(False, 'post:own-draw', 'entries of factor %d are not set by their own draws' % k)
                    continue
                used.append(ok[0])
                e.prove(ok[1], 'post:own-draw', 'factor %d' % k)
            prods = [p for f, p in e.ghost['products'] if len(f) == 3 and all(alike(e, a, b) for a, b in zip(f, fs))]
            prods = [p for p in prods if alike(e, X, p)]
            e.prove(bool(prods), 'post:product', 'the tensor is not the product of the returned factors')
            e.prove(any(alike(e, Xn, n) and any(x is q for x in xs for q in prods) for xs, p, n in e.ghost['noisy'] if isnum(p) and e.valid(z_real(p) == (z3.RealVal(0) if default else noise.t))), 'post:noise',
                    'the noisy tensor is not the product with noise')
        return run
    cs = {(AUX, 'boolean_tensor_product'): boolprod, (AUX, 'add_bernoulli_noise'): bernoulli}
    Task('random-tensor' + (':default' if default else ''), ['C22'], build, contracts=cs, route={'frame': ['C22'], 'pre': ['C22']}, opts={'draws': True})


tensor_task(False)
tensor_task(True)


def grid_task(nm, machines, Ls, idxs, failures, balanced, kw):
    """the grid search runs one experiment per configuration, all on one split of the data, and tabulates the outcomes"""
    def build(eng):
        fv = need(eng, EXP, 'LOM_hyperparms_parallel_gridsearch')
        eng.top = 'LOM_hyperparms_parallel_gridsearch'

        def run(e):
            dims = sizes(e, 2)
            X = e.input_arr('X', dims, 'i8', -1, 1)
            X.buf.ro = True
            lam = e.fresh('lbda', 'f64')
            g = e.ghost['g'] = {'splits': [], 'runs': []}

            def split(e, args, f):
                """contract of split_train_test (C14), which may refuse a split that hides too many entries"""
                a = arguments(f, args)
                e.prove(a['tensor'] is X, 'pre:split-data', 'other data are split')
                e.prove(a.get('balanced', False) is balanced, 'post:balanced', 'balanced is %r' % (a.get('balanced', False),))
                sp = a.get('split', Fraction(1, 10))
                last = g['splits'][-1][0] if g['splits'] else 1
                e.prove(isnum(sp) and e.valid(z3.And(z_real(sp) > 0, z_real(sp) < z_real(last))), 'pre:split', 'the split is not reduced')
                if len(g['splits']) < failures:
                    g['splits'].append((sp, None, None))
                    raise PyExc('AssertionError', 'too few entries')
                T = e.input_arr('T%d' % len(g['splits']), dims, 'i8', -1, 1)
                M = e.input_arr('M%d' % len(g['splits']), dims, 'b1')
                T.buf.ro = M.buf.ro = True
                g['splits'].append((sp, T, M))
                return (T, M)

            def experiment(e, args, f):
                """contract of LOM_predictive (tasks predictive:*)"""
                e.prove(len(args) == 1 or args[1] is True, 'pre:return-machine')
                ex = list(e.to_list(args[0]))
                k = len(g['runs'])
                acc = e.fresh('acc%d' % k, 'f64')
                mean = e.input_arr('mean%d' % k, dims, 'f64')
                g['runs'].append((ex, acc, mean))
                return ([acc, ex[3], ex[4]], [mean])
            e.contracts = dict(e.contracts)
            e.contracts[EXP, 'split_train_test'] = split
            e.contracts[EXP, 'LOM_predictive'] = experiment
            e.cover('pre')
            args = dict(kw)
            args.update({'lbda_init': lam, 'balanced': balanced, 'anneal': True, 'L_inits': list(Ls), 'random_idxs': list(idxs)})
            if machines is not None:
                args['machines'] = list(machines)
            r = list(e.to_list(e.inline(fv, [X], args)))
            e.cover('end')
            e.prove(len(r) == 2, 'post:result')
            T, M = g['splits'][-1][1:]
            e.prove(len(g['splits']) == failures + 1, 'post:one-split', 'the data are split %d times' % len(g['splits']))
            for ex, acc, mean in g['runs']:
                e.prove(len(ex) == 8 and ex[0] is X and ex[1] is T and ex[2] is M, 'post:experiment-data', 'data of an experiment')
                e.prove(ex[6] is lam and ex[7] is True, 'post:experiment-settings')
            todo = [(m, l, i) for m in (machines or spec.MODELS) for l in Ls for i in idxs]
            got = [(ex[3], ex[4], ex[5]) for ex, _, _ in g['runs']]
            e.prove(sorted(got) == sorted(todo), 'post:experiments', 'configurations %r' % (got,))
            df, means = r
            e.prove(isinstance(df, tuple) and len(df) == 3 and df[0] == 'DataFrame' and list(df[2]) == ['test accuracy', 'LOM', 'L'], 'post:table', 'table %r' % (df,))
            rows = [list(e.to_list(x)) for x in e.to_list(df[1])]
            means = [list(e.to_list(x)) for x in e.to_list(means)]
            e.prove(len(rows) == len(means) == len(todo), 'post:rows', '%d rows' % len(rows))
            left = list(g['runs'])
            for row, mm in zip(rows, means):
                hit = [x for x in left if row[0] is x[1]]
                e.prove(len(hit) == 1 and row[1:] == [hit[0][0][3], hit[0][0][4]] and len(mm) == 1 and mm[0] is hit[0][2], 'post:row', 'row %r' % (row[1:],))
                left = [x for x in left if x not in hit]
        return run
    Task('grid-search:' + nm, ['C22'], build, route={'frame': ['C22'], 'pre': ['C22']}, opts={'unroll': failures + 2})


grid_task('defaults', None, [2, 6, 10], [0], 0, False, {})
grid_task('balanced', ['OR-AND', 'XOR-NAND'], [3, 1], [0, 7, 0], 0, True, {})
grid_task('smaller-split', ['NOR-AND'], [2, 2], [1], 2, True, {})
