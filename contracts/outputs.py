"""C02: output arrays and data generation; C08: their parallel loops."""
from .base import *
from . import apps
from .apps import OUT, FZ, LU, ident
from pyded import spec

AUX = 'lom.auxiliary_functions'


def row(a, *at):
    """specification view a[at[0], at[1], .., :]"""
    m = []
    na = len(at)
    for x in a.imap:
        if x[0] == 'a':
            if x[1] < na:
                m.append(('f', t_add(x[2], t_mul(at[x[1]], x[3]))))
            else:
                m.append(('a', x[1] - na, x[2], x[3]))
        else:
            m.append(x)
    return Arr(a.buf, a.shape[na:], tuple(m))


def factors(e, K, kind='i8', names='ZUV', ro=True):
    L = e.fresh('L', 'int').t
    e.assume(L >= 0)
    dims, fs = [], []
    for i in range(K):
        d = e.fresh('D%d' % i, 'int').t
        e.assume(d >= 0)
        dims.append(d)
        if kind == 'i8':
            f = e.input_arr(names[i], [d, L], 'i8', -1, 1, nz=True)
        else:
            f = e.input_arr(names[i], [d, L], kind, einv=lambda t: z3.And(t >= 0, t <= 1))
        f.buf.ro = ro
        fs.append(f)
    return L, dims, fs


def prove_array(e, r, dims, k, want, name='post'):
    """r is a fresh array of shape dims, dtype k, with content want(idx)"""
    if not isinstance(r, Arr) or r.ndim != len(dims):
        e.prove(False, name + '-shape', 'result %r' % (r,))
        return
    for a, b in zip(r.shape, dims):
        e.prove(z_int(a) == z_int(b), name + '-shape')
    if k is not None:
        e.prove(r.k in (k if isinstance(k, tuple) else (k,)), name + '-dtype', 'dtype %s' % r.k)
    ix = [z3.Int(e.fresh_name('ix')) for _ in dims]
    e.assume(z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, dims)]))
    t = e.read(r, ix).t
    w = want(ix)
    if z3.is_bool(w):
        e.prove(z_bool(t) == w, name)
    elif w.is_real():
        e.prove(z_real(t) == w, name)
    else:
        e.prove(z_int(t) == w, name)


def out_task(model, K, fuzzy):
    maker = 'make_output_function_%dd%s' % (K, '_fuzzy' if fuzzy else '')

    def build(eng):
        mk = need(eng, LU, maker)
        eng.top = maker

        def run(e):
            L, dims, fs = factors(e, K, 'f64' if fuzzy else 'i8')
            app = apps.fuzzy if fuzzy else apps.product
            want = lambda ix: app(e, model, [row(f, i) for f, i in zip(fs, ix)])
            e.targets.append((dims, want))
            e.cover('pre')
            g = e.inline(mk, [model], {})
            r = e.call(g, fs, {})
            prove_array(e, r, dims, 'f64' if fuzzy else 'i8', want)
            e.prove(all(r.buf is not f.buf for f in fs), 'fresh')
            e.cover('end')
        return run
    Task('output:%s:%s' % (maker, model), ['C02' if not fuzzy else 'C03', 'C08'], build, contracts=apps.products, kernel=True)


def fast_task(model, K, fuzzy):
    def build(eng):
        fv = need(eng, AUX, 'lom_generate_data_fast')
        eng.top = 'lom_generate_data_fast'

        def run(e):
            L, dims, fs = factors(e, K, 'f64' if fuzzy else 'i8')
            app = apps.fuzzy if fuzzy else apps.product
            want = lambda ix: app(e, model, [row(f, i) for f, i in zip(fs, ix)])
            e.targets.append((dims, want))
            e.cover('pre')
            r = e.inline(fv, [list(fs), model] + ([True] if fuzzy else []), {})
            prove_array(e, r, dims, None, want)
            e.prove(all(r.buf is not f.buf for f in fs), 'fresh')
            e.cover('end')
        return run
    Task('generate_fast:%s:%d%s' % (model, K, ':fuzzy' if fuzzy else ''), ['C02' if not fuzzy else 'C03', 'C08'], build, contracts=fast_contracts, kernel=True)


def fast_contracts():
    d = apps.products()
    d[AUX, 'lom_generate_data'] = general_contract
    return d


def general_contract(e, args, fv):
    """contract of lom_generate_data: a fresh int8 array of products (proved by the generate:* tasks)"""
    fs, model = list(e.to_list(args[0])), args[1]
    nm = 'lom_generate_data'
    for f in fs:
        apps.need_arr(e, nm, f, 2)
    apps.same_len(e, nm, [f.shape[1] for f in fs])
    for f in fs:
        apps.need_domain(e, nm, f, -1, 1, True)
    e.prove(isinstance(model, str) and len(model.split('-')) == 2, 'pre:lom_generate_data:model')
    snap = [snapshot(f) for f in fs]
    return e.new_arr([f.shape[0] for f in fs], 'i8',
                     lambda ix: apps.product(e, model, [row(f, i) for f, i in zip(snap, ix)]), 'generated', lo=-1, hi=1, nz=True)


def snapshot(a):
    """the view's current content, immune to later stores"""
    b = a.buf
    nb = Buffer(b.id + "'", b.shape, b.k, b.content, b.ver, b.lo, b.hi, b.nz, b.einv, b.name)
    nb.base = b.base
    return Arr(nb, a.shape, a.imap)


def general_task(model, K, tier='quick'):
    def build(eng):
        fv = need(eng, AUX, 'lom_generate_data')
        eng.top = 'lom_generate_data'

        def run(e):
            L, dims, fs = factors(e, K)
            F = e.fold('cnt', dims, L, lambda *a: spec.cterm(model, [e.at(f, [d, a[-1]]) for f, d in zip(fs, a)]))
            want = lambda ix: spec.outer(model, F.total(*ix))
            e.targets.append((dims, want))
            # a truth vector over the latent dimensions, for the data entry being generated
            e.targets.append(([L], lambda i, *p: spec.inner(model, [e.at(f, [d, i[0]]) for f, d in zip(fs, p)]), dims))
            e.cover('pre')
            r = e.inline(fv, [list(fs), model], {})
            prove_array(e, r, dims, 'i8', want)
            e.prove(all(r.buf is not f.buf for f in fs), 'fresh')
            e.cover('end')
        return run
    Task('generate:%s:%d' % (model, K), ['C02'], build, tier=tier)


def fuzzy_general_task(model, K, tier='quick', crisp=False):
    """lom_generate_data_fuzzy: 2 P - 1, P the probability that the product is true for independent entries, f = 2 p - 1"""
    outer, inner = model.split('-')

    def build(eng):
        fv = need(eng, AUX, 'lom_generate_data_fuzzy')
        eng.top = 'lom_generate_data_fuzzy'

        def run(e):
            L = e.fresh('L', 'int').t
            e.assume(L >= 0)
            dims, fs = [], []
            for i in range(K):
                d = e.fresh('D%d' % i, 'int').t
                e.assume(d >= 0)
                dims.append(d)
                f = e.input_arr('ZUV'[i], [d, L], 'i8', -1, 1, nz=True) if crisp else e.input_arr('ZUV'[i], [d, L], 'f64', einv=lambda t: z3.And(t >= -1, t <= 1))
                f.buf.ro = True
                fs.append(f)
            one = z3.RealVal(1)

            def p(*a):
                xs = [(z_real(e.at(f, [d, a[-1]])) + 1) / 2 for f, d in zip(fs, a)]
                prod = lambda ys: z3.Product(*ys)
                r = {'AND': lambda: prod(xs), 'OR': lambda: one - prod([one - x for x in xs]),
                     'XOR': lambda: z3.Sum(*[prod([x if i == j else one - x for i, x in enumerate(xs)]) for j in range(K)])}
                for n, q in (('NAND', 'AND'), ('NOR', 'OR'), ('NXOR', 'XOR')):
                    r[n] = lambda q=q: one - r[q]()
                return r[inner]()
            if outer in ('AND', 'NAND'):
                F = e.fold('all', dims, L, p, 'prod')
                P = lambda ix: F.total(*ix)
            elif outer in ('OR', 'NOR'):
                F = e.fold('none', dims, L, lambda *a: one - p(*a), 'prod')
                P = lambda ix: one - F.total(*ix)
            else:
                E = e.fold('others', dims + [L], L, lambda *a: z3.If(a[-2] == a[-1], one, one - p(*(list(a[:-2]) + [a[-1]]))), 'prod')
                S = e.fold('one', dims, L, lambda *a: p(*a) * E.total(*a), 'rsum')
                P = lambda ix: S.total(*ix)
            q = (lambda ix: one - P(ix)) if outer in ('NAND', 'NOR', 'NXOR') else P
            e.targets.append((dims, q))
            e.targets.append(([L], lambda i, *d: p(*(list(d) + [i[0]])), dims))
            e.cover('pre')
            r = e.inline(fv, [list(fs), model], {})
            prove_array(e, r, dims, ('f64', 'float'), lambda ix: 2 * q(ix) - 1)
            e.prove(all(r.buf is not f.buf for f in fs), 'fresh')
            e.cover('end')
        return run
    Task('generate-fuzzy:%s:%d%s' % (model, K, ':states' if crisp else ''), ['C03'], build, tier=tier)


def boolprod_task():
    def build(eng):
        fv = need(eng, AUX, 'boolean_tensor_product')
        eng.top = 'boolean_tensor_product'

        def run(e):
            L = e.fresh('L', 'int').t
            e.assume(L >= 0)
            dims, fs = [], []
            for i in range(3):
                d = e.fresh('D%d' % i, 'int').t
                e.assume(d >= 0)
                dims.append(d)
                f = e.input_arr('ZUV'[i], [d, L], 'b1')
                f.buf.ro = True
                fs.append(f)
            F = e.fold('cnt', dims, L, lambda *a: z3.If(z3.And(*[z_bool(e.at(f, [d, a[-1]])) for f, d in zip(fs, a)]), z3.IntVal(1), z3.IntVal(0)))
            want = lambda ix: F.total(*ix) >= 1
            e.targets.append((dims, want))
            e.cover('pre')
            r = e.inline(fv, list(fs), {})
            prove_array(e, r, dims, 'b1', want)
            e.cover('end')
        return run
    Task('boolean_tensor_product', ['C02'], build)


for _m in spec.MODELS:
    for _K in (2, 3):
        for _fz in (False, True):
            out_task(_m, _K, _fz)
            fast_task(_m, _K, _fz)
for _o in spec.OPS:
    for _i in spec.OPS:
        general_task(_o + '-' + _i, 2, 'quick')
        general_task(_o + '-' + _i, 3, 'quick' if _o + '-' + _i in spec.MODELS else 'thorough')
        for _K in (2, 3):
            fuzzy_general_task(_o + '-' + _i, _K, 'quick' if _K == 2 or _o + '-' + _i in spec.MODELS else 'thorough')
for _m in spec.MODELS:
    for _K in (2, 3):
        fuzzy_general_task(_m, _K, crisp=True)
boolprod_task()
