"""C14: train/test splits.  The set of hidden entries is described by the code's own enumeration of it (Scatter / Enum: model
contracts of np.nonzero, np.random.choice without replacement, list(itertools.product) and of filtering lists); 'exactly n
entries of a class are hidden' is proved as a bijection between [0, n) and the hidden entries of that class."""
from .base import *
from fractions import Fraction
from pyded import npmodel
from .dispersion import nested_count

EXP = 'lom.experiments'
AUX = 'lom.auxiliary_functions'


def sizes(e, K):
    dims = []
    for i in range(K):
        d = e.fresh('D%d' % i, 'int').t
        e.assume(d >= 1)
        dims.append(d)
    tot = dims[0]
    for d in dims[1:]:
        tot = tot * d
    e.assume(tot < 2 ** 40)
    e.assume(tot >= 1)
    return dims


def classes(e, X, dims, x, names=('observed', 'missing', 'ones', 'minus')):
    """ghost counts of the observed, missing, one and minus-one entries"""
    out = {}
    for nm, pred in (('observed', lambda v: v != 0), ('missing', lambda v: v == 0), ('ones', lambda v: v == 1), ('minus', lambda v: v == -1)):
        if nm not in names:
            continue
        fs = nested_count(e, nm, dims, lambda ix, pred=pred: pred(x(ix)))
        out[nm] = fs[-1].total()
        out[nm, 'folds'] = fs
        e.assume(z3.And(out[nm] >= 0, out[nm] <= 2 ** 40))
    return out


def inst(e, n, ix):
    for k, fs in n.items():
        if isinstance(k, tuple):
            for f in fs:
                d = len(f.pdims)
                e.inst(f, ix[:d], ix[d])


def generic(e, dims, nm='ix'):
    ix = [z3.Int(e.fresh_name(nm)) for _ in dims]
    e.assume(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, dims)]))
    return ix


def enumerated(e, name, hidden, cls, cands, m, dims):
    """exactly m entries of a class are hidden: one of the code's enumerations (scatter, first, length) is a bijection from [0, m)"""
    def tryit(sc, lo, ln):
        if not e.valid(z_int(ln) == m):
            return None
        gs = []
        j1, j2 = z3.Int(e.fresh_name('j1')), z3.Int(e.fresh_name('j2'))
        e.assume(z3.And(j1 >= 0, j1 < m, j2 >= 0, j2 < m))
        p1, p2 = sc.at(lo + j1), sc.at(lo + j2)
        sc.hit(p1)
        gs.append(('hidden', z3.And(hidden(p1), cls(p1))))
        gs.append(('distinct', z3.Implies(z3.And(*[a == b for a, b in zip(p1, p2)]), j1 == j2)))
        ix = generic(e, dims)
        h = sc.hit(ix)
        w = sc.w(*ix)
        pw = sc.at(w)
        inr = z3.And(h, w >= lo, w < lo + ln)
        gs.append(('all', z3.Implies(z3.And(hidden(ix), cls(ix)), inr)))
        return gs
    res = None
    for sc, lo, ln in cands:
        e.push()
        gs = tryit(sc, lo, ln)
        if gs is not None and all(e.valid(g) for _, g in gs):
            for nm, g in gs:
                e.prove(g, 'post:%s:%s' % (name, nm))
            e.pop()
            return
        res = res or gs
        e.pop()
    e.prove(False, 'post:%s' % name, 'no enumeration of the hidden entries proved')


def train_task(K, kind, balanced):
    def build(eng):
        fv = need(eng, EXP, 'split_train_test')
        eng.top = 'split_train_test'

        def run(e):
            dims = sizes(e, K)
            X = e.input_arr('X', dims, kind, -1, 1)
            X.buf.ro = True
            x = lambda ix: z_int(e.at(X, ix))
            n = classes(e, X, dims, x)
            split = e.fresh('split', 'float')
            e.assume(z3.And(z_real(split) >= 0, z_real(split) <= 1))
            S = prob = None
            if balanced:
                # the sizes are available: at least one entry and the number to hide of each sign
                q = e.binop('*', e.binop('*', SV(n['observed'], 'i64'), split), Fraction(1, 2))
                e.assume(z_real(q) >= 0)
                S = z_int(npmodel.cast(e, q, 'int'))
                for c in ('ones', 'minus'):
                    e.assume(z3.And(n[c] >= S, n[c] >= 1))
            else:
                # the fraction to hide is available: split / (fraction observed) is a probability
                fr = e.binop('/', SV(n['missing'], 'i64'), npmodel.attr(e, X, 'size'))
                e.assume(z_real(fr) < 1)
                prob = z_real(e.binop('/', split, e.binop('-', 1, fr)))
                e.assume(z3.And(prob >= 0, prob <= 1))
            e.cover('pre')
            r = e.inline(fv, [X], {'split': split, 'balanced': balanced})
            if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(a, Arr) and a.ndim == K for a in r)):
                e.prove(False, 'post:shape', 'result %r' % (r,))
                return
            train, mask = r
            for a in r:
                for p, d in zip(a.shape, dims):
                    e.prove(z_int(p) == d, 'post:shape')
            e.prove(train.buf is not X.buf and mask.buf is not train.buf, 'post:copy')
            e.prove(train.k == kind and mask.k == 'b1', 'post:dtype')
            hidden = lambda ix: z_bool(e.read(mask, ix))
            e.push()
            ix = generic(e, dims)
            h = hidden(ix)
            e.cover('end')
            e.prove(z_int(e.read(train, ix)) == z3.If(h, 0, x(ix)), 'post:training')
            e.prove(z3.Implies(h, x(ix) != 0), 'post:observed')
            if not balanced:
                gs = []
                for key, f in sorted(e.drawfns.items(), key=lambda kv: str(kv[1])):
                    if key[2] + key[3] != K:
                        continue
                    g = h == z3.And(x(ix) != 0, f(*ix) < prob)
                    gs.append(g)
                    if e.valid(g):
                        break
                e.prove(gs[-1] if gs else False, 'post:own-draw', 'hidden by an own draw with the scaled-up probability')
            e.pop()
            if balanced:
                cands = [(sc, 0, sc.n) for sc in e.ghost.get('scatter', ())]
                for v in (1, -1):
                    enumerated(e, 'ones' if v == 1 else 'minus-ones', hidden, lambda ix, v=v: x(ix) == v, cands, S, dims)
        return run
    Task('split_train_test:%dd:%s:%s' % (K, kind, 'balanced' if balanced else 'random'), ['C14'], build,
         route={'frame': ['C14']}, opts={'draws': True, 'sizes': True})


for _K in (2, 3):
    for _k in ('i8', 'i64'):
        for _b in (False, True):
            train_task(_K, _k, _b)


def test_task(kind, zo):
    def build(eng):
        fv = need(eng, AUX, 'split_test_train')
        eng.top = 'split_test_train'

        def run(e):
            dims = sizes(e, 2)
            X = e.input_arr('X', dims, kind, *((0, 1) if zo else (-1, 1)))
            X.buf.ro = True
            if zo:
                X.buf.einv = lambda t: z3.Or(t == 1, t == 0)
            else:
                X.buf.einv = lambda t: z3.Or(t == 1, t == -1)
            x = (lambda ix: 2 * z_int(e.at(X, ix)) - 1) if zo else (lambda ix: z_int(e.at(X, ix)))
            n = classes(e, X, dims, x, ('ones', 'minus'))
            p = e.fresh('p', 'float')
            e.assume(z3.And(z_real(p) >= 0, z_real(p) <= 1))
            q = e.binop('/', e.binop('*', npmodel.attr(e, X, 'size'), p), 2)
            e.assume(z_real(q) >= 0)
            S = z_int(npmodel.cast(e, q, 'int'))
            for c in ('ones', 'minus'):
                e.assume(n[c] >= S)
            e.cover('pre')
            r = e.inline(fv, [X], {'p': p})
            if not (isinstance(r, Arr) and r.ndim == 2):
                e.prove(False, 'post:shape', 'result %r' % (r,))
                return
            for a, d in zip(r.shape, dims):
                e.prove(z_int(a) == d, 'post:shape')
            e.prove(r.buf is not X.buf, 'post:copy')
            e.push()
            ix = generic(e, dims)
            inst(e, n, ix)
            t = z_int(e.read(r, ix))
            e.cover('end')
            e.prove(z3.Or(t == 0, t == x(ix)), 'post:training')
            e.pop()
            cands = []
            for sc in e.ghost.get('scatter', ()):
                cands += [(sc, 0, sc.n), (sc, 0, S), (sc, S, sc.n - S)]
            hidden = lambda ix: z_int(e.read(r, ix)) == 0
            for v in (1, -1):
                enumerated(e, 'ones' if v == 1 else 'minus-ones', hidden, lambda ix, v=v: x(ix) == v, cands, S, dims)
        return run
    Task('split_test_train:%s:%s' % (kind, '01' if zo else 'pm'), ['C14'], build, route={'frame': ['C14']}, opts={'sizes': True})


for _k in ('i8', 'i64'):
    for _z in (False, True):
        test_task(_k, _z)
