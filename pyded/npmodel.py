"""Model (assumed contracts) of the numpy / math / scipy / builtin operations the code uses."""
import z3
from fractions import Fraction
from .values import *
from .engine import POISON, NAMED_DTYPES, ExtModule, Obl

KNOWN_EXT = ('numpy', 'math', 'numba', 'scipy', 'itertools', 'sklearn', 'tempfile', 'sys', 'pdb', 'functools', 'os', 'subprocess')


def canon(name):
    for a, b in (('numpy.random.mtrand.', 'numpy.random.'), ('scipy.special._ufuncs.', 'scipy.special.')):
        name = name.replace(a, b)
    return name


def ext_attr(eng, m, name):
    full = m.name + '.' + name
    if full in ('numpy.random', 'numpy.linalg', 'scipy.special', 'numba.types', 'scipy.optimize'):
        return ExtModule(full)
    if m.name in ('numpy', 'numba', 'numba.types'):
        if name in NAMED_DTYPES:
            return DType(NAMED_DTYPES[name])
        if m.name == 'numpy' and name in ('newaxis',):
            return None
        if m.name == 'numpy' and name in ('int', 'float', 'bool', 'infty', 'Inf', 'float_'):
            raise PyExc('AttributeError', "module 'numpy' has no attribute '%s'" % name)
        if m.name == 'numpy' and name in ('inf', 'nan', 'Infinity'):
            return Intrinsic('numpy.' + name)
        if m.name == 'numpy' and name == 'pi':
            return Fraction(314159265358979, 10**14)
    if m.name == 'numba' and name in ('jit', 'njit', 'prange'):
        return Intrinsic('numba.' + name)
    return Intrinsic(full)


BUILTINS = {'len', 'range', 'abs', 'min', 'max', 'sum', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'sorted',
            'enumerate', 'zip', 'any', 'all', 'isinstance', 'type', 'round', 'print', 'dir', 'reversed', 'map', 'filter', 'iter',
            'next', 'hasattr', 'getattr', 'callable', 'repr', 'divmod', 'pow', 'slice', 'object', 'super', 'id', 'vars', 'frozenset'}
EXC = {'ValueError', 'TypeError', 'IndexError', 'KeyError', 'NotImplementedError', 'AssertionError', 'Exception', 'RuntimeError',
       'SystemError', 'ModuleNotFoundError', 'ImportError', 'AttributeError', 'ZeroDivisionError', 'StopIteration'}


def builtin(eng, name):
    if name in BUILTINS:
        if name in ('int', 'float', 'bool'):
            return DType(name)
        return Intrinsic('builtins.' + name)
    if name in EXC:
        return Intrinsic('exc.' + name)
    if name == 'Ellipsis':
        return Ellipsis
    raise PyExc('NameError', "name '%s' is not defined" % name)


# ------------------------------------------------------------------ reading helpers
def snap(eng, a):
    """reader of the current contents of a view"""
    c, b = a.buf.content, a.buf
    if eng.frames:
        eng.par_view(a)

    def rd(idx):
        return eng.elem_sv(b, c([raw(i) for i in a.bidx(idx)]))
    return rd


def generic_idx(eng, shape):
    ix = []
    for s in shape:
        i = z3.Int(eng.fresh_name('gi'))
        ix.append(i)
    return ix


def in_range(ix, shape):
    cs = [z3.And(z_int(i) >= 0, z_int(i) < z_int(s)) for i, s in zip(ix, shape)]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def build(eng, shape, elem, name='expr', k=None):
    """new array from an element function (idx -> value); definedness is checked once at a generic index"""
    ix = generic_idx(eng, shape)
    eng.push()
    eng.assume(in_range(ix, shape))
    try:
        v = elem(ix)
    finally:
        eng.pop()
    kk = k or kind(v)
    if kk in PYK:
        kk = {'int': 'i64', 'float': 'f64', 'bool': 'b1'}[kk]
    lo, hi, nz = (v.lo, v.hi, v.nz) if isinstance(v, SV) else eng.bounds(v) + (eng.isnz(v),)
    if kk in FLK or kk in BOOLK:
        lo = hi = None
        nz = False

    def content(idx):
        eng.quiet += 1
        try:
            return raw(elem(idx))
        finally:
            eng.quiet -= 1
    b = eng.new_buffer(shape, kk, content, name, lo=lo, hi=hi, nz=nz)
    b.soft = True
    return Arr(b, shape)


def as_arr(eng, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Seq):
        if v.guard is not None:
            raise Unsupported('filtered sequence as array')
        n = v.length
        return build(eng, (n,), lambda ix: v.elem(ix[0]), 'seq')
    if isinstance(v, SymIter):
        return build(eng, (v.length,), lambda ix: v.elem(ix[0]), 'seq')
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        if all(isnum(x) for x in v):
            vs = list(v)
            if not vs:
                return eng.new_arr((0,), 'f64', lambda i: 0, 'lst')
            k = kind(vs[0])
            for x in vs[1:]:
                k = promote(k, kind(x))
            k = {'int': 'i64', 'float': 'f64', 'bool': 'b1'}.get(k, k)
            ts = [eng.cast_elem(x, k) for x in vs]
            los = [x.lo for x in ts]
            his = [x.hi for x in ts]

            def content(i):
                j = raw(i[0])
                if not isz(j):
                    return ts[j].t
                r = ts[-1].t
                for m in range(len(ts) - 2, -1, -1):
                    r = eng.ite(j == m, ts[m].t, r)
                return r
            return eng.new_arr((len(vs),), k, content, 'lst', lo=None if None in los else min(los),
                               hi=None if None in his else max(his))
        sub = [as_arr(eng, x) for x in v]
        k = sub[0].k
        rs = [snap(eng, x) for x in sub]

        def content2(i):
            j = raw(i[0])
            if not isz(j):
                return rs[j](i[1:]).t
            r = rs[-1](i[1:]).t
            for m in range(len(rs) - 2, -1, -1):
                r = eng.ite(j == m, rs[m](i[1:]).t, r)
            return r
        los, his = [x.buf.lo for x in sub], [x.buf.hi for x in sub]
        return eng.new_arr((len(v),) + sub[0].shape, k, content2, 'lst', lo=None if None in los else min(los),
                           hi=None if None in his else max(his))
    if isnum(v):
        return eng.new_arr((), kind(v), lambda i: raw(v), 'scalar')
    raise Unsupported('array from %r' % (v,))


# ------------------------------------------------------------------ attributes
def attr(eng, o, name):
    if isinstance(o, Values) and name in ('issubset', 'issuperset'):
        return lambda e, xs: o.relation(e, '<=' if name == 'issubset' else '>=', xs if isinstance(xs, (set, frozenset)) else e.to_list(xs))
    if isinstance(o, Native):
        if name not in o.attrs:
            raise Unsupported('%s.%s' % (o.name, name))
        return o.attrs[name]
    if isinstance(o, Arr):
        if name == 'shape':
            return tuple(s if not isz(s) else SV(s, 'int', 0, None) for s in o.shape)
        if name == 'ndim':
            return o.ndim
        if name == 'size':
            if eng.opts.get('sizes'):
                return eng.size_of(o.shape)
            r = 1
            for s in o.shape:
                r = eng.binop('*', r, s if not isz(s) else SV(s, 'int'))
            return r
        if name == 'dtype':
            return DType(o.k)
        if name == 'T':
            return transpose(eng, o, None)
        if name in ARR_METHODS:
            return lambda e, *a, **k: call_ext(e, 'numpy.' + ARR_METHODS[name], [o] + list(a), k, None)
        raise Unsupported('array attribute ' + name)
    if isinstance(o, MaskSel):
        if name in ('sum', 'any', 'all', 'mean'):
            return lambda e, *a, **k: call_ext(e, 'numpy.' + name, [o] + list(a), k, None)
        if name == 'size':
            return reduce(eng, 'count', o.mask)
        if name == 'shape':
            return (reduce(eng, 'count', o.mask),)
        if name == 'astype':
            return lambda e, *a, **k: MaskSel(call_ext(e, 'numpy.astype', [o.arr] + list(a), k, None), o.mask)
        if name == 'copy':
            return lambda e: o
    if isinstance(o, SV):
        if name in ('sum', 'any', 'all', 'item', 'max', 'min'):
            return lambda e, *a, **k: o
        if name == 'dtype':
            return DType(o.k)
        if name == 'shape':
            return ()
        if name == 'astype':
            return lambda e, t: cast(e, o, dtype_of(e, t))
    if isinstance(o, list):
        if name == 'append':
            def f(e, x):
                if e.frames:
                    raise Unsupported('list append in a symbolic loop')
                o.append(x)
            return f
        if name in ('extend', 'pop', 'insert', 'remove', 'reverse', 'clear') and eng.frames:
            raise Unsupported('list %s in a symbolic loop' % name)
        if name == 'extend':
            return lambda e, x: o.extend(e.to_list(x))
        if name == 'index':
            return lambda e, x: o.index(x)
        if name == 'copy':
            return lambda e: list(o)
        if name == 'sort':
            raise Unsupported('list.sort')
        if name == 'pop':
            return lambda e, *a: o.pop(*a)
    if isinstance(o, str):
        if name in ('split', 'replace', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'join', 'format'):
            def g(e, *a, **k):
                if name == 'join':
                    try:
                        xs = e.to_list(a[0])
                    except Unsupported:
                        return SymStr()
                    if any(isinstance(x, SymStr) for x in xs):
                        return SymStr()
                    return o.join(xs)
                if name == 'format':
                    return SymStr()
                return getattr(o, name)(*a)
            return g
    if isinstance(o, dict):
        if name in ('keys', 'values', 'items', 'get', 'pop', 'setdefault', 'update', 'copy'):
            def h(e, *a):
                r = getattr(o, name)(*a)
                return list(r) if name in ('keys', 'values', 'items') else r
            return h
    if isinstance(o, set):
        if name in ('add', 'intersection', 'union', 'remove'):
            return lambda e, *a: getattr(o, name)(*a)
    if isinstance(o, DType):
        if name == 'type':
            return o
        if name == 'kind':
            return 'f' if o.k in FLK else 'b' if o.k in BOOLK else 'i'
    if isinstance(o, Intrinsic):
        return Intrinsic(o.name + '.' + name)
    if isinstance(o, (int, float, Fraction)):
        raise PyExc('AttributeError', name)
    if isinstance(o, SymStr):
        return lambda e, *a, **k: SymStr()
    if isinstance(o, tuple) and name in ('index', 'count'):
        return lambda e, *a: getattr(o, name)(*a)
    raise Unsupported('attribute %s of %r' % (name, o))


ARR_METHODS = {'sum': 'sum', 'any': 'any', 'all': 'all', 'mean': 'mean', 'copy': 'copy', 'transpose': 'transpose_m',
               'astype': 'astype', 'max': 'max', 'min': 'min', 'dot': 'dot', 'prod': 'prod', 'argsort': 'argsort', 'fill': 'fill',
               'flatten': 'flatten', 'ravel': 'flatten', 'item': 'item', 'tolist': 'copy', 'nonzero': 'nonzero', 'argmax': 'argmax',
               'squeeze': 'squeeze', 'reshape': 'reshape', 'view': 'view', 'var': 'var', 'std': 'std'}


def transpose(eng, a, order):
    if order is None:
        order = list(range(a.ndim))[::-1]
    order = [int(conc(x)) for x in order]
    if sorted(order) != list(range(a.ndim)):
        raise PyExc('ValueError', "axes don't match array")
    inv = {old: new for new, old in enumerate(order)}
    imap = tuple(('a', inv[m[1]], m[2], m[3]) if m[0] == 'a' else m for m in a.imap)
    return Arr(a.buf, tuple(a.shape[o] for o in order), imap, a.aslist)


# ------------------------------------------------------------------ indexing
def norm_index(eng, i, n, checked=False, what='array'):
    """index term in [0, n); emits the bounds obligation"""
    c = conc(i)
    nn = z_int(n)
    if c is not None:
        c = int(c)
        if not isz(n):
            if not -n <= c < n:
                raise PyExc('IndexError', 'index %d out of bounds for axis of size %s' % (c, n))
            return c if c >= 0 else c + n
        if c >= 0:
            eng.prove(nn > c, 'index-bounds')
            return c
        eng.prove(nn >= -c, 'index-bounds')
        return nn + c
    if kind(i) in FLK:
        raise PyExc('IndexError', 'float index')
    t = z_int(i)
    if checked:
        return t
    g = z3.And(t >= 0, t < nn)
    if eng.quiet or eng.valid(g):
        if not eng.quiet:
            eng.prove(g, 'index-bounds')
        return t
    if eng.opts.get('kernel'):
        # a computed index that can be negative silently addresses the other end of the axis
        eng.prove(t >= 0, 'index-negative')
    eng.prove(z3.And(t >= -nn, t < nn), 'index-bounds')
    return z3.If(t < 0, t + nn, t)


def slice_of(eng, s, n):
    """(offset, length, step) of a slice on an axis of length n"""
    st = conc(s.step) if s.step is not None else 1
    if st not in (1, -1):
        raise Unsupported('slice step')
    if st == -1:
        if s.start is None and s.stop is None:
            return t_sub(n, 1), n, -1
        raise Unsupported('reverse slice with bounds')
    nn = z_int(n)

    def clampv(x, dflt):
        if x is None:
            return dflt
        c = conc(x)
        if c is not None:
            c = int(c)
            if not isz(n):
                return min(c, n) if c >= 0 else max(0, n + c)
            if c == 0:
                return 0
            if c > 0:
                if eng.valid(nn >= c):
                    return c
                return z3.If(nn >= c, c, nn)
            if eng.valid(nn >= -c):
                return nn + c
            return z3.If(nn + c >= 0, nn + c, 0)
        t = z_int(x)
        if eng.valid(z3.And(t >= 0, t <= nn)):
            return t
        t2 = z3.If(t < 0, z3.If(t + nn < 0, 0, t + nn), z3.If(t > nn, nn, t))
        return t2
    a, b = clampv(s.start, 0), clampv(s.stop, n)
    if s.start is None or (not isz(a) and a == 0):
        return 0, b, 1
    ln = t_sub(b, a)
    if isz(ln):
        if eng.valid(z_int(ln) >= 0):
            return a, z3.simplify(ln), 1
        return a, z3.If(ln < 0, 0, ln), 1
    return a, max(ln, 0), 1


def index(eng, a, idx, checked=False):
    idx = list(idx)
    if any(isinstance(i, (list, tuple)) for i in idx):
        idx = [as_arr(eng, i) if isinstance(i, (list, tuple)) and not isinstance(i, str) else i for i in idx]
    idx = [seq_index(eng, i) if isinstance(i, Seq) else i for i in idx]
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].k in BOOLK:
        m = idx[0]
        if m.ndim == a.ndim:
            shape_eq(eng, a.shape, m.shape, 'mask')
            return MaskSel(copy_arr(eng, a), copy_arr(eng, m))
        raise Unsupported('partial boolean mask')
    if any(x is Ellipsis for x in idx):
        p = [x is Ellipsis for x in idx].index(True)
        nn = sum(1 for x in idx if x is not None and x is not Ellipsis)
        idx = idx[:p] + [slice(None)] * (a.ndim - nn) + idx[p + 1:]
    real = [x for x in idx if x is not None]
    if len(real) > a.ndim:
        raise PyExc('IndexError', 'too many indices for array')
    idx = idx + [slice(None)] * (a.ndim - len(real))
    if all(not isinstance(i, (slice, Arr)) and i is not None for i in idx):
        ix = [norm_index(eng, i, s, checked) for i, s in zip(idx, a.shape)]
        return eng.read(a, ix)
    if any(isinstance(i, Arr) for i in idx):
        return fancy(eng, a, idx)
    # view
    newax = {}
    shape = []
    ax = 0
    for i in idx:
        if i is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(i, slice):
            off, ln, st = slice_of(eng, i, n)
            newax[ax] = ('a', len(shape), off, st)
            shape.append(ln)
        else:
            newax[ax] = ('f', norm_index(eng, i, n, checked))
        ax += 1
    imap = []
    for m in a.imap:
        if m[0] != 'a':
            imap.append(m)
            continue
        nm = newax[m[1]]
        if nm[0] == 'f':
            t = nm[1]
            if m[3] != 1:
                t = t_mul(t, m[3])
            imap.append(('f', t_add(t, m[2])))
        else:
            off = t_add(t_mul(nm[2], m[3]), m[2])
            imap.append(('a', nm[1], off, nm[3] * m[3]))
    return Arr(a.buf, shape, tuple(imap), a.aslist)


def seq_index(eng, s):
    """a list used as index: [i for i in range(n) if c(i)] selects like the mask c"""
    if s.guard is None:
        return as_arr(eng, s)
    i = z3.Int(eng.fresh_name('gi'))
    if isz(s.length) and isnum(x := s.elem(i)) and same(x, i):
        return build(eng, (s.length,), lambda ix: SV(z_bool(eng.truth(s.guard(z_int(ix[0])))), "bool"), 'selected')
    raise Unsupported('list as index')


def fancy(eng, a, idx):
    """integer-array indexing (copies): one-dimensional index arrays on separate axes with slices elsewhere"""
    arrs = [(p, i) for p, i in enumerate(idx) if isinstance(i, Arr)]
    if len(arrs) != 1 or any(i is None for i in idx):
        raise Unsupported('fancy indexing with several index arrays')
    p, ia = arrs[0]
    if ia.k in BOOLK:
        return mask_axis(eng, a, idx, p, ia)
    if ia.ndim != 1:
        raise Unsupported('fancy index dimension')
    ri = snap(eng, ia)
    j = z3.Int(eng.fresh_name('gi'))
    eng.push()
    eng.assume(z3.And(j >= 0, j < z_int(ia.shape[0])))
    norm_index(eng, ri([j]), a.shape[p])
    eng.pop()
    base = index(eng, a, tuple(slice(None) if q == p else i for q, i in enumerate(idx)))
    # axis of base corresponding to p
    q = sum(1 for i in idx[:p] if isinstance(i, slice))
    rb = snap(eng, base)
    shape = list(base.shape)
    shape[q] = ia.shape[0]

    def elem(ix):
        t = z_int(ri([ix[q]]))
        n = z_int(a.shape[p])
        if not (ia.buf.lo is not None and ia.buf.lo >= 0):
            t = z3.If(t < 0, t + n, t)
        jx = list(ix)
        jx[q] = t
        return rb(jx)
    return build(eng, tuple(shape), elem, 'fancy')


def enum_of(eng, v):
    """the enumeration of index tuples a value iterates over, if it is one"""
    if isinstance(v, Seq) and v.guard is None:
        return v.enum
    if isinstance(v, NdIter) and any(isz(x) for x in v.shape):
        return nd_enum(eng, v)
    return None


def nd_enum(eng, v):
    ix = [z3.Int(eng.fresh_name('gi')) for _ in v.shape]
    t = v.elem(ix)
    if not (isinstance(t, tuple) and len(t) == len(ix) and all(isnum(x) and same(x, i) for x, i in zip(t, ix))):
        return None
    return Enum(eng, v.shape, None)


class Scatter:
    """entries written through a list of index tuples: hit(ix) holds exactly for the tuples pos(0), ..., pos(n - 1)"""

    def __init__(self, eng, nd, n, pos, hit=None, val=None):
        self.eng, self.n, self.pos, self.val = eng, z_int(n), pos, val
        self.nd = nd
        self.h = z3.Function(eng.fresh_name('hit'), *([z3.IntSort()] * nd + [z3.BoolSort()])) if hit is None else hit
        self.w = z3.Function(eng.fresh_name('hitby'), *([z3.IntSort()] * (nd + 1)))
        eng.ghost.setdefault('scatter', []).append(self)

    def hit(self, ix):
        ix = [z_int(i) for i in ix]
        w = self.w(*ix)
        h = self.h(*ix)
        self.eng.axiom(z3.Implies(h, z3.And(w >= 0, w < self.n, *[z_int(p) == i for p, i in zip(self.pos(w), ix)])))
        return h

    def at(self, j):
        j = z_int(j)
        p = [z_int(x) for x in self.pos(j)]
        self.eng.axiom(z3.Implies(z3.And(j >= 0, j < self.n), self.h(*p)))
        return p


def scatter_store(eng, a, idx, v):
    """a[i0, ..., ik] = constant through one-dimensional index arrays of the same length"""
    n = idx[0].shape[0]
    for i in idx[1:]:
        shape_eq(eng, (n,), i.shape, 'fancy assignment')
    rs = [snap(eng, i) for i in idx]
    j = z3.Int(eng.fresh_name('gi'))
    eng.push()
    eng.assume(z3.And(j >= 0, j < z_int(n)))
    for r, d in zip(rs, a.shape):
        t = z_int(r([j]))
        eng.prove(z3.And(t >= 0, t < z_int(d)), 'index-bounds')
    eng.pop()
    sc = Scatter(eng, a.ndim, n, lambda j: [z_int(r([j])) for r in rs], None, v)
    bulk_store(eng, a, sc.hit, lambda ix: v)


def one_out(eng, cond, n):
    """t if cond holds at all positions below n but t"""
    i = z3.Int(eng.fresh_name('gi'))
    eng.quiet += 1
    try:
        b = z3.simplify(z_bool(eng.truth(cond(i))))
    finally:
        eng.quiet -= 1
    neg = b.arg(0) if z3.is_not(b) else None
    t = None
    if neg is not None and z3.is_eq(neg):
        x, y = neg.arg(0), neg.arg(1)
        t = y if z3.eq(x, i) else x if z3.eq(y, i) else None
    if t is None and eng.removed:
        # the condition may be about the element
        for c, _, _ in eng.ghost.get('argmaxes', []):
            if eng.valid(z3.Implies(z3.And(i >= 0, i < z_int(n)), b == (i != c))):
                t = c
                break
    if t is None or i.get_id() in subterms(t) or not eng.valid(z3.And(t >= 0, t < z_int(n))):
        return None
    return t


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return seen


def mask_axis(eng, a, idx, p, mask):
    """a[:, mask]: the kept columns in order; pos = increasing enumeration of the mask (assumed contract of numpy)"""
    if any(not (isinstance(i, slice) and i == slice(None)) for q, i in enumerate(idx) if q != p):
        raise Unsupported('mask with other indices')
    shape_eq(eng, (a.shape[p],), mask.shape, 'mask')
    rm = snap(eng, mask)
    t = one_out(eng, lambda i: SV(z_bool(rm([i])), 'bool'), mask.shape[0])
    if t is not None:
        return HANDLERS['numpy.delete'](eng, [a, SV(t, 'i64')], {'axis': p})
    cnt = reduce(eng, 'count', mask)
    key = ('maskpos', mask.buf.id, mask.buf.ver)
    pos = eng.ghost.get(key)
    if pos is None:
        f = z3.Function(eng.fresh_name('maskpos'), z3.IntSort(), z3.IntSort())
        pos = eng.ghost[key] = f
    rm, ra = snap(eng, mask), snap(eng, a)
    shape = list(a.shape)
    shape[p] = z_int(cnt)

    def elem(ix):
        j = z_int(ix[p])
        t = pos(j)
        eng.assume(z3.Implies(z3.And(j >= 0, j < z_int(cnt)), z3.And(t >= 0, t < z_int(a.shape[p]), t >= j)))
        eng.assume(z3.Implies(z3.And(j >= 0, j < z_int(cnt)), z_bool(rm([t]))))
        jx = list(ix)
        jx[p] = t
        return ra(jx)
    return build(eng, tuple(shape), elem, 'masked')


def shape_eq(eng, s1, s2, what):
    if len(s1) != len(s2):
        raise PyExc('ValueError', 'shape mismatch: ' + what)
    for x, y in zip(s1, s2):
        if same(x, y):
            continue
        if not isz(x) and not isz(y):
            raise PyExc('ValueError', 'shape mismatch %s: %s %s' % (what, x, y))
        eng.prove(z_int(x) == z_int(y), 'shape:' + what)


def set_index(eng, a, idx, v):
    idx = list(idx)
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].k in BOOLK:
        m = idx[0]
        shape_eq(eng, a.shape, m.shape, 'mask')
        rm, ra = snap(eng, m), snap(eng, a)
        if isinstance(v, MaskSel):
            rv = snap(eng, v.arr)
            if not mask_same(eng, v.mask, m):
                raise Unsupported('masked assignment with a different mask')
            val = lambda ix: rv(ix)
        elif isnum(v):
            val = lambda ix: v
        else:
            raise Unsupported('masked assignment value')
        return bulk_store(eng, a, lambda ix: z_bool(rm(ix)), val)
    if any(x is Ellipsis for x in idx):
        p = [x is Ellipsis for x in idx].index(True)
        idx = idx[:p] + [slice(None)] * (a.ndim - len(idx) + 1) + idx[p + 1:]
    if len(idx) > a.ndim:
        raise PyExc('IndexError', 'too many indices for array')
    if any(isinstance(i, (Arr, list)) for i in idx):
        if all(isinstance(i, Arr) and i.k in INTK and i.ndim == 1 for i in idx) and len(idx) == a.ndim and isnum(v) and not a.aslist:
            return scatter_store(eng, a, idx, v)
        ms = [p for p, i in enumerate(idx) if isinstance(i, Arr) and i.k in BOOLK and i.ndim == 1]
        if len(ms) == 1 and not any(isinstance(i, (Arr, list)) for p, i in enumerate(idx) if p != ms[0]) and isnum(v):
            # a boolean mask on one axis, numbers or slices on the others
            p = ms[0]
            m = idx[p]
            shape_eq(eng, (a.shape[p],), m.shape, 'mask')
            rm = snap(eng, m)
            view = index(eng, a, tuple(slice(None) if q == p else i for q, i in enumerate(idx)))
            at = sum(1 for q, i in enumerate(idx) if q < p and isinstance(i, slice))
            return bulk_store(eng, view, lambda ix: z_bool(rm([ix[at]])), lambda ix: v)
        at = [p for p, i in enumerate(idx) if isinstance(i, Arr)]
        sel = [idx[p].buf.sel for p in at]
        if isnum(v) and not any(isinstance(i, list) for i in idx) and all(x is not None and x[2] == idx[p].buf.ver and same(idx[p].shape[0], x[0].n) for x, p in zip(sel, at)) \
                and len({id(x[0]) for x in sel}) == 1 and [x[1] for x in sel] == list(range(len(sel[0][0].shape))) and at == list(range(at[0], at[0] + len(at))):
            # all index arrays of one np.nonzero: exactly the entries at which its argument is non-zero
            en = sel[0][0]
            for p, n in zip(at, en.shape):
                if not same(n, a.shape[p]):
                    eng.prove(n <= z_int(a.shape[p]), 'index-bounds')
            view = index(eng, a, tuple(slice(None) if q in at else i for q, i in enumerate(idx)))
            off = sum(1 for q, i in enumerate(idx) if q < at[0] and isinstance(i, slice))
            pick = lambda ix: [z_int(x) for x in ix[off:off + len(at)]]
            return bulk_store(eng, view, lambda ix: z3.And(en.inside(pick(ix)), en.cond(pick(ix))), lambda ix: v)
        raise Unsupported('fancy assignment')
    if len(idx) == a.ndim and all(not isinstance(i, slice) for i in idx):
        ix = [norm_index(eng, i, s) for i, s in zip(idx, a.shape)]
        if isinstance(v, Arr):
            if v.ndim == 0 or all(not isz(s) and s == 1 for s in v.shape):
                v = eng.read(v, [0] * v.ndim)
            else:
                raise PyExc('ValueError', 'setting an array element with a sequence')
        return eng.store(a, ix, v)
    view = index(eng, a, tuple(idx))
    if isnum(v):
        return bulk_store(eng, view, None, lambda ix: v)
    w = as_arr(eng, v)
    if w.ndim > view.ndim:
        raise PyExc('ValueError', 'could not broadcast')
    rw = snap(eng, w)
    off = view.ndim - w.ndim
    bc = []
    for q in range(w.ndim):
        x, y = w.shape[q], view.shape[off + q]
        if not isz(x) and x == 1 and not (not isz(y) and y == 1):
            bc.append(True)
        else:
            shape_eq(eng, (x,), (y,), 'assignment')
            bc.append(False)
    return bulk_store(eng, view, None, lambda ix: rw([0 if bc[q] else ix[off + q] for q in range(w.ndim)]))


def mask_same(eng, m1, m2):
    if m1 is m2 or (m1.buf is m2.buf and m1.imap == m2.imap):
        return True
    ix = generic_idx(eng, m1.shape)
    eng.push()
    eng.assume(in_range(ix, m1.shape))
    r = eng.valid(z_bool(snap(eng, m1)(ix)) == z_bool(snap(eng, m2)(ix)))
    eng.pop()
    return r


def bulk_store(eng, a, mask, val):
    """a[...] = val(idx) (where mask(idx))"""
    b = a.buf
    if b.ro:
        eng.prove(False, 'frame:%s' % b.name)
    ix = generic_idx(eng, a.shape)
    eng.push()
    eng.assume(in_range(ix, a.shape))
    if mask is not None:
        eng.assume(mask(ix))
    bi = [raw(i) for i in a.bidx(ix)]
    v = eng.cast_elem(val(ix), b.k)
    for h in b.hooks:
        h(eng, b, bi, v)
    eng.elem_checks(b, v)
    eng.par_access(b, bi, True)
    eng.pop()
    old = b.content
    imap, shape = a.imap, a.shape

    def content(bx):
        conds = []
        ax = [None] * len(shape)
        for m, x in zip(imap, bx):
            if m[0] == 'f':
                if same(x, m[1]):
                    continue
                if not isz(raw(x)) and not isz(raw(m[1])):
                    return old(bx)
                conds.append(z_int(x) == z_int(m[1]))
            else:
                t = raw(x) if (not isz(m[2]) and m[2] == 0) else t_sub(x, m[2])
                if m[3] == -1:
                    t = t_mul(t, -1)
                ax[m[1]] = t
                if not (not isz(m[2]) and m[2] == 0 and m[3] == 1 and full_axis(b, imap, m, shape)):
                    conds.append(z3.And(z_int(t) >= 0, z_int(t) < z_int(shape[m[1]])))
        ax = [0 if x is None else x for x in ax]
        eng.quiet += 1
        try:
            if mask is not None:
                conds.append(mask(ax))
            nv = raw(eng.cast_elem(val(ax), b.k))
        finally:
            eng.quiet -= 1
        if not conds:
            return nv
        return eng.ite(z3.And(*[z_bool(c) for c in conds]), nv, old(bx))
    eng.set_content(b, content)


def full_axis(b, imap, m, shape):
    p = list(imap).index(m)
    return same(b.shape[p], shape[m[1]])


def inplace(eng, a, op, v):
    if isinstance(v, (Arr, Seq, list)):
        w = as_arr(eng, v)
        rw = snap(eng, w)
        off = a.ndim - w.ndim
        for q in range(w.ndim):
            if not (not isz(w.shape[q]) and w.shape[q] == 1):
                shape_eq(eng, (w.shape[q],), (a.shape[off + q],), 'inplace')
        rv = lambda ix: rw([0 if (not isz(w.shape[q]) and w.shape[q] == 1) else ix[off + q] for q in range(w.ndim)])
    elif isnum(v):
        rv = lambda ix: v
    else:
        raise Unsupported('inplace operand')
    ra = snap(eng, a)

    def val(ix):
        r = eng.binop(op, ra(ix), rv(ix))
        if kind(r) in FLK and a.k not in FLK:
            raise PyExc('UFuncTypeError', 'cannot cast in place')
        return r
    bulk_store(eng, a, None, val)


# ------------------------------------------------------------------ elementwise
def bshape(eng, arrs):
    nd = max(a.ndim for a in arrs)
    shape = []
    for p in range(nd):
        cur = 1
        for a in arrs:
            q = p - (nd - a.ndim)
            if q < 0:
                continue
            s = a.shape[q]
            if not isz(s) and s == 1:
                continue
            if not isz(cur) and cur == 1:
                cur = s
                continue
            if same(cur, s):
                continue
            if not isz(cur) and not isz(s):
                raise PyExc('ValueError', 'operands could not be broadcast together')
            eng.prove(z_int(cur) == z_int(s), 'broadcast')
        shape.append(cur)
    return tuple(shape)


def elementwise(eng, f, args, name='expr'):
    if any(isinstance(a, MaskSel) for a in args):
        ms = [a for a in args if isinstance(a, MaskSel)]
        m = ms[0]
        for x in ms[1:]:
            if not mask_same(eng, m.mask, x.mask):
                raise Unsupported('different masks')
        sub = [a.arr if isinstance(a, MaskSel) else a for a in args]
        if any(isinstance(a, Arr) and not any(a is x.arr for x in ms) for a in sub):
            raise Unsupported('mask selection with plain array')
        return MaskSel(elementwise(eng, f, sub, name), m.mask)
    arrs = {}
    for p, a in enumerate(args):
        if not isnum(a):
            arrs[p] = as_arr(eng, a)
    shape = bshape(eng, list(arrs.values()))
    rds = {p: snap(eng, a) for p, a in arrs.items()}

    def elem(ix):
        vs = []
        for p, a in enumerate(args):
            if p in arrs:
                x = arrs[p]
                off = len(shape) - x.ndim
                vs.append(rds[p]([0 if (not isz(s) and s == 1 and not same(shape[off + q], 1)) else ix[off + q]
                                  for q, s in enumerate(x.shape)]))
            else:
                vs.append(a)
        return f(*vs)
    return build(eng, shape, elem, name)


def arr_binop(eng, op, a, b):
    if op == '@':
        return dot(eng, a, b)
    if isinstance(a, Arr) and a.aslist and isinstance(b, Arr) and b.aslist:
        raise Unsupported('list concatenation')
    return elementwise(eng, lambda x, y: eng.binop(op, x, y), [a, b])


def arr_compare(eng, op, a, b):
    return elementwise(eng, lambda x, y: eng.compare(op, x, y), [a, b], 'cmp')


def arr_map(eng, a, f):
    return elementwise(eng, f, [a])


# ------------------------------------------------------------------ reductions
def reduce(eng, op, a, axis=None):
    """sum/count/any/all/prod over all elements, through the contract's ghost folds where they match pointwise"""
    guard = None
    if isinstance(a, Values):
        if op not in ('any', 'all') or axis not in (None, 0):
            raise Unsupported('%s over the distinct values' % op)
        a, axis = a.arr, None
    if isinstance(a, MaskSel):
        guard = snap(eng, a.mask)
        a = a.arr
    if isinstance(a, Seq) and a.cat is not None and axis is None:
        x, y = [reduce(eng, op, p) for p in a.cat]
        if op in ('any', 'all'):
            return SV(simp((z3.Or if op == 'any' else z3.And)(z_bool(eng.truth(x)), z_bool(eng.truth(y)))), 'b1')
        return eng.binop('*' if op == 'prod' else '+', x, y)
    if isinstance(a, Seq) and a.whole is not None and a.guard is None:
        n, el, t = a.whole
        a = Seq(n, el, lambda i: z_int(i) != t)
    if isinstance(a, Seq):
        if a.guard is not None:
            g = a.guard
            sq = a
            guard = lambda ix: g(ix[0])
            a = Seq(a.length, a.elem)
            rd = lambda ix: sq.elem(ix[0])
            shape = (a.length,)
        else:
            rd = lambda ix: a.elem(ix[0])
            shape = (a.length,)
    else:
        a = as_arr(eng, a)
        rd = snap(eng, a)
        shape = a.shape
    if axis is not None:
        ax = int(conc(axis))
        if ax < 0:
            ax += len(shape)
        rest = tuple(s for p, s in enumerate(shape) if p != ax)
        if not rest:
            return reduce1(eng, op, shape, rd, guard)

        def elem(ix):
            def rd1(j):
                jx = list(ix)
                jx.insert(ax, j[0])
                return rd(jx)
            return reduce1(eng, op, (shape[ax],), rd1, None)
        return build(eng, rest, elem, 'red')
    return reduce1(eng, op, shape, rd, guard)


def reduce1(eng, op, shape, rd, guard):
    # concrete shapes: expand
    if all(not isz(s) for s in shape):
        import itertools
        vals = []
        for ix in itertools.product(*[range(s) for s in shape]):
            v = rd(list(ix))
            if guard is not None:
                g = guard(list(ix))
                if op in ('sum', 'prod'):
                    v = eng.merge(z_bool(g), v, 1 if op == 'prod' else 0)
                elif op == 'all':
                    v = SV(simp(z3.Or(z3.Not(z_bool(g)), z_bool(eng.truth(v)))), 'b1')
                else:
                    v = SV(simp(z3.And(z_bool(g), z_bool(eng.truth(v)))), 'b1')
            vals.append(v)
        if op in ('any', 'all'):
            ts = [z_bool(eng.truth(v)) for v in vals]
            r = z3.Or(*ts) if op == 'any' else z3.And(*ts)
            return SV(simp(r) if ts else op == 'all', 'b1')
        if op == 'count':
            return SV(simp(z3.Sum(*[z3.If(z_bool(eng.truth(v)), 1, 0) for v in vals])) if vals else 0, 'i64')
        if op == 'prod':
            r = 1
            for v in vals:
                r = eng.binop('*', r, v)
            return wide(eng, r)
        r = 0
        for v in vals:
            r = eng.binop('+', r, widen(v))
        return wide(eng, r)
    if op in ('any', 'all', 'count'):
        def term(ix):
            eng.quiet += 1
            try:
                t = z_bool(eng.truth(rd(ix)))
                if guard is not None:
                    g = z_bool(guard(ix))
                    t = z3.And(g, t) if op != 'all' else z3.And(g, z3.Not(t))
                elif op == 'all':
                    t = z3.Not(t)
            finally:
                eng.quiet -= 1
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        tot = fold_total(eng, shape, term, 'count')
        if op == 'any':
            return SV(tot >= 1, 'b1')
        if op == 'all':
            return SV(tot == 0, 'b1')
        return SV(tot, 'i64')
    # sum / prod
    ix = generic_idx(eng, shape)
    eng.push()
    eng.assume(in_range(ix, shape))
    v = rd(ix)
    eng.pop()
    k = kind(v)

    def term2(jx):
        eng.quiet += 1
        try:
            x = rd(jx)
            t = z_real(x) if k in FLK else z_int(x)
            if guard is not None:
                zero = 1 if op == 'prod' else 0
                t = z3.If(z_bool(guard(jx)), t, z3.RealVal(zero) if k in FLK else z3.IntVal(zero))
        finally:
            eng.quiet -= 1
        return t
    if op == 'prod':
        return SV(fold_total(eng, shape, lambda j: z_real(term2(j)), 'prod'), 'f64')
    if k in FLK:
        return SV(fold_total(eng, shape, term2, 'rsum'), k if k != 'float' else 'f64')
    kd = 'count' if k in BOOLK else 'sum'
    return SV(fold_total(eng, shape, term2, kd), 'i64')


def widen(v):
    if isinstance(v, SV) and v.k in ('i8', 'i16', 'i32', 'b1', 'bool'):
        return SV(z_int(v) if isz(v.t) else int(v.t), 'i64', v.lo, v.hi, v.nz)
    return v


def wide(eng, r):
    if isinstance(r, int):
        return SV(r, 'i64')
    return r


def found(eng, f, p, n):
    eng.inst(f, p, z3.IntVal(0))
    tot = f.total(*p)
    if f.kind == 'count':
        eng.assume(z3.And(tot >= 0, z3.Or(tot <= n, n < 0)))
    return tot


def fold_total(eng, shape, term, kd):
    """total of a (possibly nested) fold of term over shape"""
    if len(shape) > 1:
        inner = lambda ix: fold_total(eng, shape[1:], lambda j, ix=ix: term([ix] + list(j)), kd)
        return fold_total(eng, shape[:1], lambda j: inner(j[0]), 'sum' if kd == 'count' else kd)
    n = z_int(shape[0])
    exact = [f for f in eng.folds if same(f.length, n)]
    # other spellings of the same length
    other = [f for f in eng.folds if not any(f is g for g in exact) and isz(n) and not z3.is_int_value(n) and n.decl().kind() != z3.Z3_OP_UNINTERPRETED and eng.valid(f.length == n)]
    negs = []
    for f in exact + other:
        if f.kind in ('first', 'lin') or (f.kind == 'prod') != (kd == 'prod') or (f.kind == 'rsum') != (kd == 'rsum'):
            continue
        if f.params_of is not None:
            i = z3.Int(eng.fresh_name('gi'))
            eng.push()
            eng.assume(z3.And(i >= 0, i < n))
            t = term([i])
            eng.pop()
            ps = f.params_of(t)
        else:
            ps = eng.param_insts(f)
        for p in ps:
            i = z3.Int(eng.fresh_name('gi'))
            ft = f.term(*p, i)
            ft = z_real(ft) if f.real else z_int(ft)
            eng.push()
            eng.assume(z3.And(i >= 0, i < n))
            eng.active.append((i, n))
            try:
                t = term([i])
            finally:
                eng.active.pop()
            if f.real:
                t = z_real(t)
            ok = eng.valid(ft == t)
            neg = None
            if not ok and not f.real:
                if f.kind == 'count' and kd == 'count' and eng.valid(ft == 1 - t):
                    neg = 'not'
                elif eng.valid(ft == -t):
                    neg = 'minus'
            eng.pop()
            if ok:
                return found(eng, f, p, n)
            if neg:
                negs.append((f, p, neg))
    for f, p, neg in negs:
        tot = found(eng, f, p, n)
        return z3.If(n >= 0, n, 0) - tot if neg == 'not' else -tot
    if kd in ('count', 'sum'):
        i = z3.Int(eng.fresh_name('gi'))
        eng.push()
        eng.assume(z3.And(i >= 0, i < n))
        eng.active.append((i, n))
        try:
            none = eng.valid(z_int(term([i])) == 0)
        finally:
            eng.active.pop()
            eng.pop()
        if none:
            return z3.IntVal(0)
    from .engine import Fold
    # the same total asked for twice
    g = z3.Int('gi!same')
    text = z3.simplify(z_any(term([g])))
    for f in eng.folds_anon:
        if getattr(f, 'text', None) is not None and f.kind == kd and same(f.length, n) and f.text.eq(text):
            break
    else:
        f = None
    if f is None:
        f = Fold(eng, eng.fresh_name('anon'), [], n, lambda i: term([i]), kd)
        f.text = text
        if kd == 'prod':
            f.unit = False
        eng.folds_anon.append(f)
    eng.inst(f, (), z3.IntVal(0))
    tot = f.total()
    if kd == 'count':
        eng.assume(z3.And(tot >= 0, z3.Or(tot <= n, n < 0)))
    return tot


# ------------------------------------------------------------------ calls
def dtype_of(eng, d, dflt=None):
    if d is None:
        return dflt
    if isinstance(d, DType):
        return {'int': 'i64', 'float': 'f64', 'bool': 'b1'}.get(d.k, d.k)
    if isinstance(d, str):
        if d in NAMED_DTYPES:
            return NAMED_DTYPES[d]
        return {'int': 'i64', 'float': 'f64', 'bool': 'b1'}[d]
    if isinstance(d, Intrinsic) and d.name.split('.')[-1] in ('int', 'float', 'bool'):
        return {'int': 'i64', 'float': 'f64', 'bool': 'b1'}[d.name.split('.')[-1]]
    raise Unsupported('dtype %r' % (d,))


def cast(eng, v, k):
    if isinstance(v, (Arr, Seq, list)):
        if isinstance(v, Arr) and all(not isz(s) and s == 1 for s in v.shape):
            return cast(eng, eng.read(v, [0] * v.ndim), k)
        return elementwise(eng, lambda x: cast(eng, x, k), [v])
    if isinstance(v, str):
        if k == 'int':
            return int(v)
        raise Unsupported('cast of string')
    if not isnum(v):
        raise PyExc('TypeError', 'cast of %r' % (v,))
    c = conc(v)
    if k == 'float':
        return SV(z_real(v), 'float') if c is None else frac(c)
    if k == 'bool':
        t = eng.truth(v)
        return t if not isz(t) else SV(t, 'bool')
    if k == 'int':
        if c is not None:
            return int(c)
        if kind(v) in FLK:
            sv = eng.cast_elem(v, 'i64')
            return SV(sv.t, 'int')
        return SV(z_int(v), 'int', *(eng.bounds(v)))
    return eng.cast_elem(v, k)


def shape_arg(eng, s):
    if isinstance(s, Arr) and not isz(s.shape[0]):
        s = eng.to_list(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(conc(x)) if conc(x) is not None else z_int(x) for x in s)
    if isinstance(s, Arr):
        raise Unsupported('shape from array')
    return (int(conc(s)) if conc(s) is not None else z_int(s),)


def copy_arr(eng, a, k=None, name=None):
    rd = snap(eng, a)
    if k is not None and k != a.k:
        return build(eng, a.shape, lambda ix: eng.cast_elem(rd(ix), k), name or a.buf.name + '_c', k)
    b = eng.new_buffer(a.shape, a.k, lambda ix: rd(ix).t, name or a.buf.name + '_c', lo=a.buf.lo, hi=a.buf.hi, nz=a.buf.nz,
                       einv=None)
    return Arr(b, a.shape)


def real_fn(name, n=1):
    return z3.Function(name, *([z3.RealSort()] * (n + 1)))


def ufunc(eng, name, x):
    """transcendental functions as uninterpreted reals with instantiated facts"""
    if isinstance(x, (Arr, Seq, list, MaskSel)):
        return elementwise(eng, lambda v: ufunc(eng, name, v), [x])
    if not isnum(x):
        raise PyExc('TypeError', name)
    k = kind(x)
    kk = k if k in ('f32', 'f16') else ('float' if name.startswith('m.') else 'f64')
    t = z_real(x)
    nm = name[2:] if name.startswith('m.') else name
    f = real_fn(nm)
    r = f(z3.simplify(t))
    eng.apps.setdefault(nm, [])
    lst = eng.apps[nm]
    if not any(a.eq(t) for a, _ in lst):
        lst.append((t, r))
    if nm == 'log':
        eng.prove(t > 0, 'log-positive')
        eng.assume(z3.Implies(t >= 1, r >= 0))
        eng.assume(z3.Implies(z3.And(t > 0, t < 1), r < 0))
        eng.assume(z3.Implies(t > 1, r > 0))
    elif nm == 'exp':
        if name == 'm.exp':
            eng.prove(t <= 709, 'exp-range')      # math.exp raises OverflowError beyond
        eng.assume(r > 0)
        eng.assume(z3.Implies(t >= 0, r >= 1))
        eng.assume(z3.Implies(t < 0, r < 1))
        eng.assume(z3.Implies(t == 0, r == 1))
    elif nm == 'expit':
        eng.assume(z3.And(r > 0, r < 1))
        m = f(z3.simplify(-t))
        eng.assume(r + m == 1)
        eng.assume(z3.Implies(t == 0, r == z3.RealVal('1/2')))
        eng.assume(z3.Implies(t > 0, r > z3.RealVal('1/2')))
        eng.assume(z3.Implies(t < 0, r < z3.RealVal('1/2')))
    elif nm == 'logit':
        eng.assume(z3.Implies(t == z3.RealVal('1/2'), r == 0))
        eng.assume(z3.Implies(t > z3.RealVal('1/2'), r > 0))
        eng.assume(z3.Implies(z3.And(t > 0, t < z3.RealVal('1/2')), r < 0))
    return SV(r, kk)


def seeded(eng):
    """the generator was seeded as the contract demands before this draw"""
    if eng.inmerged:
        raise Unsupported('random draw inside a comprehension')
    arg = eng.ghost.get('seed_arg')
    if arg is not None:
        got = eng.ghost.get('seed')
        eng.prove(isnum(got) and eng.valid(z_int(got) == z_int(arg)), 'post:seeded', 'a draw before the generator is seeded with the given seed')


def draw_fn(eng, extra):
    """function naming the draws made at this point of the program: of the active loop indices and of extra array indices.
    Draws at different program points, re-entries of a loop, repetitions or indices are different draws."""
    if eng.whiles or any(n is None for _, n in eng.active):
        return None
    act = [t for t, _ in eng.active]
    pos = (eng.ctx, getattr(eng.callnode, 'lineno', 0), getattr(eng.callnode, 'col_offset', 0), tuple(eng.loopstack))
    ck = (pos, tuple(t.get_id() for t in act))
    k = eng.drawk.get(ck, 0)
    eng.drawk[ck] = k + 1
    key = (pos, k, len(act), extra)
    if key not in eng.drawfns:
        nm = 'draw!%d' % len(eng.drawfns)
        eng.drawfns[key] = z3.Function(nm, *([z3.IntSort()] * (len(act) + extra) + [z3.RealSort()])) if len(act) + extra else z3.Real(nm)
        eng.changed = True
    f = eng.drawfns[key]
    return (lambda ix: f(*(act + [z_int(i) for i in ix]))) if len(act) + extra else (lambda ix: f)


def rand_draw(eng, what):
    seeded(eng)
    fn = draw_fn(eng, 0) if eng.opts.get('draws') else None
    v = SV(fn(()) if fn else z3.Real(eng.fresh_name('u')), 'f64')
    eng.assume(z3.And(v.t >= 0, v.t < 1))
    eng.draws.append((what, v.t))
    eng.ghost.setdefault('uniforms', []).append(v.t)
    return v


def argsplit(args, kw, names, dflt=None):
    out = list(args)
    for n in names[len(args):]:
        out.append(kw.pop(n, None))
    return out


def mk_range(eng, a, prange=False):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    cs = [conc(x) for x in (start, stop, step)]
    if all(c is not None for c in cs):
        return range(int(cs[0]), int(cs[1]), int(cs[2]))
    st = cs[2]
    if st not in (1, -1):
        raise Unsupported('range step')
    for x in (start, stop):
        if kind(x) in FLK:
            raise PyExc('TypeError', 'range of float')
    s, e = z_int(start), z_int(stop)
    n = z3.simplify(e - s if st == 1 else s - e)
    if not (cs[0] == 0 and st == 1):
        ln = z3.If(n < 0, z3.IntVal(0), n)
        if eng.valid(n >= 0):
            ln = n
    else:
        ln = n

    def elem(i):
        return SV(z3.simplify(s + z_int(i)) if st == 1 else z3.simplify(s - z_int(i)), 'int')
    return SymIter(ln, elem, prange, (raw(start), st, raw(stop)))


def dot(eng, a, b):
    a, b = as_arr(eng, a), as_arr(eng, b)
    ra, rb = snap(eng, a), snap(eng, b)
    boolean = a.k in BOOLK and b.k in BOOLK

    def red(n, f):
        if boolean:
            return reduce1(eng, 'any', (n,), f, None)
        return reduce1(eng, 'sum', (n,), f, None)
    mul = lambda x, y: eng.binop('*', widen(x) if not boolean else x, widen(y) if not boolean else y)
    if a.ndim == 1 and b.ndim == 1:
        shape_eq(eng, a.shape, b.shape, 'dot')
        return red(a.shape[0], lambda j: mul(ra(j), rb(j)))
    if a.ndim == 2 and b.ndim == 1:
        shape_eq(eng, a.shape[1:], b.shape, 'dot')
        return build(eng, a.shape[:1], lambda ix: red(b.shape[0], lambda j: mul(ra([ix[0], j[0]]), rb(j))), 'dot')
    if a.ndim == 2 and b.ndim == 2:
        shape_eq(eng, a.shape[1:], b.shape[:1], 'dot')
        return build(eng, (a.shape[0], b.shape[1]),
                     lambda ix: red(b.shape[0], lambda j: mul(ra([ix[0], j[0]]), rb([j[0], ix[1]]))), 'dot')
    raise Unsupported('dot')


def minmax(eng, op, xs):
    r = xs[0]
    for x in xs[1:]:
        c = eng.compare('>' if op == 'max' else '<', x, r)
        r = eng.merge(z_bool(c) if isinstance(c, SV) else c, x, r)
    return r


def call_ext(eng, name, args, kw, node):
    name = canon(name)
    eng.assumed.add(name)
    eng.callnode = node
    h = HANDLERS.get(name)
    if h is None:
        hook = eng.opts.get('ext', {}).get(name)
        if hook:
            return hook(eng, *args, **kw)
        if name.startswith('exc.'):
            return Intrinsic(name)
        raise Unsupported('external function ' + name)
    hook = eng.opts.get('ext', {}).get(name)
    if hook:
        r = hook(eng, *args, **kw)
        if r is not NotImplemented:
            return r
    return h(eng, args, kw)


HANDLERS = {}


def ext(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


@ext('builtins.len')
def _(eng, a, kw):
    v = a[0]
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyExc('TypeError', 'len() of unsized object')
        n = v.shape[0]
        return n if not isz(n) else SV(n, 'int', 0)
    if isinstance(v, (Seq, SymIter)):
        if getattr(v, 'guard', None) is not None:
            return reduce1(eng, 'count', (v.length,), lambda ix: True, lambda ix: v.guard(ix[0]))
        return SV(z_int(v.length), 'int', 0)
    if isinstance(v, (SV, Obj)):
        if isinstance(v, Obj) and eng.class_attr(v.cls, '__len__'):
            return eng.call(eng.class_attr(v.cls, '__len__'), [v], {})
        raise PyExc('TypeError', 'no len()')
    return len(v)


@ext('builtins.range')
def _(eng, a, kw):
    return mk_range(eng, a)


@ext('numba.prange')
def _(eng, a, kw):
    return mk_range(eng, a, not (eng.fnstack and eng.fnstack[-1].sequential))


@ext('builtins.print', 'builtins.repr')
def _(eng, a, kw):
    return None


@ext('builtins.str')
def _(eng, a, kw):
    if a and isinstance(a[0], (str, int)) and not isinstance(a[0], bool):
        return str(a[0])
    return SymStr()


@ext('builtins.round')
def _(eng, a, kw):
    if isinstance(a[0], SV):
        return SV(z3.Real(eng.fresh_name('round')), 'float')
    return a[0]


@ext('builtins.abs', 'numpy.abs', 'numpy.absolute', 'math.fabs', 'numpy.fabs')
def _(eng, a, kw):
    def f(x):
        c = conc(x)
        if c is not None:
            return abs(c) if not isinstance(x, SV) else SV(abs(c), x.k)
        if kind(x) in FLK:
            return SV(z3.If(z_real(x) >= 0, z_real(x), -z_real(x)), x.k)
        lo, hi = x.lo, x.hi
        return SV(z3.If(z_int(x) >= 0, z_int(x), -z_int(x)), x.k, 0, None if None in (lo, hi) else max(abs(lo), abs(hi)))
    return f(a[0]) if isnum(a[0]) else elementwise(eng, f, [a[0]])


@ext('builtins.min', 'builtins.max')
def _bmm(eng, a, kw):
    raise Unsupported('min/max')


def _mk_mm(op):
    def f(eng, a, kw):
        if kw:
            if set(kw) - {'default'}:
                raise Unsupported('min/max keywords')
        if len(a) == 1 and not kw and isinstance(a[0], Arr) and a[0].ndim == 1 and isz(a[0].shape[0]):
            return HANDLERS['numpy.' + op](eng, a, kw)
        xs = a if len(a) > 1 else eng.to_list(a[0])
        return minmax(eng, op, list(xs))
    return f


HANDLERS['builtins.min'] = _mk_mm('min')
HANDLERS['builtins.max'] = _mk_mm('max')


def _np_mm(op):
    def f(eng, a, kw):
        if len(a) > 1 or kw:
            raise Unsupported('np.%s with axis' % op)
        v = a[0]
        if isinstance(v, (list, tuple)):
            xs = []
            for x in v:
                xs += [x] if isnum(x) else eng.to_list(x)
            r = minmax(eng, op, xs)
            if not isinstance(r, SV):
                r = SV(r, 'i64' if isinstance(r, int) else 'f64')
            elif r.k in ('float', 'int'):
                r = SV(r.t, 'f64' if r.k == 'float' else 'i64')
            return r
        if isnum(v):
            return v
        arr = as_arr(eng, v)
        if all(not isz(s) for s in arr.shape) and arr.ndim == 1:
            return minmax(eng, op, eng.to_list(arr))
        # symbolic: bound + attained
        rd = snap(eng, arr)
        ix = [z3.Int(eng.fresh_name('arg' + op)) for _ in arr.shape]
        for i, s in zip(ix, arr.shape):
            eng.prove(z_int(s) > 0, 'nonempty')
            eng.assume(z3.And(i >= 0, i < z_int(s)))
        r = rd(ix)
        js = [z3.Int(eng.fresh_name('q')) for _ in arr.shape]
        eng.quiet += 1
        x = rd(js)
        eng.quiet -= 1
        zx, zr = (z_real(x), z_real(r)) if arr.k in FLK else (z_int(x), z_int(r))
        # a name of its own for the value, which may be a long case distinction
        v = SV((z3.Real if z3.is_real(zr) else z3.Int)(eng.fresh_name(op)), r.k, r.lo, r.hi, r.nz)
        eng.assume(v.t == zr)
        if arr.ndim == 1:
            eng.assume(z3.ForAll(js, z3.Implies(in_range(js, arr.shape), zx <= v.t if op == 'max' else zx >= v.t)))
        return v
    return f


for _n, _o in (('max', 'max'), ('amax', 'max'), ('min', 'min'), ('amin', 'min')):
    HANDLERS['numpy.' + _n] = _np_mm(_o)


@ext('numpy.maximum', 'math.fmax', 'numpy.fmax')
def _(eng, a, kw):
    f = lambda x, y: minmax(eng, 'max', [x, y])
    return f(*a) if isnum(a[0]) and isnum(a[1]) else elementwise(eng, f, a)


@ext('numpy.minimum', 'numpy.fmin')
def _(eng, a, kw):
    f = lambda x, y: minmax(eng, 'min', [x, y])
    return f(*a) if isnum(a[0]) and isnum(a[1]) else elementwise(eng, f, a)


@ext('numpy.clip')
def _(eng, a, kw):
    f = lambda x: minmax(eng, 'min', [minmax(eng, 'max', [x, a[1]]), a[2]])
    return f(a[0]) if isnum(a[0]) else elementwise(eng, f, [a[0]])


def _red(op):
    def f(eng, a, kw):
        axis = kw.pop('axis', a[1] if len(a) > 1 else None)
        kw.pop('dtype', None)
        if kw:
            raise Unsupported('reduction keywords')
        v = a[0]
        if isnum(v):
            if op in ('any', 'all'):
                t = eng.truth(v)
                return SV(t, 'b1')
            if op == 'count':
                return SV(z_int(SV(z_bool(eng.truth(v)), 'bool')), 'i64')
            return v
        return reduce(eng, op, v, axis)
    return f


for _n, _o in (('sum', 'sum'), ('any', 'any'), ('all', 'all'), ('count_nonzero', 'count'), ('prod', 'prod'), ('product', 'prod'),
               ('nansum', 'sum')):
    HANDLERS['numpy.' + _n] = _red(_o)


@ext('numpy.prod')
def _(eng, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple)) and all(isnum(x) for x in v):
        r = 1
        if eng.opts.get('sizes') and any(isinstance(x, SV) and isz(x.t) for x in v) and all(kind(x) in INTK for x in v):
            return eng.size_of([raw(x) for x in v])
        for x in v:
            r = eng.binop('*', r, x)
        return r if isinstance(r, SV) and r.k not in PYK else SV(raw(r), 'i64' if kind(r) == 'int' else 'f64')
    return _red('prod')(eng, a, kw)


@ext('builtins.any', 'builtins.all')
def _(eng, a, kw):
    raise Unsupported('any/all')


def _bred(op):
    def f(eng, a, kw):
        v = a[0]
        if isinstance(v, (list, tuple)):
            ts = [eng.truth(x) for x in v]
            if op == 'any':
                r = z3.Or(*[z_bool(t) for t in ts]) if ts else False
            else:
                r = z3.And(*[z_bool(t) for t in ts]) if ts else True
            r = simp(r) if isz(r) else r
            return r if isinstance(r, bool) else SV(r, 'bool')
        r = reduce(eng, op, v)
        return SV(r.t, 'bool')
    return f


HANDLERS['builtins.any'] = _bred('any')
HANDLERS['builtins.all'] = _bred('all')


@ext('builtins.sum')
def _(eng, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple)):
        r = a[1] if len(a) > 1 else 0
        for x in v:
            r = eng.binop('+', r, x)
        return r
    r = reduce(eng, 'sum', v)
    return SV(r.t, 'int' if r.k == 'i64' else r.k)


@ext('builtins.enumerate')
def _(eng, a, kw):
    it = eng.iterate(a[0])
    if isinstance(it, list):
        return [(i, x) for i, x in enumerate(it)]
    if isinstance(it, SymIter):
        return SymIter(it.length, lambda i: (SV(z_int(i), 'int'), it.elem(i)))
    raise Unsupported('enumerate')


@ext('builtins.zip')
def _(eng, a, kw):
    its = [eng.iterate(x) for x in a]
    if all(isinstance(i, list) for i in its):
        return [tuple(t) for t in zip(*its)]
    n = None
    for i in its:
        if isinstance(i, SymIter):
            if n is None:
                n = i.length
            elif not same(n, i.length):
                eng.prove(z_int(n) == z_int(i.length), 'shape:zip')
        else:
            raise Unsupported('zip of mixed lengths')
    return SymIter(n, lambda i: tuple(x.elem(i) for x in its))


@ext('builtins.reversed')
def _(eng, a, kw):
    it = eng.iterate(a[0])
    if isinstance(it, list):
        return it[::-1]
    return SymIter(it.length, lambda i: it.elem(z3.simplify(z_int(it.length) - 1 - z_int(i))), False,
                   None if it.range is None or it.range[1] != 1 else (t_sub(it.range[2], 1), -1, t_sub(it.range[0], 1)))


@ext('builtins.list', 'builtins.tuple')
def _(eng, a, kw):
    if not a:
        return []
    v = a[0]
    if isinstance(v, NdIter) and any(isz(x) for x in v.shape):
        en = nd_enum(eng, v)
        if en is None:
            raise Unsupported('list of index tuples')
        return Seq(en.n, lambda j: tuple(SV(i, 'int', 0) for i in en.at(j)), None, en)
    if isinstance(v, (SymIter,)):
        it = eng.iterate(v)
        if isinstance(it, list):
            return it
        if v.range is not None:
            return SymIter(v.length, v.elem, v.prange, v.range, True)
        _, then = eng.frozen(None, None)
        return SymIter(v.length, lambda i: then(lambda: v.elem(i)), v.prange, None, True)
    if isinstance(v, Seq):
        return Seq(v.length, v.elem, v.guard, v.enum)
    if isinstance(v, Arr) and isz(v.shape[0]):
        return v
    return eng.to_list(v)


HANDLERS['builtins.tuple'] = lambda eng, a, kw: (lambda r: tuple(r) if isinstance(r, list) else r)(HANDLERS['builtins.list'](eng, a, kw)) if a else ()


@ext('builtins.set', 'builtins.frozenset')
def _(eng, a, kw):
    if a and isinstance(a[0], (Values, Arr)):
        return a[0] if isinstance(a[0], Values) else Values(a[0])
    return set(eng.to_list(a[0])) if a else set()


@ext('builtins.iter')
def _(eng, a, kw):
    if len(a) != 1:
        raise Unsupported('iter with a sentinel')
    it = eng.iterate(a[0])
    return list(it) if isinstance(it, list) else it


@ext('builtins.dict')
def _(eng, a, kw):
    return dict(a[0]) if a else dict(kw)


@ext('builtins.sorted')
def _(eng, a, kw):
    xs = eng.to_list(a[0])
    key = kw.get('key')
    rev = kw.get('reverse', False)
    ks = [eng.call(key, [x], {}) if key is not None else x for x in xs]
    cs = [conc(k) if isnum(k) else k for k in ks]
    if any(c is None for c in cs):
        raise PyExc('TypeError', 'unorderable keys') if any(k is None for k in ks) and len(ks) > 1 else Unsupported('sort of symbolic keys')
    return [xs[i] for i in sorted(range(len(xs)), key=lambda i: cs[i], reverse=bool(rev))]


@ext('builtins.isinstance')
def _(eng, a, kw):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    return any(type_match(eng, v, x) for x in ts)


def type_match(eng, v, t):
    if isinstance(t, ClassVal):
        return isinstance(v, Obj) and t in v.cls.mro()
    if isinstance(t, DType):
        k = kind(v)
        return k == t.k or (t.k == 'int' and k == 'bool') or (t.k == 'float' and k == 'f64')
    if isinstance(t, Intrinsic):
        n = t.name
        if n == 'numpy.ndarray':
            return isinstance(v, Arr) and not v.aslist
        if n == 'builtins.list':
            return isinstance(v, list)
        if n == 'builtins.tuple':
            return isinstance(v, tuple)
        if n == 'builtins.str':
            return isinstance(v, (str, SymStr))
        if n == 'builtins.dict':
            return isinstance(v, dict)
        if n in ('numpy.integer',):
            return kind(v) in INTR
        if n in ('numpy.floating',):
            return kind(v) in ('f32', 'f64', 'f16')
    raise Unsupported('isinstance %r' % (t,))


@ext('builtins.type')
def _(eng, a, kw):
    v = a[0]
    if isinstance(v, Arr):
        return Intrinsic('numpy.ndarray')
    if isinstance(v, Obj):
        return v.cls
    k = kind(v)
    if k is not None:
        return DType(k)
    if v is None:
        return Intrinsic('builtins.NoneType')
    return Intrinsic('builtins.' + type(v).__name__)


@ext('builtins.dir')
def _(eng, a, kw):
    return list(a[0].attrs) if isinstance(a[0], Obj) else []


@ext('builtins.hasattr')
def _(eng, a, kw):
    try:
        eng.getattr(a[0], a[1])
        return True
    except PyExc:
        return False


@ext('builtins.getattr')
def _(eng, a, kw):
    try:
        return eng.getattr(a[0], a[1])
    except PyExc:
        if len(a) > 2:
            return a[2]
        raise


@ext('builtins.map')
def _(eng, a, kw):
    return [eng.call(a[0], [x], {}) for x in eng.to_list(a[1])]


# ---- array construction
def _full(val):
    def f(eng, a, kw):
        a = list(a)
        shape = shape_arg(eng, a[0] if a else kw.pop('shape'))
        v = val
        if val == 'full':
            v = a[1] if len(a) > 1 else kw.pop('fill_value')
            dt = a[2] if len(a) > 2 else kw.pop('dtype', None)
        else:
            dt = a[1] if len(a) > 1 else kw.pop('dtype', None)
        k = dtype_of(eng, dt, 'f64')
        if val == 'full' and dt is None:
            k = {'int': 'i64', 'float': 'f64', 'bool': 'b1'}.get(kind(v), kind(v))
        for s in shape:
            if isz(s):
                eng.prove(s >= 0, 'shape-nonneg')
        if val == 'empty':
            nm = eng.fresh_name('empty')
            rs = z3.BoolSort() if k in BOOLK else z3.RealSort() if k in FLK else z3.IntSort()
            fn = z3.Function(nm, *([z3.IntSort()] * len(shape) + [rs]))
            return eng.new_arr(shape, k, lambda ix: fn(*[z_int(i) for i in ix]), 'empty')
        t = eng.cast_elem(v, k)
        tt = t.t
        if k in FLK and not isz(tt):
            tt = frac(tt)
        return eng.new_arr(shape, k, lambda ix: tt, 'full')
    return f


HANDLERS['numpy.zeros'] = _full(0)
HANDLERS['numpy.ones'] = _full(1)
HANDLERS['numpy.empty'] = _full('empty')
HANDLERS['numpy.full'] = _full('full')


def _like(val):
    def f(eng, a, kw):
        arr = as_arr(eng, a[0])
        dt = kw.pop('dtype', None)
        if val == 'full':
            return HANDLERS['numpy.full'](eng, [list(arr.shape), a[1]], {'dtype': dt or DType(arr.k)})
        return HANDLERS['numpy.' + val](eng, [list(arr.shape)], {'dtype': dt or DType(arr.k)})
    return f


for _n in ('zeros', 'ones', 'empty', 'full'):
    HANDLERS['numpy.%s_like' % _n] = _like(_n)


@ext('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asfortranarray')
def _array(eng, a, kw):
    v = a[0]
    dt = kw.pop('dtype', a[1] if len(a) > 1 else None)
    kw.pop('copy', None)
    kw.pop('order', None)
    k = dtype_of(eng, dt)
    if isnum(v):
        kk = k or {'int': 'i64', 'float': 'f64', 'bool': 'b1'}.get(kind(v), kind(v))
        t = eng.cast_elem(v, kk)
        return eng.new_arr((), kk, lambda ix: t.t, 'scalar')
    if isinstance(v, MaskSel):
        raise Unsupported('array of mask selection')
    arr = as_arr(eng, v)
    if isinstance(v, Arr):
        return copy_arr(eng, arr, k)
    if k is not None and k != arr.k:
        return copy_arr(eng, arr, k)
    return arr


def _asarray(eng, a, kw):
    if isinstance(a[0], Arr):
        dt = kw.get('dtype', a[1] if len(a) > 1 else None)
        k = dtype_of(eng, dt)
        if k is None or k == a[0].k:
            return a[0]
    return _array(eng, a, kw)


HANDLERS['numpy.asarray'] = _asarray


@ext('numpy.astype')
def _(eng, a, kw):
    return copy_arr(eng, a[0], dtype_of(eng, a[1] if len(a) > 1 else kw.get('dtype')))


@ext('numpy.transpose_m')
def _(eng, a, kw):
    if len(a) == 1:
        return transpose(eng, a[0], None)
    if len(a) == 2 and isinstance(a[1], (tuple, list)):
        return transpose(eng, a[0], a[1])
    if len(a) == 2 and a[1] is None:
        return transpose(eng, a[0], None)
    return transpose(eng, a[0], a[1:])


@ext('numpy.transpose')
def _(eng, a, kw):
    return transpose(eng, as_arr(eng, a[0]), a[1] if len(a) > 1 else kw.get('axes'))


@ext('numpy.flatten', 'numpy.squeeze', 'numpy.reshape', 'numpy.view')
def _(eng, a, kw):
    raise Unsupported('reshape')


@ext('numpy.item')
def _(eng, a, kw):
    return eng.read(a[0], [0] * a[0].ndim)


@ext('numpy.fill')
def _(eng, a, kw):
    bulk_store(eng, a[0], None, lambda ix: a[1])


@ext('numpy.arange')
def _(eng, a, kw):
    kw.pop('dtype', None)
    if all(conc(x) is not None and kind(x) in INTK for x in a):
        return as_arr(eng, list(range(*[int(conc(x)) for x in a])))
    if all(kind(x) in INTK for x in a) and len(a) < 3:
        s, e = (0, a[0]) if len(a) == 1 else a
        n = t_sub(e, s)
        return build(eng, (n,), lambda ix: SV(z_int(s) + z_int(ix[0]), 'i64', 0 if conc(s) == 0 else None), 'arange')
    # real arange(start, stop, step): element i is start + i*step, length ceil((stop-start)/step)
    s, e, st = ([0] + list(a) + [1])[:3] if len(a) == 1 else (list(a) + [1])[:3]
    zs, ze, zt = z_real(s), z_real(e), z_real(st)
    eng.prove(zt != 0, 'div-nonzero')
    q = (ze - zs) / zt
    n = z3.Int(eng.fresh_name('len'))
    eng.assume(z3.Implies(q > 0, z3.And(z3.ToReal(n) >= q, z3.ToReal(n) < q + 1)))
    eng.assume(z3.Implies(q <= 0, n == 0))
    eng.assume(n >= 0)
    return build(eng, (n,), lambda ix: SV(zs + z3.ToReal(z_int(ix[0])) * zt, 'f64'), 'arange')


@ext('numpy.linspace')
def _(eng, a, kw):
    s, e = z_real(a[0]), z_real(a[1])
    n = a[2] if len(a) > 2 else kw.get('num', 50)
    return build(eng, (raw(n),), lambda ix: SV(s + (e - s) * z3.ToReal(z_int(ix[0])) / (z_real(n) - 1), 'f64'), 'linspace')


@ext('numpy.dot', 'numpy.matmul')
def _(eng, a, kw):
    return dot(eng, a[0], a[1])


@ext('numpy.ndenumerate')
def _(eng, a, kw):
    arr = as_arr(eng, a[0])
    return NdIter(arr.shape, lambda ix: (tuple(SV(z_int(i), 'int', 0) if isz(i) else i for i in ix), eng.read(arr, ix)))


@ext('numpy.ndindex')
def _(eng, a, kw):
    shape = shape_arg(eng, a[0]) if len(a) == 1 and not isnum(a[0]) else shape_arg(eng, a)
    return NdIter(shape, lambda ix: tuple(SV(z_int(i), 'int', 0) if isz(i) else i for i in ix))


@ext('itertools.product')
def _(eng, a, kw):
    its = [eng.iterate(x) for x in a]
    if all(isinstance(i, list) for i in its):
        import itertools
        return [tuple(t) for t in itertools.product(*its)]
    its = [i if isinstance(i, SymIter) else None for i in its]
    if any(i is None for i in its):
        raise Unsupported('product')
    return NdIter(tuple(raw(i.length) for i in its), lambda ix: tuple(i.elem(j) for i, j in zip(its, ix)))


@ext('numpy.where')
def _(eng, a, kw):
    if len(a) == 3:
        f = lambda c, x, y: eng.merge(z_bool(eng.truth(c)), x, y)
        if all(isnum(x) for x in a):
            return f(*a)
        return elementwise(eng, f, a)
    return _nonzero(eng, a, kw)


@ext('numpy.nonzero')
def _nonzero(eng, a, kw):
    arr = as_arr(eng, a[0])
    rd = snap(eng, arr)

    def cond(ix):
        eng.quiet += 1
        try:
            return z_bool(eng.truth(rd(ix)))
        finally:
            eng.quiet -= 1
    n = fold_total(eng, tuple(z_int(s) for s in arr.shape), lambda jx: z3.If(cond(jx), z3.IntVal(1), z3.IntVal(0)), 'count')
    en = Enum(eng, arr.shape, cond, n)
    out = []
    for q, d in enumerate(arr.shape):
        x = eng.new_arr((n,), 'i64', lambda ix, q=q: en.at(ix[0])[q], 'nonzero', lo=0)
        x.buf.sel = (en, q, x.buf.ver)
        out.append(x)
    return tuple(out)


@ext('numpy.argmax')
def _(eng, a, kw):
    arr = as_arr(eng, a[0])
    if arr.ndim != 1 or len(a) > 1 or kw:
        raise Unsupported('np.argmax')
    n = arr.shape[0]
    eng.prove(z_int(n) > 0, 'argmax-empty', 'np.argmax of an empty sequence raises ValueError')
    rd = snap(eng, arr)
    t = z3.Int(eng.fresh_name('argmax'))
    eng.assume(z3.And(t >= 0, t < z_int(n)))
    eng.ghost.setdefault('argmaxes', []).append((t, rd, n))
    return SV(t, 'i64', 0)


@ext('numpy.unique')
def _(eng, a, kw):
    return Values(as_arr(eng, a[0]))


class Values:
    """the set of values of an array"""

    def __init__(self, arr):
        self.arr = arr

    def member(self, eng, x):
        return reduce(eng, 'any', eng.compare('==', self.arr, x))

    def inside(self, eng, xs):
        """every value is one of xs"""
        return reduce(eng, 'all', elementwise(eng, lambda v: SV(z_bool(eng.truth(eng.contains(list(xs), v))), 'b1'), [self.arr]))

    def relation(self, eng, op, xs):
        sub = lambda: [self.inside(eng, xs)]
        sup = lambda: [self.member(eng, x) for x in xs]
        parts = {'<=': sub, '>=': sup, '==': lambda: sub() + sup(), '!=': lambda: sub() + sup()}.get(op)
        if parts is None:
            raise Unsupported('%s between sets' % op)
        r = z3.And(*[z_bool(eng.truth(p)) for p in parts()])
        return SV(simp(z3.Not(r) if op == '!=' else r), 'bool')


@ext('numpy.random.choice')
def _(eng, a, kw):
    src, size, replace, p = (list(a) + [None] * 4)[:4]
    src, size, replace, p = kw.get('a', src), kw.get('size', size), kw.get('replace', replace), kw.get('p', p)
    seeded(eng)
    if isinstance(src, list) and len(src) == 2 and all(isnum(x) for x in src) and isinstance(p, (list, tuple)) and len(p) == 2 \
            and replace in (None, True) and size is not None:
        # independent two-valued draws: the first value where the entry's own uniform is below its probability
        p0, p1 = z_real(p[0]), z_real(p[1])
        eng.prove(z3.And(p0 >= 0, p1 >= 0, p0 + p1 == 1), 'choice-probabilities')
        shape = shape_arg(eng, size)
        named = draw_fn(eng, len(shape)) if eng.opts.get('draws') else None
        if named is None:
            f = z3.Function(eng.fresh_name('rnd'), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
            named = lambda ix: f(*[z_int(i) for i in ix])
        return build(eng, shape, lambda ix: eng.merge(named(ix) < p0, src[0], src[1]), 'choice')
    if size is None and p is not None:
        vals = list(range(src)) if isinstance(src, int) and not isinstance(src, bool) else src if isinstance(src, (list, range)) else eng.to_list(src)
        ps = [z_real(x) for x in (eng.to_list(p) if not isinstance(p, (list, tuple)) else p)]
        if len(vals) != len(ps) or not 1 <= len(vals) <= 8:
            raise PyExc('ValueError', 'a and p must have the same size') if len(vals) <= 8 else Unsupported('np.random.choice')
        eng.prove(z3.And(z3.Sum(*ps) == 1, *[x >= 0 for x in ps]), 'choice-probabilities')
        t = z3.Int(eng.fresh_name('choice'))
        eng.assume(z3.And(t >= 0, t < len(vals)))
        eng.assume(z3.And(*[z3.Implies(t == i, x > 0) for i, x in enumerate(ps)]))
        eng.draws.append(('choice', t))
        for i in range(len(vals) - 1):
            if eng.branch(t == i):
                return vals[i]
        return vals[-1]
    if replace is not False or p is not None or size is None:
        raise Unsupported('np.random.choice')
    if isinstance(src, SymIter) and src.range is not None and src.range[1] == 1 and same(src.range[0], 0):
        n, val = z_int(src.length), None
    elif isnum(src):
        n, val = z_int(src), None
    elif isinstance(src, range) and src.start == 0 and src.step == 1:
        n, val = z3.IntVal(len(src)), None
    else:
        src = as_arr(eng, src)
        if src.ndim != 1:
            raise PyExc('ValueError', 'a must be 1-dimensional')
        n, val = z_int(src.shape[0]), snap(eng, src)
    if len(shape_arg(eng, size)) != 1:
        raise Unsupported('np.random.choice shape')
    return distinct(eng, n, z_int(shape_arg(eng, size)[0]), val)


def distinct(eng, n, m, val=None):
    """m distinct positions below n (the values there): a partial permutation"""
    eng.prove(z3.And(m >= 0, m <= n), 'choice-size')
    c = z3.Function(eng.fresh_name('choice'), z3.IntSort(), z3.IntSort())
    rc = z3.Function(eng.fresh_name('choicerank'), z3.IntSort(), z3.IntSort())

    def content(ix):
        j = z_int(ix[0])
        t = c(j)
        eng.axiom(z3.Implies(z3.And(j >= 0, j < m, m <= n), z3.And(t >= 0, t < n, rc(t) == j)))
        return t if val is None else raw(val([t]))
    if val is None:
        return eng.new_arr((m,), 'i64', content, 'choice', lo=0)
    return build(eng, (m,), lambda ix: (content(ix), val([c(z_int(ix[0]))]))[1], 'choice')


@ext('numpy.logical_and', 'numpy.logical_or', 'numpy.logical_xor', 'numpy.logical_not')
def _(eng, a, kw):
    raise Unsupported('logical')


def _logic(op):
    def f(eng, a, kw):
        def g(*xs):
            ts = [z_bool(eng.truth(x)) for x in xs]
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'not': z3.Not}[op](*ts)
            return SV(simp(r), 'b1')
        return g(*a) if all(isnum(x) for x in a) else elementwise(eng, g, a)
    return f


for _n in ('and', 'or', 'xor', 'not'):
    HANDLERS['numpy.logical_' + _n] = _logic(_n)
for _n, _o in (('equal', '=='), ('not_equal', '!='), ('less', '<'), ('greater', '>'), ('less_equal', '<='), ('greater_equal', '>=')):
    HANDLERS['numpy.' + _n] = (lambda o: lambda eng, a, kw: eng.compare(o, a[0], a[1]))(_o)
for _n, _o in (('multiply', '*'), ('add', '+'), ('subtract', '-'), ('divide', '/'), ('power', '**')):
    HANDLERS['numpy.' + _n] = (lambda o: lambda eng, a, kw: eng.binop(o, a[0], a[1]))(_o)
HANDLERS['math.pow'] = HANDLERS['numpy.power']
HANDLERS['numpy.negative'] = lambda eng, a, kw: eng.neg(a[0])
HANDLERS['numpy.invert'] = lambda eng, a, kw: eng.invert(a[0])
HANDLERS['numpy.bitwise_not'] = HANDLERS['numpy.invert']


@ext('numpy.square')
def _(eng, a, kw):
    return eng.binop('*', a[0], a[0])


@ext('numpy.sign')
def _(eng, a, kw):
    f = lambda x: SV(z3.If(z_any(x) > 0, 1, z3.If(z_any(x) < 0, -1, 0)), 'i64' if kind(x) in INTK else 'i64', -1, 1)
    return f(a[0]) if isnum(a[0]) else elementwise(eng, f, [a[0]])


for _n, _o in (('numpy.exp', 'exp'), ('math.exp', 'm.exp'), ('numpy.log', 'log'), ('math.log', 'm.log'),
               ('scipy.special.expit', 'expit'), ('scipy.special.logit', 'logit'), ('numpy.sqrt', 'sqrt'),
               ('scipy.special.gammaln', 'gammaln'), ('math.lgamma', 'gammaln')):
    HANDLERS[_n] = (lambda o: lambda eng, a, kw: ufunc(eng, o, a[0]))(_o)


@ext('numpy.log1p')
def _(eng, a, kw):
    return ufunc(eng, 'log', eng.binop('+', 1, a[0]))


@ext('numpy.mean')
def _(eng, a, kw):
    axis = kw.pop('axis', a[1] if len(a) > 1 else None)
    v = a[0]
    if isnum(v):
        return v
    if isinstance(v, MaskSel):
        if axis not in (None, 0):
            raise PyExc('AxisError', 'axis of a selection')
        n = reduce(eng, 'count', v.mask)
        eng.prove(z_int(n) >= 1, 'pre:mean-of-nothing')
        return eng.binop('/', reduce(eng, 'sum', v), n)
    v = as_arr(eng, v)
    if axis is not None:
        ax = int(conc(axis))
        n = v.shape[ax]
        s = reduce(eng, 'sum', v, ax)
        return eng.binop('/', s, SV(n, 'int') if isz(n) else n)
    s = reduce(eng, 'sum', v)
    n = attr(eng, v, 'size')
    return eng.binop('/', s, n)


@ext('functools.partial')
def _(eng, a, kw):
    f, first = a[0], list(a[1:])
    return lambda e, *b, **k: e.call(f, first + list(b), dict(kw, **k))


@ext('multiprocessing.Pool', 'multiprocessing.pool.Pool', 'multiprocessing.pool.ThreadPool')
def _(eng, a, kw):
    # worker processes run the function on copies of the arguments and return the results in order; here one after the other,
    # without the copies, so that a function which changes its arguments is seen to do so
    def over(e, f, seq, *rest):
        return [e.call(f, [x], {}) for x in e.to_list(seq)]

    def star(e, f, seq, *rest):
        return [e.call(f, list(e.to_list(x)), {}) for x in e.to_list(seq)]
    none = lambda e, *b, **k: None
    p = Native('Pool', {'map': over, 'imap': over, 'starmap': star, 'close': none, 'join': none, 'terminate': none, '__exit__': none})
    p.attrs['__enter__'] = lambda e: p
    return p


@ext('pandas.DataFrame')
def _(eng, a, kw):
    # a table is its rows and column names
    return ('DataFrame', a[0] if a else kw.get('data'), kw.get('columns', a[2] if len(a) > 2 else None))


# ---- random numbers
@ext('numpy.random.rand', 'numpy.random.random', 'numpy.random.random_sample', 'numpy.random.ranf')
def _(eng, a, kw):
    if 'size' in kw:
        a = [kw['size']]
    if not a:
        return rand_draw(eng, 'rand')
    shape = shape_arg(eng, a) if all(isnum(x) for x in a) else shape_arg(eng, a[0])
    seeded(eng)
    named = draw_fn(eng, len(shape)) if eng.opts.get('draws') else None
    if named is None:
        f = z3.Function(eng.fresh_name('rnd'), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
        named = lambda ix: f(*[z_int(i) for i in ix])
    return eng.new_arr(shape, 'f64', named, 'rand', einv=lambda t: z3.And(t >= 0, t < 1))


@ext('numpy.random.seed')
def _(eng, a, kw):
    if eng.ghost.get('seed_arg') is not None:
        eng.prove(not eng.frames and 'seed' not in eng.ghost, 'post:seeded', 'the generator is seeded repeatedly')
    eng.ghost['seed'] = a[0] if a else kw.get('seed')
    return None


@ext('numpy.random.randint')
def _(eng, a, kw):
    seeded(eng)
    v = eng.fresh('randint', 'int')
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    eng.assume(z3.And(v.t >= z_int(frac_int(lo)), v.t < z_int(frac_int(hi))))
    return v


def frac_int(x):
    c = conc(x)
    return int(c) if c is not None else x


@ext('numpy.random.permutation')
def _(eng, a, kw):
    v = a[0]
    seeded(eng)
    if isinstance(v, (list, tuple)):
        # every order: the elements are visited in an arbitrary permutation
        rest = list(v)
        out = []
        while len(rest) > 1:
            for j in range(len(rest) - 1):
                if eng.branch(z3.Bool(eng.fresh_name('perm'))):
                    out.append(rest.pop(j))
                    break
            else:
                out.append(rest.pop())
        return out + rest
    if isnum(v):
        return distinct(eng, z_int(v), z_int(v))
    raise Unsupported('permutation of array')


@ext('numpy.random.binomial')
def _(eng, a, kw):
    n, p, size = (list(a) + [None] * 3)[:3]
    n, p, size = kw.get('n', n), kw.get('p', p), kw.get('size', size)
    seeded(eng)
    if conc(n) != 1 or size is None:
        raise Unsupported('binomial')
    shape = shape_arg(eng, size)
    nm = eng.fresh_name('binom')
    fn = z3.Function(nm, *([z3.IntSort()] * len(shape) + [z3.IntSort()]))
    return eng.new_arr(shape, 'i64', lambda ix: fn(*[z_int(i) for i in ix]), 'binomial', lo=0, hi=1)


@ext('numpy.delete')
def _(eng, a, kw):
    arr = as_arr(eng, a[0])
    axis = kw.get('axis', a[2] if len(a) > 2 else None)
    which = a[1] if len(a) > 1 else kw.get('obj')
    if isinstance(which, (list, tuple)) and len(which) == 1:
        which = which[0]
    if axis is None and arr.ndim == 1:
        axis = 0
    if axis is None or not isnum(which):
        raise Unsupported('np.delete')
    ax = int(conc(axis)) % arr.ndim
    j = norm_index(eng, which, arr.shape[ax])
    rd = snap(eng, arr)
    shape = list(arr.shape)
    shape[ax] = z3.simplify(z_int(shape[ax]) - 1) if isz(shape[ax]) else shape[ax] - 1

    def elem(ix):
        jx = list(ix)
        jx[ax] = z3.If(z_int(jx[ax]) < z_int(j), z_int(jx[ax]), z_int(jx[ax]) + 1)
        return rd(jx)
    return build(eng, tuple(shape), elem, 'deleted')


@ext('numpy.array_equal')
def _(eng, a, kw):
    return reduce(eng, 'all', eng.compare('==', a[0], a[1]))


@ext('numpy.argsort')
def _(eng, a, kw):
    arr = as_arr(eng, a[0])
    n = arr.shape[0]
    rd = snap(eng, arr)
    fn = z3.Function(eng.fresh_name('argsort'), z3.IntSort(), z3.IntSort())
    inv = z3.Function(eng.fresh_name('argsortinv'), z3.IntSort(), z3.IntSort())
    out = eng.new_arr((n,), 'i64', lambda ix: fn(z_int(ix[0])), 'argsort')
    nn = z_int(n)
    out.buf.einv = lambda t: z3.And(t >= 0, t < nn)
    eng.ghost[('argsort', out.buf.id)] = (fn, inv, arr, rd)
    eng.ghost.setdefault('argsorts', []).append((fn, inv, arr, rd, nn))
    return out


@ext('math.isnan', 'numpy.isnan', 'numpy.isfinite')
def _(eng, a, kw):
    raise Unsupported('nan test')


@ext('numba.jit', 'numba.njit')
def _(eng, a, kw):
    if a and isinstance(a[0], FuncVal):
        return a[0]
    return lambda e, f: f


@ext('pdb.set_trace')
def _(eng, a, kw):
    raise PyExc('BdbQuit', 'pdb.set_trace reached')


def concatenate(eng, xs, axis):
    """arrays one after the other along an axis (a copy)"""
    xs = [as_arr(eng, x) for x in eng.to_list(xs)]
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        raise PyExc('ValueError', 'all the input array dimensions must match')
    axis = int(conc(axis))
    if not -nd <= axis < nd:
        raise PyExc('AxisError', 'axis %d is out of bounds' % axis)
    axis %= nd
    for x in xs[1:]:
        for a in range(nd):
            if a != axis:
                shape_eq(eng, (xs[0].shape[a],), (x.shape[a],), 'concatenate')
    k = xs[0].k
    for x in xs[1:]:
        k = k if k == x.k else promote(k, x.k)
    ends, t = [], 0
    for x in xs:
        t = t_add(t, x.shape[axis])
        ends.append(z3.simplify(t) if isz(t) else t)
    rds = [snap(eng, x) for x in xs]
    shape = list(xs[0].shape)
    shape[axis] = ends[-1]

    def elem(ix):
        j = z_int(ix[axis])
        out = None
        for i in reversed(range(len(xs))):
            jx = list(ix)
            jx[axis] = z3.simplify(j - z_int(ends[i - 1])) if i else j
            v = rds[i](jx)
            v = v if kind(v) == k else eng.cast_elem(v, k)
            out = v if out is None else eng.merge(j < z_int(ends[i]), v, out)
        return out
    return build(eng, tuple(shape), elem, 'joined', k)


@ext('numpy.concatenate')
def _(eng, a, kw):
    return concatenate(eng, a[0], a[1] if len(a) > 1 else kw.get('axis', 0))


@ext('numpy.hstack')
def _(eng, a, kw):
    xs = [as_arr(eng, x) for x in eng.to_list(a[0])]
    return concatenate(eng, xs, 0 if xs[0].ndim == 1 else 1)


@ext('numpy.append')
def _(eng, a, kw):
    axis = a[2] if len(a) > 2 else kw.get('axis')
    if axis is None:
        raise Unsupported('np.append without axis')
    return concatenate(eng, [a[0], a[1]], axis)
