"""Value domain of the symbolic interpreter: numpy/python scalars as z3 terms, arrays as content closures."""
import z3
from fractions import Fraction

INTR = {'i8': (-128, 127), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1),
        'u8': (0, 255), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1)}
FLK = ('f16', 'f32', 'f64', 'float')
INTK = tuple(INTR) + ('int',)
BOOLK = ('bool', 'b1')
PYK = ('int', 'float', 'bool')


class Unsupported(Exception):
    """construct outside the verified subset: the obligation stays undischarged"""


class SV:
    """scalar: t = z3 term or python int/Fraction/bool; k = kind; lo/hi/nz = static bounds (ints only)"""
    __slots__ = ('t', 'k', 'lo', 'hi', 'nz')

    def __init__(self, t, k, lo=None, hi=None, nz=False):
        if isinstance(t, bool) and k in INTK:
            t = int(t)
        self.t, self.k = t, k
        if isinstance(t, int) and not isinstance(t, bool) and k in INTK:
            lo = hi = t
            nz = t != 0
        if k in BOOLK:
            lo, hi = 0, 1
        self.lo, self.hi, self.nz = lo, hi, nz

    def __repr__(self):
        return 'SV(%s:%s)' % (self.t, self.k)


def isz(t):
    return isinstance(t, z3.ExprRef)


def conc(v):
    """concrete python number of a value or None"""
    if isinstance(v, (bool, int, float, Fraction)):
        return v
    if isinstance(v, SV) and not isz(v.t):
        return v.t
    return None


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, bool)):
        return Fraction(int(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float constant')
        return Fraction(repr(x))
    raise Unsupported('frac %r' % (x,))


def kind(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fraction)):
        return 'float'
    if isinstance(v, SV):
        return v.k
    return None


def raw(v):
    return v.t if isinstance(v, SV) else v


def isnum(v):
    return isinstance(v, (bool, int, float, Fraction, SV))


def z_int(t):
    """term as z3 Int"""
    if isinstance(t, SV):
        t = t.t
    if isz(t):
        if z3.is_bool(t):
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        if t.is_real():
            raise Unsupported('real used as int')
        return t
    if isinstance(t, bool):
        return z3.IntVal(int(t))
    if isinstance(t, Fraction):
        if t.denominator == 1:
            return z3.IntVal(int(t))
        raise Unsupported('fraction as int')
    if isinstance(t, float):
        raise Unsupported('float as int')
    return z3.IntVal(t)


def z_real(t):
    if isinstance(t, SV):
        t = t.t
    if isz(t):
        if z3.is_bool(t):
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        if t.is_int():
            if z3.is_int_value(t):
                return z3.RealVal(t.as_long())
            return z3.ToReal(t)
        return t
    f = frac(t)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def z_bool(t):
    if isinstance(t, SV):
        t = t.t
    if isz(t):
        if z3.is_bool(t):
            return t
        if t.is_int():
            return t != 0
        return t != z3.RealVal(0)
    return z3.BoolVal(bool(t))


def z_any(v):
    k = kind(v)
    if k in BOOLK:
        return z_bool(v)
    if k in INTK:
        return z_int(v)
    return z_real(v)


def same(a, b):
    """syntactic equality of index terms"""
    a, b = raw(a), raw(b)
    if isz(a) and isz(b):
        return a.eq(b) or z3.simplify(a).eq(z3.simplify(b))
    if isz(a) or isz(b):
        a, b = (a, b) if isz(a) else (b, a)
        s = z3.simplify(a)
        return z3.is_int_value(s) and isinstance(b, int) and s.as_long() == b
    return a == b


def simp(t):
    """simplify a z3 term to a python constant when possible"""
    if not isz(t):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return s


RANK = {'bool': 0, 'b1': 1, 'i8': 2, 'u8': 2, 'i16': 3, 'u16': 3, 'i32': 4, 'u32': 4, 'i64': 5, 'u64': 5}


def promote(a, b):
    """NEP 50 result kind of an arithmetic operation (python scalars are weak)"""
    if a == b:
        return 'int' if a == 'bool' else a
    pa, pb = a in PYK, b in PYK
    if pa and pb:
        return 'float' if 'float' in (a, b) else 'int'
    if pa or pb:
        p, n = (a, b) if pa else (b, a)
        if p == 'float':
            if n in FLK:
                return n
            return 'f64'
        if n == 'b1':
            return 'i64' if p == 'int' else 'b1'
        return n
    fa, fb = a in FLK, b in FLK
    if fa or fb:
        if fa and fb:
            return a if int(a[1:]) >= int(b[1:]) else b
        f, i = (a, b) if fa else (b, a)
        if f == 'f64' or i in ('i32', 'i64', 'u32', 'u64'):
            return 'f64'
        return f
    if a == 'b1':
        return b
    if b == 'b1':
        return a
    if a[0] == b[0]:
        return a if int(a[1:]) >= int(b[1:]) else b
    i, u = (a, b) if a[0] == 'i' else (b, a)
    n = max(int(i[1:]), 2 * int(u[1:]))
    if n > 64:
        return 'f64'
    return 'i%d' % n


class Buffer:
    """heap cell: content closure idx(list)->z3 term; einv: element invariant term->z3 bool (or None)"""
    __slots__ = ('id', 'shape', 'k', 'content', 'ver', 'lo', 'hi', 'nz', 'einv', 'name', 'target', 'hooks', 'ro', 'unit', 'base', 'sel', 'soft')

    def __init__(self, id, shape, k, content, ver, lo=None, hi=None, nz=False, einv=None, name=None):
        self.id, self.shape, self.k, self.content, self.ver = id, tuple(shape), k, content, ver
        self.lo, self.hi, self.nz, self.einv, self.name = lo, hi, nz, einv, name
        self.target = []     # candidate content definitions (idx -> term), from the contract
        self.hooks = []      # store hooks (ghost code of the contract)
        self.ro = False      # read-only frame: any store is a failed frame obligation
        self.unit = False
        self.base = None
        self.soft = False    # lo, hi, nz were inferred from the first content, they are no invariant of the contract
        self.sel = None      # (enumeration, axis, version): this is the axis-th index array of np.nonzero


class Arr:
    """view of a buffer; imap per buffer axis: ('f', term) | ('a', axis, off, step)"""
    __slots__ = ('buf', 'shape', 'imap', 'aslist')

    def __init__(self, buf, shape, imap=None, aslist=False):
        self.buf = buf
        self.shape = tuple(shape)
        self.imap = imap if imap is not None else tuple(('a', i, 0, 1) for i in range(len(buf.shape)))
        self.aslist = aslist

    @property
    def k(self):
        return self.buf.k

    @property
    def ndim(self):
        return len(self.shape)

    def full(self):
        """the whole buffer as it is, not a part or transposition of it"""
        return len(self.shape) == len(self.buf.shape) and all(m[0] == 'a' and m[1] == i and isinstance(m[2], int) and m[2] == 0 and m[3] == 1 for i, m in enumerate(self.imap))

    def bidx(self, idx):
        out = []
        for m in self.imap:
            if m[0] == 'f':
                out.append(m[1])
            elif m[0] == 'z':
                out.append(0)
            else:
                i = idx[m[1]]
                if m[3] != 1:
                    i = t_mul(i, m[3])
                if not (isinstance(m[2], int) and m[2] == 0):
                    i = t_add(i, m[2])
                out.append(i)
        return out

    def __repr__(self):
        return 'Arr(%s#%d%s)' % (self.buf.name, self.buf.id, list(self.shape))


def t_add(a, b):
    a, b = raw(a), raw(b)
    if isz(a) or isz(b):
        if not isz(a) and a == 0:
            return b
        if not isz(b) and b == 0:
            return a
        return z_int(a) + z_int(b)
    return a + b


def t_sub(a, b):
    a, b = raw(a), raw(b)
    if isz(a) or isz(b):
        if not isz(b) and b == 0:
            return a
        return z_int(a) - z_int(b)
    return a - b


def t_mul(a, b):
    a, b = raw(a), raw(b)
    if isz(a) or isz(b):
        if not isz(a) and a == 1:
            return b
        if not isz(b) and b == 1:
            return a
        if (not isz(a) and a == 0) or (not isz(b) and b == 0):
            return 0
        return z_int(a) * z_int(b)
    return a * b


class Seq:
    """lazy symbolic-length sequence (comprehension over a symbolic range, generator, list of scalars)"""
    __slots__ = ('length', 'elem', 'guard', 'enum', 'part', 'cat', 'whole')

    def __init__(self, length, elem, guard=None, enum=None, part=None):
        self.length, self.elem, self.guard, self.enum, self.part = length, elem, guard, enum, part     # part: (list, from, to)
        self.cat = self.whole = None     # the lists this one is the concatenation of; (n, elem, t): a list without its position t


class Enum:
    """enumeration of the index tuples of a shape at which cond holds: length n, j-th tuple pos(j) (ints), rank(ix) of a tuple;
    at(j) and of(ix) assert the defining facts (bijection of [0, n) and the selected tuples) for one position or tuple"""

    def __init__(self, eng, shape, cond, n=None):
        self.eng, self.shape, self.cond = eng, tuple(z_int(x) for x in shape), cond
        d = len(shape)
        self.n = z3.Int(eng.fresh_name('enlen')) if n is None else z_int(n)
        self.a = [z3.Function(eng.fresh_name('en'), z3.IntSort(), z3.IntSort()) for _ in shape]
        self.r = z3.Function(eng.fresh_name('enrank'), *([z3.IntSort()] * (d + 1)))
        eng.axiom(z3.Implies(z3.And(*[x >= 0 for x in self.shape]), self.n >= 0))

    def inside(self, ix):
        return z3.And(*[z3.And(i >= 0, i < n) for i, n in zip(ix, self.shape)])

    def at(self, j):
        j = z_int(j)
        ix = [f(j) for f in self.a]
        self.eng.axiom(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.inside(ix), self.r(*ix) == j)))
        if self.cond is not None:
            self.eng.axiom(z3.Implies(z3.And(j >= 0, j < self.n), self.cond(ix)))
        return ix

    def of(self, ix):
        ix = [z_int(i) for i in ix]
        j = self.r(*ix)
        g = self.inside(ix)
        if self.cond is not None:
            g = z3.And(g, self.cond(ix))
        self.eng.axiom(z3.Implies(g, z3.And(j >= 0, j < self.n, *[f(j) == i for f, i in zip(self.a, ix)])))
        return j


class SymIter:
    """iteration space: length and element function (index term -> value)"""
    __slots__ = ('length', 'elem', 'prange', 'range', 'islist')

    def __init__(self, length, elem, prange=False, range=None, islist=False):
        self.length, self.elem, self.prange, self.range, self.islist = length, elem, prange, range, islist


class NdIter:
    """unordered iteration over all index tuples of a shape"""
    __slots__ = ('shape', 'elem')

    def __init__(self, shape, elem):
        self.shape, self.elem = shape, elem


class MaskSel:
    """a[mask] as rvalue: defined by base array and mask"""
    __slots__ = ('arr', 'mask')

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


class Obj:
    _n = 0

    def __init__(self, cls, attrs=None, oid=None):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}
        self.oid = oid

    def __repr__(self):
        return '<%s#%s>' % (getattr(self.cls, 'name', self.cls), self.oid)


class Native:
    """object of an external library, given by the attributes the code uses"""
    __slots__ = ('name', 'attrs')

    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs

    def __repr__(self):
        return '<%s>' % self.name


class FuncVal:
    def __init__(self, node, module, env, qual, cls=None):
        self.node, self.module, self.env, self.qual, self.cls = node, module, env, qual, cls
        self.sig = None
        self.sequential = False     # compiled, but not for parallel execution

    def __repr__(self):
        return '<fn %s.%s>' % (self.module.name, self.qual)


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += b.mro()
        return out


class Prop:
    def __init__(self, fn):
        self.fn = fn


class Intrinsic:
    """external function or attribute known by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Intrinsic) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class DType:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'dtype(%s)' % self.k

    def __eq__(self, o):
        return isinstance(o, DType) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


class SymStr:
    """opaque string (log messages built from symbolic numbers)"""
    pass


class PyExc(Exception):
    """python exception raised by the interpreted code"""

    def __init__(self, cls, msg=''):
        self.cls, self.msg = cls, msg
        super().__init__('%s: %s' % (cls, msg))


class PathEnd(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass
