"""C21: the kernels run on guarded arrays (negative computed indices, IndexError, integer wrap-around) and their scalar
arguments and results are compared with the integer types the numba signatures declare"""
import ast
import functools
import inspect
import sys
import types
from .base import *
import lom._numba.lom_outputs as OUT
import lom._numba.lom_outputs_fuzzy as FZ
import lom._numba.posterior_score_fcts as SC
import lom._numba.matrix_updates_numba as MU
import lom._numba.lambda_updates_numba as LU

MODS = [OUT, FZ, SC, MU, LU]
RANGE = {'int8': 8, 'int16': 16, 'int32': 32}


class GuardError(Exception):
    pass


class G(np.ndarray):
    def _idx(self, k):
        for x in k if isinstance(k, tuple) else (k,):
            if isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) and x < 0 and not literal_index():
                raise GuardError('index %d of an array of shape %s' % (x, self.shape))

    def __getitem__(self, k):
        self._idx(k)
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        self._idx(k)
        if self.dtype.kind == 'i' and np.isscalar(v) and not isinstance(v, (float, np.floating)):
            i = np.iinfo(self.dtype)
            if not i.min <= int(v) <= i.max:
                raise GuardError('%r stored into an array of %s' % (v, self.dtype))
        super().__setitem__(k, v)


_lits = {}


def literal_index():
    """the indexing expression of the calling line writes a negative literal"""
    f = sys._getframe(3)
    key = (f.f_code.co_filename, f.f_lineno)
    if key not in _lits:
        import linecache
        line = linecache.getline(*key)
        import re
        _lits[key] = bool(re.search(r'\[[^\]]*-\s*\d+\s*[\],]', line)) and not re.search(r'\[[^\]]*\w\s*-\s*\d', line)
    return _lits[key]


def lit(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = lit(n.left), lit(n.right)
        return a + b if a is not None and b is not None else None


def signatures():
    """(module file, first line) of every compiled function -> (return type, argument types)"""
    out = {}
    for m in MODS:
        for n in ast.walk(ast.parse(open(m.__file__).read())):
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and d.args and getattr(d.func, 'id', getattr(d.func, 'attr', '')) in ('jit', 'njit'):
                    s = lit(d.args[0])
                    if s and '(' in s:
                        s = s.replace(' ', '')
                        ret, rest = s.split('(', 1)
                        args, depth, cur = [], 0, ''
                        for ch in rest[:rest.rfind(')')]:
                            depth += (ch in '[(') - (ch in '])')
                            if ch == ',' and not depth:
                                args.append(cur)
                                cur = ''
                            else:
                                cur += ch
                        out[m.__file__, n.name, n.lineno] = (ret, args + [cur])
    return out


SIG = signatures()


def sig_of(f):
    c = f.__code__
    for (fi, nm, ln), v in SIG.items():
        if fi == c.co_filename and nm == f.__name__ and c.co_firstlineno <= ln <= c.co_firstlineno + 8:
            return v
    return None


def ranged(t, v, what, name):
    b = RANGE.get(t)
    if b and isinstance(v, (int, np.integer)) and not -2 ** (b - 1) <= int(v) < 2 ** (b - 1):
        raise GuardError('%s: %s %d does not fit the declared %s' % (name, what, int(v), t))
    if t in ('int8', 'int16', 'int32', 'int64') and isinstance(v, (float, np.floating)):
        raise GuardError('%s: %s %r is declared as %s' % (name, what, v, t))


def guard(f):
    if getattr(f, '_guarded', False):
        return f
    sig = sig_of(f)

    @functools.wraps(f)
    def w(*a, **k):
        b = [x.view(G) if type(x) is np.ndarray else x for x in a]
        if sig:
            for t, x in zip(sig[1], a):
                ranged(t, x, 'argument', f.__name__)
        r = f(*b, **k)
        if sig:
            ranged(sig[0], r, 'result', f.__name__)
        if isinstance(r, types.FunctionType):
            return guard(r)
        return r.view(np.ndarray) if isinstance(r, G) else r
    w._guarded = True
    return w


class Guarded:
    def __enter__(self):
        self.old = []
        own = {m.__name__ for m in MODS}
        fs = {}
        for m in MODS:
            for k, v in list(vars(m).items()):
                if isinstance(v, types.FunctionType) and v.__module__ in own:
                    fs[v] = guard(v)
        for m in [x for n, x in sys.modules.items() if n.split('.')[0] == 'lom' and x is not None]:
            for k, v in list(vars(m).items()):
                if isinstance(v, types.FunctionType) and v in fs:
                    self.old.append((m, k, v))
                    setattr(m, k, fs[v])
        self.err = np.seterr(over='raise')
        return self

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)
        np.seterr(**self.err)


PROPS = ['C01', 'C04', 'C04', 'C02', 'C03', 'C06', 'C09', 'C19', 'C05']


@oracle('C21')
class Safe:
    def cases(self, r, deep, hints):
        gens = {}
        while True:
            p = PROPS[r.randint(len(PROPS))]
            for i, m in enumerate(REGISTRY.get(p, [])):
                if (p, i) not in gens:
                    gens[p, i] = m.cases(r, deep, hints)
                try:
                    yield {'p': p, 'i': i, 'c': next(gens[p, i])}
                except StopIteration:
                    pass
            if r.randint(40) == 0:
                L = int([127, 128, 129, 255, 256, 257, 32767, 32768, 33000][r.randint(9)])
                yield {'big': 1, 'm': MODELS[r.randint(8)], 'K': int(2 + r.randint(2)), 'L': L, 'D': int([1, 2][r.randint(2)]),
                       'seed': int(r.randint(2 ** 30))}
                yield {'big': 1, 'm': MODELS[r.randint(8)], 'K': int(2 + r.randint(2)), 'D': L, 'L': int([1, 2][r.randint(2)]),
                       'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        with Guarded():
            try:
                if c.get('big'):
                    return self.big(c)
                REGISTRY[c['p']][c['i']].check(c['c'])
            except (GuardError, IndexError, OverflowError) as e:
                return '%s: %s' % (type(e).__name__, e)
            except FloatingPointError as e:
                if 'scalar' in str(e):
                    return 'integer overflow: %s' % e
            except Skip:
                raise
            except Exception:
                return None     # other failures belong to the properties about values

    def big(self, c):
        """long vectors and large products: latent index and accumulated counts beyond small integer types"""
        r = rs(c)
        K, L, D = c['K'], c['L'], c['D']
        on = lambda s: np.ones(s, dtype=np.int8)
        f = fn(SC, 'posterior_score_%s_%dD' % (c['m'].replace('-', '_'), K))
        z = on(L) if r.randint(2) else -on(L)
        us = [(on if r.randint(2) else lambda s: -on(s))((D if i == 0 else 1, L)) for i in range(K - 1)]
        x = on([D] + [1] * (K - 2)) * [1, -1][r.randint(2)]
        f(z, *us, x, int(L - 1 if r.randint(3) else r.randint(L)))
        g = fn(OUT, c['m'].replace('-', '_') + '_product' + ('_3d' if K == 3 else ''))
        g(z, *[u[0] for u in us])
