"""Symbolic interpreter / verification-condition generator for the Python of /repo.

Paths are explored by decision replay; loops over symbolic iteration spaces are cut by inductive invariants chosen
by Houdini from the contract's ghost vocabulary; calls of functions under contract use the contract, all other calls
of repository functions are inlined.  Every run parses /repo's current source."""
import ast
import copy
import itertools
import os
import time
import z3
from .values import *
from . import renamed

NAMED_DTYPES = {'int8': 'i8', 'int16': 'i16', 'int32': 'i32', 'int64': 'i64', 'uint8': 'u8', 'float32': 'f32',
                'float64': 'f64', 'bool_': 'b1', 'float16': 'f16', 'int_': 'i64', 'double': 'f64', 'uint64': 'u64',
                'intp': 'i64'}


class Env:
    __slots__ = ('vars', 'parent', 'module', 'globals')

    def __init__(self, parent, module):
        self.vars, self.parent, self.module = {}, parent, module
        self.globals = set()


POISON = object()


class ModuleVal:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs, self.renamed = {}, {}
        self.cache = {}
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = (n, a)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = (n, a)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If) and not (isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name)
                                                and n.test.left.id == '__name__'):
                self._scan(n.body)


class ExtModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class Fold:
    """ghost recursive function F(params, k) = op_{i<k} term(params, i), i ranging over [0, length)"""

    def __init__(self, eng, name, pdims, length, term, kind='count', desc=''):
        self.name, self.pdims, self.length, self.term, self.kind = name, list(pdims), length, term, kind
        self.real = kind in ('prod', 'rsum', 'rcount', 'lin')
        self.mul = None         # lin: F(k+1) = F(k) * mul(k) + term(k)
        rs = z3.RealSort() if self.real else z3.IntSort()
        self.f = z3.Function(name, *([z3.IntSort()] * (len(pdims) + 1) + [rs]))
        self.unit = False       # terms known to lie in [0, 1] (prod)
        self.nonneg = False     # terms known to be non-negative (sum)
        self.params_of = None   # parameter tuples a term to be matched suggests
        self.desc = desc

    def __call__(self, *a):
        a = [z_int(x) for x in a]
        if self.kind == 'first':
            return self.f(*a)
        if z3.is_int_value(a[-1]) and a[-1].as_long() == 0:
            return (z3.RealVal(1) if self.kind == 'prod' else z3.RealVal(0)) if self.real else z3.IntVal(0)
        return self.f(*a)

    def total(self, *p):
        return self(*(list(p) + [self.length]))


class LoopInfo:
    def __init__(self):
        self.locs = set()
        self.kinds = {}
        self.cands = {}      # id -> Cand alive
        self.seen = set()    # ids ever generated
        self.node = None
        self.used = set()
        self.listed = set()     # variables that hold another list in every iteration
        self.rebound = set()    # variables that hold arrays of other sizes in every iteration


class Cand:
    __slots__ = ('id', 'f', 'var', 'rhs')

    def __init__(self, id, f=None, var=None, rhs=None):
        self.id, self.f, self.var, self.rhs = id, f, var, rhs


class Frame:
    __slots__ = ('info', 'serial', 'pending', 'prange_idx', 'acc')

    def __init__(self, info, serial):
        self.info, self.serial = info, serial
        self.pending = set()
        self.prange_idx = None
        self.acc = None


class Obl:
    __slots__ = ('name', 'ok', 'how', 'model', 'detail')

    def __init__(self, name, ok, how, model=None, detail=''):
        self.name, self.ok, self.how, self.model, self.detail = name, ok, how, model, detail


RLIMIT = 8_000_000


SIGK = {'int8': 'i8', 'int16': 'i16', 'int32': 'i32', 'int64': 'i64', 'uint8': 'u8', 'uint16': 'u16', 'uint32': 'u32', 'uint64': 'u64'}


def parse_sig(node):
    """(return type, [argument types]) of a literal numba signature, None where it is not a literal"""
    def lit(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = lit(n.left), lit(n.right)
            return None if a is None or b is None else a + b
        return None
    s = lit(node)
    if s is None or '(' not in s:
        return None
    s = s.replace(' ', '')
    ret, rest = s.split('(', 1)
    out, depth, cur = [], 0, ''
    for ch in rest[:rest.rfind(')')]:
        depth += ch in '[(' or 0
        depth -= ch in '])' or 0
        if ch == ',' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return ret, out + ([cur] if cur else [])


class Engine:
    def __init__(self, repo='/repo', contracts=None, opts=None):
        self.repo = repo
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.modules = {}
        self.loops = {}
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'passes': 0}
        self.top = None
        self.functions = set()
        self.fnodes = {}
        self.trace_on = bool(os.environ.get('PYDED_TRACE'))
        self.assumed = set()
        from . import npmodel
        self.np = npmodel
        self.pathq = 6000
        self.lazies = set()    # any / all calls whose elements have effects
        self.onces = {}
        self.drawfns = {}
        self.inmerged = 0

    def literals(self):
        """numbers written in the functions under contract: boundary values for the search for failing inputs"""
        out = set()
        for n in self.fnodes.values():
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and type(x.value) in (int, float) and abs(x.value) < 1e9:
                    out.add(x.value)
        return out

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            p = os.path.join(p, '__init__.py')
        else:
            p += '.py'
        if not os.path.exists(p):
            return None
        m = ModuleVal(name, p, ast.parse(open(p).read(), p))
        for known, node in renamed.aliases(name, m.tree).items():
            m.defs[node.name].known_as = known
            m.renamed[known] = node.name        # for contracts only: the code has to use the new name
        self.modules[name] = m
        return m

    def mod_attr(self, m, name):
        if isinstance(m, ExtModule):
            return self.np.ext_attr(self, m, name)
        if name in m.cache:
            return m.cache[name]
        d = m.defs.get(name)
        if d is None:
            sub = self.module(m.name + '.' + name)
            if sub is not None:
                return sub
            if name == '__name__':
                return m.name
            return POISON
        env = Env(None, m)
        if isinstance(d, tuple):
            n, a = d
            if isinstance(n, ast.ImportFrom):
                v = self.import_from(n, a.name, m)
            else:
                v = self.import_mod(a.name, bool(a.asname))
        elif isinstance(d, ast.FunctionDef):
            v = self.make_func(d, env, '')
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(d, env)
        else:
            val = self.eval(d.value, env)
            if isinstance(d, ast.AnnAssign):
                v = val
            else:
                v = None
                for t in d.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        v = val
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name) and e.id == name:
                                v = list(val)[i]
            if isinstance(v, (list, dict, Arr, Obj)):
                return v        # mutable module state: rebuilt on every path
        m.cache[name] = v
        return v

    def import_mod(self, dotted, asname):
        top = dotted.split('.')[0]
        if self.module(top) is None:
            return ExtModule(dotted if asname else top)
        if asname:
            return self.module(dotted)
        return self.module(top)

    def import_from(self, n, name, m):
        modname = n.module or ''
        if n.level:
            base = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            modname = '.'.join(base + ([modname] if modname else []))
        top = modname.split('.')[0]
        if self.module(top) is None:
            return self.np.ext_attr(self, ExtModule(modname), name)
        mm = self.module(modname)
        v = self.mod_attr(mm, name)
        if v is POISON:
            raise PyExc('ImportError', name)
        return v

    def make_func(self, node, env, prefix, cls=None):
        q = prefix + getattr(node, 'known_as', node.name)
        f = FuncVal(node, env.module, env, q, cls)
        f.serial = getattr(self, 'serial', 0)
        f.defaults = [self.eval(d, env) for d in node.args.defaults]
        f.kwdefaults = [self.eval(d, env) if d is not None else POISON for d in node.args.kw_defaults]
        v = f
        for dec in reversed(node.decorator_list):
            d = dec.func if isinstance(dec, ast.Call) else dec
            nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
            if nm in ('jit', 'njit'):
                if isinstance(dec, ast.Call) and dec.args:
                    f.sig = parse_sig(dec.args[0])
                # prange is an ordinary range where the compiler is not told to parallelise
                par = [k for k in dec.keywords if k.arg in ('parallel', None)] if isinstance(dec, ast.Call) else []
                f.sequential = not par or par[-1].arg is not None and isinstance(par[-1].value, ast.Constant) and not par[-1].value.value
                continue
            if nm == 'property':
                return Prop(f)
            if nm == 'staticmethod':
                return ('static', f)
            dv = self.eval(dec, env)
            v = self.call(dv, [v], {}, node)
        return v

    def make_class(self, node, env):
        bases = [self.eval(b, env) for b in node.bases]
        cv = ClassVal(node.name, bases, {}, env.module)
        cenv = Env(env, env.module)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                cv.ns[s.name] = self.make_func(s, cenv, node.name + '.', cv)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                cv.ns[s.targets[0].id] = self.eval(s.value, cenv)
        return cv

    def func(self, modname, qual):
        m = self.module(modname)
        if m is None:
            return None
        v = self.mod_attr(m, m.renamed.get(qual.split('.')[0], qual.split('.')[0]))
        for p in qual.split('.')[1:]:
            if isinstance(v, ClassVal):
                v = v.ns.get(p, POISON)
                if isinstance(v, Prop):
                    v = v.fn
        return None if v is POISON else v

    # ------------------------------------------------------------------ exploration
    def verify(self, run, maxpass=200):
        """explore all paths of run(engine) to a Houdini fixpoint; returns obligations of the final pass"""
        t0 = time.time()
        for p in range(maxpass):
            self.changed = False
            self.multi, self.bdrops, self.sdrops = False, [], []
            self.obls = []
            self.covers = {}
            self.stats['passes'] += 1
            stack = [[]]
            npath = 0
            while stack:
                prefix = stack.pop()
                npath += 1
                if npath > self.pathq:
                    raise Unsupported('path budget exceeded')
                if time.time() - t0 > self.opts.get('budget', 400):
                    raise Unsupported('time budget exceeded')
                self.begin(prefix)
                self.stats['paths'] += 1
                try:
                    run(self)
                except PathEnd:
                    pass
                except PyExc as e:
                    if not self.replaying():
                        self.obls.append(self.exc_obl(e))
                except (BreakEx, ContinueEx, ReturnEx):
                    raise Unsupported('stray control flow')
                stack.extend(self.alts)
            if not self.changed:
                return self.obls
            if self.bdrops:
                d, _, info, _ = min(self.bdrops, key=lambda x: x[:2])
                for _, _, i, c in self.bdrops:
                    if i is info:
                        i.cands.pop(c, None)
            else:
                for i, c in self.sdrops:
                    i.cands.pop(c, None)
        raise Unsupported('invariant inference did not converge')

    def exc_obl(self, e):
        m = None
        r = self.s.check()
        if r == z3.sat:
            m = self.s.model()
        if r == z3.unsat:
            return Obl('no-exception', True, 'z3')
        return Obl('no-exception', False, 'path ends in %s' % e, m and self.model_info(m), str(e))

    def begin(self, prefix):
        self.s = z3.SimpleSolver() if self.opts.get('simple', True) else z3.Solver()
        self.s.set('timeout', self.opts.get('timeout', 10000))
        self.pos, self.dec = 0, list(prefix)
        self.alts = []
        self.cnt = {}
        self.serial = 0
        self.heap = {}
        self.frames = []
        self.active = []       # (index term, length term)
        self.ghost = {}
        self.ghost_cands = []
        self.folds = []
        self.ctx = ()
        self.fnstack = []
        self.collect = {}
        self.known = [set()]
        self.axq = [[]]
        self.subdepth = 0
        self.draws = []
        self.drawk = {}
        self.accs = []         # (shape, fold with one parameter per axis): an array may accumulate the fold entry by entry
        self.evolving = []     # (shape, fn(idx, t)): contents of an array of this shape after t iterations
        self.timed = {}        # ('buf', id) | ('attr', oid, name) -> value after t iterations: invariant candidates of the contract
        self.clocks = []       # (tag, ('attr', oid, name)): ghost counters loop variables may run along with
        self.partials = {}     # ('attr', oid, name) -> () -> Partial: contents of the array held by an attribute, as far as known
        self.flags = []        # (tag, () -> formula): conditions a boolean variable may stand for
        self.loopcnt = {}
        self.writes = 0
        self.lists = []        # (tag, t -> length, (t, i) -> value): contents lists may have after t iterations of a loop
        self.steps = []        # iterations so far of the while loops under way
        self.envs = []         # environments of the calls under way
        self.removed = []      # callbacks: position left out by a comprehension
        self.loopstack = []
        self.whiles = 0
        self.callnode = None
        self.inmerged = 0
        self.inputs = {}
        self.loopdepth = 0
        self.site = ('', 0)
        self.parallel = None
        self.exc_ok = set()
        self.extra_cands = []
        self.lstate = None     # ghost state of an object that the loops' callees transform (contracts/clean.py)
        self.mm = {}
        self.condlog = None
        self.quiet = 0
        self.objs = {}
        self.apps = {}
        self.folds_anon = []
        self.targets = []      # candidate contents for arrays allocated by the code: (shape, idx -> term)

    def clock(self, loc):
        return z_int(self.objs[loc[1]].attrs[loc[2]])

    def replaying(self):
        return self.pos < len(self.dec)

    def fresh_name(self, base):
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh(self, base, k='int', lo=None, hi=None, nz=False):
        nm = self.fresh_name(base)
        if k in BOOLK:
            return SV(z3.Bool(nm), k)
        if k in INTK:
            t = z3.Int(nm)
            r = INTR.get(k)
            if lo is not None:
                self.assume(t >= lo)
            elif r and k != 'i64':
                self.assume(t >= r[0])
            if hi is not None:
                self.assume(t <= hi)
            elif r and k != 'i64':
                self.assume(t <= r[1])
            if nz:
                self.assume(t != 0)
            return SV(t, k, lo, hi, nz)
        return SV(z3.Real(nm), k)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                self.s.add(z3.BoolVal(False))
            return
        key = c.get_id()
        for ks in self.known:
            if key in ks:
                return
        self.known[-1].add(key)
        self.mm[key] = c           # keep the ast alive so that ids stay unique
        self.s.add(c)

    def push(self):
        self.s.push()
        self.known.append(set())
        self.axq.append([])

    def pop(self):
        self.s.pop()
        self.known.pop()
        for c in self.axq.pop():
            self.axiom(c)

    def axiom(self, c):
        """defining fact of ghost functions: holds whatever the path, and outlives the current scope"""
        key = c.get_id()
        if any(key in ks for ks in self.known):
            return
        self.axq[-1].append(c)
        self.assume(c)

    def check(self, *extra):
        self.stats['queries'] += 1
        t = time.time()
        self.s.push()
        for e in extra:
            self.s.add(e)
        try:
            r = self.s.check()
        except z3.Z3Exception:
            # the solver refuses a quantifier its own simplifier produced
            r = z3.unknown
        if r == z3.unknown:
            self.stats['unknown'] = self.stats.get('unknown', 0) + 1
        self.last_model = self.s.model() if r == z3.sat else None
        self.s.pop()
        dt = time.time() - t
        self.stats['solver_s'] += dt
        if dt > 2 and self.trace_on:
            print('slow query', dt, r, str(extra)[:300])
        return r

    def branch(self, cond):
        """fork on a symbolic condition"""
        if isinstance(cond, SV):
            cond = z_bool(cond)
        if not isz(cond):
            return bool(cond)
        c = simp(cond)
        if isinstance(c, bool):
            return c
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            self.assume(cond if d else z3.Not(cond))
            if self.condlog is not None:
                self.condlog.append(cond if d else z3.Not(cond))
            return d
        rt = self.check(cond)
        rf = self.check(z3.Not(cond)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            d = True
            self.alts.append(self.dec + [False])
        self.dec.append(d)
        self.pos += 1
        self.assume(cond if d else z3.Not(cond))
        if self.condlog is not None:
            self.condlog.append(cond if d else z3.Not(cond))
        return d

    def feasible(self):
        return self.check() != z3.unsat

    def valid(self, cond, strong=False):
        """True iff the current path condition proves cond"""
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if isinstance(c, bool):
            return c or self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    def prove(self, cond, name, detail=''):
        """record a proof obligation; assumed afterwards"""
        if self.quiet:
            return True
        if isz(cond):
            kid = cond.get_id()
            if any(kid in ks for ks in self.known):
                return True
        if self.replaying():
            if isz(cond):
                self.assume(cond)
            return True
        if isinstance(cond, SV):
            cond = z_bool(cond)
        c = simp(cond) if isz(cond) else bool(cond)
        nm = self.oname(name)
        if c is True:
            self.obls.append(Obl(nm, True, 'simplifier'))
            return True
        r = self.check(z3.Not(cond) if isz(cond) else z3.BoolVal(True))
        if r == z3.unsat:
            self.obls.append(Obl(nm, True, 'z3'))
            if isz(cond):
                self.assume(cond)
            return True
        m = self.model_info(self.last_model) if r == z3.sat else None
        if r == z3.unknown and isz(cond):
            # retry with the full solver before giving up
            s2 = z3.Solver()
            s2.set('timeout', self.opts.get('retry', 20000))
            s2.add(self.s.assertions())
            s2.add(z3.Not(cond))
            r = s2.check()
            if r == z3.unsat:
                self.obls.append(Obl(nm, True, 'z3'))
                self.assume(cond)
                return True
            m = self.model_info(s2.model()) if r == z3.sat else None
        self.obls.append(Obl(nm, False, 'z3: ' + str(r), m, detail + ' | goal: ' + str(c)[:600]))
        if isz(cond):
            self.assume(cond)
        return False

    def oname(self, name):
        fn = self.fnstack[-1].qual if self.fnstack else (self.top or '?')
        return '%s/%s' % (fn, name)

    def model_info(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = self.concretise(m, v)
            except Exception as e:      # noqa
                out[k] = 'n/a'
        return out

    def concretise(self, m, v):
        if isinstance(v, Arr):
            shp = [self.mval(m, z_int(s)) for s in v.shape]
            if any((not isinstance(x, int)) or x > 12 or x < 0 for x in shp):
                return {'shape': shp}
            content = v.buf.base or v.buf.content

            def rec(pref):
                if len(pref) == len(shp):
                    t = content(v.bidx([z3.IntVal(i) for i in pref]))
                    return self.mval(m, t if isz(t) else z_any(t))
                return [rec(pref + [i]) for i in range(shp[len(pref)])]
            return {'shape': shp, 'data': rec([])}
        return self.mval(m, z_any(v))

    def mval(self, m, t):
        r = m.eval(t, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            return float(r.as_fraction())
        if z3.is_true(r) or z3.is_false(r):
            return z3.is_true(r)
        if z3.is_algebraic_value(r):
            return float(r.approx(10).as_fraction())
        return str(r)

    def cover(self, name):
        """vacuity guard: the point must be reachable on at least one path"""
        if self.replaying():
            return
        if not self.covers.get(name):
            self.covers[name] = self.check() == z3.sat

    # ------------------------------------------------------------------ heap
    def new_buffer(self, shape, k, content, name='tmp', **kw):
        self.serial += 1
        base = '%s@%s:%s' % (name, self.site[0], self.site[1])
        n = self.cnt.get('buf ' + base, 0)
        self.cnt['buf ' + base] = n + 1
        b = Buffer('%s#%d' % (base, n), shape, k, content, self.serial, name=name, **kw)
        self.heap[b.id] = (b, self.serial)
        for t in self.targets:
            if len(t[0]) == len(b.shape) and all(same(x, y) for x, y in zip(t[0], b.shape)):
                b.target.append((t[1], t[2] if len(t) > 2 else ()))
        return b

    def new_arr(self, shape, k, content, name='tmp', **kw):
        return Arr(self.new_buffer(shape, k, content, name, **kw), shape)

    def input_arr(self, name, shape, k, lo=None, hi=None, nz=False, einv=None):
        """symbolic input array with element invariant lo..hi (nz: non-zero)"""
        shape = tuple(raw(s) for s in shape)
        rs = z3.BoolSort() if k in BOOLK else (z3.RealSort() if k in FLK else z3.IntSort())
        f = z3.Function('%s' % name, *([z3.IntSort()] * len(shape) + [rs])) if shape else None
        c = z3.Const(name, rs)

        def content(idx):
            return f(*[z_int(i) for i in idx]) if shape else c
        a = self.new_arr(shape, k, content, name, lo=lo, hi=hi, nz=nz, einv=einv)
        a.buf.base = content
        self.inputs[name] = a
        return a

    def par_access(self, b, bi, write):
        """prange: every access to an array written in the parallel body must stay in the slice of its own iteration"""
        if self.quiet or self.replaying():
            return
        for fr in self.frames:
            if fr.prange_idx is None or self.heap[b.id][1] > fr.serial:
                continue
            w = fr.info.__dict__.setdefault('parw', set())
            if write and b.id not in w:
                w.add(b.id)
                self.changed = True
            if b.id not in w:
                continue
            ax = fr.info.__dict__.setdefault('parax', {})
            cur = ax.get(b.id)
            if cur is None:
                cur = ax[b.id] = set(range(len(bi)))
            for a in sorted(cur):
                if bi[a] is None or not (same(bi[a], fr.prange_idx) or self.valid(z_int(bi[a]) == fr.prange_idx)):
                    cur.discard(a)
                    self.changed = True
            self.obls.append(Obl(self.oname('race-free:%s' % b.name), bool(cur), 'z3',
                                 None if cur else {}, '' if cur else 'access outside the own prange slice'))

    def par_view(self, a):
        """whole view handed to a contract"""
        if self.quiet or not any(fr.prange_idx is not None for fr in self.frames):
            return
        bi = [m[1] if m[0] == 'f' else None for m in a.imap]
        self.par_access(a.buf, bi, False)

    def read(self, a, idx):
        """element of a view at in-range index terms"""
        b = a.buf
        bi = [raw(i) for i in a.bidx(idx)]
        if self.frames:
            self.par_access(b, bi, False)
        t = b.content(bi)
        return self.elem_sv(b, t)

    def at(self, a, idx):
        """specification read: initial content of an input array (no access recorded), with its element invariant"""
        b = a.buf
        return self.elem_sv(b, (b.base or b.content)([raw(i) for i in a.bidx(idx)])).t

    def elem_sv(self, b, t):
        if isinstance(t, SV):
            t = t.t
        if isz(t):
            if b.lo is not None:
                self.assume(z_int(t) >= b.lo)
            if b.hi is not None:
                self.assume(z_int(t) <= b.hi)
            if b.nz:
                self.assume(t != 0)
            if b.einv is not None:
                self.assume(b.einv(t))
            if b.k in INTR and b.lo is None and b.k != 'i64':
                r = INTR[b.k]
                self.assume(z3.And(t >= r[0], t <= r[1]))
        return SV(t, b.k, b.lo, b.hi, b.nz)

    def note_write(self, loc, serial):
        for fr in self.frames:
            if serial <= fr.serial:
                fr.pending.add(loc)

    def set_content(self, b, content):
        self.serial += 1
        self.writes += 1
        b.ver = self.serial
        b.content = content
        self.note_write(('buf', b.id), self.heap[b.id][1])

    def store(self, a, idx, v):
        """a[idx] = v (idx: list of terms over a's axes)"""
        b = a.buf
        bi = [raw(i) for i in a.bidx(idx)]
        val = self.cast_elem(v, b.k)
        for h in b.hooks:
            h(self, b, bi, val)
        self.elem_checks(b, val)
        self.par_access(b, bi, True)
        if b.ro:
            self.prove(False, 'frame:%s' % b.name)
        old = b.content
        vt = raw(val)

        def content(i, old=old, bi=bi, vt=vt):
            conds = []
            for x, y in zip(i, bi):
                x, y = raw(x), raw(y)
                if not isz(x) and not isz(y):
                    if x != y:
                        return old(i)
                    continue
                if isz(x) and isz(y) and x.eq(y):
                    continue
                conds.append(z_int(x) == z_int(y))
            if not conds:
                return vt
            return self.ite(z3.And(*conds), vt, old(i))
        self.set_content(b, content)

    def ite(self, c, a, b):
        a, b = raw(a), raw(b)
        c = simp(c) if isz(c) else bool(c)
        if c is True:
            return a
        if c is False:
            return b
        if not isz(a) and not isz(b) and type(a) == type(b) and a == b:
            return a
        za, zb = (a if isz(a) else z_any(a)), (b if isz(b) else z_any(b))
        if za.sort() != zb.sort():
            if z3.is_bool(za) or z3.is_bool(zb):
                if z3.is_bool(za) and z3.is_bool(zb):
                    pass
                elif (za.is_real() if not z3.is_bool(za) else zb.is_real()):
                    za, zb = z_real(za), z_real(zb)
                else:
                    za, zb = z_int(za), z_int(zb)
            else:
                za, zb = z_real(za), z_real(zb)
        if za.eq(zb):
            return za
        return z3.If(c, za, zb)

    def elem_checks(self, b, val):
        """element invariant of the written buffer must hold for the stored value"""
        if b.lo is not None or b.hi is not None:
            lo_ok = val.lo is not None and (b.lo is None or val.lo >= b.lo)
            hi_ok = val.hi is not None and (b.hi is None or val.hi <= b.hi)
            nz_ok = (not b.nz) or val.nz
            if not (lo_ok and hi_ok and nz_ok):
                if b.soft and not self.loopstack and not self.frames:
                    b.lo = None if b.lo is None or val.lo is None else min(b.lo, val.lo)
                    b.hi = None if b.hi is None or val.hi is None else max(b.hi, val.hi)
                    b.nz = b.nz and val.nz
                    return
                t = z_int(val)
                cs = []
                if b.lo is not None:
                    cs.append(t >= b.lo)
                if b.hi is not None:
                    cs.append(t <= b.hi)
                if b.nz:
                    cs.append(t != 0)
                self.prove(z3.And(*cs), 'domain:%s' % b.name)
        if b.einv is not None:
            c = b.einv(z_any(val))
            self.prove(c, 'domain:%s' % b.name)

    def cast_elem(self, v, k):
        """value stored into an array of kind k (numpy unsafe casting of python/numpy scalars on assignment)"""
        vk = kind(v)
        if vk is None:
            raise Unsupported('store of non-number')
        if k in FLK:
            return SV(raw(v) if not isz(raw(v)) else z_real(v), k)
        if k in BOOLK:
            return SV(raw(v) if vk in BOOLK else (z_bool(v) if isz(raw(v)) else bool(raw(v))), k)
        if k in INTK:
            if vk in FLK:
                t = raw(v)
                if not isz(t):
                    return SV(int(t), k)
                if t.decl().kind() == z3.Z3_OP_TO_REAL:
                    return self.cast_elem(SV(t.arg(0), 'i64'), k)
                t2 = z3.ToInt(t) if self.valid(t >= 0) else z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
                sv = SV(t2, k)
                self.range_check(sv, 'cast')
                return sv
            if vk in BOOLK:
                return SV(z_int(v) if isz(raw(v)) else int(raw(v)), k, 0, 1)
            sv = SV(raw(v), k, getattr(v, 'lo', None), getattr(v, 'hi', None), getattr(v, 'nz', False))
            self.range_check(sv, 'cast')
            return sv
        raise Unsupported('store kind %s' % k)

    def range_check(self, sv, what):
        r = INTR.get(sv.k)
        if not r or sv.k in ('i64', 'u64'):
            return
        if sv.lo is not None and sv.hi is not None and sv.lo >= r[0] and sv.hi <= r[1]:
            return
        t = sv.t
        if not isz(t):
            ok = r[0] <= t <= r[1]
            if not ok:
                self.prove(False, 'overflow:%s:%s' % (what, sv.k))
            return
        self.prove(z3.And(t >= r[0], t <= r[1]), 'overflow:%s:%s' % (what, sv.k))

    # ------------------------------------------------------------------ folds and spec applications
    def fold(self, name, pdims, length, term, kind='count', desc=''):
        f = Fold(self, name, [raw(p) for p in pdims], raw(length), term, kind, desc)
        self.folds.append(f)
        return f

    def inst(self, f, params, e):
        """axiom instances of fold f at prefix e (and e+1, length)"""
        e = z_int(e)
        n = z_int(f.length)
        p = [z_int(x) for x in params]
        key = ('inst', f.name, tuple(x.get_id() for x in p), e.get_id())
        for ks in self.known:
            if key in ks:
                return
        self.known[-1].add(key)
        self.mm[key] = (p, e)
        one = z3.IntVal(1)
        if f.kind == 'first':
            # F(params, e): the first position >= e at which the term holds, or the length; e <= F <= length by induction
            t = z_bool(f.term(*p, e))
            cur = f.f(*p, e)
            self.assume(z3.Implies(e >= n, cur == n))
            self.assume(z3.Implies(z3.And(e >= 0, e < n), z3.And(cur == z3.If(t, e, f.f(*p, simp_keep(e + one))), cur >= e, cur <= n)))
            return
        base = z3.RealVal(1) if f.kind == 'prod' else (z3.RealVal(0) if f.real else z3.IntVal(0))
        self.assume(z3.Implies(e <= 0, f.f(*p, e) == base))
        if not z3.is_int_value(simp_keep(e)) or True:
            t = f.term(*p, e)
            t = (z_real(t) if f.real else z_int(t))
            nxt = f.f(*p, simp_keep(e + one))
            cur = f.f(*p, e)
            if z3.is_int_value(e) and e.as_long() == 0:
                cur = base
            step = (nxt == cur * t) if f.kind == 'prod' else (nxt == cur * z_real(f.mul(*p, e)) + t) if f.kind == 'lin' else (nxt == cur + t)
            self.assume(z3.Implies(z3.And(e >= 0, e < n), step))
            if f.kind == 'count':
                tot = f.f(*p, n)
                self.assume(z3.Implies(z3.And(e >= 0, e < n),
                                       z3.And(cur >= 0, cur <= nxt, nxt <= tot, nxt <= e + 1)))
                self.assume(z3.Implies(z3.And(e >= 0, e <= n), z3.And(cur >= 0, cur <= e, tot - cur <= n - e, cur <= tot)))
            if f.kind == 'sum' and f.nonneg:
                tot = f.f(*p, n)
                self.assume(z3.Implies(z3.And(e >= 0, e < n), z3.And(t >= 0, cur >= 0, nxt <= tot)))
            if f.kind == 'prod' and f.unit:
                self.assume(z3.And(cur >= 0, cur <= 1, nxt >= 0, nxt <= 1))
        self.assume(z3.Implies(n <= 0, f.f(*p, n) == base))

    def param_insts(self, f, own=None):
        """parameter tuples for fold f from the active index terms"""
        out = [()]
        for d in f.pdims:
            c = [t for (t, n) in self.active if n is not None and same(n, d)]
            if not c:
                c = [t for (t, n) in self.active if n is None]
            out = [p + (t,) for p in out for t in c]
        return out

    def target_insts(self, b, mine=()):
        """candidate contents of a buffer: a target may have parameters, instantiated by the active index terms"""
        out = []
        for tg, pd in b.target:
            ps = [()]
            for d in pd:
                c = [t for (t, n) in self.active if n is not None and same(n, d) and not any(t is m for m in mine)]
                ps = [p + (t,) for p in ps for t in c]
            for p in ps:
                out.append((lambda i, tg=tg, p=p: tg(i, *p)) if pd else tg)
        return out

    def inst_all(self, e, n=None):
        for f in self.folds:
            if n is not None and not same(f.length, n) and not self.opts.get('loose', False):
                continue
            for p in self.param_insts(f):
                self.inst(f, p, e)

    # ------------------------------------------------------------------ numbers
    def binop(self, op, a, b, node=None):
        if op == '+' and (isinstance(a, Seq) and isinstance(b, (Seq, list)) or isinstance(b, Seq) and isinstance(a, list)):
            return self.concat(a, b)
        if isinstance(a, (Arr, Seq, MaskSel)) or isinstance(b, (Arr, Seq, MaskSel)):
            return self.np.arr_binop(self, op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise Unsupported('operator on object')
        if not (isnum(a) and isnum(b)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, list) and isinstance(y, SV) and y.k in FLK and y.k not in PYK and op in ('+', '-', '*', '/', '**'):
                    # a list and a numpy number: numpy's operator, on the list as an array
                    conv = lambda v: self.np.as_arr(self, v) if isinstance(v, list) else v
                    return self.np.arr_binop(self, op, conv(a), conv(b))
            return self.seq_binop(op, a, b)
        ca, cb = conc(a), conc(b)
        ka, kb = kind(a), kind(b)
        if op == '/':
            return self.divide(a, b, ka, kb)
        if op == '**':
            return self.power(a, b)
        if op in ('//', '%'):
            return self.floordiv(op, a, b)
        if op in ('&', '|', '^'):
            if ka in BOOLK and kb in BOOLK:
                x, y = z_bool(a), z_bool(b)
                r = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
                return SV(simp(r), 'b1' if 'b1' in (ka, kb) else 'bool')
            if ca is not None and cb is not None:
                return eval('ca %s cb' % op)
            raise Unsupported('bit operation')
        if op in ('<<', '>>', '@'):
            raise Unsupported('operator ' + op)
        k = promote(ka, kb)
        if ca is not None and cb is not None and ka in PYK and kb in PYK:
            return {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb}[op]()
        if k == 'b1':
            x, y = z_bool(a), z_bool(b)
            if op == '+':
                return SV(simp(z3.Or(x, y)), 'b1')
            if op == '*':
                return SV(simp(z3.And(x, y)), 'b1')
            raise PyExc('TypeError', 'numpy boolean subtract')
        if k in FLK:
            x, y = z_real(a), z_real(b)
            if op == '*':
                r = self.small_mul(a, b, True)
                if r is None:
                    r = x * y
            else:
                r = x + y if op == '+' else x - y
            return SV(simp(r), k)
        # integers
        la, ha = self.bounds(a)
        lb, hb = self.bounds(b)
        lo = hi = None
        nz = False
        if None not in (la, ha, lb, hb):
            if op == '+':
                lo, hi = la + lb, ha + hb
            elif op == '-':
                lo, hi = la - hb, ha - lb
            else:
                ps = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(ps), max(ps)
        if op == '*':
            nz = self.isnz(a) and self.isnz(b)
            r = self.small_mul(a, b, False)
            if r is None:
                r = z_int(a) * z_int(b)
        else:
            r = z_int(a) + z_int(b) if op == '+' else z_int(a) - z_int(b)
        r = simp(r) if not isz(r) or r.num_args() < 4 else r
        sv = SV(r, k, lo, hi, nz)
        if k in INTR:
            self.range_check(sv, {'+': 'add', '-': 'sub', '*': 'mul'}[op])
        if not isz(sv.t) and k == 'int':
            return int(sv.t)
        return sv

    def isnz(self, v):
        if isinstance(v, SV):
            return v.nz or (not isz(v.t) and v.t != 0)
        return v != 0

    def bounds(self, v):
        if isinstance(v, SV):
            return v.lo, v.hi
        if isinstance(v, (bool, int)):
            return int(v), int(v)
        return None, None

    def small_mul(self, a, b, real):
        """multiplication by a value in {-1,0,1} as a case split (keeps queries linear)"""
        for x, y in ((a, b), (b, a)):
            lo, hi = self.bounds(x)
            if kind(x) in BOOLK:
                lo, hi = 0, 1
            if lo is not None and hi is not None and lo >= -1 and hi <= 1 and isz(raw(x)):
                cy = z_real(y) if real else z_int(y)
                if kind(x) in BOOLK:
                    return z3.If(z_bool(x), cy, cy - cy if False else (z3.RealVal(0) if real else z3.IntVal(0)))
                t = raw(x)
                zero = z3.RealVal(0) if real else z3.IntVal(0)
                if self.isnz(x):
                    if lo == 1:
                        return cy
                    return z3.If(t == 1, cy, -cy)
                if lo >= 0:
                    return z3.If(t == 1, cy, zero)
                return z3.If(t == 1, cy, z3.If(t == 0, zero, -cy))
        return None

    def divide(self, a, b, ka, kb):
        ca, cb = conc(a), conc(b)
        if cb is not None:
            if cb == 0:
                if ka in PYK and kb in PYK:
                    raise PyExc('ZeroDivisionError')
                self.prove(False, 'div-nonzero')
            if ca is not None and ka in PYK and kb in PYK:
                return frac(ca) / frac(cb) if not isinstance(ca, float) and not isinstance(cb, float) else ca / cb
        else:
            self.prove(z_real(b) != 0, 'div-nonzero')
        k = promote(ka, kb)
        if k not in FLK:
            k = 'float' if k in PYK else 'f64'
        return SV(simp(z_real(a) / z_real(b)), k)

    def power(self, a, b):
        ca, cb = conc(a), conc(b)
        ka, kb = kind(a), kind(b)
        if ca is not None and cb is not None:
            if isinstance(cb, int) and cb >= 0:
                return frac(ca) ** cb if isinstance(ca, Fraction) else ca ** cb
            return ca ** cb
        k = promote(ka, kb)
        if isinstance(cb, Fraction) and cb.denominator == 1:
            cb = int(cb)
        if isinstance(cb, int) and 0 <= cb <= 4:
            r = 1
            for _ in range(cb):
                r = self.binop('*', r, a)
            return r
        f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
        return SV(f(z3.simplify(z_real(a), som=True), z3.simplify(z_real(b), som=True)), 'f64' if k not in PYK else 'float')

    def floordiv(self, op, a, b):
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            if cb == 0:
                raise PyExc('ZeroDivisionError')
            return ca // cb if op == '//' else ca % cb
        if kind(a) in FLK or kind(b) in FLK:
            raise Unsupported('float floor division')
        x, y = z_int(a), z_int(b)
        self.prove(y > 0, 'div-nonzero')
        k = promote(kind(a), kind(b))
        return SV(x / y if op == '//' else x % y, k)

    def concat(self, a, b):
        """concatenation of lists of symbolic length"""
        def lst(v):
            if isinstance(v, Seq):
                if v.guard is not None:
                    raise Unsupported('concatenation of filtered sequence')
                return z_int(v.length), v.elem
            n = len(v)

            def elem(i):
                r = v[-1]
                for m in range(n - 2, -1, -1):
                    r = self.merge(z_int(i) == m, v[m], r)
                return r
            return z3.IntVal(n), elem
        if isinstance(b, list) and not b:
            return a
        if isinstance(a, list) and not a:
            return b
        pa, pb = getattr(a, 'part', None), getattr(b, 'part', None)
        if pa and pb and pa[0] is pb[0] and same(pa[1], 0) and same(z3.simplify(pa[2] + 1), pb[1]) and same(pb[2], pa[0].length):
            return self.without(z_int(pa[0].length), pa[0].elem, pa[2])
        if any(isinstance(x, Seq) and x.guard is not None for x in (a, b)):
            # only reductions can look at it
            def none(i):
                raise Unsupported('concatenation of filtered sequence')
            r = Seq(self.fresh('catlen', 'int', 0).t, none)
            r.cat = (a, b)
            return r
        (na, ea), (nb, eb) = lst(a), lst(b)

        def elem(i):
            i = z_int(i)
            if self.valid(i < na):
                return ea(i)
            if self.valid(i >= na):
                return eb(z3.simplify(i - na))
            vs = []
            for c, f, j in ((i < na, ea, i), (i >= na, eb, z3.simplify(i - na))):
                self.push()
                self.assume(c)
                try:
                    vs.append(f(j))
                finally:
                    self.pop()
            return self.merge(i < na, *vs)
        r = Seq(z3.simplify(na + nb), elem)
        r.cat = (a, b)
        return r

    def size_of(self, shape):
        """number of entries of an array, as one term whatever the spelling (opts 'sizes')"""
        key = ('size',) + tuple(sorted(str(z3.simplify(z_int(x))) for x in shape))
        t = self.ghost.get(key)
        if t is None:
            t = self.ghost[key] = z3.Int(self.fresh_name('size'))
            r = z3.IntVal(1)
            for x in shape:
                r = r * z_int(x)
            self.axiom(t == r)
        return SV(t, 'i64', 0)

    def seq_binop(self, op, a, b):
        if op == '+':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return SymStr()
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == '*':
            if isinstance(a, (list, tuple, str)) and isinstance(b, int):
                return a * b
            if isinstance(b, (list, tuple, str)) and isinstance(a, int):
                return b * a
            for x, y in ((a, b), (b, a)):
                if isinstance(x, list) and len(x) == 1 and isinstance(y, SV):
                    v = x[0]
                    return Seq(z_int(y), lambda i, v=v: v)
        if op == '%' and isinstance(a, str):
            return SymStr()
        raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def neg(self, a):
        if isinstance(a, (Arr, Seq, MaskSel)):
            return self.np.arr_map(self, a, lambda x: self.neg(x))
        if isinstance(a, SV):
            if a.k in FLK:
                return SV(simp(-z_real(a)), a.k)
            if a.k == 'b1':
                raise PyExc('TypeError', 'numpy boolean negative')
            k = 'int' if a.k == 'bool' else a.k
            sv = SV(simp(-z_int(a)), k, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, a.nz)
            self.range_check(sv, 'neg')
            return sv
        return -a

    def invert(self, a):
        if isinstance(a, (Arr, Seq)):
            return self.np.arr_map(self, a, lambda x: self.invert(x))
        if isinstance(a, SV):
            if a.k == 'b1':
                return SV(simp(z3.Not(z_bool(a))), 'b1')
            k = 'int' if a.k == 'bool' else a.k
            t = z_int(a)
            return SV(simp(-t - 1), k)
        return ~a

    def compare(self, op, a, b):
        if op == 'is':
            return self.is_(a, b)
        if op == 'is not':
            r = self.is_(a, b)
            return SV(z3.Not(z_bool(r)), 'bool') if isinstance(r, SV) else not r
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            r = self.contains(b, a)
            return SV(simp(z3.Not(z_bool(r))), 'bool') if isinstance(r, SV) else not r
        if isinstance(a, (Arr, Seq, MaskSel)) or isinstance(b, (Arr, Seq, MaskSel)):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                raise Unsupported('array compared with non-number')
            return self.np.arr_compare(self, op, a, b)
        if not (isnum(a) and isnum(b)):
            if isinstance(a, self.np.Values) and isinstance(b, (set, frozenset)):
                return a.relation(self, op, b)
            if isinstance(b, self.np.Values) and isinstance(a, (set, frozenset)):
                return b.relation(self, {'<=': '>=', '>=': '<='}.get(op, op), a)
            if op in ('==', '!='):
                if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) == type(b):
                    if len(a) != len(b):
                        return op == '!='
                    r = z3.And(*[z_bool(self.compare('==', x, y)) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
                    r = simp(r if op == '==' else z3.Not(r))
                    return r if isinstance(r, bool) else SV(r, 'bool')
                if isinstance(a, SymStr) or isinstance(b, SymStr):
                    raise Unsupported('comparison of opaque string')
                if isinstance(a, Obj) or isinstance(b, Obj):
                    eq = a is b
                else:
                    eq = (a == b) if type(a) == type(b) or isnum(a) == isnum(b) else False
                return eq if op == '==' else not eq
            if isinstance(a, str) and isinstance(b, str):
                return eval('a %s b' % op)
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                if all(conc(x) is not None for x in list(a) + list(b)):
                    return eval('a %s b' % op)
            raise Unsupported('comparison %s of %s and %s' % (op, type(a).__name__, type(b).__name__))
        ca, cb = conc(a), conc(b)
        k = 'bool' if kind(a) in PYK and kind(b) in PYK else 'b1'
        if ca is not None and cb is not None:
            r = {'==': ca == cb, '!=': ca != cb, '<': ca < cb, '<=': ca <= cb, '>': ca > cb, '>=': ca >= cb}[op]
            return bool(r) if k == 'bool' else SV(bool(r), 'b1')
        ka, kb = kind(a), kind(b)
        if ka in BOOLK and kb in BOOLK and op in ('==', '!='):
            r = z_bool(a) == z_bool(b)
            r = r if op == '==' else z3.Not(r)
        else:
            if ka in FLK or kb in FLK:
                # avoid mixing: compare int terms as ints when the float is an integral constant
                x, y = z_real(a), z_real(b)
            else:
                x, y = z_int(a), z_int(b)
            r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                 '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        r = simp(r)
        return r if (isinstance(r, bool) and k == 'bool') else SV(r, k)

    def is_(self, a, b):
        if isinstance(a, SV) or isinstance(b, SV):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SV) and isinstance(y, bool):
                    if x.k == 'bool':
                        return SV(simp(z_bool(x) == z3.BoolVal(y)), 'bool')
                    return False
            if a is None or b is None:
                return False
            if a is b:
                return True
            if isinstance(a, SV) and isinstance(b, SV) and a.k in PYK and b.k in PYK and a.k == 'bool':
                return SV(z_bool(a) == z_bool(b), 'bool')
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, (Intrinsic, DType)) or isinstance(b, (Intrinsic, DType)):
            return a == b
        if isinstance(a, (str, int)) and isinstance(b, (str, int)) and type(a) == type(b):
            return a == b
        return a is b

    def contains(self, coll, x):
        if isinstance(coll, str):
            if isinstance(x, str):
                return x in coll
            raise Unsupported('in string')
        if isinstance(coll, dict):
            return x in coll
        if isinstance(coll, (list, tuple, set)):
            rs = [self.compare('==', x, y) for y in coll]
            if any(r is True for r in rs):
                return True
            rs = [z_bool(r) for r in rs if r is not False]
            if not rs:
                return False
            return SV(z3.Or(*rs), 'bool')
        if hasattr(coll, 'member'):
            return coll.member(self, x)
        if isinstance(coll, Obj):
            raise Unsupported('in object')
        if isinstance(coll, Arr):
            return self.np.reduce(self, 'any', self.compare('==', coll, x))
        raise Unsupported('in %r' % (coll,))

    def truth(self, v):
        """python bool or z3 bool"""
        if isinstance(v, SV):
            if not isz(v.t):
                return bool(v.t)
            return z_bool(v)
        if isinstance(v, Arr):
            if all(not isz(s) and s == 1 for s in v.shape):
                return self.truth(self.read(v, [0] * v.ndim))
            if v.aslist:
                return z_int(v.shape[0]) != 0
            raise PyExc('ValueError', 'truth value of an array is ambiguous')
        if v is POISON:
            raise Unsupported('undefined value')
        if isinstance(v, SymStr):
            raise Unsupported('truth of opaque string')
        if isinstance(v, (Obj, FuncVal, ClassVal, Intrinsic, Bound)):
            return True
        if isinstance(v, Seq):
            raise Unsupported('truth of sequence')
        return bool(v)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, tuple) and f and f[0] == 'static':
            f = f[1]
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), dict(kw), node)
        if isinstance(f, Intrinsic):
            return self.np.call_ext(self, f.name, list(args), dict(kw), node)
        if isinstance(f, DType):
            return self.np.cast(self, args[0] if args else 0, f.k)
        if isinstance(f, ClassVal):
            self.serial += 1
            base = 'obj %s' % f.name
            n = self.cnt.get(base, 0)
            self.cnt[base] = n + 1
            o = Obj(f, {}, '%s#%d' % (f.name, n))
            o.serial = self.serial
            self.objs[o.oid] = o
            init = self.class_attr(f, '__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw, node)
            return o
        if isinstance(f, Obj):
            c = self.class_attr(f.cls, '__call__')
            if c is not None:
                return self.call(c, [f] + list(args), kw, node)
            raise PyExc('TypeError', 'object not callable')
        if callable(f) and not isinstance(f, type):
            return f(self, *args, **kw)
        if f is POISON:
            raise Unsupported('call of undefined value')
        raise PyExc('TypeError', '%r is not callable' % (f,))

    def class_attr(self, cls, name):
        for c in cls.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = Env(f.env, f.module)
        nd = len(f.defaults)
        if len(args) > len(names) and a.vararg is None:
            raise PyExc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qual, len(names), len(args)))
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw:
                    raise PyExc('TypeError', 'multiple values for ' + n)
                env.vars[n] = args[i]
            elif n in kw:
                env.vars[n] = kw.pop(n)
            elif i >= len(names) - nd:
                env.vars[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise PyExc('TypeError', "%s() missing required argument '%s'" % (f.qual, n))
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args[len(names):])
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif d is not POISON:
                env.vars[x.arg] = d
            else:
                raise PyExc('TypeError', 'missing keyword ' + x.arg)
        if a.kwarg:
            env.vars[a.kwarg.arg] = dict(kw)
        elif kw:
            raise PyExc('TypeError', 'unexpected keyword argument %s' % list(kw)[0])
        return env

    def call_func(self, f, args, kw, node):
        key = (f.module.name, f.qual)
        c = self.contracts.get(key)
        if c is not None:
            env = self.bind(f, args, kw)
            self.sig_args(f, env)
            r = c(self, [env.vars[x.arg] for x in f.node.args.args], f)
            if r is not NotImplemented:
                return r
            return self.inline(f, args, kw, node)
        return self.inline(f, args, kw, node)

    def sig_args(self, f, env):
        if f.sig:
            for a, t in zip(f.node.args.args, f.sig[1]):
                self.sig_value(t, env.vars.get(a.arg), 'argument')

    def sig_value(self, t, v, what):
        """an integer scalar crossing a compiled signature keeps its value"""
        k = SIGK.get(t)
        if k is None or not isnum(v):
            return
        if kind(v) in FLK:
            self.prove(False, 'overflow:%s:%s' % (what, k), 'a float is declared as an integer')
        elif kind(v) not in BOOLK and INTR[k] != INTR['i64']:
            self.range_check(SV(raw(v), k, getattr(v, 'lo', None), getattr(v, 'hi', None)), what)

    def inline(self, f, args, kw, node=None):
        if len(self.fnstack) > 40:
            raise Unsupported('call depth')
        env = self.bind(f, args, dict(kw))
        self.sig_args(f, env)
        self.functions.add((f.module.name, f.qual))
        self.fnodes[f.module.name, f.qual] = f.node
        octx, osite = self.ctx, self.site
        if node is not None:
            self.ctx = octx + ((f.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
        self.fnstack.append(f)
        self.envs.append(env)
        try:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported('generator function')
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            self.block(f.node.body, env)
            return None
        except ReturnEx as r:
            self.sig_value(f.sig and f.sig[0], r.v, 'return')
            return r.v
        finally:
            self.fnstack.pop()
            self.envs.pop()
            self.ctx, self.site = octx, osite


    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if hasattr(s, 'lineno'):
            self.site = (self.fnstack[-1].qual if self.fnstack else '', s.lineno)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        return m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Global(self, s, env):
        raise Unsupported('global')

    def st_Nonlocal(self, s, env):
        for n in s.names:
            env.globals.add(n)

    def st_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value else None)

    def st_Break(self, s, env):
        raise BreakEx()

    def st_Continue(self, s, env):
        raise ContinueEx()

    def st_Import(self, s, env):
        for a in s.names:
            if a.asname:
                env.vars[a.asname] = self.import_mod(a.name, True)
            else:
                env.vars[a.name.split('.')[0]] = self.import_mod(a.name, False)

    def st_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.import_from(s, a.name, env.module)

    def st_FunctionDef(self, s, env):
        prefix = (self.fnstack[-1].qual + '.<locals>.') if self.fnstack else ''
        env.vars[s.name] = self.make_func(s, env, prefix)

    def st_ClassDef(self, s, env):
        env.vars[s.name] = self.make_class(s, env)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice):
                c = ast.copy_location(ast.Call(ast.Attribute(t.value, 'pop', ast.Load()), [t.slice], []), t)
                if self.list_op(c, env) is None:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def st_Assert(self, s, env):
        c = self.truth(self.eval(s.test, env))
        if not self.branch(c):
            raise PyExc('AssertionError')

    def st_Raise(self, s, env):
        if s.exc is None:
            raise PyExc('RuntimeError', 're-raise')
        e = s.exc
        fn = e.func if isinstance(e, ast.Call) else e
        name = fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', 'Exception')
        raise PyExc(name)

    EXC_PARENTS = {'ModuleNotFoundError': ['ImportError'], 'IndexError': ['LookupError'], 'KeyError': ['LookupError'],
                   'ZeroDivisionError': ['ArithmeticError'], 'BdbQuit': []}

    def st_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                names = [e.cls] + self.EXC_PARENTS.get(e.cls, []) + ['Exception', 'BaseException']
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        ok = any((t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')) in names for t in ts)
                    if ok:
                        if h.name:
                            env.vars[h.name] = SymStr()
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def st_With(self, s, env):
        """context managers of modelled libraries: entered, bound, left on every way out"""
        left = []
        try:
            for item in s.items:
                m = self.eval(item.context_expr, env)
                if not isinstance(m, Native) or '__enter__' not in m.attrs or '__exit__' not in m.attrs:
                    raise Unsupported('with')
                x = self.call(m.attrs['__enter__'], [], {})
                left.append(m)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, x, env)
            self.block(s.body, env)
        finally:
            for m in reversed(left):
                self.call(m.attrs['__exit__'], [None, None, None], {})

    def st_If(self, s, env):
        c = self.truth(self.eval(s.test, env))
        if self.branch(c):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_Assign(self, s, env):
        if self.fnstack and self.is_iterator(s.value):
            for t in s.targets:
                if not isinstance(t, (ast.Tuple, ast.List)):
                    self.once(t, self.fnstack[-1].node, s)
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    ITERATORS = {'zip', 'map', 'filter', 'iter', 'enumerate', 'reversed', 'ndenumerate', 'ndindex', 'product', 'permutations', 'combinations', 'chain', 'nditer'}

    def is_iterator(self, e):
        """does the expression yield an object that can be read only once?"""
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy', 'itertools') else getattr(e.func, 'id', None)
            return n in self.ITERATORS
        return isinstance(e, ast.GeneratorExp)

    def once(self, t, fn, site):
        """an iterator is modelled by what it yields: the one who holds it may use it only once"""
        key = (id(fn), id(site), getattr(t, 'id', None))
        ok = self.onces.get(key)
        if ok is None:
            ok = isinstance(t, ast.Name)
            if ok:
                loads = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load)]
                ok = len(loads) <= 1
                for n in ast.walk(fn):
                    if isinstance(n, (ast.For, ast.While)):
                        again = n.body + ([n.test] if isinstance(n, ast.While) else [])
                        if any(x in loads for b in again for x in ast.walk(b)) and not any(x is site for b in again for x in ast.walk(b)):
                            ok = False
                    elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        if any(x in loads for x in ast.walk(n)) and not any(x in loads for x in ast.walk(n.generators[0].iter)):
                            ok = False
                    elif isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not fn and any(x in loads for x in ast.walk(n)):
                        ok = False
            self.onces[key] = ok
        if not ok:
            raise Unsupported('an iterator is kept and may be used twice')

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}

    def st_AugAssign(self, s, env):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            r = self.eval(s.value, env)
            if isinstance(cur, Arr) and not cur.aslist:
                self.np.inplace(self, cur, op, r)
                return
            if isinstance(cur, list) and op == '+':
                if self.frames:
                    raise Unsupported('list extension in a symbolic loop')
                cur.extend(self.to_list(r))
                return
            self.setvar(t.id, self.binop(op, cur, r), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            r = self.eval(s.value, env)
            if isinstance(cur, Arr):
                self.np.inplace(self, cur, op, r)
                self.setattr(o, t.attr, cur)
                return
            self.setattr(o, t.attr, self.binop(op, cur, r))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            cur = self.getitem(o, i)
            r = self.eval(s.value, env)
            if isinstance(cur, Arr):
                self.np.inplace(self, cur, op, r)
            else:
                self.setitem(o, i, self.binop(op, cur, r))
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                vs = self.to_list(v)
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - after], env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:] if after else []):
                    self.assign(e, x, env)
                return
            vs = self.to_list(v)
            if len(vs) != len(t.elts):
                raise PyExc('ValueError', 'unpack')
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def setvar(self, name, v, env):
        if name in env.globals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal')
        env.vars[name] = v

    def to_list(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Arr):
            n = v.shape[0]
            if isz(n):
                raise Unsupported('unpack of symbolic-length array')
            return [self.np.index(self, v, (i,)) for i in range(n)]
        if isinstance(v, (set, frozenset)):
            return sorted(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymIter):
            if not isz(v.length):
                return [v.elem(i) for i in range(v.length)]
        if isinstance(v, Obj):
            it = self.class_attr(v.cls, '__iter__')
            if it is not None:
                return self.to_list(self.call(it, [v], {}))
        raise Unsupported('to_list of %r' % (v,))

    # ------------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if v is POISON:
                    raise Unsupported('undefined attribute %s' % name)
                return v
            if name == '__dict__':
                return dict(o.attrs)
            if name == '__class__':
                return o.cls
            a = self.class_attr(o.cls, name)
            if a is None:
                raise PyExc('AttributeError', "%s has no attribute '%s'" % (o, name))
            if isinstance(a, Prop):
                return self.call(a.fn, [o], {})
            if isinstance(a, FuncVal):
                return Bound(a, o)
            if isinstance(a, tuple) and a and a[0] == 'static':
                return a[1]
            return a
        if isinstance(o, (ModuleVal, ExtModule)):
            v = self.mod_attr(o, name)
            if v is POISON:
                raise PyExc('AttributeError', "module %s has no attribute '%s'" % (o, name))
            return v
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            a = self.class_attr(o, name)
            if a is None:
                raise PyExc('AttributeError', name)
            return a
        if isinstance(o, FuncVal):
            if name == '__name__':
                return o.node.name
            if name == 'py_func':
                return o
            ns = self.fn_ns(o)
            if ns is None:
                raise Unsupported('function attribute ' + name)
            if name not in ns.attrs:
                raise PyExc('AttributeError', "function has no attribute '%s'" % name)
            return self.getattr(ns, name)
        if o is None:
            raise PyExc('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        return self.np.attr(self, o, name)

    def fn_ns(self, f):
        """attributes of a function created by the code under verification (those of module functions outlive a call: unsupported)"""
        if '<locals>' not in f.qual:
            return None
        if getattr(f, 'ns', None) is None:
            base = 'fn %s' % f.qual
            n = self.cnt.get(base, 0)
            self.cnt[base] = n + 1
            f.ns = Obj(ClassVal('function', [], {}, f.module), {}, '%s#%d' % (f.qual, n))
            f.ns.serial = getattr(f, 'serial', self.serial)
            self.objs[f.ns.oid] = f.ns
        return f.ns

    def setattr(self, o, name, v):
        if isinstance(o, FuncVal):
            o = self.fn_ns(o) or o
        if not isinstance(o, Obj):
            raise Unsupported('attribute assignment on %r' % (o,))
        a = self.class_attr(o.cls, name)
        if isinstance(a, Prop):
            raise PyExc('AttributeError', "can't set attribute")
        for h in getattr(o, 'sethooks', ()):
            h(self, o, name, v)
        o.attrs[name] = v
        self.writes += 1
        self.note_write(('attr', o.oid, name), getattr(o, 'serial', 0))

    def getitem(self, o, i):
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, slice):
                return o[i]
            c = conc(i)
            if c is not None:
                try:
                    return o[int(c)]
                except IndexError:
                    raise PyExc('IndexError')
            if isinstance(i, SV) and all(isnum(x) for x in o) and len(o) <= 64:
                t = z_int(i)
                n = len(o)
                self.prove(z3.And(t >= -n, t < n), 'index-bounds:list')
                r = o[-1]
                for j in range(n - 2, -1, -1):
                    r = self.merge(z3.Or(t == j, t == j - n), o[j], r)
                return r
            if isinstance(i, SV):
                n = len(o)
                t = z_int(i)
                for j in range(n):
                    if self.branch(z3.Or(t == j, t == j - n)):
                        return o[j]
                raise PyExc('IndexError')
            raise PyExc('TypeError', 'list index')
        if isinstance(o, dict):
            if isinstance(i, (SV, Arr, SymStr)):
                raise Unsupported('symbolic dict key')
            if i in o:
                return o[i]
            raise PyExc('KeyError', str(i))
        if isinstance(o, Arr):
            return self.np.index(self, o, i if isinstance(i, tuple) else (i,))
        if isinstance(o, Seq):
            if o.guard is None and not isinstance(i, (slice, tuple)):
                t = z_int(i)
                n = z_int(o.length)
                self.prove(z3.And(t >= 0, t < n), 'index-bounds:seq')
                return o.elem(t)
            if o.guard is None and isinstance(i, slice):
                return self.part_of(o, i)
            raise Unsupported('subscript of lazy sequence')
        if isinstance(o, SymIter):
            if isinstance(i, slice) and o.islist:
                return self.part_of(o, i)
            if not isinstance(i, (slice, tuple)):
                t, n = z_int(i), z_int(o.length)
                self.prove(z3.And(t >= 0, t < n), 'index-bounds:range')
                return o.elem(t)
        if isinstance(o, Obj):
            g = self.class_attr(o.cls, '__getitem__')
            if g:
                return self.call(g, [o, i], {})
            if hasattr(o, 'getitem'):
                return o.getitem(self, i)
        raise Unsupported('subscript of %r' % (o,))

    def part_of(self, o, i):
        """o[i] for a slice of a list of symbolic length"""
        n = z_int(o.length)
        lo = z3.IntVal(0) if i.start is None else z_int(i.start)
        hi = n if i.stop is None else z_int(i.stop)
        if i.step is not None or not self.valid(z3.And(lo >= 0, lo <= hi, hi <= n)):
            raise Unsupported('slice of a list of symbolic length')
        return Seq(z3.simplify(hi - lo), lambda j: o.elem(z3.simplify(z_int(j) + lo)), part=(o, lo, hi))

    def setitem(self, o, i, v):
        if isinstance(o, list):
            c = conc(i)
            if c is None or isinstance(i, slice):
                raise Unsupported('list store with symbolic index')
            o[int(c)] = v
            if self.frames:
                raise Unsupported('list store inside a symbolic loop')
            return
        if isinstance(o, dict):
            o[i] = v
            if self.frames:
                raise Unsupported('dict store inside a symbolic loop')
            return
        if isinstance(o, Arr):
            return self.np.set_index(self, o, i if isinstance(i, tuple) else (i,), v)
        raise Unsupported('item assignment on %r' % (o,))

    def merge(self, c, a, b):
        """if-then-else of two scalar values"""
        c = simp(c) if isz(c) else c
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if isnum(a) and isnum(b):
            ka, kb = kind(a), kind(b)
            if ka == kb:
                k = ka
            elif ka in BOOLK and kb in BOOLK:
                k = 'bool' if 'bool' in (ka, kb) else 'b1'
            else:
                k = promote(ka, kb)
            la, ha = self.bounds(a)
            lb, hb = self.bounds(b)
            lo = min(la, lb) if None not in (la, lb) else None
            hi = max(ha, hb) if None not in (ha, hb) else None
            if k in BOOLK:
                return SV(simp(z3.If(c, z_bool(a), z_bool(b))), k)
            if k in FLK:
                return SV(z3.If(c, z_real(a), z_real(b)), k)
            return SV(simp(z3.If(c, z_int(a), z_int(b))), k, lo, hi, self.isnz(a) and self.isnz(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if type(a) == type(b) and isinstance(a, str) and a == b:
            return a
        raise Unsupported('merge of %r and %r' % (a, b))

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, env)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is POISON:
                    raise Unsupported('value of %s not defined after loop cut' % name)
                return v
            e = e.parent
        v = self.mod_attr(env.module, name)
        if v is not POISON:
            return v
        return self.np.builtin(self, name)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def ex_Tuple(self, e, env):
        return tuple(self.eval_elts(e.elts, env))

    def ex_List(self, e, env):
        return self.eval_elts(e.elts, env)

    def ex_Set(self, e, env):
        return set(self.eval_elts(e.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Dict(self, e, env):
        return {self.eval(k, env): self.eval(v, env) for k, v in zip(e.keys, e.values)}

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    return SymStr()
        return ''.join(parts)

    def ex_Lambda(self, e, env):
        node = e
        f = FuncVal(node, env.module, env, (self.fnstack[-1].qual if self.fnstack else '') + '.<lambda>')
        f.defaults = [self.eval(d, env) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(self.OPS[type(e.op)], a, b, e)

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return SV(simp(z3.Not(t)), 'bool') if isz(t) else not t
        return self.invert(v)

    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
           ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        if len(e.ops) == 1:
            return self.compare(self.CMP[type(e.ops[0])], left, self.eval(e.comparators[0], env))
        acc = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(self.CMP[type(op)], left, right)
            if isinstance(r, (Arr, Seq)):
                raise Unsupported('chained array comparison')
            acc = r if acc is None else self.conj(acc, r)
            left = right
        return acc

    def conj(self, a, b):
        ta, tb = self.truth(a), self.truth(b)
        r = simp(z3.And(z_bool(ta), z_bool(tb)))
        return r if isinstance(r, bool) else SV(r, 'bool' if kind(a) == 'bool' and kind(b) == 'bool' else 'b1')

    PURE = (ast.Compare, ast.Subscript, ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Tuple, ast.Load,
            ast.Attribute, ast.cmpop, ast.operator, ast.unaryop, ast.boolop, ast.Slice, ast.Index if hasattr(ast, 'Index') else ast.Slice)

    def is_pure(self, e):
        return all(isinstance(n, self.PURE) for n in ast.walk(e))

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], env)
        for nxt in e.values[1:]:
            t = self.truth(v)
            if not isz(t):
                if bool(t) != isand:
                    return v
                v = self.eval(nxt, env)
                continue
            if isinstance(v, SV) and v.k in BOOLK and self.is_pure(nxt):
                # short circuit without forking: the right operand is evaluated under the left condition
                self.push()
                self.assume(t if isand else z3.Not(t))
                try:
                    w = self.eval(nxt, env)
                    tw = self.truth(w)
                finally:
                    self.pop()
                if isinstance(w, (bool,)) or (isinstance(w, SV) and w.k in BOOLK):
                    r = simp(z3.And(t, z_bool(tw)) if isand else z3.Or(t, z_bool(tw)))
                    k = 'bool' if (v.k == 'bool' and kind(w) == 'bool') else 'b1'
                    v = r if isinstance(r, bool) and k == 'bool' else SV(r, k)
                    continue
            if self.branch(t) != isand:
                return v
            v = self.eval(nxt, env)
        return v

    def ex_IfExp(self, e, env):
        t = self.truth(self.eval(e.test, env))
        if not isz(t):
            return self.eval(e.body if t else e.orelse, env)
        if self.is_pure(e.body) and self.is_pure(e.orelse):
            self.push()
            self.assume(t)
            a = self.eval(e.body, env)
            self.pop()
            self.push()
            self.assume(z3.Not(t))
            b = self.eval(e.orelse, env)
            self.pop()
            try:
                return self.merge(t, a, b)
            except Unsupported:
                pass
        return self.eval(e.body if self.branch(t) else e.orelse, env)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.to_list(self.eval(x.value, env)))
                else:
                    out.append(self.eval_index(x, env))
            return tuple(out)
        return self.eval(s, env)

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            try:
                f = self.lookup('print', env)
            except PyExc:
                f = None
            if isinstance(f, Intrinsic) and f.name == 'builtins.print':
                return None      # diagnostics are dropped, arguments included
        r = self.list_op(e, env)
        if r is not None:
            return r[0]
        f = self.eval(e.func, env)
        if isinstance(f, Intrinsic) and f.name in ('builtins.any', 'builtins.all') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            r = self.lazy(f.name == 'builtins.all', e.args[0], env)
            if r is not None:
                return r
        elif isinstance(f, FuncVal) and any(self.is_iterator(a) for a in e.args):
            for a, p in zip(e.args, f.node.args.args):
                if self.is_iterator(a):
                    self.once(ast.copy_location(ast.Name(p.arg, ast.Load()), a), f.node, f.node)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.eval(a.value, env)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.eval(a, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, e)

    def lazy(self, isall, e, env):
        """any / all stop at the first element that decides: elements with effects are evaluated one by one"""
        key = (env.module.name, e.lineno, e.col_offset)
        if key not in self.lazies:
            w = self.writes
            r = self.ex_GeneratorExp(e, env)
            if self.writes != w and len(r) > 1 if isinstance(r, list) else self.writes != w:
                self.lazies.add(key)
                self.changed = True
            return self.np.HANDLERS['builtins.all' if isall else 'builtins.any'](self, [r], {})
        if len(e.generators) != 1:
            raise Unsupported('elements with effects in any / all')
        g = e.generators[0]
        it = self.iterate(self.eval(g.iter, env))
        if not isinstance(it, list):
            raise Unsupported('elements with effects in any / all')
        cenv = Env(env, env.module)
        for x in it:
            self.assign(g.target, x, cenv)
            if not all(self.branch(self.truth(self.eval(c, cenv))) for c in g.ifs):
                continue
            if self.branch(self.truth(self.eval(e.elt, cenv))) != isall:
                return not isall
        return isall

    def ex_GeneratorExp(self, e, env):
        return self.comp(e, env, 0, lambda en: self.eval(e.elt, en), e.elt)

    def ex_ListComp(self, e, env):
        return self.comp(e, env, 0, lambda en: self.eval(e.elt, en), e.elt)

    def ex_SetComp(self, e, env):
        return set(self.comp(e, env, 0, lambda en: self.eval(e.elt, en), e.elt))

    def ex_DictComp(self, e, env):
        ps = self.comp(e, env, 0, lambda en: (self.eval(e.key, en), self.eval(e.value, en)), e.value)
        return dict(ps)

    def comp(self, e, env, gi, body, elt):
        g = e.generators[gi]
        cenv = Env(env, env.module)
        src = self.eval(g.iter, env)
        en = self.np.enum_of(self, src) if g.ifs else None
        if en is not None and gi + 1 == len(e.generators):
            return self.comp_enum(g, en, env, body)
        if isinstance(src, self.np.Values) and not g.ifs and gi + 1 == len(e.generators):
            # over the distinct values of an array: good for any() and all() only
            def each(v):
                self.assign(g.target, v, cenv)
                return self.merged(lambda: body(cenv))
            return self.np.Values(self.np.elementwise(self, each, [src.arr]))
        it = self.iterate(src)
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x, cenv)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, cenv))
                    if not self.branch(t):
                        ok = False
                        break
                if not ok:
                    continue
                if gi + 1 < len(e.generators):
                    r = self.comp(e, cenv, gi + 1, body, elt)
                    if not isinstance(r, list):
                        raise Unsupported('nested symbolic comprehension')
                    out.extend(r)
                else:
                    out.append(body(cenv))
            return out
        if not isinstance(it, SymIter):
            raise Unsupported('comprehension over %r' % (it,))
        if gi + 1 < len(e.generators):
            raise Unsupported('nested symbolic comprehension')

        # symbolic range: the element is a function of the index, checked once at a generic index
        env, then = self.frozen(e, env)

        def at(i, what, g=g, it=it, env=env):
            def run():
                return then(run_now)

            def run_now():
                en = Env(env, env.module)
                self.assign(g.target, it.elem(i), en)
                conds = []
                for c in g.ifs:
                    conds.append(z_bool(self.truth(self.eval(c, en))))
                gd = z3.And(*conds) if conds else None
                if what == 'guard':
                    return SV(simp(gd), 'bool')
                if gd is not None:
                    self.assume(gd)
                return body(en)
            return self.merged(run)
        n = z_int(it.length)
        # definedness at a generic index
        i = z3.Int(self.fresh_name('ci'))
        self.push()
        self.assume(z3.And(i >= 0, i < n))
        dec0, pos0 = list(self.dec), self.pos
        try:
            v = at(i, 'elem')
        finally:
            self.pop()
        guard = (lambda i: at(i, 'guard')) if g.ifs else None
        if guard is not None:
            t = self.np.one_out(self, guard, n)
            if t is not None:
                return self.without(n, lambda i: at(i, 'elem'), t)
        return Seq(it.length, lambda i: at(i, 'elem'), guard)

    def without(self, n, elem, t):
        """the list without position t"""
        for f in self.removed:
            f(t)
        r = Seq(z3.simplify(n - 1), lambda i: elem(z3.simplify(z3.If(z_int(i) < t, z_int(i), z_int(i) + 1))))
        r.whole = (n, elem, t)
        return r

    def rebind_list(self, name, env, v):
        """a list of symbolic length is changed in place: nobody else may hold it"""
        e = env
        if name not in e.vars or self.inmerged or name in e.globals:
            raise Unsupported('list of another function changed in place')
        old = e.vars[name]
        seen = set()

        def holds(x):
            if x is old:
                return True
            if isinstance(x, (list, tuple)) and id(x) not in seen:
                seen.add(id(x))
                return any(holds(y) for y in x)
            return isinstance(x, dict) and any(holds(y) for y in x.values())
        for en in list(self.envs) + [env]:
            while en is not None:
                if id(en) not in seen:
                    seen.add(id(en))
                    if any(holds(x) for k, x in en.vars.items() if not (en is e and k == name)):
                        raise Unsupported('list changed in place has two names')
                en = en.parent
        if e.parent is None and e.module is e or any(holds(x) for o in self.objs.values() for x in o.attrs.values()):
            raise Unsupported('shared list changed in place')
        e.vars[name] = v

    def list_op(self, e, env):
        """x.pop(...) / x.append(...) for a list of symbolic length (or one that grows in a symbolic loop): (value,) or None"""
        f = e.func
        if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in ('pop', 'append', 'remove') and not e.keywords):
            return None
        try:
            x = self.lookup(f.value.id, env)
        except (PyExc, Unsupported):
            return None
        if not (isinstance(x, Seq) or isinstance(x, SymIter) and x.islist):
            return None
        args = [self.eval(a, env) for a in e.args]
        n = z_int(x.length)
        if getattr(x, 'guard', None) is not None:
            raise Unsupported('filtered list changed in place')
        if f.attr == 'append':
            self.rebind_list(f.value.id, env, self.concat(x if isinstance(x, Seq) else Seq(x.length, x.elem), [args[0]]))
            return None,
        if f.attr == 'remove':
            t = self.np.one_out(self, lambda i: SV(z3.Not(z_bool(self.compare('==', x.elem(i), args[0]))), 'bool'), n)
            if t is None:
                raise Unsupported('list.remove')
            self.rebind_list(f.value.id, env, self.without(n, x.elem, t))
            return None,
        t = z_int(args[0]) if args else z3.simplify(n - 1)
        self.prove(z3.And(t >= 0, t < n), 'index-bounds:pop')
        v = x.elem(t)
        self.rebind_list(f.value.id, env, self.without(n, x.elem, t))
        return v,

    def frozen(self, e, env):
        """the variables and the heap at this point: elements of lists are evaluated when they are needed"""
        cap = Env(env, env.module) if env is not None else None
        for x in ast.walk(e) if e is not None else ():
            if isinstance(x, ast.NamedExpr):
                return env, lambda run: run()
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                en = env
                while en is not None:
                    if x.id in en.vars:
                        if en.parent is not None or en.module is not en:
                            v = en.vars[x.id]
                            cap.vars[x.id] = list(v) if type(v) is list else v
                        break
                    en = en.parent
        state = {'w': self.writes, 'diff': None, 'at': self.writes}
        bufs = [(b, b.content, b.ver) for b, _ in self.heap.values()]
        attrs = [(o, dict(o.attrs)) for o in self.objs.values()]

        def then(run):
            if self.writes == state['w']:
                return run()
            if state['at'] != self.writes:
                state['at'] = self.writes
                state['diff'] = ([(b, c, v) for b, c, v in bufs if b.content is not c],
                                 [(o, a) for o, a in attrs if any(o.attrs.get(k, POISON) is not x for k, x in a.items()) or len(a) != len(o.attrs)])
            db, da = state['diff']
            if not db and not da:
                return run()
            nb = [(b, b.content, b.ver) for b, _, _ in db]
            na = [(o, o.attrs) for o, _ in da]
            w = self.writes
            for b, c, v in db:
                b.content, b.ver = c, v
            for o, a in da:
                o.attrs = dict(a)
            self.writes = state['w']
            try:
                return run()
            finally:
                dirty = any(b.content is not c for b, c, _ in db)
                for b, c, v in nb:
                    b.content, b.ver = c, v
                for o, a in na:
                    o.attrs = a
                self.writes = w if self.writes == state['w'] else max(w, self.writes) + 1
                if dirty:
                    raise Unsupported('list element with side effects')
        return cap, then

    def comp_enum(self, g, en, env, body):
        """[elt for x in (index tuples) if cond]: the list of the selected tuples, in order"""
        def bind(ix):
            en2 = Env(env, env.module)
            self.assign(g.target, tuple(SV(i, 'int') for i in ix), en2)
            return en2

        def cond(ix):
            def run():
                en2 = bind(ix)
                return SV(simp(z3.And(*[z_bool(self.truth(self.eval(c, en2))) for c in g.ifs])), 'bool')
            self.quiet += 1
            try:
                c = z_bool(self.merged(run))
            finally:
                self.quiet -= 1
            return c if en.cond is None else z3.And(en.cond(ix), c)
        # definedness of condition and element at a generic tuple
        ix = [z3.Int(self.fresh_name('ci')) for _ in en.shape]
        self.push()
        self.assume(en.inside(ix))
        if en.cond is not None:
            self.assume(en.cond(ix))
        c = self.merged(lambda: (lambda e2: SV(simp(z3.And(*[z_bool(self.truth(self.eval(c, e2))) for c in g.ifs])), 'bool'))(bind(ix)))
        self.assume(z_bool(c))
        v = self.merged(lambda: body(bind(ix)))
        self.pop()
        same_elt = isinstance(v, tuple) and len(v) == len(ix) and all(isnum(x) and same(x, i) for x, i in zip(v, ix))
        n = self.np.fold_total(self, en.shape, lambda jx: z3.If(cond([z_int(j) for j in jx]), z3.IntVal(1), z3.IntVal(0)), 'count')
        sub = Enum(self, en.shape, cond, n)
        if same_elt:
            return Seq(n, lambda j: tuple(SV(i, 'int', 0) for i in sub.at(j)), None, sub)
        return Seq(n, lambda j: self.merged(lambda: body(bind(sub.at(j)))))

    def merged(self, run):
        self.inmerged += 1
        try:
            return self.merged_paths(run)
        finally:
            self.inmerged -= 1

    def merged_paths(self, run):
        """evaluate a side-effect free computation on all its paths and merge the values"""
        dec, pos, alts, obls, log = self.dec, self.pos, self.alts, self.obls, self.condlog
        rep = self.replaying() or self.quiet
        cnt = dict(self.cnt)
        cmax = dict(cnt)
        stack = [[]]
        res = []
        while stack:
            pre = stack.pop()
            self.dec, self.pos, self.alts = list(pre), 0, []
            self.cnt = dict(cnt)
            self.condlog = []
            if rep:
                self.quiet += 1
            self.push()
            ok = True
            v = None
            try:
                v = run()
            except PyExc:
                if self.s.check() != z3.unsat:
                    raise
                ok = False
            finally:
                conds, alts2 = self.condlog, self.alts
                if rep:
                    self.quiet -= 1
                self.pop()
                for kk, vv in self.cnt.items():
                    cmax[kk] = max(vv, cmax.get(kk, 0))
                self.dec, self.pos, self.alts, self.condlog = dec, pos, alts, log
                self.cnt = dict(cmax)
            stack.extend(alts2)
            if ok:
                res.append((conds, v))
            if len(res) > 64:
                raise Unsupported('too many paths in expression')
        if not res:
            raise PathEnd()
        out = res[-1][1]
        for conds, v in reversed(res[:-1]):
            out = self.merge(z3.And(*conds) if conds else z3.BoolVal(True), v, out)
        return out

    def ex_Starred(self, e, env):
        raise Unsupported('starred')

    def ex_Slice(self, e, env):
        return self.eval_index(e, env)

    # ------------------------------------------------------------------ loops
    def iterate(self, v):
        """python list of values (concrete) or SymIter / NdIter"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (range, set, dict, str)):
            return list(v)
        if isinstance(v, SymIter):
            n = simp(v.length) if isz(v.length) else v.length
            if not isz(n):
                if n <= 200:
                    return [v.elem(i) for i in range(max(n, 0))]
            return v
        if isinstance(v, NdIter):
            if all(not isz(x) for x in v.shape):
                return [v.elem(list(ix)) for ix in itertools.product(*[range(x) for x in v.shape])]
            return v
        if isinstance(v, Arr):
            n = v.shape[0]
            if not isz(n):
                return [self.np.index(self, v, (i,)) for i in range(n)]
            return SymIter(n, lambda i: self.np.index(self, v, (SV(i, 'int'),), checked=True))
        if isinstance(v, Seq):
            if v.guard is None:
                return SymIter(v.length, v.elem)
            raise Unsupported('iteration over filtered sequence')
        if isinstance(v, Obj):
            it = self.class_attr(v.cls, '__iter__')
            if it is not None:
                return self.iterate(self.call(it, [v], {}))
            if hasattr(v, 'iterate'):
                return v.iterate(self)
        raise Unsupported('iteration over %r' % (v,))

    def st_For(self, s, env):
        it = self.iterate(self.eval(s.iter, env))
        if isinstance(it, list):
            broke = False
            for x in it:
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, env)
            return
        from . import loops
        if isinstance(it, NdIter):
            return loops.nd_loop(self, s, env, it)
        if not it.prange and self.collecting(s, env):
            return
        return loops.for_loop(self, s, env, it)

    def collecting(self, s, env):
        """for T in IT: [t = E]... x.append(E)...  is  x += [E for T in IT]"""
        got = self.collect.get(id(s))
        if got is None:
            got = self.collect[id(s)] = (self.collected(s), s)
        if not got[0]:
            return False
        temps, outs, comps = got[0]
        for x in outs:
            v = env.vars.get(x)
            if x in env.globals or not (type(v) is list or isinstance(v, Seq) and v.guard is None):
                return False
        new = [self.eval(c, env) for c in comps]
        for x, v in zip(outs, new):
            if not isinstance(v, (Seq, list)):
                raise Unsupported('list built in a loop')
            self.rebind_list(x, env, self.concat(env.vars[x], v))
        for x in temps:
            env.vars[x] = POISON
        return True

    def collected(self, s):
        if s.orelse or not s.body:
            return None
        bound = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        temps, outs, elts, uses = {}, [], [], {}

        class Sub(ast.NodeTransformer):
            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Load) and n.id in temps:
                    uses[n.id] = uses.get(n.id, 0) + 1
                    return temps[n.id]
                return n
        for st in s.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id not in bound and st.targets[0].id not in temps:
                temps[st.targets[0].id] = Sub().visit(copy.deepcopy(st.value))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'append' \
                    and isinstance(st.value.func.value, ast.Name) and len(st.value.args) == 1 and not st.value.keywords and st.value.func.value.id not in outs:
                outs.append(st.value.func.value.id)
                elts.append(Sub().visit(copy.deepcopy(st.value.args[0])))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            else:
                return None
        if not outs:
            return None
        for x in elts + [s.iter] + list(temps.values()):
            for n in ast.walk(x):
                if isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr, ast.Starred)) or isinstance(n, ast.Name) and n.id in outs:
                    return None
                # nothing is drawn twice
                if isinstance(n, (ast.Attribute, ast.Name)) and 'random' in (n.attr if isinstance(n, ast.Attribute) else n.id):
                    return None
        # names assigned in the body and read before that come from the previous iteration
        order = []
        for st in s.body:
            loads = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            if loads & (set(temps) - set(order)):
                return None
            if isinstance(st, ast.Assign):
                order.append(st.targets[0].id)
        gen = lambda: [ast.comprehension(s.target, s.iter, [], 0)]
        comps = [ast.fix_missing_locations(ast.copy_location(ast.ListComp(x, gen()), s)) for x in elts]
        return sorted(set(temps) | bound), outs, comps

    def st_While(self, s, env):
        from . import loops
        if not self.opts.get('cut_while', True):
            raise Unsupported('while')
        return loops.while_loop(self, s, env)


def simp_keep(t):
    s = z3.simplify(t)
    return s
