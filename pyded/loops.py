"""Loop cuts: inductive invariants chosen by Houdini from templates over the contract's ghost folds."""
import ast
import z3
from .values import *
from .engine import LoopInfo, Cand, Frame, Env, POISON, Obl, Fold


def modvars(body):
    out = set()

    def walk(n, top):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c, False)
    for s in body:
        walk(s, True)
    return out


def eng_flags(eng):
    return eng.flags


def find_env(env, name):
    e = env
    if name in env.globals:
        e = env.parent
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
    return env


REFS = (Arr, Obj, list, tuple, dict, str, type(None))


class Partial:
    """contents known on a part of an array: dom(ix) -> condition, fn(ix) -> value"""

    def __init__(self, dom, fn):
        self.dom, self.fn = dom, fn



def changed_lists(body):
    """names whose lists are changed in place by a method or del"""
    out = set()
    for n in ast.walk(ast.Module(body=body, type_ignores=[])):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ('pop', 'append', 'remove'):
            out.add(n.func.value.id)
        if isinstance(n, ast.Delete):
            out |= {t.value.id for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
    return out


class Cut:
    """one loop cut on the current path"""

    def __init__(self, eng, s, env, kindtag):
        self.eng, self.s, self.env = eng, s, env
        top = eng.loopstack[-1] if eng.loopstack else (None, 0)
        again = top[1] if top[0] == (env.module.name, s.lineno, s.col_offset, eng.ctx) else 0     # loops of an unrolled iteration have their own invariants
        self.key = (env.module.name, s.lineno, s.col_offset, eng.ctx, kindtag, again)
        self.info = eng.loops.setdefault(self.key, LoopInfo())
        self.info.node = s
        self.names = sorted(modvars(s.body) | (modvars([s.target]) if isinstance(s, ast.For) else set()))
        self.targets = modvars([s.target]) if isinstance(s, ast.For) else set()
        self.names = sorted(set(self.names) | {x for x in changed_lists(s.body) if isinstance(env.vars.get(x), (Seq, SymIter))})
        self.entry = {}
        self.bufs = {}
        self.entry_buf = {}
        self.attr0 = {}
        self.attra = {}
        self.clock0 = {tag: eng.clock(loc) for tag, loc in eng.clocks}
        self.heads = {}
        self.lhead = {}
        self.wstep = z3.IntVal(0)     # iterations of a while loop so far
        self.rb = sorted(self.info.rebound)
        for n in self.names:
            e = find_env(env, n)
            self.entry[n] = e.vars.get(n, POISON)

    # -------- arrays rebound to arrays of other sizes
    def rebound(self):
        return [n for n in self.rb if n in self.info.rebound]

    def current(self, n):
        return find_env(self.env, n).vars.get(n, POISON)

    def dim_cands(self):
        """relations between the sizes of rebound arrays, and what their entries are"""
        rb = self.rebound()
        axes = [(n, a) for n in rb for a in range(self.entry[n].ndim)]
        out = []

        def size(n, a):
            v = self.current(n)
            return z_int(v.shape[a]) if isinstance(v, Arr) and v.ndim == self.entry[n].ndim else None

        def eq(x, y):
            def f(_):
                s, t = x(), y()
                return False if s is None or t is None else simp(s == t)
            return f
        for i, (n, a) in enumerate(axes):
            out.append(('x:d:%s:%d:same' % (n, a), 'x', eq(lambda n=n, a=a: size(n, a), lambda n=n, a=a: z_int(self.entry[n].shape[a]))))
            for m, b in axes[:i]:
                out.append(('x:d:%s:%d:%s:%d' % (n, a, m, b), 'x', eq(lambda n=n, a=a: size(n, a), lambda m=m, b=b: size(m, b))))
            for v in self.scalars():
                if self.info.kinds.get(v, kind(self.entry[v])) in INTK:
                    def num(v=v):
                        w = self.current(v)
                        return z_int(w) if isnum(w) and kind(w) in INTK else None
                    out.append(('x:d:%s:%s:%d' % (v, n, a), 'x', eq(num, lambda n=n, a=a: size(n, a))))
        for n in rb:
            out.append(('x:e:%s' % n, 'x', lambda _, n=n: self.domain_of(n)))
        return out

    def domain_of(self, n):
        """the entries satisfy the element invariant of the array before the loop"""
        v, b = self.current(n), self.entry[n].buf
        if not isinstance(v, Arr) or v.k != b.k:
            return False
        if v.buf.lo == b.lo and v.buf.hi == b.hi and v.buf.nz == b.nz:
            return True
        ix = [z3.Int('sk!%s!%d' % (n, a)) for a in range(v.ndim)]
        rng = z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, v.shape)])
        t = z_int(v.buf.content([raw(i) for i in v.bidx(ix)]))
        cs = [t >= b.lo] if b.lo is not None else []
        cs += [t <= b.hi] if b.hi is not None else []
        cs += [t != 0] if b.nz else []
        return z3.Implies(rng, z3.And(*cs))

    def evolves(self, n):
        """contents the contract gives for an array rebound to arrays of the same shape"""
        v0 = self.entry[n]
        return [(ei, fn) for ei, (shp, fn) in enumerate(self.eng.evolving) if len(shp) == v0.ndim and all(same(x, y) for x, y in zip(shp, v0.shape))]

    def content_cands(self, idx):
        t = self.wstep if idx is None else idx
        out = []
        for n in self.rebound():
            for ei, fn in self.evolves(n):
                def f(_, n=n, ei=ei, fn=fn):
                    v = self.current(n)
                    if not isinstance(v, Arr) or v.ndim != self.entry[n].ndim:
                        return False
                    if self.heads.get(n) is v and self.lhead.get(n) == ei:
                        return True
                    ix = [z3.Int('sk!%s!%d' % (n, a)) for a in range(v.ndim)]
                    rng = z3.And(*[z3.And(i >= 0, i < z_int(d)) for i, d in zip(ix, v.shape)])
                    x, y = v.buf.content([raw(i) for i in v.bidx(ix)]), fn(ix, t)
                    x = x if isz(x) else z_any(x)
                    if x.sort() != y.sort():
                        return False
                    return z3.Implies(rng, x == y)
                out.append(('x:u:%s:%d' % (n, ei), 'x', f))
        return out

    def havoc_rebound(self, idx=None):
        eng, info = self.eng, self.info
        step = self.wstep if idx is None else idx
        rb = self.rebound()
        live = {c for c in info.cands if c in self.entry_ids}
        dims = {}
        for n in rb:
            v0 = self.entry[n]
            for a in range(v0.ndim):
                d = None
                if 'x:d:%s:%d:same' % (n, a) in live:
                    d = z_int(v0.shape[a])
                else:
                    for (m, b), t in dims.items():
                        if 'x:d:%s:%d:%s:%d' % (n, a, m, b) in live:
                            d = t
                            break
                if d is None:
                    d = z3.Int(eng.fresh_name('h_%s_d%d' % (n, a)))
                    eng.assume(d >= 0)
                dims[n, a] = d
        for n in rb:
            v0 = self.entry[n]
            b = v0.buf
            shape = [dims[n, a] for a in range(v0.ndim)]
            kw = dict(lo=b.lo, hi=b.hi, nz=b.nz) if 'x:e:' + n in live else {}
            content = self.unknown(b, shape)
            for ei, fn in self.evolves(n):
                if 'x:u:%s:%d' % (n, ei) in live and all('x:d:%s:%d:same' % (n, a) in live for a in range(v0.ndim)):
                    content = lambda i, fn=fn: fn([z_int(x) for x in i], step)
                    self.lhead[n] = ei
                    break
            v = eng.new_arr(shape, b.k, content, n, **kw)
            v.buf.ro = b.ro         # in the first iteration it is that array
            find_env(self.env, n).vars[n] = v
            self.heads[n] = v
        for v in self.scalars():
            for (n, a), t in dims.items():
                if 'x:d:%s:%s:%d' % (v, n, a) in live and v not in self.heads:
                    self.heads[v] = t

    def unknown(self, b, shape):
        nm = self.eng.fresh_name('H_' + b.name)
        rs = z3.BoolSort() if b.k in BOOLK else (z3.RealSort() if b.k in FLK else z3.IntSort())
        if not shape:
            c = z3.Const(nm, rs)
            return lambda i: c
        f = z3.Function(nm, *([z3.IntSort()] * len(shape) + [rs]))
        return lambda i: f(*[z_int(x) for x in i])

    # -------- lists rebound to other lists, with contents given by the contract
    def list_cands(self, idx):
        out = []
        for n in sorted(self.info.listed):
            for tag, ln, fn in self.eng.lists:
                def f(_, n=n, ln=ln, fn=fn):
                    v = self.current(n)
                    if not list_like(v):
                        return False
                    if self.heads.get(n) is v and self.lhead.get(n) == tag:
                        return True
                    eng, t = self.eng, self.wstep if idx is None else idx
                    if not eng.valid(z_int(v.length) == ln(t)):
                        return False
                    i = z3.Int(eng.fresh_name('sk'))
                    eng.push()
                    eng.assume(z3.And(i >= 0, i < z_int(v.length)))
                    eng.quiet += 1
                    try:
                        y = fn(t, i)
                        x = v.elem(i)
                        return bool(isnum(x) and z_any(x).sort() == y.sort() and eng.valid(z_any(x) == y))
                    except Unsupported:
                        return False
                    finally:
                        eng.quiet -= 1
                        eng.pop()
                out.append(('x:l:%s:%s' % (n, tag), 'x', f))
        return out

    def havoc_lists(self, idx):
        eng = self.eng
        idx = self.wstep if idx is None else idx
        live = {c for c in self.info.cands if c in self.entry_ids}
        for n in sorted(self.info.listed):
            for tag, ln, fn in eng.lists:
                if 'x:l:%s:%s' % (n, tag) in live:
                    k = 'i64' if fn(idx, z3.Int('sk!k')).sort() == z3.IntSort() else 'f64'
                    eng.assume(ln(idx) >= 0)
                    v = Seq(z3.simplify(ln(idx)), lambda i, fn=fn, k=k: SV(fn(idx, z_int(i)), k))
                    find_env(self.env, n).vars[n] = v
                    self.heads[n], self.lhead[n] = v, tag
                    break
            else:
                self.info.listed.discard(n)
                self.info.unstable.add(n)
                eng.changed = True

    def end_rebound(self, n, fr):
        """may n be rebound to what it is at the end of the body?"""
        eng = self.eng
        v, v0 = self.current(n), self.entry[n]
        if not (eng.opts.get('rebound') and isinstance(v, Arr) and isinstance(v0, Arr) and v.ndim == v0.ndim and v.k == v0.k and v.buf.einv is None and v0.buf.einv is None):
            return False
        if not v.full():
            return False
        for x, bufs in ((v, [v.buf]), (v0, [v0.buf])):
            for b in bufs:
                if self.shared(n, b):
                    return False
        return True

    def shared(self, n, b):
        e, home = self.env, find_env(self.env, n)
        while e is not None:
            for k, x in e.vars.items():
                if not (e is home and k == n) and self.holds(x, b):
                    return True
            e = e.parent
        return any(m != n and self.holds(x, b) for m, x in self.entry.items())

    def holds(self, v, b):
        return isinstance(v, Arr) and v.buf is b or isinstance(v, (list, tuple)) and any(self.holds(x, b) for x in v)

    def snapshot_heap(self):
        eng = self.eng
        for loc in sorted(self.info.locs, key=str):
            if loc[0] == 'buf' and loc[1] in eng.heap:
                b = eng.heap[loc[1]][0]
                self.bufs[loc[1]] = b
                self.entry_buf[loc[1]] = b.content
            if loc[0] == 'attr' and loc[1] in eng.objs:
                v = eng.objs[loc[1]].attrs.get(loc[2], POISON)
                if v is not POISON and isnum(v):
                    self.attr0[loc] = v
                elif isinstance(v, Arr) and loc in eng.partials:
                    self.attra[loc] = v

    def partial(self, b):
        """what the contract says about the current contents of an array held by an attribute"""
        for loc, mk in self.eng.partials.items():
            o = self.eng.objs.get(loc[1])
            v = o.attrs.get(loc[2]) if o else None
            if isinstance(v, Arr) and v.buf is b and v.full():
                return mk()
        return None

    def attr_rhs(self, loc, v0, idx):
        """candidate values of a number kept in an attribute after idx iterations"""
        k = self.info.kinds.get(loc, kind(v0))
        z = z_int if k in INTK else z_bool if k in BOOLK else z_real
        yield 'same', z(v0)
        if idx is not None and k in INTK:
            yield '+i', z(v0) + idx
            yield '-i', z(v0) - idx
        tm = self.eng.timed.get(loc)
        if tm is not None and idx is not None:
            yield 'timed', z3.If(idx == 0, z(v0), z(tm(idx)))

    # -------- candidates
    def scalars(self):
        out = []
        for n in self.names:
            if n in self.targets:
                continue
            v = self.entry[n]
            if isnum(v):
                out.append(n)
        return out

    def cands(self, cur, idx):
        """(id, formula, def) list of all template candidates for current values at iteration index idx"""
        eng = self.eng
        out = []
        for n in self.scalars():
            v0 = self.entry[n]
            k = self.info.kinds.get(n, kind(v0))
            for cid, rhs in self.scalar_rhs(n, v0, k, idx):
                out.append(('v:%s:%s' % (n, cid), n, rhs))
            for cid, f in self.scalar_facts(n, v0, k, idx):
                out.append(('f:%s:%s' % (n, cid), (n,), f))
        for cid, f in self.fold_facts(idx):
            out.append(('f::' + cid, (), f))
        if self.rb:
            out.extend(self.dim_cands())
            out.extend(self.content_cands(idx))
        if self.info.listed:
            out.extend(self.list_cands(idx))
        taint = self.tainted()
        for bid, b in self.bufs.items():
            if bid in taint:
                continue
            for cid, content in self.buf_defs(b, idx):
                out.append(('b:%s:%s' % (bid, cid), ('buf', bid), content))
        for loc, v0 in self.attr0.items():
            for cid, rhs in self.attr_rhs(loc, v0, idx):
                out.append(('a:%s:%s:%s' % (loc[1], loc[2], cid), loc, rhs))
        for loc in self.attra:
            out.append(('p:%s:%s' % (loc[1], loc[2]), loc, None))
        for cid, f in eng.extra_cands:
            out.append(('x:' + cid, 'x', f))
        if eng.lstate is not None:
            for cid, f in eng.lstate.cands(self):
                out.append(('x:' + cid, 'x', f))
        return out

    def tainted(self):
        """arrays before the loop of variables rebound in it: written through the variable or not, nothing is known of them"""
        return {self.entry[n].buf.id for n in self.rebound() if not self.entry[n].buf.ro}

    def scalar_rhs(self, n, v0, k, idx):
        eng = self.eng
        if k in INTK:
            z0 = z_int(v0)
            yield 'same', z0
            for tag, d in self.deltas(idx, False):
                if z3.is_int(d):
                    yield '+' + tag, z0 + d
                    yield '-' + tag, z0 - d
                    if d in self.countlike:
                        yield 'min1' + tag, z0 + z3.If(d >= 1, 1, 0)
                        yield 'min2' + tag, z0 + z3.If(d >= 2, 2, z3.If(d >= 1, 1, 0))
                        if not isz(raw(v0)) and raw(v0) in (1, -1):
                            yield 'pm' + tag, z3.If(d >= 1, -z0, z0)
                        yield 'has' + tag, z3.If(d >= 1, z3.IntVal(1), z3.IntVal(-1))
                        yield 'hasnt' + tag, z3.If(d >= 1, z3.IntVal(-1), z3.IntVal(1))
            if idx is not None:
                yield '+i', z0 + idx
                yield '-i', z0 - idx
            for tag, loc in eng.clocks:
                d = z3.simplify(eng.clock(loc) - self.clock0[tag])
                yield '+c' + tag, z0 + d
                yield '-c' + tag, z0 - d
        elif k in BOOLK:
            z0 = z_bool(v0)
            yield 'same', z0
            for tag, a, b, e in self.searches(idx):
                yield 'or' + tag, z3.Or(z0, a < e)
                yield 'and' + tag, z3.And(z0, a >= e)
            for tag, d in self.deltas(idx, False):
                if z3.is_int(d) and d in self.countlike:
                    yield 'or' + tag, z3.Or(z0, d >= 1)
                    yield 'and' + tag, z3.And(z0, d == 0)
                    yield 'or2' + tag, z3.Or(z0, d >= 2)
                    yield 'and2' + tag, z3.And(z0, d < 2)
                    yield 'eq1' + tag, d == 1
        else:
            z0 = z_real(v0)
            yield 'same', z0
            for tag, d in self.deltas(idx, True):
                if z3.is_real(d):
                    yield tag, d
                    if not z3.is_rational_value(z0):
                        yield '*' + tag, z0 * d
            for tag, d in self.deltas(idx, False):
                yield '+' + tag, z0 + (z3.ToReal(d) if z3.is_int(d) else d)
                yield '-' + tag, z0 - (z3.ToReal(d) if z3.is_int(d) else d)

    def scalar_facts(self, n, v0, k, idx):
        if k in INTK:
            yield 'ge0', lambda v: z_int(v) >= 0
            yield 'ge', lambda v: z_int(v) >= z_int(v0)
            yield 'le', lambda v: z_int(v) <= z_int(v0)
            yield 'le1', lambda v: z_int(v) <= 1
            if idx is not None:
                yield 'lei', lambda v: z_int(v) <= z_int(v0) + idx
            for b in self.eng.opts.get('bounds', lambda e: [])(self.eng):
                yield 'leb%s' % b, lambda v, b=b: z_int(v) <= b
                yield 'ltb%s' % b, lambda v, b=b: z_int(v) < b
        elif k in FLK:
            yield 'ge0', lambda v: z_real(v) >= 0
            yield 'le1', lambda v: z_real(v) <= 1
        elif k in BOOLK:
            for tag, fn in eng_flags(self.eng):
                yield 'if' + tag, lambda v, fn=fn: z3.Implies(z_bool(v), fn())
                yield 'not' + tag, lambda v, fn=fn: z3.Implies(z3.Not(z_bool(v)), z3.Not(fn()))
                yield 'nif' + tag, lambda v, fn=fn: z3.Implies(z3.Not(z_bool(v)), fn())
                yield 'nnot' + tag, lambda v, fn=fn: z3.Implies(z_bool(v), z3.Not(fn()))

    def searches(self, idx):
        """(tag, first position at or after the loop's start, current position) of every search fold"""
        for pos_tag, e, e0 in self.positions(idx):
            for f in self.fs:
                if f.kind == 'first':
                    for pi, p in enumerate(self.params(f)):
                        yield '%s%s.%d' % (pos_tag, f.name, pi), f(*p, e0), f(*p, e), e

    def fold_facts(self, idx):
        for tag, a, b, e in self.searches(idx):
            yield 'n' + tag, a == b         # nothing found so far
        for tag, d in self.deltas(idx, False):
            if z3.is_int(d) and d in self.countlike:
                yield 'z' + tag, d == 0
                yield 'o' + tag, d <= 1

    def matching(self):
        eng = self.eng
        fs = [f for f in eng.folds if self.matches(f)]
        if not fs:
            fs = list(eng.folds)
        return fs

    def deltas(self, idx, prods):
        eng = self.eng
        out = []
        if not hasattr(self, 'countlike'):
            self.countlike = DSet()
        for pos_tag, e, e0 in self.positions(idx):
            for f in self.fs:
                for pi, p in enumerate(self.params(f)):
                    a, b = f(*p, e), f(*p, e0)
                    tag = '%s%s.%d' % (pos_tag, f.name, pi)
                    if f.kind == 'first':
                        continue
                    if f.kind == 'lin':
                        if prods:
                            out.append((tag, a))
                        continue
                    if f.kind == 'prod':
                        if prods:
                            out.append((tag, a))
                            if e0 is not None and not same(e0, 0):
                                out.append((tag + 'q', a))
                        continue
                    d = z3.simplify(a - b)
                    if self.desc:
                        d = z3.simplify(b - a)
                    if f.kind == 'count':
                        self.countlike.add(d)
                    if prods:
                        continue
                    out.append((tag, d))
        return out

    def params(self, f):
        eng = self.eng
        sv = eng.active
        act = [x for x in sv if x is not self.mine]
        eng.active = act
        try:
            return eng.param_insts(f)
        finally:
            eng.active = sv

    mine = None
    desc = False
    sc = None
    keep = {}
    entry_ids = None
    assumed_ids = None
    bdefs = None

    def buf_defs(self, b, idx):
        """candidate contents of a written buffer: untouched, or the contract's target on a prefix of the iteration space"""
        eng = self.eng
        c0 = self.entry_buf[b.id]
        yield 'same', c0
        tm = eng.timed.get(('buf', b.id))
        if tm is not None and idx is not None:
            yield 'timed', lambda i: eng.ite(idx == 0, c0(i), tm(i, idx))
        pt = self.partial(b)
        if pt is not None:
            yield 'part', pt
        for ai, (shp, fold) in enumerate(eng.accs):
            # an array of accumulators, one per entry
            if b.k not in FLK or len(shp) != len(b.shape) or not all(same(x, y) for x, y in zip(shp, b.shape)) or not self.matches(fold):
                continue
            for tag, e, e0 in self.positions(idx):
                def acc(i, e=e, e0=e0, fold=fold):
                    eng.inst(fold, i, z3.simplify(e - 1))
                    eng.inst(fold, i, e)
                    return z_real(c0(i)) + fold(*i, e) - fold(*i, e0)
                yield 'acc%s%d' % (tag, ai), acc
        for ei, (shp, fn) in enumerate(eng.evolving):
            # contents given by the contract for every number of iterations
            if len(shp) == len(b.shape) and all(same(x, y) for x, y in zip(shp, b.shape)):
                yield 'ev%d' % ei, lambda i, fn=fn, t=self.wstep if idx is None else idx: fn(i, t)
        if self.sc is not None and idx is not None and len(b.shape) == self.sc.nd:
            for v in ((False, True) if b.k in BOOLK else (0, 1)):
                t = z3.BoolVal(v) if b.k in BOOLK else z3.RealVal(v) if b.k in FLK else z3.IntVal(v)
                yield 'sc%d' % v, lambda i, t=t: eng.ite(self.sc(i, idx), t, c0(i))
        yield from self.triangles(b, idx, c0)
        if not b.target:
            return
        for ax in range(len(b.shape)):
            for tag, e, e0 in self.positions(idx):
                if self.n is not None and not same(b.shape[ax], self.n) and not same(b.shape[ax], self.stop):
                    continue
                opts = [[]]
                for a2 in range(len(b.shape)):
                    if a2 == ax:
                        continue
                    ch = [None] + [t for (t, n) in eng.active if n is not None and same(n, b.shape[a2]) and not same(t, e)]
                    opts = [o + [(a2, c)] for o in opts for c in ch]
                for oi, pins in enumerate(opts):
                    for ti, tg in enumerate(eng.target_insts(b, self.mine[:1] if self.mine else ())):
                        def content(i, ax=ax, e=e, e0=e0, pins=pins, tg=tg):
                            x = z_int(i[ax])
                            cs = [x < e, x >= e0] if not self.desc else [x >= e, x < e0]
                            for a2, c in pins:
                                if c is not None:
                                    cs.append(z_int(i[a2]) == z_int(c))
                            return eng.ite(z3.And(*cs), tg(i), c0(i))
                        yield '%s%d.%d.%d' % (tag, ax, oi, ti), content

    def triangles(self, b, idx, c0):
        """pairs of axes filled symmetrically: all entries with both positions below the loop index, or one row and column"""
        eng = self.eng
        if not b.target or idx is None or self.desc:
            return
        for a1 in range(len(b.shape)):
            for a2 in range(a1 + 1, len(b.shape)):
                if not same(b.shape[a1], b.shape[a2]):
                    continue
                for tag, e, e0 in self.positions(idx):
                    if not same(e0, 0):
                        continue
                    conds = []
                    if self.n is not None and same(self.n, b.shape[a1]):
                        conds.append(('t', lambda i, e=e, a1=a1, a2=a2: z3.And(z_int(i[a1]) < e, z_int(i[a2]) < e)))
                    for k, (t, n) in enumerate(eng.active):
                        if n is not None and same(n, b.shape[a1]) and not same(t, e):
                            conds.append(('r%d' % k, lambda i, e=e, t=t, a1=a1, a2=a2: z3.Or(z3.And(z_int(i[a1]) == t, z_int(i[a2]) < e), z3.And(z_int(i[a2]) == t, z_int(i[a1]) < e))))
                    for ct, cond in conds:
                        for ti, tg in enumerate(eng.target_insts(b, self.mine[:1] if self.mine else ())):
                            yield 'tri%s%s%d.%d.%d' % (tag, ct, a1, a2, ti), lambda i, cond=cond, tg=tg: eng.ite(cond(i), tg(i), c0(i))

    # -------- evaluation of candidates on current state
    def formula(self, c):
        cid, what, f = c
        if cid[0] == 'v':
            v = find_env(self.env, what).vars.get(what, POISON)
            if v is POISON or not isnum(v):
                return False
            k = self.info.kinds.get(what, kind(self.entry[what]))
            if k in BOOLK:
                return z_bool(v) == f
            if k in FLK:
                return z_real(v) == z_real(f)
            if kind(v) in FLK:
                return z_real(v) == z_real(f)
            return z_int(v) == f
        if cid[0] == 'f':
            if what:
                v = find_env(self.env, what[0]).vars.get(what[0], POISON)
                if v is POISON or not isnum(v):
                    return False
                try:
                    return f(v)
                except Unsupported:
                    return False
            return f
        if cid[0] == 'a':
            o = self.eng.objs.get(what[1])
            v = o.attrs.get(what[2], POISON) if o else POISON
            if v is POISON or not isnum(v):
                return False
            k = self.info.kinds.get(what, kind(self.attr0[what]))
            return (z_int if k in INTK and kind(v) in INTK else z_bool if k in BOOLK and kind(v) in BOOLK else z_real)(v) == f
        if cid[0] == 'b':
            b = self.bufs[what[1]]
            ix = [z3.Int('sk!%s!%d' % (what[1], a)) for a in range(len(b.shape))]
            dom = z3.BoolVal(True)
            if isinstance(f, Partial):
                dom, f = f.dom(ix), f.fn
            x, y = b.content(ix), f(ix)
            x, y = (x if isz(x) else z_any(x)), (y if isz(y) else z_any(y))
            if x.sort() != y.sort():
                if z3.is_bool(x) or z3.is_bool(y):
                    x, y = z_int(x), z_int(y)
                else:
                    x, y = z_real(x), z_real(y)
            rng = z3.And(*[z3.And(i >= 0, i < z_int(s)) for i, s in zip(ix, b.shape)])
            return z3.Implies(z3.And(rng, dom), x == y)
        if cid[0] == 'p':
            o = self.eng.objs.get(what[1])
            v = o.attrs.get(what[2], POISON) if o else POISON
            if not isinstance(v, Arr):
                return False
            pt = self.eng.partials[what]()
            ix = [z3.Int('sk!%s!%s!%d' % (what[1], what[2], a)) for a in range(v.ndim)]
            rng = z3.And(*[z3.And(i >= 0, i < z_int(s)) for i, s in zip(ix, v.shape)])
            return z3.Implies(z3.And(rng, pt.dom(ix)), z_any(self.eng.read(v, ix)) == pt.fn(ix))
        return f(self.eng)

    def alive(self, cs):
        info = self.info
        out = []
        for c in cs:
            if c[0] not in info.seen:
                info.seen.add(c[0])
                info.cands[c[0]] = True
                info.fresh = True
            if c[0] in info.cands:
                out.append(c)
        return out

    def check(self, cs):
        """drop candidates that are not implied by the current path state"""
        eng = self.eng
        if self.entry_ids is None:
            self.entry_ids = {c[0] for c in cs}
        elif self.assumed_ids is not None:
            # assumed at the head but no longer expressible at the end of the body: not shown inductive
            ids = {c[0] for c in cs}
            for i in self.assumed_ids - ids:
                self.drop((i,))
        if eng.replaying():
            return
        fs = []
        for c in cs:
            if c[0][0] == 'b' and self.bdefs is not None and c[0] not in self.bdefs:
                continue        # not assumed at the head (another content was): judged once that one is dropped
            f = self.formula(c)
            if isz(f):
                f = simp(f)
            if f is True:
                continue
            if f is False:
                if eng.feasible():
                    self.drop(c)
                continue
            fs.append((c, f))
        while fs:
            r = eng.check(z3.Not(z3.And(*[f for _, f in fs])))
            if r == z3.unsat:
                return
            if r == z3.sat:
                m = eng.last_model
                keep = []
                for c, f in fs:
                    if z3.is_false(m.eval(f, model_completion=True)):
                        self.drop(c)
                    else:
                        keep.append((c, f))
                if len(keep) == len(fs):
                    r = z3.unknown
                else:
                    fs = keep
            if r == z3.unknown:
                for c, f in fs:
                    if eng.check(z3.Not(f)) != z3.unsat:
                        self.drop(c)
                return

    def drop(self, c):
        if c[0] not in self.info.cands:
            return
        if c[0][0] == 'b' and self.assumed_ids is not None:
            # judged under one choice of content per inner loop: the innermost failing choice is dropped first
            self.eng.bdrops.append((-self.key[4], len(self.eng.bdrops), self.info, c[0]))
        elif self.eng.multi:
            self.eng.sdrops.append((self.info, c[0]))
        else:
            del self.info.cands[c[0]]
        self.eng.changed = True

    # -------- havoc
    def havoc(self, idx):
        eng, info = self.eng, self.info
        # only candidates established at the loop entry of this very cut may be assumed
        def current():
            cs = [c for c in self.alive(self.cands(None, idx)) if c[0] in self.entry_ids]
            defs = {}
            for c in cs:
                if c[0][0] in 'vab' and c[1] not in defs:
                    defs[c[1]] = c
            return cs, defs

        def havoc_attr(loc):
            o = eng.objs.get(loc[1])
            if o is None:
                return
            v = o.attrs.get(loc[2], POISON)
            if isnum(v) and loc in defs:
                t = simp(defs[loc][2])
                k = info.kinds.get(loc, kind(v))
                o.attrs[loc[2]] = t if not isz(t) and k in PYK else SV(t, k)
                if k in INTR and k != 'i64' and isz(t):
                    eng.assume(z3.And(t >= INTR[k][0], t <= INTR[k][1]))
            elif isnum(v):
                o.attrs[loc[2]] = eng.fresh('h_' + loc[2], info.kinds.get(loc, kind(v)))
            elif loc in self.attra and loc not in info.unstable:
                pass
            else:
                o.attrs[loc[2]] = POISON
        clocks = [loc for _, loc in eng.clocks if loc in info.locs]
        if clocks:
            cs, defs = current()
            for loc in clocks:
                havoc_attr(loc)
        if self.rb:
            self.havoc_rebound(idx)
        if self.info.listed:
            self.havoc_lists(idx)
        cs, defs = current()
        self.assumed_ids = {c[0] for c in cs}
        self.bdefs = {c[0] for k, c in defs.items() if c[0][0] == 'b'}
        if len([c for c in cs if c[0][0] == 'b']) > len(self.bdefs):
            eng.multi = True
        for n in self.names:
            e = find_env(self.env, n)
            v0 = self.entry[n]
            if n in self.keep:
                e.vars[n] = self.keep[n]
                continue
            if n in self.rb and n in info.rebound or n in info.listed:
                continue
            if n in self.heads and n not in defs:
                e.vars[n] = SV(self.heads[n], info.kinds.get(n, kind(v0)))
                continue
            if n in self.targets or not isnum(v0):
                e.vars[n] = POISON if n in self.targets or not self.unchanged_ref(n) else v0
                continue
            k = info.kinds.get(n, kind(v0))
            if n in defs:
                t = defs[n][2]
                sv = SV(simp(t) if isz(t) else t, k)
                if k in INTK and isz(sv.t):
                    lo, hi = (v0.lo, v0.hi) if isinstance(v0, SV) else (v0, v0)
                    if defs[n][0].endswith(':same'):
                        sv.lo, sv.hi = lo, hi
                if not isz(sv.t) and k in PYK:
                    e.vars[n] = sv.t
                else:
                    e.vars[n] = sv
                if k in INTR and k != 'i64' and isz(sv.t):
                    eng.assume(z3.And(sv.t >= INTR[k][0], sv.t <= INTR[k][1]))
            else:
                e.vars[n] = eng.fresh('h_' + n, k)
        for loc in sorted(info.locs, key=str):
            if loc[0] == 'attr' and loc not in clocks:
                havoc_attr(loc)
        if eng.partials:
            # what they say refers to the attributes at the loop head
            _, d2 = current()
            defs.update({k: v for k, v in d2.items() if v[0][0] == 'b'})

        def content(b, shape, f):
            if not isinstance(f, Partial):
                return f
            h = self.unknown(b, shape)
            return lambda i: eng.ite(f.dom(i), f.fn(i), h(i))
        if eng.lstate is not None and ('state',) in info.locs:
            eng.lstate.havoc(eng, info)
        for bid, b in self.bufs.items():
            if ('buf', bid) in defs:
                eng.set_content(b, content(b, b.shape, defs[('buf', bid)][2]))
            else:
                eng.set_content(b, self.unknown(b, b.shape))
        for loc, v in self.attra.items():
            if loc in info.unstable:
                continue
            # rebound in the loop to a new array of the same shape
            b = v.buf
            pt = eng.partials[loc]() if 'p:%s:%s' % (loc[1], loc[2]) in {c[0] for c in cs} else None
            f = content(b, b.shape, pt) if pt is not None else self.unknown(b, b.shape)
            eng.objs[loc[1]].attrs[loc[2]] = eng.new_arr(list(v.shape), b.k, f, b.name, lo=b.lo, hi=b.hi, nz=b.nz, einv=b.einv)
        eng.draws = []
        for c in cs:
            if c[0][0] == 'b' and defs.get(c[1]) is c:
                continue
            if c[0][0] in 'av' and defs.get(c[1]) is c:
                continue
            if c[0][0] in 'bp':
                continue
            f = self.formula(c)
            if isz(f):
                eng.assume(f)

    def unchanged_ref(self, n):
        # assumed until the end of a loop body shows otherwise
        return n not in self.info.unstable and (isinstance(self.entry[n], REFS) or bool(self.eng.lists) and list_like(self.entry[n]))

    # -------- body end
    def end_body(self, idx1, fr):
        eng, info = self.eng, self.info
        for n in self.names:
            v = find_env(self.env, n).vars.get(n, POISON)
            v0 = self.entry[n]
            if n in info.listed:
                pass
            elif n in info.rebound:
                if not self.end_rebound(n, fr):
                    info.rebound.discard(n)
                    info.unstable.add(n)
                    eng.changed = True
                elif not v0.buf.ro:
                    eng.note_write(('buf', v0.buf.id), eng.heap[v0.buf.id][1])
            elif eng.lists and list_like(v0) and list_like(v) and v is not v0 and n not in self.targets and n not in info.unstable:
                info.listed.add(n)
                eng.changed = True
            elif (isinstance(v0, REFS) or self.eng.lists and list_like(v0)) and n not in self.targets and n not in info.unstable:
                if not (v is v0 or isinstance(v, Arr) and isinstance(v0, Arr) and v.buf is v0.buf and v.imap == v0.imap and v.shape == v0.shape):
                    (info.rebound if self.end_rebound(n, fr) else info.unstable).add(n)
                    eng.changed = True
            if isnum(v0) and v is not POISON:
                if not isnum(v):
                    raise Unsupported('variable %s changes type in loop' % n)
                k0 = info.kinds.get(n, kind(v0))
                k1 = join_kind(k0, kind(v))
                if k1 != k0:
                    info.kinds[n] = k1
                    eng.changed = True
        for loc, v0 in self.attra.items():
            o = eng.objs[loc[1]]
            v = o.attrs.get(loc[2])
            if loc not in info.unstable and not (isinstance(v, Arr) and v.full() and v.buf.k == v0.buf.k and v.ndim == v0.ndim
                                                 and all(same(a, b) or eng.valid(z_int(a) == z_int(b)) for a, b in zip(v.shape, v0.shape)) and not self.aliased(loc, v.buf)):
                info.unstable.add(loc)
                eng.changed = True
        new = fr.pending - info.locs
        if new:
            info.locs |= new
            eng.changed = True
        for loc in fr.pending:
            if loc[0] == 'attr':
                o = eng.objs.get(loc[1])
                v = o.attrs.get(loc[2]) if o else None
                if isnum(v):
                    k0 = info.kinds.get(loc, kind(v))
                    k1 = join_kind(k0, kind(v))
                    if info.kinds.get(loc) != k1:
                        info.kinds[loc] = k1
                        eng.changed = True
        if not new:
            self.check(self.alive(self.cands(None, idx1)))
        if fr.prange_idx is not None:
            self.par_end(fr)

    def aliased(self, loc, b):
        """is the array of an attribute also known under another name?"""
        def holds(v):
            return isinstance(v, Arr) and v.buf is b or isinstance(v, (list, tuple)) and any(holds(x) for x in v)
        for oid, o in self.eng.objs.items():
            if any(holds(v) for k, v in o.attrs.items() if (oid, k) != (loc[1], loc[2])):
                return True
        e = self.env
        while e is not None:
            if any(holds(v) for v in e.vars.values()):
                return True
            e = e.parent
        return False

    def par_end(self, fr):
        pass


def list_like(v):
    return isinstance(v, (Seq, SymIter)) and getattr(v, 'guard', None) is None


class DSet:
    def __init__(self):
        self.d = {}

    def add(self, t):
        self.d[t.get_id()] = t

    def __contains__(self, t):
        return t.get_id() in self.d


def join_kind(a, b):
    if a == b:
        return a
    if a in BOOLK and b in BOOLK:
        return 'b1'
    if a in PYK and b in PYK:
        return promote(a, b)
    if a in PYK and a in INTK and b in INTK:
        return b
    if b in PYK and b in INTK and a in INTK:
        return a
    return promote(a, b)


def par_check_vars(eng, s, names, entry, targets):
    """numba's prange: shared scalars may only be updated by one commutative augmented assignment (a reduction)"""
    for n in names:
        if n in targets or entry[n] is POISON:
            continue
        ops, bad, stores, loads = set(), False, 0, 0
        first = None
        for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                ops.add('+' if isinstance(x.op, (ast.Add, ast.Sub)) else '*' if isinstance(x.op, ast.Mult) else '?')
                stores += 1
            elif isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load):
                loads += 1
            elif isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store):
                stores += 1
        aug = sum(1 for x in ast.walk(ast.Module(body=s.body, type_ignores=[]))
                  if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n)
        if stores == 0:
            continue
        # private: first statement of the body (top level) assigns it before any use
        private = False
        for st in s.body:
            uses = [x for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == n]
            if not uses:
                continue
            if isinstance(st, ast.Assign) and all(isinstance(x.ctx, ast.Store) for x in uses):
                private = True
            break
        if private:
            continue
        nstore = sum(1 for x in ast.walk(ast.Module(body=s.body, type_ignores=[]))
                     if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store))
        ok = (nstore == aug and loads == 0 and len(ops) == 1 and '?' not in ops)
        eng.prove(bool(ok), 'race-free:%s' % n, 'shared scalar %s in a prange loop is not a reduction' % n)


def for_loop(eng, s, env, it):
    with_stack(eng, s, env, lambda: for_loop_cut(eng, s, env, it))


def with_stack(eng, s, env, run, wh=0):
    """names of draws tell the entries of a loop on one path apart"""
    key = (env.module.name, s.lineno, s.col_offset, eng.ctx)
    k = eng.loopcnt.get(key, 0)
    eng.loopcnt[key] = k + 1
    eng.loopstack.append((key, k))
    eng.whiles += wh
    try:
        run()
    finally:
        eng.loopstack.pop()
        eng.whiles -= wh


def for_loop_cut(eng, s, env, it):
    n = z_int(it.length)
    cut = Cut(eng, s, env, len(eng.frames))
    info = cut.info
    if not hasattr(info, 'unstable'):
        info.unstable = set()
    cut.n = n
    k = z3.Int(eng.fresh_name('k'))
    rg = getattr(it, 'range', None)       # (start, step, stop)
    if rg is not None:
        start, step, stop = rg
    else:
        start, step, stop = 0, 1, n
    cut.stop = z_int(stop)
    cut.desc = step == -1

    def positions(idx):
        if step == 1:
            yield '', z3.simplify(z_int(start) + idx), z_int(start)
            if not same(start, 0):
                yield '#', z_int(idx), z3.IntVal(0)
        elif step == -1:
            yield '', z3.simplify(z_int(start) + 1 - idx), z3.simplify(z_int(start) + 1)
    cut.positions = positions

    def matches(f):
        return same(f.length, n) or same(f.length, stop) or (step == -1 and same(z_int(start) + 1, f.length))
    cut.matches = matches
    cut.fs = cut.matching()
    cut.snapshot_heap()
    if rg is None:
        cut.sc = scattered(eng, it)
    # entry
    i0 = z3.IntVal(0)
    for _, e, e0 in positions(i0):
        for f in cut.fs:
            for p in cut.params(f):
                eng.inst(f, p, e0)
    cut.check(cut.alive(cut.cands(None, i0)))
    for nme in cut.scalars():
        kk = info.kinds.get(nme, kind(cut.entry[nme]))
        if kk in INTR and kk != 'i64' and kind(cut.entry[nme]) != kk:
            eng.range_check(SV(raw(cut.entry[nme]), kk), 'loop-entry')
    # head
    eng.serial += 1
    fr = Frame(info, eng.serial)
    if it.prange:
        fr.prange_idx = k
        fr.acc = {}
        par_check_vars(eng, s, cut.names, cut.entry, cut.targets)
    eng.assume(k >= 0)
    eng.assume(z3.Or(k <= n, k == 0))
    cut.havoc(k)

    def insts(idx):
        for _, e, e0 in positions(idx):
            for f in cut.fs:
                for p in cut.params(f):
                    eng.inst(f, p, e)
    insts(k)
    body = eng.branch(k < n)
    if body:
        el = None
        for _, e, e0 in positions(k):
            el = e if step == 1 else z3.simplify(e - 1)
            break
        if el is None:
            el = k
        if step == -1:
            for f in cut.fs:
                for p in cut.params(f):
                    eng.inst(f, p, el)
        if fr.prange_idx is not None:
            fr.prange_idx = el
        cut.mine = (el, n if rg is None or same(start, 0) else stop)
        eng.active.append(cut.mine)
        # folds of which this loop index is a parameter: instances at 0 and total on demand
        for f in eng.folds:
            for p in eng.param_insts(f):
                if any(same(x, el) for x in p):
                    eng.inst(f, p, z3.IntVal(0))
        if rg is not None or same(el, k):
            for f in eng.folds:
                if not any(f is g for g in cut.fs) and same(f.length, n):
                    for p in eng.param_insts(f):
                        eng.inst(f, p, el)
        eng.frames.append(fr)
        exited = False
        try:
            eng.assign(s.target, it.elem(k), env)
            try:
                eng.block(s.body, env)
            except ContinueEx:
                pass
        except BreakEx:
            if it.prange:
                eng.prove(False, 'race-free:break', 'break in a prange loop')
            commit(eng, cut, fr)
            eng.frames.pop()
            eng.active.remove(cut.mine)
            return
        except ReturnEx:
            if it.prange:
                eng.prove(False, 'race-free:return', 'return in a prange loop')
            commit(eng, cut, fr)
            eng.frames.pop()
            eng.active.remove(cut.mine)
            raise
        except PyExc:
            eng.frames.pop()
            eng.active.remove(cut.mine)
            raise
        k1 = z3.simplify(k + 1)
        eng.active.remove(cut.mine)
        cut.end_body(k1, fr)
        eng.frames.pop()
        raise PathEnd()
    # exit
    eng.assume(z3.Or(k == n, z3.And(n <= 0, k == 0)))
    if cut.sc is not None:
        cut.sc.record(n)
    exit_subst(eng, cut, k, n)
    for t in cut.targets:
        e = find_env(env, t)
        e.vars[t] = POISON
    if isinstance(s.target, ast.Name):
        # value of the loop variable after the loop
        if eng.valid(n > 0) if isinstance(cut.entry.get(s.target.id, POISON), type(POISON)) else False:
            find_env(env, s.target.id).vars[s.target.id] = it.elem(z3.simplify(n - 1))
    eng.block(s.orelse, env)


class Scattered:
    """loop over a list of index tuples: (ix, idx) -> has the tuple ix been visited in the first idx iterations"""

    def __init__(self, eng, it, nd):
        self.eng, self.it, self.nd = eng, it, nd
        n = z_int(it.length)

        def term(*a):
            eng.quiet += 1
            try:
                t = it.elem(a[-1])
            finally:
                eng.quiet -= 1
            return z3.If(z3.And(*[z_int(x) == y for x, y in zip(t, a[:-1])]), z3.IntVal(1), z3.IntVal(0))
        self.fold = Fold(eng, eng.fresh_name('visits'), [None] * nd, n, term, 'count')

    def __call__(self, ix, idx):
        ix = [z_int(i) for i in ix]
        self.eng.inst(self.fold, ix, z3.simplify(idx - 1))
        self.eng.inst(self.fold, ix, idx)
        return self.fold(*ix, idx) >= 1

    def record(self, n):
        from .npmodel import Scatter

        def pos(j):
            self.eng.quiet += 1
            try:
                return [z_int(x) for x in self.it.elem(z_int(j))]
            finally:
                self.eng.quiet -= 1
        Scatter(self.eng, self.nd, n, pos, lambda *ix: self.fold(*ix, n) >= 1)


def scattered(eng, it):
    i = z3.Int(eng.fresh_name('gi'))
    eng.push()
    eng.assume(z3.And(i >= 0, i < z_int(it.length)))
    eng.quiet += 1
    try:
        t = it.elem(i)
    finally:
        eng.quiet -= 1
        eng.pop()
    if isinstance(t, tuple) and t and all(isnum(x) and kind(x) in INTK for x in t):
        return Scattered(eng, it, len(t))
    return None


def exit_subst(eng, cut, k, n):
    """re-express scalars at k == n"""
    if not eng.valid(k == n):
        return
    for nm in cut.names:
        e = find_env(cut.env, nm)
        v = e.vars.get(nm, POISON)
        if isinstance(v, SV) and isz(v.t):
            t = simp(z3.substitute(v.t, (k, n)))
            e.vars[nm] = SV(t, v.k, v.lo, v.hi, v.nz) if isz(t) or v.k not in PYK else t


def commit(eng, cut, fr):
    new = fr.pending - cut.info.locs
    if new:
        cut.info.locs |= new
        eng.changed = True
    for n in cut.names:
        v = find_env(cut.env, n).vars.get(n, POISON)


def nd_loop(eng, s, env, it):
    with_stack(eng, s, env, lambda: nd_loop_cut(eng, s, env, it))


def nd_loop_cut(eng, s, env, it):
    """loop over all index tuples of a shape (np.ndenumerate / ndindex / itertools.product): any order, each once"""
    nd = len(it.shape)
    cut = Cut(eng, s, env, len(eng.frames))
    info = cut.info
    if not hasattr(info, 'unstable'):
        info.unstable = set()
    cut.n = None
    cut.fs = []
    cut.positions = lambda idx: []
    cut.matches = lambda f: False
    visited = z3.Function(eng.fresh_name('visited'), *([z3.IntSort()] * nd + [z3.BoolSort()]))
    cut.snapshot_heap()
    mine = []

    def defs_at(vis):
        def buf_defs(b, idx):
            c0 = cut.entry_buf[b.id]
            yield 'same', c0
            if len(b.shape) == nd:
                for ti, tg in enumerate(eng.target_insts(b, [m[0] for m in mine])):
                    yield 'vis%d' % ti, (lambda i, tg=tg: eng.ite(vis(i), tg(i), c0(i)))
        return buf_defs
    cut.buf_defs = defs_at(lambda i: z3.BoolVal(False))
    cut.check(cut.alive(cut.cands(None, None)))
    cut.buf_defs = defs_at(lambda i: visited(*[z_int(x) for x in i]))
    eng.serial += 1
    fr = Frame(info, eng.serial)
    cut.havoc(None)
    done = z3.Bool(eng.fresh_name('done'))
    if eng.branch(z3.Not(done)):
        ix = [z3.Int(eng.fresh_name('nd')) for _ in range(nd)]
        for i, sh in zip(ix, it.shape):
            eng.assume(z3.And(i >= 0, i < z_int(sh)))
        eng.assume(z3.Not(visited(*ix)))
        mine.extend((i, z_int(sh)) for i, sh in zip(ix, it.shape))
        eng.active.extend(mine)
        eng.frames.append(fr)
        try:
            eng.assign(s.target, it.elem(ix), env)
            try:
                eng.block(s.body, env)
            except ContinueEx:
                pass
        except BreakEx:
            commit(eng, cut, fr)
            eng.frames.pop()
            for m in mine:
                eng.active.remove(m)
            return
        except ReturnEx:
            commit(eng, cut, fr)
            eng.frames.pop()
            for m in mine:
                eng.active.remove(m)
            raise
        except PyExc:
            eng.frames.pop()
            raise
        for m in mine:
            eng.active.remove(m)
        cut.buf_defs = defs_at(lambda i: z3.Or(visited(*[z_int(x) for x in i]),
                                               z3.And(*[z_int(x) == y for x, y in zip(i, ix)])))
        cut.end_body(None, fr)
        eng.frames.pop()
        raise PathEnd()
    # exit: everything visited
    for bid, b in cut.bufs.items():
        for c in cut.alive(cut.cands(None, None)):
            if c[0][0] == 'b' and c[1] == ('buf', bid) and ':vis' in c[0] and c[0] in cut.bdefs:
                ti = int(c[0].rsplit('vis', 1)[1])
                eng.set_content(b, eng.target_insts(b, ())[ti])
                break
    for t in cut.targets:
        find_env(env, t).vars[t] = POISON
    eng.block(s.orelse, env)


def while_loop(eng, s, env):
    with_stack(eng, s, env, lambda: while_loop_cut(eng, s, env), 1)


def while_loop_cut(eng, s, env):
    """while loops: first try to run concretely (bounded unrolling is not used); cut with invariants over integer index variables"""
    for _ in range(eng.opts.get('unroll', 0)):
        # the task's contracts decide how often the loop runs: executed iteration by iteration
        t = eng.truth(eng.eval(s.test, env))
        if not isinstance(t, bool):
            raise Unsupported('loop test not decided by the task')
        if not t:
            eng.block(s.orelse, env)
            return
        try:
            eng.block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return
    if eng.opts.get('peel'):
        # the first iteration separately, so that what it sets up is known in the others
        if not eng.branch(eng.truth(eng.eval(s.test, env))):
            eng.block(s.orelse, env)
            return
        try:
            eng.block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return
    cut = Cut(eng, s, env, len(eng.frames))
    info = cut.info
    if not hasattr(info, 'unstable'):
        info.unstable = set()
    cut.n = None
    cut.stop = None
    cut.matches = lambda f: True
    cut.fs = list(eng.folds)
    # candidate index variables: integer variables whose updates in the body are all augmented by a constant
    idxv = []
    for n in cut.names:
        if isinstance(cut.entry[n], (int, SV)) and not isinstance(cut.entry[n], bool) and kind(cut.entry[n]) in INTK:
            ok = False
            for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n \
                        and isinstance(x.value, ast.Constant) and x.value.value == 1 and isinstance(x.op, ast.Add):
                    ok = True
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == n \
                        and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
                    ok = True
            if ok and not eng.clocks:
                idxv.append(n)

    def positions(idx):
        for n in idxv:
            v = find_env(env, n).vars.get(n, POISON)
            if v is not POISON and isnum(v):
                yield n + '.', z_int(v), z_int(cut.entry[n])
    cut.positions = positions
    cut.snapshot_heap()
    orig = cut.scalar_rhs

    def scalar_rhs(n, v0, k, idx):
        for cid, r in orig(n, v0, k, None):
            if n in idxv and cid != 'same':
                continue
            yield cid, r
    cut.scalar_rhs = scalar_rhs
    base_facts = cut.scalar_facts

    def scalar_facts(n, v0, k, idx):
        for x in base_facts(n, v0, k, None):
            yield x
        if n in idxv:
            for b in bounds:
                yield 'leB%s' % b, lambda v, b=b: z_int(v) <= b
    cut.scalar_facts = scalar_facts
    bounds = []
    for f in eng.folds:
        if not any(same(f.length, b) for b in bounds):
            bounds.append(z_int(f.length))
    cut.check(cut.alive(cut.cands(None, None)))
    eng.serial += 1
    fr = Frame(info, eng.serial)
    cut.wstep = z3.Int(eng.fresh_name('step'))
    eng.assume(cut.wstep >= 0)
    # index variables first (other definitions refer to them)
    al = info.cands
    for n in idxv:
        if 'v:%s:same' % n not in al:
            find_env(env, n).vars[n] = eng.fresh('h_' + n, info.kinds.get(n, kind(cut.entry[n])))
    keep = {n: find_env(env, n).vars[n] for n in idxv}
    cut.keep = keep
    cut.havoc(None)
    for c in cut.alive(cut.cands(None, None)):
        if c[0][0] in 'f' and c[0] in cut.entry_ids:
            cut.assumed_ids.add(c[0])
            f = cut.formula(c)
            if isz(f):
                eng.assume(f)
    for n in idxv:
        v = keep[n]
        for f in cut.fs:
            for p in cut.params(f):
                eng.inst(f, p, z_int(v))
    c = eng.truth(eng.eval(s.test, env))
    if eng.branch(c):
        eng.steps.append(cut.wstep)
        mark = eng.lstate.measure(cut) if eng.lstate is not None else None
        progress = {tag: eng.clock(loc) for tag, loc in eng.clocks}
        # lengths of the active index: every bound it is provably below
        act = []
        for n in idxv:
            for b in bounds:
                if not eng.replaying() or True:
                    if eng.valid(z3.And(z_int(keep[n]) >= 0, z_int(keep[n]) < b)):
                        act.append((z_int(keep[n]), b))
        eng.active.extend(act)
        eng.frames.append(fr)

        def leave():
            eng.steps.pop()
            eng.frames.pop()
            for m in act:
                eng.active.remove(m)
        try:
            try:
                eng.block(s.body, env)
            except ContinueEx:
                pass
        except BreakEx:
            commit(eng, cut, fr)
            leave()
            return
        except ReturnEx:
            commit(eng, cut, fr)
            leave()
            raise
        except PyExc:
            leave()
            raise
        for m in act:
            eng.active.remove(m)
        for tag, loc in eng.clocks:
            eng.prove(eng.clock(loc) > progress[tag], 'terminates:' + tag, 'an iteration of a while loop makes no progress')
        if mark is not None:
            eng.lstate.progress(cut, mark)
        eng.steps.pop()
        cut.wstep = z3.simplify(cut.wstep + 1)
        cut.end_body(None, fr)
        eng.frames.pop()
        raise PathEnd()
    eng.block(s.orelse, env)
