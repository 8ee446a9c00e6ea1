"""C17: clean-up of latent dimensions.

remove_dimension and reset_dimension are verified as they are, for every layer.  clean_up_codes is verified against their
contracts, for any number of dimensions and removals: the state of the layer is a ghost (M, S) after removals (column c of
every factor is the original column M(c), c < S, M increasing) or R after resets (dimension c was reset or not).  Which
dimensions stay is the recursively defined predicate
    bad(c)  <=>  inactive(c)  or  there is w < c that stays with dup(w, c)
(removal: w stays if not bad(w); reset: every w stays, with the contents it has after resetting)."""
from .base import *
from . import apps
from .samplers import graph, freeze, MACH
from .outputs import snapshot, prove_array
from .maxm import max_graph, ratio_spec, MM
from pyded.engine import POISON
from pyded.loops import find_env

AUX = 'lom.auxiliary_functions'
B = z3.BoolSort()
I = z3.IntSort()


def build_graph(e, model, K):
    if model == 'MAX-AND':
        g = max_graph(e, 0)
    else:
        g = graph(e, model, K, 0, [])
    for a in g['arrs']:
        a.buf.ro = False
    return g


def frame(e, before, allowed):
    for (oid, k), v in before.items():
        if (oid, k) in allowed:
            continue
        w = e.objs[oid].attrs.get(k, POISON)
        if w is not v:
            e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)


def parts(e, g, val=True):
    """attributes a removal rebinds"""
    out = {}
    for f, a, k in zip(g['factors'], g['arrs'], g['masks']):
        out[f.oid, 'val'] = a
        out[f.oid, 'fixed_entries'] = k
    if 'lbdas' in g:
        out[e.getattr(g['layer'], 'lbda').oid, 'val'] = g['lbdas']
        out[g['layer'].oid, 'lbda_ratios'] = g['ratios']
    return out


def ratios_contract(e, args, fv):
    """compute_lbda_ratios (task max:ratios)"""
    lay = args[0]
    lam = e.getattr(e.getattr(lay, 'lbda'), 'val')
    apps.need_arr(e, 'compute_lbda_ratios', lam, 1)
    n = lam.shape[0]
    L = z_int(e.getattr(lay, 'size'))
    e.prove(z_int(n) == L + 1, 'pre:compute_lbda_ratios:length')
    rd = snapshot(lam)
    i = z3.Int(e.fresh_name('i'))
    e.push()
    e.assume(z3.And(i >= 0, i < z_int(n)))
    t = z_real(e.read(rd, [i]))
    e.prove(z3.And(t > 0, t < 1), 'pre:compute_lbda_ratios:domain')
    e.pop()
    rd.buf.base = rd.buf.content
    R = e.new_arr((z3.IntVal(2), n, n), 'f32', ratio_spec(e, rd), 'ratios')
    e.setattr(lay, 'lbda_ratios', R)
    return None


def shifted(l):
    return lambda c: z3.If(z_int(c) < l, z_int(c), z_int(c) + 1)


def remove_task(model, K):
    def build(eng):
        fv = need(eng, AUX, 'remove_dimension')
        eng.top = 'remove_dimension'

        def run(e):
            g = build_graph(e, model, K)
            L = g['L']
            l = e.fresh('l', 'int')
            e.inputs['l'] = l
            e.assume(z3.And(l.t >= 0, l.t < L))
            e.cover('pre')
            before = freeze(e, g)
            for a in g['arrs']:
                a.buf.ro = True
            moved = parts(e, g)
            e.inline(fv, [l, g['layer']], {})
            sh = shifted(l.t)
            for i, (f, a, k) in enumerate(zip(g['factors'], g['arrs'], g['masks'])):
                for nm, x in (('val', a), ('fixed_entries', k)):
                    dims = [z_int(a.shape[0]), z3.simplify(L - 1)]
                    prove_array(e, e.getattr(f, nm), dims, 'i8', lambda ix, x=x: e.at(x, [ix[0], sh(ix[1])]), 'post:%s' % nm)
            if 'lbdas' in g:
                lam = e.getattr(e.getattr(g['layer'], 'lbda'), 'val')
                prove_array(e, lam, [L], None, lambda ix: z_real(e.at(g['lbdas'], [sh(ix[0])])), 'post:dispersions')
                new = e.new_arr((L,), 'f64', lambda ix: z_real(e.at(g['lbdas'], [sh(ix[0])])), 'lbda')
                new.buf.base = new.buf.content
                new.buf.einv = g['lbdas'].buf.einv
                prove_array(e, e.getattr(g['layer'], 'lbda_ratios'), [z3.IntVal(2), L, L], None, ratio_spec(e, new), 'post:ratios')
            frame(e, before, moved)
            e.cover('end')
        return run
    Task('clean:remove:%s-%d' % (model, K), ['C17'], build, contracts={(MM, 'compute_lbda_ratios'): ratios_contract}, route={'frame': ['C17']})


def reset_task(model, K):
    def build(eng):
        fv = need(eng, AUX, 'reset_dimension')
        eng.top = 'reset_dimension'

        def run(e):
            g = build_graph(e, model, K)
            l = e.fresh('l', 'int')
            e.inputs['l'] = l
            e.assume(z3.And(l.t >= 0, l.t < g['L']))
            e.cover('pre')
            before = freeze(e, g)
            specs = [lambda ix, a=a, k=k: z3.If(z3.And(z_int(ix[1]) == l.t, e.at(k, ix) != 1), z3.IntVal(-1), e.at(a, ix)) for a, k in zip(g['arrs'], g['masks'])]
            for a, s in zip(g['arrs'], specs):
                a.buf.target = [(s, ())]
            e.inline(fv, [l, g['layer']], {})
            for f, a, s in zip(g['factors'], g['arrs'], specs):
                prove_array(e, e.getattr(f, 'val'), [z_int(d) for d in a.shape], 'i8', s, 'post:val')
            for (oid, k), v in before.items():
                w = e.objs[oid].attrs.get(k, POISON)
                if w is not v and (oid, k) not in [(f.oid, 'val') for f in g['factors']]:
                    e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)
            e.cover('end')
        return run
    Task('clean:reset:%s-%d' % (model, K), ['C17'], build, route={'frame': ['C17']})


for K in (2, 3):
    for t in (remove_task, reset_task):
        t('OR-AND', K)
for t in (remove_task, reset_task):
    t('MAX-AND', 2)


# ---- clean_up_codes
def column_terms(t, decls):
    """column indices at which the original factors are read in t"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in decls and x.num_args() == 2:
                c = x.arg(1)
                if not any(z3.eq(c, o) for o in out):
                    out.append(c)
            todo.extend(x.children())
    return sorted(out, key=str)


class State:
    """ghost state of the layer and the specification of redundant dimensions"""

    def __init__(self, e, g, reset):
        self.e, self.g, self.reset = e, g, reset
        self.L = z_int(g['L'])
        self.bad = z3.Function('bad', I, B)
        self.wit = z3.Function('wit', I, I)
        names = [next(x for x in ('F%d' % i,)) for i in range(len(g['arrs']))]
        N = [z_int(a.shape[0]) for a in g['arrs']]
        self.act, self.diff = [], []
        for i, (a, k) in enumerate(zip(g['arrs'], g['masks'])):
            def cell(n, c, r, a=a, k=k):
                if not reset:
                    return e.at(a, [n, c])
                return z3.If(z3.And(r == 1, e.at(k, [n, c]) != 1), z3.IntVal(-1), e.at(a, [n, c]))
            one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
            A = e.fold('active%d' % i, [self.L, 2], N[i], lambda c, r, n, cell=cell: one(cell(n, c, r) != -1))
            D = e.fold('differ%d' % i, [self.L, 2, self.L, 2], N[i], lambda c, r, d, s, n, cell=cell: one(cell(n, c, r) != cell(n, d, s)))

            def p1(t, decls=names):
                return [(c, self.flag(c)) for c in column_terms(t, decls)] if isz(t) else []

            def p2(t, D=D, decls=names):
                cs = column_terms(t, decls) if isz(t) else []
                out = []
                for x, c in enumerate(cs):
                    for d in cs[x + 1:]:
                        e.assume(D.total(c, self.flag(c), d, self.flag(d)) == D.total(d, self.flag(d), c, self.flag(c)))
                        out.append((c, self.flag(c), d, self.flag(d)))
                return out
            A.params_of, D.params_of = p1, p2
            self.act.append(A)
            self.diff.append(D)
        self.gone = z3.IntVal(-1)
        self.terms = []
        if reset:
            self.R = lambda c: z3.BoolVal(False)
        else:
            self.S, self.M, self.P = self.L, lambda c: c, lambda k: k
        self.head = False
        self.moved = parts(e, g)
        self.install()
        self.definition()

    def flag(self, c):
        return z3.If(self.R(c), z3.IntVal(1), z3.IntVal(0)) if self.reset else z3.IntVal(0)

    # the dimension c (not reset itself) is all -1 in some factor; equal to dimension w in some factor
    def inactive(self, c):
        return z3.Or(*[A.total(c, z3.IntVal(0)) == 0 for A in self.act])

    def dup(self, w, c):
        r = z3.If(self.bad(w), z3.IntVal(1), z3.IntVal(0)) if self.reset else z3.IntVal(0)
        return z3.Or(*[D.total(w, r, c, z3.IntVal(0)) == 0 for D in self.diff])

    def stays(self, w):
        return z3.BoolVal(True) if self.reset else z3.Not(self.bad(w))

    def definition(self):
        a, c = z3.Ints('a c')
        L, bad, wit = self.L, self.bad, self.wit
        pair = z3.MultiPattern(ba := bad(a), bc := bad(c))
        ax = [z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < L, self.inactive(c)), bad(c)), patterns=[bad(c)]),
              z3.ForAll([a, c], z3.Implies(z3.And(a >= 0, a < c, c < L, self.stays(a), self.dup(a, c)), bad(c)), patterns=[pair]),
              z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < L, bad(c)), z3.Or(self.inactive(c), z3.And(wit(c) >= 0, wit(c) < c, self.stays(wit(c)), self.dup(wit(c), c)))),
                        patterns=[bad(c)])]
        for x in ax:
            self.e.assume(x)

    # ---- the state and the arrays that are in it
    def content(self, a):
        M = self.M
        return lambda ix: self.e.at(a, [ix[0], M(z_int(ix[1]))])

    def install(self):
        e, g = self.e, self.g
        if self.reset:
            R = self.R
            for a, k in zip(g['arrs'], g['masks']):
                a.buf.content = lambda ix, a=a, k=k: z3.If(z3.And(R(z_int(ix[1])), e.at(k, ix) != 1), z3.IntVal(-1), e.at(a, ix))
                e.serial += 1
                a.buf.ver = e.serial
            self.contents = [a.buf.content for a in g['arrs']]
            return
        S, M = self.S, self.M
        self.now = {}
        for f, a, k in zip(g['factors'], g['arrs'], g['masks']):
            for nm, x in (('val', a), ('fixed_entries', k)):
                y = e.new_arr([x.shape[0], S], x.k, self.content(x), nm, lo=x.buf.lo, hi=x.buf.hi, nz=x.buf.nz)
                y.buf.ro = True
                self.now[f.oid, nm] = y
        if 'lbdas' in g:
            lam = g['lbdas']
            L = self.L
            n = z3.simplify(S + 1)
            x = e.new_arr((n,), 'f64', lambda ix: z_real(e.at(lam, [z3.If(z_int(ix[0]) < S, M(z_int(ix[0])), L)])), 'lbda', einv=lam.buf.einv)
            x.buf.base = x.buf.content
            x.buf.ro = True
            self.now[e.getattr(g['layer'], 'lbda').oid, 'val'] = x
            self.now[g['layer'].oid, 'lbda_ratios'] = e.new_arr((z3.IntVal(2), n, n), 'f32', ratio_spec(e, x), 'ratios')
        for (oid, nm), y in self.now.items():
            e.objs[oid].attrs[nm] = y

    def intact(self):
        if self.reset:
            return all(a.buf.content is c for a, c in zip(self.g['arrs'], self.contents)) \
                and all(self.e.objs[f.oid].attrs['val'] is a for f, a in zip(self.g['factors'], self.g['arrs']))
        return all(self.e.objs[oid].attrs[nm] is y for (oid, nm), y in self.now.items())

    def havoc(self, eng, info):
        if not self.intact():
            raise Unsupported('the layer is changed other than by removing or resetting a dimension')
        new = lambda nm, s: z3.Function(eng.fresh_name(nm), I, s)
        self.gone = z3.Int(eng.fresh_name('gone'))
        if self.reset:
            self.R = new('R', B)
        else:
            self.S = z3.Int(eng.fresh_name('S'))
            self.M, self.P = new('M', I), new('P', I)
        self.head = True
        self.install()

    # ---- what remove_dimension and reset_dimension do to it (tasks clean:remove, clean:reset)
    def act_on(self, l):
        e = self.e
        l = z_int(l)
        size = self.L if self.reset else self.S
        e.prove(z3.And(l >= 0, l < size), 'pre:%s_dimension:index' % ('reset' if self.reset else 'remove'))
        e.prove(bool(self.intact()), 'pre:%s_dimension:state' % ('reset' if self.reset else 'remove'))
        self.head = False
        if self.reset:
            R = self.R
            self.gone = l
            self.R = lambda c: z3.Or(R(c), c == l)
        else:
            M, P = self.M, self.P
            self.gone = M(l)
            self.S = z3.simplify(self.S - 1)
            self.M = lambda c: M(z3.If(c < l, c, c + 1))
            self.P = lambda k: z3.If(P(k) < l, P(k), P(k) - 1)
        self.install()
        for fr in e.frames:
            fr.pending.add(('state',))

    # ---- termination: for some variable, the number of dimensions from it on is positive and decreases
    def measure(self, cut):
        S = self.L if self.reset else self.S
        out = {}
        for nm in cut.lvars[0]:
            v = find_env(cut.env, nm).vars.get(nm, POISON)
            if v is not POISON and isnum(v):
                out[nm] = (S - z_int(v), self.e.valid(S - z_int(v) > 0))
        return out

    def progress(self, cut, mark):
        e = self.e
        S = self.L if self.reset else self.S
        ok = cut.info.__dict__.setdefault('measure', set(mark))
        if not e.replaying():
            for nm in sorted(ok):
                v = find_env(cut.env, nm).vars.get(nm, POISON)
                if not (nm in mark and mark[nm][1] and v is not POISON and isnum(v) and e.valid(S - z_int(v) < mark[nm][0])):
                    ok.discard(nm)
                    e.changed = True
        e.prove(bool(ok), 'terminates:loop', 'an iteration of a while loop makes no progress')

    # ---- invariant candidates, judged at every loop head
    def forall(self, n, body, pats):
        v = [z3.Int('q%d' % i) for i in range(n)]
        b = body(*v)
        if not self.head:
            return z3.ForAll(v, b)
        ts = [p if isinstance(p, tuple) else (p,) for p in pats(*v)]
        self.terms.append(ts)       # z3's patterns do not keep their terms alive
        return z3.ForAll(v, b, patterns=[z3.MultiPattern(*t) for t in ts])

    def cands(self, cut):
        L, bad = self.L, self.bad
        out = []

        def var(nm, z):
            v = find_env(cut.env, nm).vars.get(nm, POISON)
            return z(v) if v is not POISON and isnum(v) else None
        ints, bools = [], []
        en = cut.env
        while en is not None:
            for nm, v in en.vars.items():
                if isinstance(v, (int, SV, bool)) and isnum(v) and nm not in ints and nm not in bools:
                    (ints if kind(v) in INTK and not isinstance(v, bool) else bools if kind(v) in BOOLK else []).append(nm)
            en = en.parent
            if en is not None and en.parent is None:
                break
        if cut.__dict__.get('lvars') is None:
            cut.lvars = (sorted(ints), sorted(bools))
        ints, bools = cut.lvars

        def add(cid, names, fn):
            def f(eng):
                vs = [var(nm, z_bool if nm in bools else z_int) for nm in names]
                if any(v is None for v in vs):
                    return False
                return fn(*vs)
            out.append((cid + ':' + ','.join(names), f))
        for nm in ints:
            add('A', [nm], self.inv_active)
            add('C', [nm], self.inv_pairs)
            add('K', [nm], self.inv_decided)
            add('size', [nm], lambda v: v <= (L if self.reset else self.S))
            # loops that count before they use the dimension
            add('A1', [nm], lambda v: self.inv_active(v + 1))
            add('C1', [nm], lambda v: self.inv_pairs(v + 1))
            add('K1', [nm], lambda v: self.inv_decided(v + 1))
            add('size1', [nm], lambda v: v < (L if self.reset else self.S))
            for n2 in ints:
                if n2 != nm:
                    add('D', [nm, n2], self.inv_row)
                    add('less', [nm, n2], lambda v, w: v < w)
        add('A*', [], lambda: self.inv_active(None))
        for nm in bools:
            add('flag', [nm], self.inv_flag)
        if self.reset:
            add('R', [], lambda: self.forall(1, lambda c: z3.Implies(self.R(c), z3.And(c >= 0, c < L, bad(c))), lambda c: [self.R(c)]))
        else:
            if cut.__dict__.get('S0') is None:
                cut.S0 = self.S
            S0 = cut.S0
            add('shrinks', [], lambda: self.S <= S0)
            add('S', [], lambda: z3.And(self.S >= 0, self.S <= L))
            add('range', [], lambda: self.forall(1, lambda c: z3.Implies(z3.And(c >= 0, c < self.S), z3.And(self.M(c) >= c, self.M(c) <= c + L - self.S)), lambda c: [self.M(c)]))
            add('mono', [], lambda: self.forall(2, lambda c, d: z3.Implies(z3.And(c >= 0, c < d, d < self.S), self.M(c) < self.M(d)), lambda c, d: [(self.M(c), self.M(d))]))
            add('cover', [], lambda: self.forall(1, lambda k: z3.Implies(z3.And(k >= 0, k < L, z3.Not(bad(k))), z3.And(self.P(k) >= 0, self.P(k) < self.S, self.M(self.P(k)) == k)), lambda k: [bad(k)]))
        return out

    def inv_active(self, v):
        """no dimension before v is inactive (any more)"""
        if self.reset:
            return self.forall(1, lambda c: z3.Implies(z3.And(c >= 0, c < (self.L if v is None else v), c < self.L, self.inactive(c)), self.R(c)), lambda c: [self.R(c)])
        return self.forall(1, lambda c: z3.Implies(z3.And(c >= 0, c < (self.S if v is None else v), c < self.S), z3.Not(self.inactive(self.M(c)))), lambda c: [self.M(c)])

    def inv_pairs(self, v):
        """no dimension before v has a duplicate after it"""
        return self.inv_dups(lambda c, d: c < v)

    def inv_row(self, v, w):
        """dimension v has no duplicate before w"""
        if self.reset:
            return self.forall(1, lambda d: z3.Implies(z3.And(v >= 0, v < d, d < w, d < self.L, self.dup(v, d)), self.R(d)), lambda d: [self.R(d)])
        return self.forall(1, lambda d: z3.Implies(z3.And(v >= 0, v < d, d < w, d < self.S), z3.Not(self.dup(self.M(v), self.M(d)))), lambda d: [self.M(d)])

    def inv_dups(self, which):
        if self.reset:
            return self.forall(2, lambda c, d: z3.Implies(z3.And(c >= 0, c < d, d < self.L, which(c, d), self.dup(c, d)), self.R(d)), lambda c, d: [(self.R(c), self.R(d)), (self.bad(c), self.R(d))])
        return self.forall(2, lambda c, d: z3.Implies(z3.And(c >= 0, c < d, d < self.S, which(c, d)), z3.Not(self.dup(self.M(c), self.M(d)))), lambda c, d: [(self.M(c), self.M(d))])

    def inv_decided(self, v):
        """the dimensions up to v are as they will be"""
        if self.reset:
            return self.forall(1, lambda c: z3.Implies(z3.And(c >= 0, c <= v, c < self.L), self.R(c) == self.bad(c)), lambda c: [self.R(c)])
        return self.forall(1, lambda c: z3.Implies(z3.And(c >= 0, c <= v, c < self.S), z3.Not(self.bad(self.M(c)))), lambda c: [self.M(c)])

    def inv_flag(self, b):
        """set exactly if something was found redundant"""
        some = z3.And(self.gone >= 0, self.gone < self.L, self.bad(self.gone))
        none = self.forall(1, lambda c: z3.Not(self.R(c)), lambda c: [self.R(c)]) if self.reset else self.S == self.L
        return z3.And(z3.Implies(b, some), z3.Implies(z3.Not(b), none))


def cover_quantified(e, name, L):
    """reachability with at most two dimensions: the guarded quantifiers are then finite conjunctions"""
    if e.covers.get(name) or e.replaying():
        return
    s = z3.Solver()
    s.set('timeout', 20000)

    def ground(f):
        if z3.is_quantifier(f):
            import itertools
            n = f.num_vars()
            return z3.And(*[ground(z3.substitute_vars(f.body(), *[z3.IntVal(x) for x in reversed(p)])) for p in itertools.product(range(-1, 4), repeat=n)])
        if z3.is_bool(f) and f.num_args() and any(z3.is_bool(c) for c in f.children()):
            return f.decl()(*[ground(c) if z3.is_bool(c) else c for c in f.children()])
        return f
    for a in e.s.assertions():
        s.add(ground(a))
    s.add(L <= 2)
    e.covers[name] = s.check() == z3.sat


def act_contract(reset):
    def contract(e, args, fv):
        l, layer = args
        st = e.lstate
        nm = 'reset_dimension' if reset else 'remove_dimension'
        e.prove(bool(layer is st.g['layer'] and st.reset == reset), 'pre:%s:which' % nm)
        if st.reset == reset:
            st.act_on(l)
        return None
    return contract


def clean_task(model, K, reset, kw=None):
    def build(eng):
        fv = need(eng, AUX, 'clean_up_codes')
        need(eng, AUX, 'remove_dimension')
        need(eng, AUX, 'reset_dimension')
        eng.top = 'clean_up_codes'

        def run(e):
            e.s.set('mbqi', False)
            g = build_graph(e, model, K)
            e.cover('pre')
            before = freeze(e, g)
            st = e.lstate = State(e, g, reset)
            if not reset:
                before.update({k: v for k, v in st.now.items()})
            r = e.inline(fv, [g['layer']], {'reset': True, 'clean': False} if reset and kw is None else {'reset': False, 'clean': True} if not reset else kw)
            L = st.L
            e.prove(bool(st.intact()), 'post:state', 'the layer was changed other than by removing or resetting dimensions')
            sk = lambda nm: z3.Int(e.fresh_name(nm))
            c, d, k = sk('c'), sk('d'), sk('k')
            imp = z3.Implies
            if reset:
                e.prove(imp(z3.And(c >= 0, c < L), st.R(c) == st.bad(c)), 'post:redundant-dimensions', 'reset exactly the redundant ones')
                e.prove(imp(z3.And(k >= 0, k < L, st.bad(k)), z_bool(r)), 'post:returns-true')
            else:
                S, M, P = st.S, st.M, st.P
                inr = lambda x: z3.And(x >= 0, x < S)
                e.prove(z3.And(S >= 0, S <= L), 'post:size')
                e.prove(imp(inr(c), z3.And(M(c) >= 0, M(c) < L)), 'post:columns')
                e.prove(imp(z3.And(inr(c), inr(d), c < d), M(c) < M(d)), 'post:order')
                e.prove(imp(inr(c), z3.Not(st.bad(M(c)))), 'post:none-redundant')
                e.prove(imp(z3.And(k >= 0, k < L, z3.Not(st.bad(k))), z3.And(inr(P(k)), M(P(k)) == k)), 'post:all-others-stay')
                e.prove(imp(z3.And(k >= 0, k < L, st.bad(k), z3.Not(z_bool(r))), st.bad(M(k))), 'post:lemma')
                e.prove(imp(z3.And(k >= 0, k < L, st.bad(k)), z_bool(r)), 'post:returns-true')
            e.prove(imp(z_bool(r), z3.And(st.gone >= 0, st.gone < L, st.bad(st.gone))), 'post:returns-false')
            frame(e, before, {} if reset else st.now)
            cover_quantified(e, 'end', L)
        return run
    Task('clean:up:%s-%d%s%s' % (model, K, ':reset' if reset else ':remove', ':default' if kw is not None else ''), ['C17'], build,
         contracts={(AUX, 'remove_dimension'): act_contract(False), (AUX, 'reset_dimension'): act_contract(True)},
         route={'frame': ['C17']}, opts={'timeout': 2000, 'budget': 150, 'retry': 3000})


for K in (2, 3):
    for reset in (False, True):
        clean_task('OR-AND', K, reset)
clean_task('OR-AND', 2, True, {})
clean_task('MAX-AND', 2, False)
