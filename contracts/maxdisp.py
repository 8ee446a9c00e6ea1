"""C16: the update of the dispersions of the max machine (lbda_MAX_AND).

Ghost history of the greedy ranking, for any number L of dimensions: after t steps the remaining dimensions are
Rem(t, 0..L-t-1), step t removes the one at position AM(t) (bound to the position the code removes), so rank t is held by
sigma(t) = Rem(t, AM(t)); M(t, n, d): some dimension ranked before t explains the data point; TP(t, l), FP(t, l): number of
ones (minus ones) in the data that l but no dimension ranked before t explains; rate(t, l) = (TP + 1) / (TP + FP + 2);
W(t, .): the dispersions after t steps.  Proved: AM(t) maximises the rate, every dimension l < L has exactly one rank T(l) and
its dispersion is rate(T(l), l); the clamped dispersion is (ones + 1) / (observed + 2) of what is left, or the smallest other.
Only the state and the layer's ratios are changed."""
from .base import *
from . import apps
from .clean import ratios_contract, column_terms
from .dispersion import nested_count
from .samplers import freeze, LW
from .outputs import snapshot, prove_array
from .maxm import max_graph, expand_contract, ratio_spec, MM, OUT

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


def decl_args(t, name):
    """argument lists of the applications of name in t"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name:
                out.append(x.children())
            todo.extend(x.children())
    return out


class Ranking:
    def __init__(self, e, g, home):
        self.e, self.g, self.home = e, g, home
        self.L, (self.N, self.D) = z_int(g['L']), [z_int(d) for d in g['dims']]
        fn = lambda nm, *s: z3.Function(nm, *s)
        self.AM, self._rem, self._m = fn('AM', I, I), fn('Rem', I, I, I), fn('Mask', I, I, I, B)
        self._w, self.T, self.P = fn('W', I, I, R), fn('Rank', I, I, I), fn('Pos', I, I, I)
        self.bound, self.asked = {}, []
        self.lam0 = snapshot(g['lbdas'])
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
        L1 = self.L + 1
        self.count, self.both, self.left = {}, {}, {}
        for s, nm in ((1, 'TP'), (-1, 'FP')):
            self.count[s] = nested_count3(e, nm, [L1, self.L], [self.N, self.D], lambda t, l, n, d, s=s: one(z3.And(self.x(n, d) == s, self.pred(l, n, d), z3.Not(self.mask(t, n, d)))))
            self.both[s] = nested_count3(e, nm + 'both', [L1, self.L, self.L], [self.N, self.D],
                                         lambda t, a, l, n, d, s=s: one(z3.And(self.x(n, d) == s, self.pred(a, n, d), z3.Not(self.mask(t, n, d)), self.pred(l, n, d))))
            self.left[s] = nested_count3(e, nm + 'left', [L1], [self.N, self.D], lambda t, n, d, s=s: one(z3.And(self.x(n, d) == s, z3.Not(self.mask(t, n, d)))))
        self.suggest()
        self.lemmas()

    # ---- definitions, unfolded where they are used
    def x(self, n, d):
        return z_int(self.e.at(self.g['X'], [n, d]))

    def pred(self, l, n, d):
        z, u = self.g['arrs']
        return z3.And(self.e.at(z, [n, l]) == 1, self.e.at(u, [d, l]) == 1)

    def sigma(self, t):
        return self.rem(t, self.AM(t))

    def rem(self, t, i, step=True):
        e, r = self.e, self._rem
        if step:
            e.axiom(z3.Implies(t == 0, r(t, i) == i))
            e.axiom(z3.Implies(t >= 1, r(t, i) == r(t - 1, z3.If(i < self.AM(t - 1), i, i + 1))))
        # lemma:remaining-range
        e.axiom(z3.Implies(z3.And(t >= 0, t <= self.L, i >= 0, i < self.L - t), z3.And(r(t, i) >= 0, r(t, i) < self.L)))
        e.axiom(z3.Implies(z3.And(t >= 0, t < self.L), z3.And(self.AM(t) >= 0, self.AM(t) < self.L - t)))
        # lemma:remaining-distinct
        for s, j in self.asked[-4:]:
            if z3.eq(s, t) and not z3.eq(j, i):
                inr = lambda x: z3.And(x >= 0, x < self.L - t)
                e.axiom(z3.Implies(z3.And(t >= 0, t <= self.L, inr(i), inr(j), r(t, i) == r(t, j)), i == j))
        self.asked.append((t, i))
        return r(t, i)

    def mask(self, t, n, d):
        t, n, d = z_int(t), z_int(n), z_int(d)
        m = self._m
        self.e.axiom(z3.Implies(t == 0, z3.Not(m(t, n, d))))
        self.e.axiom(z3.Implies(t >= 1, m(t, n, d) == z3.Or(m(t - 1, n, d), self.pred(self._rem(t - 1, self.AM(t - 1)), n, d))))
        return m(t, n, d)

    def tp(self, s, t, l):
        """with the lemma counts-step"""
        f, g = self.count[s][-1], self.both[s][-1]
        p = z3.simplify(t - 1)
        a = self._rem(p, self.AM(p))
        for x in (g.total(p, a, l), g.total(p, l, a)):
            self.e.axiom(z3.Implies(z3.And(t >= 1, t <= self.L, l >= 0, l < self.L), f.total(t, l) == f.total(p, l) - x))
        self.e.axiom(f.total(t, l) >= 0)
        return f.total(t, l)

    def rate(self, t, l):
        a, b = z3.ToReal(self.tp(1, t, l)), z3.ToReal(self.tp(-1, t, l))
        return (a + 1) / (a + b + 2)

    def w(self, t, l):
        self.e.axiom(z3.Implies(t == 0, self._w(t, l) == z_real(self.e.at(self.lam0, [l]))))
        p = z3.simplify(t - 1)
        s = self._rem(p, self.AM(p))
        self.e.axiom(z3.Implies(t >= 1, self._w(t, l) == z3.If(l == s, self.rate(p, s), self._w(p, l))))
        return self._w(t, l)

    # ---- parameters at which counts of the code may be these counts
    def suggest(self):
        cols = lambda t: column_terms(t, ['F0', 'F1']) if isz(t) else []

        def at(t):
            ts = []
            for a in decl_args(t, 'Mask'):
                for o in (a[0], z3.simplify(a[0] + 1)):
                    if not any(z3.eq(o, x) for x in ts):
                        ts.append(o)
            return ts or [z3.IntVal(0)]
        for s in (1, -1):
            for lev, f in enumerate(self.count[s]):
                f.params_of = lambda t, lev=lev, f=f: self.rows(t, f, lev, [(m, c) for m in at(t) for c in cols(t)])
            for lev, f in enumerate(self.both[s]):
                f.params_of = lambda t, lev=lev, f=f: self.rows(t, f, lev, [(m, a, c) for m in at(t) for a in cols(t) for c in cols(t) if not z3.eq(a, c)])
            for lev, f in enumerate(self.left[s]):
                f.params_of = lambda t, lev=lev, f=f: self.rows(t, f, lev, [(m,) for m in at(t)])

    def rows(self, t, f, lev, ps):
        if lev == 1:
            # the term is the total of the row count at some parameters
            inner = {id(self.count[s][1]): self.count[s][0] for s in (1, -1)}
            inner.update({id(self.both[s][1]): self.both[s][0] for s in (1, -1)})
            inner.update({id(self.left[s][1]): self.left[s][0] for s in (1, -1)})
            out = []
            for a in decl_args(t, inner[id(f)].f.name()):
                p = tuple(a[:-2])
                if not any(all(z3.eq(x, y) for x, y in zip(p, o)) for o in out):
                    out.append(p)
            return out
        ns = []
        for a in decl_args(t, 'X'):
            if not any(z3.eq(a[0], o) for o in ns):
                ns.append(a[0])
        return [tuple(p) + (n,) for p in ps for n in ns]

    # ---- lemmas
    def lemmas(self):
        e, L = self.e, self.L
        sk = lambda nm: z3.Int(e.fresh_name(nm))
        t, l, i, n, d = sk('t'), sk('l'), sk('i'), sk('n'), sk('d')
        inr = lambda x, m: z3.And(x >= 0, x < m)
        am, r = self.AM, self._rem
        rng = z3.Implies(inr(t, L), inr(am(t), L - t))
        base = lambda tt, ii: z3.Implies(tt == 0, r(tt, ii) == ii)
        step = lambda ii: r(t + 1, ii) == r(t, z3.If(ii < am(t), ii, ii + 1))

        def prove(hyps, goal, name):
            e.push()
            for h in hyps:
                e.assume(h)
            e.prove(goal, 'lemma:' + name)
            e.pop()
        # the remaining dimensions are dimensions: induction over t
        z = z3.IntVal(0)
        prove([base(z, i), inr(i, L)], inr(r(z, i), L), 'remaining-range:0')
        j = z3.If(i < am(t), i, i + 1)
        prove([inr(t, L), rng, step(i), inr(i, L - t - 1), z3.Implies(inr(j, L - t), inr(r(t, j), L))], inr(r(t + 1, i), L), 'remaining-range:1')
        # counts after a step: pointwise, then for rows, then in total
        a = r(t, am(t))
        for s in (1, -1):
            f, g = self.count[s], self.both[s]
            e.push()
            for h in (inr(t, L), rng, inr(a, L), inr(l, L), inr(n, self.N), inr(d, self.D)):
                e.assume(h)
            self.mask(t + 1, n, d)
            for p in ((a, l), (l, a)):
                e.prove(f[0].term(t + 1, l, n, d) == f[0].term(t, l, n, d) - g[0].term(t, *p, n, d), 'lemma:counts-step:0')
            e.pop()
            e.push()
            for h in (inr(t, L), inr(l, L), inr(n, self.N)):
                e.assume(h)
            for p in ((a, l), (l, a)):
                e.assume(f[0].total(t + 1, l, n) == f[0].total(t, l, n) - g[0].total(t, *p, n))
                e.prove(f[1].term(t + 1, l, n) == f[1].term(t, l, n) - g[1].term(t, *p, n), 'lemma:counts-step:1')
            e.pop()
        # ranks: induction over t
        T, P = self.T, self.P
        self.inv_a = lambda t, l: z3.And(
            z3.Implies(T(t, l) < 0, z3.And(inr(P(t, l), L - t), r(t, P(t, l)) == l)),
            z3.Implies(T(t, l) >= 0, z3.And(T(t, l) < t, r(T(t, l), am(T(t, l))) == l, self._w(t, l) == self._rate(T(t, l), l))))
        inv_b = lambda t, l, i: z3.Implies(inr(i, L - t), z3.And(z3.Implies(T(t, l) >= 0, r(t, i) != l), z3.Implies(z3.And(T(t, l) < 0, r(t, i) == l), i == P(t, l))))
        start = lambda l: z3.And(T(0, l) == -1, P(0, l) == l)
        nxt = lambda t, l: z3.And(T(t + 1, l) == z3.If(T(t, l) >= 0, T(t, l), z3.If(P(t, l) == am(t), t, z3.IntVal(-1))),
                                  P(t + 1, l) == z3.If(P(t, l) < am(t), P(t, l), P(t, l) - 1))
        prove([inr(l, L), start(l), base(z, l)], self.inv_a(z, l), 'ranks:0')
        prove([inr(l, L), start(l), base(z, i)], inv_b(z, l, i), 'ranks:0')
        hyp = [inr(t, L), rng, inr(l, L), nxt(t, l), self.inv_a(t, l)]
        wstep = self._w(t + 1, l) == z3.If(l == a, self._rate(t, a), self._w(t, l))
        q = P(t + 1, l)
        prove(hyp + [step(q), inv_b(t, l, am(t)), wstep], self.inv_a(t + 1, l), 'ranks:1')
        prove(hyp + [step(i), inv_b(t, l, j)], inv_b(t + 1, l, i), 'ranks:1')
        # no dimension remains twice: with l the dimension at position d
        prove([inr(t, L + 1), inr(i, L - t), inr(d, L - t), l == r(t, i), l == r(t, d), inv_b(t, l, i), inv_b(t, l, d)], i == d, 'remaining-distinct')

    def _rate(self, t, l):
        f = z3.ToReal(self.count[1][-1].total(t, l))
        g = z3.ToReal(self.count[-1][-1].total(t, l))
        return (f + 1) / (f + g + 2)

    def ranked(self, l):
        """rank of l at the end, with the lemma ranks at t = L"""
        self.e.axiom(z3.Implies(z3.And(l >= 0, l < self.L), self.inv_a(self.L, l)))
        return self.T(self.L, l)

    # ---- the position step t removes is the one the code removes
    def bind(self, pos):
        e = self.e
        k = next((t for t, n in reversed(e.active) if n is not None and same(n, self.L)), e.steps[-1] if e.steps else None)
        # one removal in every iteration of one loop
        if k is None or k.get_id() in self.bound or self.home.setdefault('loop', e.loopstack[-1]) != e.loopstack[-1]:
            return
        self.bound[k.get_id()] = k
        e.prove(z3.And(pos >= 0, pos < self.L - k), 'ranking:position')
        j = z3.Int(e.fresh_name('other'))
        e.push()
        e.assume(z3.And(j >= 0, j < self.L - k))
        for t, rd, n in e.ghost.get('argmaxes', []):
            e.quiet += 1
            x, y = z_real(rd([j])), z_real(rd([t]))
            e.quiet -= 1
            e.assume(z3.Implies(j < z_int(n), x <= y))
        e.prove(self.rate(k, self.rem(k, j)) <= self.rate(k, self.rem(k, pos)), 'ranking:largest-fraction')
        e.pop()
        e.assume(self.AM(k) == pos)


def nested_count3(e, name, pdims, dims, term):
    inner = e.fold(name + '1', pdims + dims[:1], dims[1], lambda *a: term(*[z_int(x) for x in a]))
    outer = e.fold(name + '0', pdims, dims[0], lambda *a: inner.total(*a), kind='sum')
    outer.nonneg = True
    return [inner, outer]


def build(eng):
    fv = need(eng, MM, 'lbda_MAX_AND')
    eng.top = 'lbda_MAX_AND'
    home = {}

    def run(e):
        g = max_graph(e, 0)
        for a in g['arrs'] + [g['X']]:
            a.buf.ro = True
        lam, L = g['lbdas'], z_int(g['L'])
        parm = e.getattr(g['layer'], 'lbda')
        e.assume(L >= 1)
        e.cover('pre')
        before = freeze(e, g)
        K = Ranking(e, g, home)
        lam.buf.ro = False
        rest = lambda t: z3.simplify(L - t)
        e.lists += [('remaining', rest, lambda t, i: K.rem(t, i)), ('TP', rest, lambda t, i: K.tp(1, t, K.rem(t, i))), ('FP', rest, lambda t, i: K.tp(-1, t, K.rem(t, i)))]
        e.evolving += [([z3.simplify(L + 1)], lambda i, t: K.w(t, z_int(i[0]))), (list(g['dims']), lambda i, t: K.mask(t, *i))]
        e.removed.append(K.bind)
        e.inline(fv, [parm], {'K': 2})
        l = z3.Int(e.fresh_name('l'))
        e.assume(z3.And(l >= 0, l < L))
        lam = e.getattr(parm, 'val')
        apps.need_arr(e, 'post', lam, 1)
        e.prove(z_int(lam.shape[0]) == L + 1, 'post:dispersions:length')
        T = K.ranked(l)
        e.prove(z3.And(T >= 0, T < L, K.sigma(T) == l), 'post:every-dimension-ranked')
        e.prove(z_real(e.read(lam, [l])) == K.rate(T, l), 'post:dispersion')
        p, n = [z3.ToReal(K.left[s][-1].total(L)) for s in (1, -1)]
        e.axiom(z3.And(p >= 0, n >= 0))
        new = (p + 1) / (p + n + 2)
        last = z_real(e.read(lam, [L]))
        e.prove(z3.And(last > 0, last < 1), 'post:domain')
        e.prove(z3.And(last <= z_real(e.read(lam, [l])), last <= new), 'post:clamped')
        j = z3.Int('j')
        e.prove(z3.Or(last == new, z3.Exists([j], z3.And(j >= 0, j < L, last == K._w(L, j)))), 'post:clamped-value')
        lay = g['layer']
        now = snapshot(lam)
        now.buf.base = now.buf.content
        prove_array(e, e.getattr(lay, 'lbda_ratios'), [z3.IntVal(2), z3.simplify(L + 1), z3.simplify(L + 1)], None, ratio_spec(e, now), 'post:ratios')
        for (oid, k), v in before.items():
            w = e.objs[oid].attrs.get(k)
            if w is not v and (oid, k) not in [(parm.oid, 'val'), (lay.oid, 'lbda_ratios')]:
                e.prove(bool(isnum(w) and isnum(v) and e.valid(z_any(w) == z_any(v))), 'frame:attribute-%s' % k)
        e.cover('end')
    return run


Task('max:dispersions', ['C16', 'C07', 'C09'], build, contracts={(MM, 'compute_lbda_ratios'): ratios_contract, (OUT, 'OR_AND_product_expand'): expand_contract},
     route={'frame': ['C07', 'C16']}, opts={'timeout': 3000, 'rebound': True})
