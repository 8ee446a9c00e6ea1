"""C18: burn-in.  Ghost counters __n on matrices and dispersions count the calls of their sampling functions; V(n) is the value of a
dispersion after its n-th update.  What burn-in must do is stated where it acts: before every draw of a matrix (schedule of the
dispersion, number of updates, no draw after convergence or beyond the limit), at every convergence test (the trace is exactly the
current window), and at the end.  Termination: every iteration of a while loop draws, and draws are bounded."""
from .base import *
from .dispersion import nl_valid
from .samplers import graph, MACH, WR, LW
from pyded import npmodel
from pyded.loops import Partial

AUX = 'lom.auxiliary_functions'


def mod_facts(e, k, W):
    """instances of the arithmetic of k mod W (proved as task burnin:lemma)"""
    e.assume(z3.Implies(W >= 1, z3.And(k % W >= 0, k % W < W, (k - 1) % W >= 0, (k - 1) % W < W, k % W == z3.If((k - 1) % W == W - 1, z3.IntVal(0), (k - 1) % W + 1))))
    e.assume(z3.Implies(z3.And(W >= 1, k >= 0, k < W), k % W == k))


def lemma():
    def build(eng):
        need(eng, MACH, 'Machine.burn_in')
        eng.top = 'lemma'

        def run(e):
            k, W, q, r, a = z3.Ints('k W q r a')
            e.cover('pre')
            # k-1 = W q + r
            imp = lambda hs, c: z3.Implies(z3.And(*hs), c)
            base = [W >= 1, r >= 0, r < W, k - 1 == W * q + r]
            e.prove(imp(base + [r == W - 1], k == W * (q + 1)), 'lemma-step:wrap')
            e.prove(imp(base + [r != W - 1], z3.And(k == W * q + (r + 1), r + 1 < W, r + 1 >= 0)), 'lemma-step:next')
            # the representation is unique
            s, d = z3.Ints('s d')
            e.prove(nl_valid([W >= 1, d >= 1], W * d >= W), 'lemma-step:scale')
            scale = [z3.Implies(d >= 1, W * d >= W), z3.Implies(d <= -1, W * d <= -W), z3.Implies(d == 0, W * d == 0)]
            e.prove(imp([W >= 1, r >= 0, r < W, s >= 0, s < W, W * d == s - r] + scale, r == s), 'lemma-step:unique')
            e.cover('end')
        return run
    Task('burnin:lemma', ['C18'], build)


class State:
    def __init__(self, e, g, mats, lbdas, kw, anneal):
        self.e, self.g, self.mats, self.lbdas = e, g, mats, lbdas
        self.W, self.bmin, self.bmax, self.fix = [z_int(kw[n]) for n in ('convergence_window', 'burn_in_min', 'burn_in_max', 'fix_lbda_iters')]
        self.eps = kw['eps']
        self.anneal = anneal
        self.init = {l.oid: z_real(e.getattr(l, 'val')) for l in lbdas}
        self.V = {l.oid: z3.Function('V_' + l.oid, z3.IntSort(), z3.RealSort()) for l in lbdas}

    def n(self, o):
        return z_int(self.e.objs[o.oid].attrs['__n'])

    @property
    def T(self):
        return self.n(self.mats[0])

    def base(self):
        """updates of a dispersion in the first burn_in_min iterations"""
        return z3.IntVal(0) if self.anneal else z3.If(self.bmin > self.fix, self.bmin - self.fix, z3.IntVal(0))

    def updates(self, n):
        """updates of a dispersion in the first n iterations"""
        early = z3.IntVal(0) if self.anneal else z3.If(n > self.fix, n - self.fix, z3.IntVal(0))
        return z3.If(n <= self.bmin, early, self.base() + n - self.bmin)

    def value(self, l, n):
        """dispersion after n iterations"""
        u = self.updates(n)
        v = z3.If(u >= 1, self.V[l.oid](u), self.init[l.oid])
        if not self.anneal:
            return v
        a = z3.If(n == 0, self.init[l.oid], self.init[l.oid] / z3.ToReal(self.bmin) * z3.ToReal(n))
        return z3.If(n <= self.bmin, a, self.V[l.oid](u))

    def boundary(self, n):
        """is n the end of a window?"""
        k = n - self.bmin
        mod_facts(self.e, z3.simplify(k), self.W)
        return z3.And(k > 0, k % self.W == 0)

    def checked(self, l):
        o = self.e.objs[l.oid].attrs
        return z_int(o['__checked']), z_bool(o['__conv'])

    def converged(self, n):
        return z3.And(self.boundary(n), *[z3.And(c == n, v) for c, v in map(self.checked, self.lbdas)])

    def rejected(self, n):
        """convergence was tested after n iterations and not found, or a dimension was cleaned up"""
        return z3.Or(self.cleaned() == n, *[z3.And(c == n, z3.Not(v)) for c, v in map(self.checked, self.lbdas)])

    def cleaned(self):
        return z_int(self.e.objs[self.g['machine'].oid].attrs['__cleaned'])

    def all_cleaned(self, n):
        """every layer marked so was cleaned up after n iterations"""
        return z3.And(*[z_int(self.e.objs[l.oid].attrs['__cleaned_at']) == n for l in self.g['auto']])

    @property
    def limit(self):
        return z3.If(self.bmin >= self.bmax, self.bmin, self.bmax)

    def finished(self, n):
        """the redundant dimensions of layers with auto-reset were removed after n iterations"""
        return z3.And(*[z_int(self.e.objs[l.oid].attrs['__final']) == n for l in self.g['auto'] if self.e.objs[l.oid].attrs['auto_reset'] is True])

    def filled(self, n):
        """entries of the trace written since the current window began"""
        k = z3.simplify(n - self.bmin)
        mod_facts(self.e, k, self.W)
        return z3.If(k <= 0, z3.IntVal(0), (k - 1) % self.W + 1)


def sampled(st):
    def f(e, m):
        n = st.n(m)
        e.prove(z3.Or(n < st.bmin, n < st.bmax), 'limit', 'a draw beyond burn_in_max')
        for l in st.lbdas:
            # the dispersions are those after n iterations
            e.prove(st.n(l) == st.updates(n), 'updates', 'number of dispersion updates before this draw')
            e.prove(z_real(e.getattr(l, 'val')) == st.value(l, n), 'schedule', 'dispersion at this draw')
        e.prove(z3.Implies(z3.And(n >= st.bmin, st.boundary(n)), st.rejected(n)), 'continues', 'draws on after a window although no test failed')
        e.prove(z3.Implies(z3.And(n >= st.bmin, st.boundary(n), st.converged(n)), st.all_cleaned(n)), 'all-cleaned', 'draws on after convergence although a layer was not cleaned up')
        for m2 in st.mats:
            if m2 is not m:
                e.prove(z3.Or(st.n(m2) == n, st.n(m2) == n + 1), 'once', 'every matrix is drawn once per iteration')
        e.setattr(m, '__n', SV(z3.simplify(n + 1), 'int'))
    return f


def updated(st):
    def f(e, l):
        n = z3.simplify(st.n(l) + 1)
        e.setattr(l, 'val', SV(st.V[l.oid](n), 'f64'))
        e.setattr(l, '__n', SV(n, 'int'))
    return f


def check_contract(e, args, f):
    st = e.ghost['st']
    self, eps = args
    e.prove(any(self is l for l in st.lbdas), 'window:member')
    n = st.T
    e.prove(isnum(eps) and e.valid(z_real(eps) == z_real(st.eps)), 'window:eps')
    for m in st.mats:
        e.prove(st.n(m) == n, 'window:complete')
    e.prove(st.boundary(n), 'window:complete', 'convergence is tested inside a window')
    tr = e.objs[self.oid].attrs.get('trace')
    if not isinstance(tr, Arr) or tr.ndim != 1:
        e.prove(False, 'window:trace', 'trace %r' % (tr,))
    else:
        e.prove(z_int(tr.shape[0]) == st.W, 'window:length')
        i = z3.Int(e.fresh_name('i'))
        e.prove(z3.Implies(z3.And(i >= 0, i < st.W), z_real(e.read(tr, [i])) == st.V[self.oid](st.base() + n - st.bmin - st.W + i + 1)), 'window:values', 'the trace is not that of the current window')
    v = e.fresh('converged', 'bool')
    e.setattr(self, '__checked', SV(n, 'int'))
    e.setattr(self, '__conv', v)
    return v


def clean_contract(e, args, f):
    st = e.ghost['st']
    lay = args[0]
    e.prove(any(lay is l for l in st.g['layers']), 'pre:clean-up')
    a = e.getattr(lay, 'auto_clean')
    b = e.getattr(lay, 'auto_reset')
    e.prove(bool(a is True or b is True), 'pre:clean-up', 'a layer without auto-clean is cleaned up')
    args = list(args) + [True, False][len(args) - 1:]
    if args[1] is False and args[2] is True and b is True:
        # at the limit what an auto-reset could not free is removed
        e.prove(st.T == st.limit, 'pre:clean-up', 'dimensions are removed before the limit')
        e.setattr(lay, '__final', SV(st.T, 'int'))
        return e.fresh('removed', 'bool')
    e.prove(args[1] is b and args[2] is a, 'pre:clean-up', 'clean-up with the settings %r, %r' % tuple(args[1:3]))
    e.prove(st.converged(st.T), 'pre:clean-up', 'clean-up without convergence')
    e.setattr(lay, '__cleaned_at', SV(st.T, 'int'))
    v = e.fresh('cleaned', 'bool')
    mo = e.objs[st.g['machine'].oid]
    old = z_int(mo.attrs['__cleaned'])
    e.setattr(st.g['machine'], '__cleaned', SV(z3.If(v.t, st.T, old), 'int'))
    return v


def burn_task(tag, K, parents, fixed=(), lfixed=(), anneal=False, clean=False):
    def build(eng):
        need(eng, MACH, 'Machine.burn_in')
        eng.top = 'Machine.burn_in'

        def run(e):
            g = graph(e, 'OR-AND', K, 0, parents)
            m = g['machine']
            g['layers'] = [g['layer']] + [p[3] for p in g['parents']]
            mats = [f for l in g['layers'] for f in e.to_list(e.getattr(l, 'factors'))]
            lbdas = [e.getattr(l, 'lbda') for l in g['layers']]
            for i, o in enumerate(mats):
                e.setattr(o, 'trace_index', 0)
                e.getattr(o, 'val').buf.ro = True       # burn-in itself writes no matrix
            for i, o in enumerate(lbdas):
                e.setattr(o, 'trace_index', 0)
            for l in g['layers']:
                e.setattr(l, 'auto_clean', clean is True or clean == 'mixed' and l is not g['layer'])
                e.setattr(l, 'auto_reset', clean == 'reset' or clean == 'mixed' and l is g['layer'])
                e.setattr(l, '__cleaned_at', -1)
                e.setattr(l, '__final', -1)
            g['auto'] = g['layers'] if clean else []
            free = [o for i, o in enumerate(mats) if i not in fixed]
            frl = [o for i, o in enumerate(lbdas) if i not in lfixed]
            e.setattr(m, 'anneal', bool(anneal))
            kw = {}
            for n, k in (('eps', 'f64'), ('convergence_window', 'int'), ('burn_in_min', 'int'), ('burn_in_max', 'int'), ('print_step', 'int'), ('fix_lbda_iters', 'int')):
                kw[n] = e.fresh(n, k)
                e.inputs[n] = kw[n]
            e.assume(z3.And(kw['convergence_window'].t >= 2, kw['print_step'].t >= 1, kw['burn_in_min'].t >= 0, kw['fix_lbda_iters'].t >= 0))
            if anneal:
                kw['fix_lbda_iters'] = 0
                for l in frl:
                    e.assume(z_real(e.getattr(l, 'val')) > 0)
            st = State(e, g, free, frl, kw, anneal)
            e.ghost['st'] = st
            for o in free:
                e.setattr(o, '__n', 0)
            for o in frl:
                e.setattr(o, '__n', 0)
                e.setattr(o, '__checked', -1)
                e.setattr(o, '__conv', False)
            e.setattr(m, '__cleaned', -1)

            def fct(what, o):
                def call(e, *a):
                    e.prove(len(a) == 1 and isinstance(a[0], Obj) and a[0] is o, 'pre:sampling', 'the update function of another object is called')
                    what(e, o)
                return call
            for o in free:
                e.setattr(o, 'sampling_fct', fct(sampled(st), o))
            for o in frl:
                e.setattr(o, 'sampling_fct', fct(updated(st), o))
            # what the loops maintain
            e.clocks.append(('T', ('attr', free[0].oid, '__n')))
            x = e.extra_cands
            for o in free[1:]:
                x.append(('once:' + o.oid, lambda e, o=o: st.n(o) == st.T))
            x.append(('T>=0', lambda e: st.T >= 0))
            x.append(('T<=min', lambda e: st.T <= st.bmin))
            x.append(('T>=min', lambda e: st.T >= st.bmin))
            x.append(('T<=max', lambda e: z3.Or(st.T <= st.bmax, st.T <= st.bmin)))
            x.append(('cleaned', lambda e: st.cleaned() < st.T))
            for o in frl:
                x.append(('updates:' + o.oid, lambda e, o=o: st.n(o) == st.updates(st.T)))
                x.append(('value:' + o.oid, lambda e, o=o: z_real(e.objs[o.oid].attrs['val']) == st.value(o, st.T)))
                x.append(('index:' + o.oid, lambda e, o=o: z_int(e.objs[o.oid].attrs['trace_index']) == st.filled(st.T)))
                x.append(('checked:' + o.oid, lambda e, o=o: st.checked(o)[0] < st.T))

                def part(o=o):
                    ti, n = z_int(e.objs[o.oid].attrs['trace_index']), st.n(o)
                    return Partial(lambda ix: z3.And(z_int(ix[0]) >= 0, z_int(ix[0]) < ti), lambda ix: st.V[o.oid](n - ti + z_int(ix[0]) + 1))
                e.partials[('attr', o.oid, 'trace')] = part
            e.flags.append(('converged', lambda: st.converged(st.T)))
            before = {o.oid: e.getattr(o, 'val') for o in mats + [g['data']]}
            others = {o.oid: e.getattr(o, 'val') for i, o in enumerate(lbdas) if i in lfixed}
            e.cover('pre')
            e.call(e.getattr(m, 'burn_in'), [list(free), list(frl)], kw)
            T = st.T
            for o in free[1:]:
                e.prove(st.n(o) == T, 'post:once')
            e.prove(T >= st.bmin, 'post:minimum', 'fewer than burn_in_min iterations')
            e.prove(z3.Or(z3.And(T == st.limit, st.finished(T)), z3.And(st.converged(T), st.cleaned() != T, st.all_cleaned(T))), 'post:stops', 'stops before the limit without convergence or although a dimension was cleaned up')
            for o in frl:
                e.prove(st.n(o) == st.updates(T), 'post:updates')
                e.prove(z_real(e.getattr(o, 'val')) == st.value(o, T), 'post:value')
                ti = e.getattr(o, 'trace_index')
                e.prove(isnum(ti) and e.valid(z_int(ti) == 0), 'post:trace-index')
            for o in mats + [g['data']]:
                e.prove(e.getattr(o, 'val') is before[o.oid], 'frame:matrices', 'burn-in itself replaced a matrix')
            for o in lbdas:
                if o.oid in others:
                    e.prove(e.getattr(o, 'val') is others[o.oid], 'frame:fixed')
            e.cover('end')
        return run
    Task('burnin:' + tag, ['C18'], build, tier='thorough' if tag == '2d:parent:anneal' else 'quick', contracts={(MACH, 'Trace.check_convergence'): check_contract, (AUX, 'clean_up_codes'): clean_contract},
         route={'frame': ['C07', 'C18'] if tag in ('2d', '2d:fixed', '2d:parent:fixed', '2d:parent:anneal-fixed') else ['C18']}, opts={'peel': bool(anneal)})


lemma()
burn_task('2d', 2, [])
burn_task('3d', 3, [])
burn_task('2d:clean', 2, [], clean=True)
burn_task('2d:anneal', 2, [], anneal=True)
burn_task('2d:fixed', 2, [], fixed=(0,))
burn_task('2d:lbda-fixed', 2, [], lfixed=(0,))
burn_task('2d:parent', 2, ['XOR-AND'])
burn_task('2d:parent:fixed', 2, ['OR-NAND'], fixed=(1, 3), lfixed=(1,))
burn_task('2d:parent:anneal', 2, ['OR-NAND'], fixed=(1, 3), anneal=True)
burn_task('2d:parent:anneal-fixed', 2, ['OR-NAND'], fixed=(1, 2, 3), lfixed=(1,), anneal=True)
burn_task('2d:reset', 2, [], clean='reset')
burn_task('2d:parent:mixed', 2, ['OR-NAND'], fixed=(1, 3), clean='mixed')
burn_task('2d:parent:clean', 2, ['OR-NAND'], fixed=(1, 3), clean=True)


def convergence_task(nd):
    """check_convergence: the logistic functions of the means of the two halves of (each column of) the trace differ by less than eps"""
    def build(eng):
        need(eng, MACH, 'Trace.check_convergence')
        eng.top = 'Trace.check_convergence'

        def run(e):
            W, L = e.fresh('W', 'int').t, e.fresh('L', 'int').t
            e.assume(z3.And(W >= 2, L >= 1))
            o = e.call(need(e, MACH, 'MachineParameter'), [], {'val': e.fresh('lbda', 'f64')})
            tr = e.input_arr('trace', [W] if nd == 1 else [W, L], 'f32')
            tr.buf.ro = True
            e.setattr(o, 'trace', tr)
            eps = e.fresh('eps', 'f64')
            e.inputs['eps'] = eps
            h = W / 2
            pd = [] if nd == 1 else [L]
            at = lambda a, t: z_real(e.at(tr, [t] + [z_int(x) for x in a]))
            f1 = e.fold('first-half', pd, h, lambda *a: at(a[:-1], a[-1]), 'rsum')
            f2 = e.fold('second-half', pd, z3.simplify(W - h), lambda *a: at(a[:-1], h + a[-1]), 'rsum')

            def close(*a):
                r1, r2 = f1.total(*a) / z3.ToReal(h), f2.total(*a) / z3.ToReal(W - h)
                d = npmodel.ufunc(e, 'expit', SV(r1, 'f64')), npmodel.ufunc(e, 'expit', SV(r2, 'f64'))
                d = z_real(d[0]) - z_real(d[1])
                return z3.And(d < z_real(eps), -d < z_real(eps))
            if nd == 2:
                n = e.fold('columns', [], L, lambda l: z3.Not(close(l)), 'count')
            e.cover('pre')
            r = e.call(e.getattr(o, 'check_convergence'), [], {'eps': eps})
            if nd == 1:
                e.prove(z_bool(r) == close(), 'post')
            else:
                e.prove(z_bool(r) == (n.total() == 0), 'post')
            e.cover('end')
        return run
    Task('burnin:convergence:%d' % nd, ['C18'], build)


convergence_task(1)
convergence_task(2)
