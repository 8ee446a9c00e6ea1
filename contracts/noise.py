"""C15: noise functions.  Every uniform draw is named by the point of the program and the loop indices at which it is made
(npmodel.draw_fn); the result is proved to negate exactly the entries whose own draw - one of these names at the entry's own
index tuple - is below the entry's flip probability."""
import itertools
from .base import *

AUX = 'lom.auxiliary_functions'


def noise_task(name, K, kind, biased, with_seed):
    def build(eng):
        fv = need(eng, AUX, name)
        eng.top = name

        def run(e):
            dims = []
            for i in range(K):
                d = e.fresh('D%d' % i, 'int').t
                e.assume(d >= 0)
                dims.append(d)
            X = e.input_arr('X', dims, kind, *((0, 1) if kind == 'b1' else (-1, 1)))
            X.buf.ro = True
            ps = [e.fresh(n, 'float') for n in (('p_plus', 'p_minus') if biased else ('p',))]
            args = [X] + ps
            if with_seed is not None:
                sd = None
                if with_seed:
                    sd = e.fresh('seed', 'int')
                    e.assume(z3.And(sd.t >= 0, sd.t < 2 ** 32))
                    e.ghost['seed_arg'] = sd
                args.append(sd)

            def want(ix, u):
                x = e.at(X, ix)
                if kind == 'b1':
                    return z3.Xor(z_bool(x), u < z_real(ps[0]))
                x = z_int(x)
                p = z3.If(x == 1, z_real(ps[0]), z_real(ps[1])) if biased else z_real(ps[0])
                return z3.If(u < p, -x, x)
            ws = []
            for key, f in sorted(e.drawfns.items(), key=lambda kv: str(kv[1])):
                if key[2] + key[3] != K:
                    continue
                for pm in itertools.permutations(range(K)):
                    w = lambda ix, f=f, pm=pm: want(ix, f(*[z_int(ix[j]) for j in pm]))
                    ws.append(w)
                    e.targets.append((tuple(dims), w, ()))
            e.cover('pre')
            r = e.inline(fv, args, {})
            if not isinstance(r, Arr) or r.ndim != K:
                e.prove(False, 'post:shape', 'result %r' % (r,))
                return
            for a, b in zip(r.shape, dims):
                e.prove(z_int(a) == b, 'post:shape')
            e.prove(r.buf is not X.buf, 'post:copy', 'the result is the input array')
            e.prove(r.k == kind, 'post:dtype', r.k)
            ix = [z3.Int(e.fresh_name('ix')) for _ in dims]
            e.assume(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, dims)]))
            t = e.read(r, ix)
            e.cover('end')
            gs = []
            for w in ws:
                g = w(ix)
                g = (z_bool(t) == g) if z3.is_bool(g) else (z_int(t) == g)
                gs.append(g)
                if e.valid(g):
                    e.prove(g, 'post:own-draw')
                    return
            e.prove(gs[0] if gs else False, 'post:own-draw', 'no draw decides an entry, for every entry')
        return run
    Task('%s:%s%s' % (name, kind, {None: '', True: ':seed', False: ':noseed'}[with_seed]), ['C15'], build, route={'frame': ['C15']}, opts={'draws': True})


noise_task('add_bernoulli_noise', 3, 'b1', False, None)
for _s in (True, False):
    for _k in ('i8', 'i64'):
        noise_task('add_bernoulli_noise_2d', 2, _k, False, _s)
        noise_task('add_bernoulli_noise_2d_biased', 2, _k, True, _s)
