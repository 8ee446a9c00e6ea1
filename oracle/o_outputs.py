"""C02 and array outputs of C03"""
from .base import *
import lom.auxiliary_functions as AUX
import lom._numba.lambda_updates_numba as LU

OPS = ['OR', 'NOR', 'AND', 'NAND', 'XOR', 'NXOR']


def dims_case(r, deep, hints, K):
    d = [int([0, 1, 1, 2, 3, 4][r.randint(6)]) for _ in range(K)]
    L = int([0, 1, 1, 2, 2, 3, 4, 5][r.randint(8)])
    k = r.randint(12)
    ext = [17, 40, 130] + ([s for s in hints.get('ints', []) if 0 <= s <= 3000] if deep else [])
    if k == 0:
        d = [min(x, 2) for x in d]
        d[r.randint(K)] = int(ext[r.randint(len(ext))])
    elif k == 1:
        d = [min(x, 2) for x in d]
        L = int([127, 128, 130, 256][r.randint(4)] if not deep else ext[r.randint(len(ext))])
    return d, L


def patterned(r, shapes, L, pat):
    if pat == 0:
        p = density(r)
        return [pm(r, (d, L), p) for d in shapes]
    if pat == 1:
        return [pm(r, (d, L), density(r)) for d in shapes]
    if pat == 2:      # few counted dimensions
        return [pm(r, (d, L), min(1, (1.5 / max(1, L)) ** (1 / len(shapes)))) for d in shapes]
    fs = [pm(r, (d, L), [.97, 1][r.randint(2)]) for d in shapes]
    return fs


@oracle('C02')
class Generators:
    def cases(self, r, deep, hints):
        while True:
            K = int(2 + r.randint(2))
            d, L = dims_case(r, deep, hints, K)
            m = MODELS[r.randint(8)] if r.randint(4) else OPS[r.randint(6)] + '-' + OPS[r.randint(6)]
            yield {'m': m, 'dims': d, 'L': L, 'pat': int(r.randint(4)), 'dt': int(r.randint(3)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        fs = patterned(r, c['dims'], c['L'], c['pat'])
        want = np_lom(c['m'], fs)
        fs = [f.astype([np.int8, np.int64, np.int8][c['dt']]) for f in fs]
        if c['dt'] == 2:
            fs = [np.asfortranarray(f) for f in fs]
        todo = [('lom_generate_data_fast', fn(AUX, 'lom_generate_data_fast'), (fs, c['m']))]
        if int(np.prod(c['dims'])) * c['L'] < 3000:
            todo.append(('lom_generate_data', fn(AUX, 'lom_generate_data'), (fs, c['m'])))
        if c['m'] == 'OR-AND' and len(fs) == 3:
            todo.append(('boolean_tensor_product', lambda a, b, d: 2 * fn(AUX, 'boolean_tensor_product')(a, b, d).astype(int) - 1, [f == 1 for f in fs]))
        if c['m'] in MODELS:
            mk = LU.make_output_function_2d if len(fs) == 2 else LU.make_output_function_3d
            todo.append((mk.__name__, mk(c['m']), [f.astype(np.int8) for f in fs]))
        for name, f, args in todo:
            keep = [x.copy() for x in fs]
            got = np.asarray(f(*args))
            if any((a != b).any() for a, b in zip(keep, fs)):
                return '%s changed a factor' % name
            if got.shape != want.shape:
                return '%s: shape %s, wanted %s' % (name, got.shape, want.shape)
            if (got.astype(float) != want).any():
                at = tuple(int(i) for i in np.argwhere(got.astype(float) != want)[0])
                return '%s(%s, %s): entry %s is %s, the model product of the rows %s is %d' % (
                    name, [x.shape for x in fs], c['m'], at, got[at], [x[i].tolist()[:30] for x, i in zip(fs, at)], want[at])


@oracle('C03')
class FuzzyArrays:
    def cases(self, r, deep, hints):
        while True:
            K = int(2 + r.randint(2))
            d, L = dims_case(r, False, {}, K)
            m = MODELS[r.randint(8)] if r.randint(3) else OPS[r.randint(6)] + '-' + OPS[r.randint(6)]
            yield {'m': m, 'dims': [min(x, 5) for x in d], 'L': min(L, 6), 'pat': int(r.randint(3)), 'seed': int(r.randint(2 ** 30))}

    def check(self, c):
        r = rs(c)
        fs = [r.random_sample((d, c['L'])) for d in c['dims']]
        if c['pat']:
            fs = [np.round(f * (3 - c['pat'])) / (3 - c['pat']) for f in fs]
        mk = LU.make_output_function_2d_fuzzy if len(fs) == 2 else LU.make_output_function_3d_fuzzy
        todo = [('lom_generate_data_fuzzy, mapped to [0,1]', lambda a, b: (np.asarray(fn(AUX, 'lom_generate_data_fuzzy')(a, b)) + 1) / 2., ([2 * f - 1 for f in fs], c['m']))]
        if c['pat'] == 2:
            todo.append(('lom_generate_data_fuzzy, mapped to [0,1]', todo[0][1], ([(2 * f - 1).astype(np.int8) for f in fs], c['m'])))
        if c['m'] in MODELS:
            todo += [(mk.__name__, mk(c['m']), fs), ('lom_generate_data_fast', fn(AUX, 'lom_generate_data_fast'), (fs, c['m'], True))]
        for name, f, args in todo:
            keep = [x.copy() for x in fs]
            got = np.asarray(f(*args))
            if any((a != b).any() for a, b in zip(keep, fs)):
                return '%s changed a factor' % name
            if got.shape != tuple(c['dims']):
                return '%s: shape %s, wanted %s' % (name, got.shape, c['dims'])
            for at in np.ndindex(*c['dims']):
                w = p_lom(c['m'], [x[i] for x, i in zip(fs, at)])
                if not close(got[at], w, 1e-8):
                    return '%s(%s): entry %s is %r, the probability is %r' % (name, c['m'], at, float(got[at]), w)
