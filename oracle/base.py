"""Bounded concrete replay of the contracts on the real code, under CPython with the jit off (as the tests run it).

Used (a) as a CPython cross-check of every contract on each run, labelled bounded and never counted as proved, and
(b) to turn a failed obligation into a failing input.  A case is a small JSON dict; check(case) rebuilds its inputs
deterministically and returns None or a message saying what the contract required and what the code did."""
import io
import contextlib
import hashlib
import os
import sys
import numpy as np

MODELS = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-NAND', 'XOR-XOR', 'XOR-NXOR']
REGISTRY = {}

_orig = {n: getattr(np.random, n) for n in ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform') if hasattr(np.random, n)}


class Skip(Exception):
    """the function a case addresses is not there under that name: nothing to replay"""


def fn(mod, name):
    f = getattr(mod, name, None)
    if f is None:
        raise Skip(name)
    return f


class Uniforms:
    """scripted stream of uniform draws; None = the real generator"""

    def __init__(self):
        self.source = None
        self.count = 0

    def one(self):
        self.count += 1
        return float(self.source())

    def draw(self, shape):
        if not shape:
            return self.one()
        n = int(np.prod(shape))
        return np.array([self.one() for _ in range(n)], dtype=float).reshape(shape)


U = Uniforms()


def _size(size):
    if size is None:
        return ()
    return tuple(size) if hasattr(size, '__iter__') else (int(size),)


def _patch():
    def rand(*s):
        return _orig['rand'](*s) if U.source is None else U.draw(s)

    def mk(name):
        def f(size=None):
            return _orig[name](size) if U.source is None else U.draw(_size(size))
        return f

    def uniform(low=0.0, high=1.0, size=None):
        if U.source is None:
            return _orig['uniform'](low, high, size)
        return low + (high - low) * U.draw(_size(size))
    np.random.rand = rand
    for n in ('random', 'random_sample', 'ranf', 'sample'):
        if n in _orig:
            setattr(np.random, n, mk(n))
    np.random.uniform = uniform


_patch()


@contextlib.contextmanager
def uniforms(src):
    """src: constant, list (cycled) or callable"""
    if callable(src):
        f = src
    elif isinstance(src, (list, tuple)):
        it = {'i': -1}

        def f():
            it['i'] += 1
            return src[it['i'] % len(src)]
    else:
        def f():
            return src
    old, U.source, U.count = U.source, f, 0
    try:
        yield U
    finally:
        U.source = old


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def rs(case, *extra):
    h = hashlib.sha256(repr((case.get('seed', 0),) + extra).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], 'little'))


def relayout(r, a):
    """the same contents in a memory layout picked at random: row-major (mostly), column-major, strided or reversed view"""
    k = r.randint(8)
    if a.ndim == 0 or k > 2:
        return a
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), dtype=a.dtype)[..., 1::2]
        b[...] = a
        return b
    return np.ascontiguousarray(a[::-1])[::-1]


def pm(r, shape, p=.5):
    """+-1 array with density p"""
    return relayout(r, np.where(r.random_sample(shape) < p, 1, -1).astype(np.int8))


def data(r, shape, p=.5, miss=.2):
    x = np.where(r.random_sample(shape) < p, 1, -1).astype(np.int8)
    x[r.random_sample(shape) < miss] = 0
    return relayout(r, x)


def density(r):
    return [.5, .5, .3, .1, .02, .9, 1.0, 0.0][r.randint(8)]


# ------------------------------------------------------------- reference semantics (independent of the repository)
def op(name, bits):
    s = sum(bits)
    n = len(bits)
    return {'OR': s > 0, 'NOR': s == 0, 'AND': s == n, 'NAND': s != n, 'XOR': s == 1, 'NXOR': s != 1}[name]


def lom(model, vecs):
    """deterministic output in {-1,1} of K vectors"""
    o, i = model.split('-')[:2]
    L = len(vecs[0])
    inner = [op(i, [int(v[l]) == 1 for v in vecs]) for l in range(L)]
    return 1 if op(o, inner) else -1


def np_inner(model, vecs):
    """vectorised inner operator over broadcast boolean arrays"""
    i = model.split('-')[1]
    s = sum((v == 1).astype(np.int64) for v in vecs)
    n = len(vecs)
    return {'OR': s > 0, 'NOR': s == 0, 'AND': s == n, 'NAND': s != n, 'XOR': s == 1, 'NXOR': s != 1}[i]


def np_outer(name, cnt, L):
    return {'OR': cnt > 0, 'NOR': cnt == 0, 'AND': cnt == L, 'NAND': cnt != L, 'XOR': cnt == 1, 'NXOR': cnt != 1}[name]


def np_lom(model, factors):
    """deterministic output tensor in {-1,1} of K factor matrices, vectorised"""
    K = len(factors)
    L = factors[0].shape[1]
    shape = [f.shape[0] for f in factors]
    cnt = np.zeros(shape, dtype=np.int64)
    for l in range(L):
        vs = [f[:, l].reshape([-1 if j == k else 1 for j in range(K)]) for k, f in enumerate(factors)]
        cnt += np_inner(model, [np.broadcast_to(v, shape) for v in vs])
    return np.where(np_outer(model.split('-')[0], cnt, L), 1, -1)


def p_op(name, ps):
    none = float(np.prod([1 - p for p in ps]))
    alll = float(np.prod(ps))
    one = float(sum(p * np.prod([1 - q for j, q in enumerate(ps) if j != i]) for i, p in enumerate(ps)))
    return {'OR': 1 - none, 'NOR': none, 'AND': alll, 'NAND': 1 - alll, 'XOR': one, 'NXOR': 1 - one}[name]


def p_lom(model, vecs):
    o, i = model.split('-')[:2]
    L = len(vecs[0])
    return p_op(o, [p_op(i, [float(v[l]) for v in vecs]) for l in range(L)])


def close(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1, abs(float(b)))


def oracle(prop):
    def d(cls):
        REGISTRY.setdefault(prop, []).append(cls())
        return cls
    return d
