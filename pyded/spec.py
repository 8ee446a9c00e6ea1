"""Mathematical specification vocabulary: the boolean operator products, written from the documentation, not the code."""
import z3
from .values import *

OPS = ['OR', 'NOR', 'AND', 'NAND', 'XOR', 'NXOR']
MODELS = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-NAND', 'XOR-XOR', 'XOR-NXOR']


def inner(model, xs):
    """inner operator over the factors' entries of one latent dimension (entries in {-1,1}; 1 is true)"""
    op = model.split('-')[1]
    ones = [x == 1 for x in xs]
    if op in ('AND', 'NAND'):
        r = z3.And(*ones)
    elif op in ('OR', 'NOR'):
        r = z3.Or(*ones)
    else:       # XOR of K arguments: exactly one is true
        r = z3.Sum([z3.If(o, z3.IntVal(1), z3.IntVal(0)) for o in ones]) == 1
    return z3.Not(r) if op in ('NAND', 'NXOR', 'NOR') else r


def counted(model):
    """(negate, outer): the outer operator as a predicate on the number of latent dimensions where the inner value
    (negated if requested) is true: NAND(b_1..b_L) = some b_l is false"""
    o = model.split('-')[0]
    if o == 'OR':
        return False, 'ge1'
    if o == 'XOR':
        return False, 'eq1'
    if o == 'NAND':
        return True, 'ge1'
    if o == 'AND':
        return True, 'eq0'
    if o == 'NOR':
        return False, 'eq0'
    if o == 'NXOR':
        return False, 'ne1'
    raise ValueError(model)


def cterm(model, xs):
    neg, _ = counted(model)
    b = inner(model, xs)
    if neg:
        b = z3.Not(b)
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def outer(model, cnt):
    _, o = counted(model)
    b = {'ge1': cnt >= 1, 'eq1': cnt == 1, 'eq0': cnt == 0, 'ne1': cnt != 1}[o]
    return z3.If(b, z3.IntVal(1), z3.IntVal(-1))


def smul(x, t):
    """x * t for t in {-1,0,1} as a case split"""
    return z3.If(t == 1, x, z3.If(t == -1, -x, z3.IntVal(0)))


def flip_gain(model, cnt_rest, on, off):
    """(Out(cnt_rest + on) - Out(cnt_rest + off)) / 2"""
    a, b = outer(model, cnt_rest + on), outer(model, cnt_rest + off)
    return z3.If(z3.And(a == 1, b == -1), z3.IntVal(1), z3.If(z3.And(a == -1, b == 1), z3.IntVal(-1), z3.IntVal(0)))


def inner_prob(model, xs):
    """probability that the counted inner value is true when the entries are independently true with probabilities xs"""
    op = model.split('-')[1]
    one = z3.RealVal(1)
    if op in ('AND', 'NAND'):
        p = xs[0]
        for x in xs[1:]:
            p = p * x
    else:
        p = z3.RealVal(0)
        for i in range(len(xs)):
            t = xs[i]
            for j in range(len(xs)):
                if j != i:
                    t = t * (one - xs[j])
            p = p + t
    if op in ('NAND', 'NXOR'):
        p = one - p
    neg, _ = counted(model)
    return one - p if neg else p
