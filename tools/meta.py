#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (developer tool; its outputs are committed)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, FZ, SC, MU, LU, MM = ['lom/_numba/%s.py' % x for x in ('lom_outputs', 'lom_outputs_fuzzy', 'posterior_score_fcts', 'matrix_updates_numba',
                                                           'lambda_updates_numba', 'max_machine_sampler')]
AUX, MACH, WR, LW, EXP = 'lom/auxiliary_functions.py', 'lom/machine.py', 'lom/matrix_update_wrappers.py', 'lom/lambda_update_wrappers.py', 'lom/experiments.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=True, note='', reason=''):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, claim, note, reason))


LEVEL = ('Deductive: every obligation is generated from the current AST of the functions in /repo and discharged by z3 for all sizes, values and '
         'iterations. Assumes the pyded VC generator, the numpy/builtin models, reals for floats, jit off (as the tests run). A bounded CPython '
         'cross-check of the same contract runs beside it and is not counted as proved. ')

prop('C01', 'Deterministic operator products compute their Boolean definition',
     'For each of the eight implemented logical operator models and for two or three equally long vectors with entries in {-1,1}, of any length, the deterministic '
     'scalar output function returns 1 if the outer operator over the latent dimensions, applied to the inner operator over the factors, is true, and -1 otherwise '
     '(1 encodes true; XOR is "exactly one argument is true", NAND and NXOR are the negations of AND and XOR). It modifies none of its arguments.',
     ['inputs', 'configurations'], 'all models, two or three factors, all lengths including 0 and beyond the int8 range, all contents',
     'The tests compare the functions on a few random vectors of one small length; counters that saturate, overflow or stop early show only at particular lengths and patterns.',
     [OUT], [('*_product, *_product_3d', OUT)], ['return values of the scalar output functions'])

prop('C02', 'Generated data is the model product of every combination of factor rows',
     'For every implemented model and two or three factor matrices sharing their latent dimension, the fast and the general data generators (and the Boolean tensor '
     'product for OR-AND) return an array whose entry at (n, d, ..) is the deterministic model output of the n-th row of the first factor, the d-th row of the second, and so on; '
     'both generators agree. The shape is given by the row counts, and the factors are not modified.',
     ['inputs', 'configurations'], 'all implemented models, all numbers of rows and latent dimensions, all contents; the general generator for all operator pairs',
     'The tests compare fast and general generation at one size with random factors; a wrong row or axis shows only for non-square shapes or special contents.',
     [LU, AUX], [('make_output_function_2d/_3d', LU), ('lom_generate_data, lom_generate_data_fast, boolean_tensor_product, get_lop', AUX)],
     ['lom_generate_data_fast', 'lom_generate_data', 'boolean_tensor_product'])

prop('C03', 'Probabilistic operator products are exact probabilities',
     'For each of the eight implemented models and two or three vectors of probabilities of any length, the fuzzy scalar output equals the probability that the deterministic output is 1 '
     'when all entries are independent with the given probabilities of being 1. In particular it lies in [0,1] and agrees with the deterministic product on 0/1 inputs. '
     'The fuzzy tensors made from two or three factor matrices contain these probabilities; the general implementation lom_generate_data_fuzzy yields 2 P - 1 for factors 2 p - 1, P being this probability, for every pair of the operators OR, NOR, AND, NAND, XOR and NXOR.',
     ['inputs', 'configurations'], 'all models, two or three factors, all lengths, all probabilities in [0,1]',
     'The tests compare a few random vectors against a Monte Carlo or crisp reference; an error in one summand or at boundary probabilities is invisible there.',
     [FZ, AUX], [('*_product_fuzzy, *_product_fuzzy_3d, p_XOR_fuzzy_3d', FZ), ('lom_generate_data_fuzzy, get_fuzzy_lop', AUX)], ['return values of the fuzzy output functions'])

prop('C04', 'Posterior scores equal the exact log-likelihood difference of a flip',
     'For each implemented model with two or three factors, the posterior score of latent entry l of a row is the sum over all data points of that row of the data value (0 for missing) times '
     'half the difference between the deterministic output with the entry set to 1 and with it set to -1, all other entries unchanged. It does not depend on the current value of the entry, '
     'is exact for any number of data points, and changes none of its arguments.',
     ['inputs', 'configurations'], 'all models, all row, factor and data contents, all sizes, all entries l',
     'The tests run whole sweeps on a few random matrices; a wrong early exit, a missed latent dimension or an overflow shifts single scores, which averages hide.',
     [SC], [('posterior_score_*_2D, posterior_score_*_3D', SC)], ['return values of the posterior score functions'])

prop('C05', 'Single-entry updates follow the (metropolised) Gibbs rule',
     'Given the logit t of the conditional probability of 1 and a current value z in {-1,1}, the metropolised update flips z always if flipping does not lower the probability, and otherwise with probability '
     'exp(-z t), using at most one uniform draw; given a probability p the plain Gibbs update returns 1 with probability p and -1 otherwise, and the probability-based metropolised update flips with probability '
     'min(1, q/(1-q)), q being the probability of the other value. The result is always -1 or 1.',
     ['inputs'], 'all logits, probabilities, current values and uniform draws',
     'The tests see only long-run averages of few chains, where a wrong acceptance at particular logits is invisible.',
     [MU], [('flip_metropolised_gibbs_numba, flip_gibbs_numba, flip_metropolised_gibbs_numba_classic', MU)], ['flip functions under a fixed stream of uniforms'])

exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read())

seen = set()
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        assert d['id'] not in seen and len(d['title']) <= 80, (d['id'], len(d['title']))
        seen.add(d['id'])
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, claim, note, reason in P:
    if claim:
        checks.append({'property': d['id'], 'quick_cmd': 'python3-vt run.py %s quick' % d['id'], 'thorough_cmd': 'python3-vt run.py %s thorough' % d['id'],
                       'technique': 'contract-based deductive verification (VCs from the Python AST of /repo, z3)', 'level': 'proof', 'level_note': LEVEL + note})
    else:
        na.append({'property': d['id'], 'reason': reason})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && python3-vt -m compileall -q pyded contracts oracle run.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts live beside the code in /verif/contracts and are checked against the AST of the current source on every run.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
