"""what the verdicts rest on"""
TRUSTED = ['pyded VC generator (/verif/pyded, Python AST to z3 terms; validated by mutation tests and the CPython cross-check)',
           'z3 5.3.2', 'the numpy/math/scipy/builtin models in pyded/npmodel.py', 'CPython semantics of the supported subset']
ASSUMPTIONS = {
    '*': ['numba decorators are treated as identity, as the test suite runs (NUMBA_DISABLE_JIT=1); prange bodies additionally carry race-freedom obligations',
          'float64 arithmetic is treated as real arithmetic; int8..int64 arithmetic is exact with overflow obligations',
          'np.random draws are modelled as arbitrary reals of their documented range (uniform in [0,1)); their distribution is not verified',
          'printing is treated as free of effects'],
}
