from . import scalars, fuzzy, outputs, samplers, dispersion, equiv, ql, noise, infer, layers, maxm, burn, splits, clean, ibp, maxdisp, experiments
