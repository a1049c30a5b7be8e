"""C22: the recursions of a model and the seasonal decomposition do what they are named for (derived.py)."""
import derived
import shaperun
from checks.c19 import anchor_of

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('With the inputs as unknowns every result is an expression in them; it must be that of the definition: the weights of the ARMA '
             'expansion, the coefficients of given partial correlations and back, the power transform and back, and for the STL decomposition '
             'components that add up to the series and reproduce a line and a periodic pattern exactly.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, derived.recursions(deep) + derived.decompositions(deep), derived.Derived, 20000000, 850 if deep else 600)
    shaperun.report(rep, 'C22', res, rest, anchor_of(ctx.m))
