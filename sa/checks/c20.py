"""C20: correlations, moments and spectra follow their definitions, by the same polynomial interpretation as C19."""
import derived
import linear
import shaperun
from checks.c19 import anchor_of

LEVEL = 'other'


def programs(deep):
    return linear.statistics(deep) + derived.estimators(deep)


def run(ctx, rep):
    rep.rule('With the data as unknowns, mean, variance, autocovariance (both estimators), autocorrelation, partial '
             'autocorrelation, Yule-Walker and Burg coefficients, long-run variance and periodogram are expressions in them; at each '
             'enumerated length and lag they must equal the definition, as identities.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, programs(deep), derived.Derived, 20000000, 850 if deep else 600)
    shaperun.report(rep, 'C20', res, rest, anchor_of(ctx.m))
