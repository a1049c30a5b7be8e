"""C21: regressions, linear systems and interpolation solve the equations they are given (derived.py)."""
import derived
import shaperun
from checks.c19 import anchor_of

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('With the observations as unknowns and an enumerated matrix of regressors, every reported quantity is an expression in the '
             'observations; at each enumerated size it must be the one of the definition: solution of the system, coefficients of the normal '
             'equations, residuals, variance, covariance, standard errors, sums of squares, criteria, interpolated value.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, derived.regressions(deep), derived.Derived, 20000000, 850 if deep else 600)
    shaperun.report(rep, 'C21', res, rest, anchor_of(ctx.m))
