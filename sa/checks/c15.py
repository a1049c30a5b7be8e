"""C15: estimation, results and forecasts use one model equation. The shape interpreter with named data (model.py)."""
import model
import shaperun

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('At every enumerated shape, for all data and coefficients: what the likelihood filter, the CSS sum, the forecasting filter '
             'and the forecast are computed from equals, as polynomials in the data and the coefficients of the object, the terms of '
             'phi(B)PHI(B^s)(1-B)^d(1-B^s)^D(y - regression - drift t - mean) = theta(B)THETA(B^s)e.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, model.programs(deep), model.Model, 20000000 if deep else 6000000, 800 if deep else 600)
    m = ctx.m

    def anchor(what):
        fn = m.fns.get(what.split(':')[0].split(' ')[0])
        return m.loc(fn) if fn is not None else what.split(':')[0]
    shaperun.report(rep, 'C15', res, rest, anchor)
    rep.notes.append('generic coefficients and data: an expression that is not identically zero is taken as not zero')
