"""C16: the automatic search stays inside its limits and returns the best of what it tried. The shape interpreter with enumerated
candidate criteria (search.py)."""
import search
import shaperun

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('At every enumerated configuration and environment of candidate criteria: each candidate lies inside the limits and options of '
             'the object, the exhaustive search tries every combination, the stepwise search stops at a model all of whose neighbours it '
             'has tried, the model returned is the one with the lowest criterion among those that did not fail, refitted exactly after an '
             'approximate search; failed candidates and candidates with roots near the unit circle get the worst criterion; the number of '
             'differences follows the test outcomes.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, search.programs(deep), search.Search, 20000000 if deep else 6000000, 800 if deep else 600)
    m = ctx.m

    def anchor(what):
        fn = m.fns.get(what.split(':')[0].split(' ')[0])
        return m.loc(fn) if fn is not None else what.split(':')[0]
    shaperun.report(rep, 'C16', res, rest, anchor)
