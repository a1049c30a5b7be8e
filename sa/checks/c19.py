"""C19: the transforms compute what they are named for and undo one another. The shape interpreter with the data as unknowns and the
results as polynomials in them (linear.py)."""
import linear
import shaperun

LEVEL = 'other'


def anchor_of(m):
    def anchor(what):
        fn = m.fns.get(what.split(':')[0].split(' ')[0])
        return m.loc(fn) if fn is not None else what.split(':')[0]
    return anchor


def run(ctx, rep):
    rep.rule('With the data as unknowns, every element of the result of a transform is a polynomial in them; at each enumerated length, order '
             'and option it must equal the polynomial of the definition (discrete Fourier transform, convolution sum, weighted average, '
             'difference operator, matrix product, ...), and for the wavelet transforms the inverse of the forward must be the data.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, linear.transforms(deep), linear.Linear, 20000000, 850 if deep else 600)
    shaperun.report(rep, 'C19', res, rest, anchor_of(ctx.m))
