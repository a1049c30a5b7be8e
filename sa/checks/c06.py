"""C06: every result is computed. Same interpretation as C05, looking at the result arrays and fields afterwards."""
import shaperun
import shapes

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('At every enumerated shape (orders, lengths, options constant; data unknown): after the operation every element of every '
             'result has been assigned by that operation, and no test and no result depends on memory nothing has written.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.run(ctx, shapes.programs(deep), 20000000 if deep else 6000000, 800 if deep else 600)
    fns = set()
    for label, stop, ev, acc, dec, st, fs, results, t in res:
        rep.count('programs')
        fns |= fs
        mine = [e for e in ev if e[0] in ('missing', 'poison', 'unwritten')]
        rep.obligations += results
        rep.discharged += results - len(mine)
        rep.count('result_elements', results)
        for kind, fn, where, text, stack in mine:
            rep.bad('C06|%s|%s' % (kind, fn if kind == 'missing' else fn + '|' + text.split(': ')[0].split('[')[0]),
                    where or fn, kind, '%s (in %s)' % (text, label), stack[::-1])
        if len(rep.samples) < 12 and results and not mine:
            rep.samples.append('%s: %d result elements computed' % (label, results))
        if stop:
            rep.undecided.append('%s: %s' % (label, stop))
    rep.undecided += ['%s: not reached in the time budget' % l for l in rest]
    rep.counts['functions_reached'] = len(fns)
    rep.notes.append('malloc succeeds; arrays passed by the caller have exactly the documented extents')
