"""C05: every access stays inside its block.

Every public operation is interpreted abstractly at enumerated shapes: orders, lengths, options are constants, the data is unknown.
Addresses, sizes and loop counts are then constants, and each load, store and block copy is compared with the extent of the block
it is made in. An access inside a loop whose iteration count depends on the data is only judged where its offset is still constant
once the loop has been analysed to a fixpoint."""
import shaperun
import shapes

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('At every enumerated shape (orders, lengths, options constant; data unknown) each load, store, copy, sort and allocation '
             'of every function reached has an offset inside, and a size of, the block it addresses.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.run(ctx, shapes.programs(deep), 20000000 if deep else 6000000, 800 if deep else 600)
    sites, fns = set(), set()
    for label, stop, ev, acc, dec, st, fs, results, t in res:
        rep.count('programs')
        rep.count('accesses', acc)
        rep.count('accesses_decided', dec)
        sites |= st
        fns |= fs
        mine = [e for e in ev if e[0] in ('bounds', 'size')]
        rep.obligations += len(st)
        rep.discharged += len(st) - len(mine)
        for kind, fn, where, text, stack in mine:
            rep.bad('C05|%s|%s|%s' % (kind, fn, text.split(' at offset')[0] + (' ' + text[text.index(' of ') + 4:] if ' of ' in text else '')),
                    where, 'inside the block', '%s: %s (in %s)' % (fn, text, label), stack[::-1])
        if stop:
            rep.undecided.append('%s: %s' % (label, stop))
    rep.undecided += ['%s: not reached in the time budget' % l for l in rest]
    rep.counts['access_sites'] = len(sites)
    rep.counts['functions_reached'] = len(fns)
    rep.samples = sorted(sites)[::max(1, len(sites) // 12)][:12]
    rep.notes.append('malloc succeeds; arrays passed by the caller have exactly the documented extents')
