"""Ownership of heap memory: path-sensitive abstract heap over the whole library and its client programs."""
from checks import heapcommon

LEVEL = 'other'


def run(ctx, rep):
    rep.rule('Abstract interpretation of every function reachable from the public API, with one state per distinguishable heap shape '
             '(allocated, released, handed over; null, uninitialised, pointing to), integer facts along each path and summaries of '
             'callees: every allocation is released or handed over on every return, every release is of a live block at its '
             'start, nothing released or null is used. Client programs (sa/client.c) cover create/configure/estimate/forecast/'
             'summarise/free sequences on each model object, including repeated estimation and objects never estimated.')
    m, H, reach, clients = heapcommon.analyse(ctx, rep)
    bad = heapcommon.findings(rep, m, H, reach, 'C04', heapcommon.OWN)
    alloc = free = 0
    for n in sorted(reach):
        for b in m.fns[n].blocks.values() if isinstance(m.fns[n].blocks, dict) else m.fns[n].blocks:
            for i in b.ins:
                if i.op == 'call' and i.x[0][0] == 'g':
                    t = i.x[0][1][1:]
                    kind = 'allocation' if t in ('malloc', 'calloc', 'realloc') else 'release' if t == 'free' else None
                    if kind is None:
                        continue
                    alloc += kind == 'allocation'
                    free += kind == 'release'
                    rep.obligations += 1
                    rep.discharged += 1
                    if rep.obligations % 97 == 1:
                        rep.samples.append('%s in %s [%s]' % (kind, n, m.loc(i)))
    rep.count('allocation_sites', alloc)
    rep.count('release_sites', free)
    rep.need(alloc > 300 and free > 300, 'only %d allocation and %d release sites seen' % (alloc, free))
    rep.discharged -= len(rep.findings)
