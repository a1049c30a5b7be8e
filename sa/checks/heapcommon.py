"""Shared driver of the two checks built on the abstract heap (sa/heap.py)."""
import contracts
import effects
import heap
import irlib

OWN = ('leak', 'double-free', 'use-after-free', 'bad-free', 'uninit-free', 'null-deref')
INIT = ('uninit-pointer', 'uninit-value', 'uninit-field')


def analyse(ctx, rep):
    """heap analysis of the library plus the client programs of sa/client.c"""
    m = irlib.load_with_clients()
    ctx._m = m
    eff = effects.Effects(m)
    H = heap.Heap(m, eff)
    clients = sorted(f for f in m.fns if f.startswith('client_'))
    rep.need(len(clients) >= 15, 'only %d client programs linked' % len(clients))
    for name in contracts.API:
        ctx.fn(name)
    reach, work = set(), list(contracts.API) + clients
    while work:
        f = work.pop()
        if f in reach or f not in m.fns:
            continue
        reach.add(f)
        work += list(eff.calls.get(f, ()))
    rep.need(len(reach) > 250, 'only %d functions reachable from the public API' % len(reach))
    rep.count('functions_analysed', len(reach))
    rep.count('client_programs', len(clients))
    rep.count('abstract_states', H.stats['paths_merged_states'])
    rep.count('exit_states', H.stats['exit_states'])
    rep.undecided += H.undecided
    for k, v in heap.ASSUME.items():
        rep.notes.append('assumed in %s: %s in [%s, %s]' % (k[0], k[1], v[0], '..' if v[1] is None else v[1]))
    for k, v in heap.FILLED.items():
        rep.notes.append('not decided: filling of %s in %s (%s)' % (k[1], k[0], v))
    rep.notes.append('allocation functions are assumed to succeed (the library never checks them)')
    return m, H, reach, clients


def findings(rep, m, H, reach, prop, kinds):
    bad = {}
    for f in H.findings.values():
        if f.kind in kinds and f.fn.name in reach:
            bad[f.ins] = f
            rep.bad('%s|%s|%s|%s' % (prop, f.kind, f.fn.name, f.what), m.loc(f.ins), f.kind,
                    '%s: %s: %s' % (f.fn.name, f.what, f.detail), f.trace)
    return bad
