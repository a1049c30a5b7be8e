"""Runs the shape interpreter over the client programs, in parallel, and collects what it reports."""
import os
import time
from multiprocessing import Pool, TimeoutError as PoolTimeout

import shape
import shapes

_ctx = None
_prog = None


def _one(k):
    t = time.time()
    P = shapes.Prog(_ctx, limit=_limit)
    E = P.E
    m = _ctx.m
    stop = ''
    try:
        _prog[k][1](P)
    except shape.Stop as e:
        stop = str(e)
    except RecursionError:
        stop = 'recursion'
    except Exception as e:              # a construct the interpreter has no rule for
        stop = 'internal: %s: %s' % (type(e).__name__, e)
    try:
        E.settle()
    except Exception as e:
        stop = stop or 'internal: %s' % e
    ev = []
    for (kind, ins), (text, stack) in E.events.items():
        if hasattr(ins, 'bb'):
            where, fn = m.loc(ins), ins.bb.fn.name
        else:
            where, fn = '', str(ins)
        ev.append((kind, fn, where, text, [s[0] + ((' called at ' + m.loc(s[1])) if s[1] is not None else '') for s in stack]))
    return k, stop, ev, E.accesses, E.checked, {m.loc(i) for i in E.sites if i is not None}, set(E.fns), getattr(P, 'results', 0), time.time() - t


def run(ctx, programs, limit=6000000, budget=600, jobs=8):
    """[(label, stop, events, accesses, decided, sites, functions, results, seconds)], labels not reached in the budget"""
    global _ctx, _prog, _limit
    _ctx, _prog, _limit = ctx, programs, limit
    ctx.m
    ctx.eff
    out, t0 = [], time.time()
    with Pool(min(jobs, os.cpu_count() or 1)) as p:
        it = p.imap_unordered(_one, range(len(programs)), chunksize=1)
        while len(out) < len(programs):
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                out.append(it.next(timeout=left))
            except (PoolTimeout, StopIteration):
                break
        p.terminate()
    out.sort()
    done = {x[0] for x in out}
    return [(programs[x[0]][0],) + x[1:] for x in out], [l for k, (l, _) in enumerate(programs) if k not in done]


def _fact(k):
    t = time.time()
    P = _make(_ctx, limit=_limit)
    stop = ''
    try:
        _prog[k][1](P)
    except shape.Stop as e:
        stop = str(e)
    except RecursionError:
        stop = 'recursion'
    except Exception as e:              # a construct the interpreter has no rule for
        stop = 'internal: %s: %s' % (type(e).__name__, e)
    return k, stop, P.facts, set(P.E.fns), time.time() - t


def facts(ctx, programs, make, limit=6000000, budget=600, jobs=8):
    """[(label, stop, [(what, ok, text)], functions, seconds)], labels not reached in the budget"""
    global _ctx, _prog, _limit, _make
    _ctx, _prog, _limit, _make = ctx, programs, limit, make
    ctx.m
    ctx.eff
    out, t0 = [], time.time()
    with Pool(min(jobs, os.cpu_count() or 1)) as p:
        it = p.imap_unordered(_fact, range(len(programs)), chunksize=1)
        while len(out) < len(programs):
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                out.append(it.next(timeout=left))
            except (PoolTimeout, StopIteration):
                break
        p.terminate()
    out.sort(key=lambda x: x[0])
    done = {x[0] for x in out}
    return [(programs[x[0]][0],) + x[1:] for x in out], [l for k, (l, _) in enumerate(programs) if k not in done]


def report(rep, pid, res, rest, anchor):
    """facts as obligations: False is a violation, None undecided"""
    fns, rules = set(), {}
    for label, stop, fs, f, t in res:
        rep.count('programs')
        fns |= f
        unk = {}
        for what, ok, text in fs:
            rep.obligations += 1
            r = rules.setdefault(what, [0, 0])
            r[0] += 1
            if ok is True:
                rep.discharged += 1
            elif ok is False:
                r[1] += 1
                key = '%s|%s' % (pid, what)
                if r[1] == 1:
                    rep.bad(key, anchor(what), what.split(': ')[-1], '%s - %s (client program %s)' % (what, text[:600], label))
            else:
                unk[what] = text
        for what, text in unk.items():
            rep.undecided.append('%s in %s: %s' % (what, label, text[:200]))
        if stop:
            rep.undecided.append('%s: %s' % (label, stop))
    rep.undecided += ['%s: not reached in the time budget' % l for l in rest]
    rep.counts['functions_reached'] = len(fns)
    for what, (n, bad) in sorted(rules.items())[:60]:
        rep.samples.append('%s: %d equalities, %d differ' % (what, n, bad))
