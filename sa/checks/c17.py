"""The process ends only where documented, never silently, never with a success status."""
import contracts
from cfg import Cfg

LEVEL = 'proof'
PRINT = {'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'perror', 'vprintf', 'vfprintf', 'fwrite', 'putc', 'fputc', 'write'}
EXIT = {'exit', '_exit', 'quick_exit', '_Exit'}
ABORT = {'abort', '__assert_fail', 'raise', 'kill', 'longjmp', '__stack_chk_fail'}
# calls whose argument checks may end the process: a constructor, an estimation, a string option
MAY = ('init', 'exec')
MAYF = {'ar', 'ar_estimate', 'auto_arima_setStationarityParameters', 'auto_arima_setSeasonalParameters'}


def run(ctx, rep):
    m, eff = ctx.m, ctx.eff
    rep.rule('Call-graph reachability of exit (function pointers resolved): only constructors, estimations and the string options may end the '
             'process; forward must-dataflow: on every path to an exit a message has been printed in the function or, for a helper that '
             'itself prints nothing, before each call of it; the status passed is a non-zero constant; nothing aborts.')
    fns = {n: f for n, f in m.fns.items() if f.blocks}
    cfgs = {}

    def cfg(n):
        if n not in cfgs:
            cfgs[n] = Cfg(fns[n])
        return cfgs[n]

    def callee(i):
        return i.x[0][1].lstrip('@') if i.op == 'call' and i.x[0][0] == 'g' else None
    # which functions can end the process
    ends = set()
    direct = {}
    for n, f in fns.items():
        for b in f.blocks:
            for i in b.ins:
                c = callee(i)
                if c in EXIT | ABORT:
                    direct.setdefault(n, []).append(i)
    ends = set(direct)
    ch = True
    while ch:
        ch = False
        for n in fns:
            if n not in ends and any(g in ends for g in eff.calls.get(n, ())):
                ends.add(n)
                ch = True
    rep.count('functions_that_may_end_the_process', len(ends))
    for api, (kind, _) in sorted(contracts.API.items()):
        if api not in fns:
            rep.undecided.append(api + ' is not defined')
            continue
        if kind in MAY or api in MAYF:
            continue
        path = []
        if api in ends:
            x, seen = api, {api}
            while x not in direct:
                nx = [g for g in sorted(eff.calls.get(x, ())) if g in ends and g not in seen]
                if not nx:
                    break
                nx.sort(key=lambda g: g not in direct)
                x = nx[0]
                seen.add(x)
                path.append(x)
            where = m.loc(direct[x][0]) if x in direct else m.loc(fns[api])
        rep.ob(api not in ends, 'C17|reach|' + api, m.loc(fns[api]) if api not in ends else where, 'exit-reachable',
               '%s can end the process (through %s)' % (api, ' -> '.join(path) or 'itself'), path)
    # nothing aborts
    for n, l in direct.items():
        for i in l:
            if callee(i) in ABORT:
                rep.bad('C17|abort|%s|%s' % (n, callee(i)), m.loc(i), 'abort', '%s calls %s' % (n, callee(i)))
    # functions that print on every path to their return
    prints = {n: False for n in fns}

    def flow(n, report=None, start=False):
        """must-printed at each exit-like call; returns (printed at every return, [unprinted exit sites])"""
        cf = cfg(n)
        IN = {b: None for b in cf.order}
        IN[cf.order[0]] = start
        bad = []

        def out(b, v, rec=False):
            for i in b.ins:
                c = callee(i)
                if c is None:
                    continue
                if rec and not v and (c in EXIT or c in silent) and (c in EXIT or not v):
                    bad.append(i)
                if c in PRINT or prints.get(c):
                    v = True
            return v
        ch = True
        while ch:
            ch = False
            for b in cf.order:
                if b is cf.order[0]:
                    continue
                vs = [out(p, IN[p]) for p in cf.preds(b) if IN[p] is not None]
                v = all(vs) if vs else None
                if v != IN[b]:
                    IN[b] = v
                    ch = True
        rets = [out(b, IN[b], True) for b in cf.order if IN[b] is not None] and \
            [out(b, IN[b]) for b in cf.order if IN[b] is not None and b.term.op == 'ret']
        return all(rets) if rets else True, bad
    silent = set()       # helpers that may reach exit without printing: the duty passes to their callers
    for _ in range(4):
        ch = False
        for n in fns:
            p, bad = flow(n)
            if p and not prints[n] and any(callee(i) in PRINT or prints.get(callee(i)) for b in fns[n].blocks for i in b.ins):
                prints[n] = True
                ch = True
            if bad and n not in silent and n not in contracts.API:
                # only a helper: something calls it, and it does nothing but end the process
                if n in direct and always_ends(fns[n], direct[n]):
                    silent.add(n)
                    ch = True
        if not ch:
            break
    total = 0
    for n in sorted(fns):
        sites = [i for b in fns[n].blocks for i in b.ins if callee(i) in EXIT or callee(i) in silent]
        if not sites:
            continue
        _, bad = flow(n)
        for i in sites:
            total += 1
            if n in silent:
                continue
            rep.ob(i not in bad, 'C17|silent|%s' % n, m.loc(i), 'silent-exit',
                   '%s can end the process without having printed why' % n)
            if callee(i) in EXIT and i.ops[0][0] == 'c':
                rep.ob(i.ops[0][1] & 0xff != 0, 'C17|status|%s' % n, m.loc(i), 'exit-status',
                       '%s ends the process with the status of success' % n)
    rep.count('exit_sites', total)


def always_ends(f, sites):
    """no path of the function returns"""
    dead = {i.bb for i in sites}
    seen, work = set(), [f.blocks[0]]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in dead:
            continue
        if b.term.op == 'ret':
            return False
        work += b.succ
    return True
