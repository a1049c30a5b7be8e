"""C12: every loop of the library makes progress towards leaving it."""
from loops import Loops, Writes, callee

LEVEL = 'other'


def objective_users(m):
    """functions that call through a function pointer, transitively within their callees"""
    direct, calls = set(), {}
    for f in m.fns.values():
        calls[f.name] = set()
        for i in f.instrs():
            if i.op == 'call':
                c = callee(i)
                if c is None:
                    direct.add(f.name)
                else:
                    calls[f.name].add(c)
    users = set(direct)
    ch = True
    while ch:
        ch = False
        for f, c in calls.items():
            if f not in users and c & users:
                users.add(f)
                ch = True
    return users


def limited(Z, L, kinds):
    """some integer that changes in the loop is compared with one the loop does not change, outside the counted loops nested in it"""
    nested = [l for l in Z.g.loops if l is not L and l.header in L.blocks and len(l.blocks) < len(L.blocks) and kinds[id(l)]]
    for b in L.blocks:
        if any(b in l.blocks for l in nested):
            continue
        for i in b.ins:
            if i.op == 'icmp' and i.x not in ('eq', 'ne') and sum(Z.invariant(o, L) for o in i.ops) == 1 and all(o[0] != 'c' for o in i.ops) and 'ptr' not in str(i.ty):
                return True
    return False


def counts(Z, ins):
    """stores that add a constant to an integer of the caller"""
    out = []
    for i in ins:
        if i.op == 'store' and i.ty == 'i32' and i.ops[1][0] == 'v' and i.ops[1][1] not in Z.fn.defs:
            x = Z.d(Z.strip(i.ops[0]))
            y = Z.d(Z.strip(x.ops[0])) if x is not None and x.op == 'add' and x.ops[1][0] == 'c' else None
            if y is not None and y.op == 'load' and y.ops[0] == i.ops[1]:
                out.append(i)
    return out


def run(ctx, rep):
    rep.rule('A loop is counted when, on every way round it, an integer moves towards the bound of a test that every way round must pass '
             '(by a constant, by an amount the loop does not change, by division, or as an iteration count behind a pointer).')
    rep.rule('No loop may have all its exit tests stuck (unchanged by the loop, or moving away from their bound).')
    rep.rule('No feasible way round a loop that is not counted may leave everything its branches depend on unchanged.')
    rep.rule('No loop may have a nested loop move its counter away from the bound again.')
    rep.rule('A loop that repeats a line search (a callee with a data-controlled loop evaluating the objective), and a loop that advances an '
             'iteration count of its caller, is counted.')
    m = ctx.m
    W = Writes(m)
    users = objective_users(m)
    kinds = {}
    loose = {}
    allz = []
    for f in m.fns.values():
        if not f.blocks:
            continue
        Z = Loops(f, W)
        allz.append(Z)
        for L in Z.g.loops:
            k = 'counted' if Z.progress(L) is not None else Z.weaker(L)
            kinds[id(L)] = k
            if k is None:
                loose.setdefault(f.name, []).append(L)
    # line searches: data-controlled loops that evaluate an objective, in functions that keep no iteration count for their caller;
    # and functions that call one outside any counted loop
    searches = set()
    for Z in allz:
        f = Z.fn
        if f.name in users and not counts(Z, f.instrs()):
            if any(i.op == 'call' and (callee(i) is None or callee(i) in users) for L in loose.get(f.name, []) for b in L.blocks for i in b.ins):
                searches.add(f.name)
    grown = True
    while grown:
        grown = False
        for Z in allz:
            f = Z.fn
            if f.name in searches or f.name not in users or counts(Z, f.instrs()):
                continue
            for i in f.instrs():
                if i.op == 'call' and callee(i) in searches and not any(i.bb in L.blocks and kinds[id(L)] for L in Z.g.loops):
                    searches.add(f.name)
                    grown = True
                    break
    n = {'counted': 0, 'step': 0, 'division': 0, 'count': 0, 'data-controlled': 0}
    data = []
    for Z in allz:
        f = Z.fn
        for L in Z.g.loops:
            k = kinds[id(L)]
            n[k or 'data-controlled'] += 1
            if k is not None:
                rep.obligations += 1
                rep.discharged += 1
                continue
            where = m.loc(L.header.term)
            bad0 = len(rep.findings)
            data.append('%s (%s)' % (f.name, where))
            ex = list(Z.exits(L))
            if all(v is not None and Z.stuck(v, want, L) for b, v, want in ex):
                rep.bad('C12|stuck|%s' % f.name, where, 'stuck-exit', '%s: no exit test of the loop can change its outcome once the loop has '
                        'gone round%s' % (f.name, '' if ex else ' (there is no exit)'))
                continue
            p = Z.stands_still(L)
            if p:
                lines = sorted({m.loc(b.term).split(':')[-1] for b in p})
                rep.bad('C12|still|%s' % f.name, where, 'stands-still', '%s: a way round the loop changes nothing its branches depend on'
                        % f.name, ['line ' + l for l in lines])
            u = Z.undone(L)
            if u:
                rep.bad('C12|undone|%s' % f.name, where, 'undone-progress', '%s: the counter that ends the loop is moved back by the loop at %s inside it, '
                        'so it may never reach its bound' % (f.name, m.loc(u[1].header.term)))
            deep = [c for b in L.blocks for i in b.ins if i.op == 'call' for c in [callee(i)] if c in searches and c != f.name]
            if deep:
                rep.bad('C12|search|%s' % f.name, where, 'unbounded-iteration', '%s: the loop repeats the line search %s without a bound on '
                        'the number of iterations' % (f.name, sorted(set(deep))[0]))
            nested = [l for l in Z.g.loops if l is not L and l.header in L.blocks and len(l.blocks) < len(L.blocks)]
            for i in counts(Z, (i for b in L.blocks if not any(b in l.blocks for l in nested) for i in b.ins)):
                if not limited(Z, L, kinds):
                    rep.bad('C12|limit|%s' % f.name, m.loc(i), 'unbounded-iteration', '%s: the loop counts its iterations for the caller but '
                            'no count ends it' % f.name)
            if len(rep.findings) == bad0:
                rep.ob(True, 'C12', where, '', '')
    for k, v in n.items():
        rep.count('loops ' + k, v)
    rep.count('functions', len(allz))
    rep.count('line searches', len(searches))
    rep.notes.append('line searches: ' + ', '.join(sorted(searches)))
    rep.samples = sorted(data)[:80]
    rep.notes.append('recursion: the recursive functions are listed, not decided')
