"""Return status discipline: what the optimiser reports is what the caller sees.

Each estimator is specialised (conditional constant propagation) on every status its optimiser can return, each exec on the
estimator's status, each summary on the stored status."""
import contracts
import sccp

LEVEL = 'other'
MSG = {0: 'Input Error', 1: 'Probable Success', 4: "Optimization Routine didn't converge", 7: 'Exogenous Variables are collinear',
       10: 'Nonstationary AR part', 12: 'Nonstationary Seasonal AR part', 15: 'Optimization Routine Encountered Inf/Nan Values'}
# estimator: the statuses it may add of its own, the orders fixed for the specialisation, statuses that may replace the optimiser's
EST = {'css': (set(), dict(p=1, q=1, d=1)), 'css_seas': (set(), dict(p=1, q=1, P=1, Q=1, d=1, D=1)),
       'as154': ({10}, dict(p=1, q=1, d=1)), 'as154_seas': ({10, 12}, dict(p=1, q=1, P=1, Q=1, d=1, D=1)),
       'cssx': ({7}, dict(p=1, q=1, P=1, Q=1, d=1, D=1)), 'as154x': ({7, 10, 12}, dict(p=1, q=1, P=1, Q=1, d=1, D=1))}
DOC = {'arima_exec': {0, 1, 4, 10, 15}, 'sarima_exec': {0, 1, 4, 10, 12, 15}, 'sarimax_exec': {0, 1, 4, 7, 10, 12, 15}}
EXEC = {'arima_exec': {0: 'as154', 1: 'css', 2: 'nlalsm'}, 'sarima_exec': {0: 'as154_seas', 1: 'css_seas', 2: 'nlalsms'},
        'sarimax_exec': {0: 'as154x', 1: 'as154x', 2: 'cssx'}}
SUM = {'arima_summary': (0, 1), 'sarima_summary': (0, 1), 'sarimax_summary': (0, 1, 2), 'auto_arima_summary': (0, 1, 2)}
OPTIM = ['nel_min', 'newton_min_func', 'newton_min_trust', 'conjgrad_min_lin', 'bfgs_min', 'bfgs_min2', 'bfgs_l_min']


def codes(v):
    """the integers a return value may be, or None"""
    if v is None:
        return set()
    if v[0] == 'k':
        return {v[1]}
    if v[0] == 'set' and all(x[0] == 'k' for x in v[1]):
        return {x[1] for x in v[1]}
    return None


def names(m, f):
    return list(getattr(f, 'pnames', None) or [])


def pidx(m, f, nm):
    """position of the parameter the source calls nm"""
    for k, (_, n) in enumerate(f.params):
        if m.varname(f, n) == nm:
            return k
    return None


def want(rc):
    return {rc} if rc in (0, 4, 15) else {1}


def show(s):
    return '{' + ', '.join(str(x) for x in sorted(s)) + '}'


def run(ctx, rep):
    m = ctx.m
    rep.rule('Conditional constant propagation with the status of one callee fixed at a time: an estimator must return 0, 4 and 15 of its '
             'optimiser unchanged and 1 for every successful stop, plus only the statuses documented as its own; exec must leave exactly '
             'the status of the estimator in the object; a summary must reach the message documented for the stored status. Path exploration from every '
             'point that sets a status to 15 on a NaN or infinite value: every return is 15.')

    def spec(stub=None, tag=None, fields=()):
        F = {contracts.field(m, tag, k)[0]: ('k', v) for k, v in dict(fields).items()} if tag else {}
        s = sccp.Spec(m, ctx.eff, F, {})
        s.stub = stub or {}
        return s

    def have(*fs):
        miss = [f for f in fs if f not in m.fns or not m.fns[f].blocks]
        if miss:
            rep.undecided.append('no function called ' + ', '.join(miss))
        return not miss

    # the optimisers
    for f in OPTIM + ['fminunc']:
        if not have(f):
            continue
        c = codes(spec().run(f).ret)
        rep.count('return_sets')
        if c is None:
            rep.undecided.append('statuses of %s are not constants' % f)
            continue
        rep.ob(c <= {0, 1, 2, 3, 4, 5, 6, 15}, 'C08|optimiser|' + f, m.loc(m.fns[f]), 'status-set',
               '%s can return %s; the documented optimiser statuses are 0-6 and 15' % (f, show(c)))
        if f != 'fminunc':
            rep.ob(bool(c & {1, 2, 3, 6}) and (15 in c or f == 'nel_min'), 'C08|optimiser-complete|' + f, m.loc(m.fns[f]), 'status-set',
                   '%s returns only %s: a successful stop and (in the gradient methods) a NaN, 15, must be reportable' % (f, show(c)))
    # estimators: status of the optimiser passed on
    for f, (own, orders) in EST.items():
        if not have(f, 'fminunc'):
            continue
        g = m.fns[f]
        args = {}
        for nm, v in orders.items():
            k = pidx(m, g, nm)
            if k is not None:
                args[k] = ('k', v)
        if len(args) != len(orders):
            rep.undecided.append('%s: parameters %s not all found' % (f, ', '.join(orders)))
        for rc in (0, 1, 2, 3, 4, 5, 6, 15):
            s = spec({'fminunc': ('k', rc)})
            c = codes(s.run(f, args).ret)
            rep.count('specialisations')
            if c is None:
                rep.undecided.append('%s: statuses are not constants' % f)
                break
            if not any(x[2] == 'fminunc' for x in s.sites):
                rep.undecided.append('%s does not call fminunc' % f)
                break
            if len(args) != len(orders):
                break
            rep.ob(want(rc) <= c and c - own <= want(rc), 'C08|passed-on|%s|%d' % (f, rc), m.loc(g), 'status-passed-on',
                   'when the optimiser returns %d, %s returns %s; documented is %s%s' % (
                       rc, f, show(c), show(want(rc)), ' (or %s of its own)' % show(own) if own else ''))
    for f, ok in (('nlalsm', {1, 4}), ('nlalsms', {0, 1, 4})):
        if have(f):
            c = codes(spec().run(f).ret)
            if c is None:
                rep.undecided.append('%s: statuses are not constants' % f)
            else:
                rep.ob(c <= ok | {0} and {1, 4} <= c, 'C08|own|' + f, m.loc(m.fns[f]), 'status-set',
                       '%s can return %s; documented are 1 (success) and 4 (no convergence)' % (f, show(c)))
    # non-stationary start values
    if have('checkroots_cerr'):
        for f, rcs in (('as154', (10,)), ('as154_seas', (10, 12)), ('as154x', (10, 12))):
            if not have(f):
                continue
            g = m.fns[f]
            args = {pidx(m, g, nm): ('k', v) for nm, v in EST[f][1].items()}
            k = pidx(m, g, 'cssml')
            args[k] = ('k', 1)
            if None in args:
                rep.undecided.append('%s: parameters not found' % f)
                continue
            for rc in rcs:
                s = spec({'checkroots_cerr': ('k', rc), 'fminunc': ('k', 1)})
                c = codes(s.run(f, args).ret)
                rep.count('specialisations')
                if c is None or not any(x[2] == 'checkroots_cerr' for x in s.sites):
                    rep.undecided.append('%s: non-stationarity status undecided' % f)
                    continue
                rep.ob(rc in c and c <= {rc, 7}, 'C08|nonstationary|%s|%d' % (f, rc), m.loc(g), 'status-passed-on',
                       'when the start values fail the stationarity test with %d, %s returns %s' % (rc, f, show(c)))
    failures_kept(ctx, rep)
    collinear(ctx, rep, spec, have)
    # exec: the estimator's status is what the object holds
    for api, by in EXEC.items():
        tag = contracts.obj_struct(api)
        fo = contracts.field(m, tag, 'retval')
        if not have(api) or not fo:
            continue
        for me, est in by.items():
            if not have(est):
                continue
            for k in (1, 4, 15, 33):
                s = spec({est: ('k', k)}, tag, {'method': me})
                s.run(api, {0: ('p', 'O', 0)})
                rep.count('specialisations')
                if not any(x[2] == est for x in s.sites):
                    rep.undecided.append('%s method %d does not call %s' % (api, me, est))
                    break
                got = last(m, s, api, fo[0])
                if got is None:
                    rep.undecided.append('%s: stored status not constant' % api)
                    break
                rep.ob(got == {k}, 'C08|stored|%s|%d|%d' % (api, me, k), m.loc(m.fns[api]), 'status-stored',
                       '%s with method %d: the estimator %s returns %d but the object\'s retval becomes %s' % (api, me, est, k, show(got) if got else 'nothing'))
    wrapper(ctx, rep, have)
    # summaries
    for api, methods in SUM.items():
        tag = contracts.obj_struct(api)
        if not have(api) or not contracts.field(m, tag, 'retval'):
            continue
        ex = api.replace('_summary', '_exec')
        for me in methods:
            for rc in sorted(DOC.get(ex, set(MSG))):
                s = spec(None, tag, {'method': me, 'retval': rc})
                s.run(api, {0: ('p', 'O', 0)})
                rep.count('specialisations')
                text = ' '.join(t for _, ts, _ in s.out.values() for t in ts)
                known = all(k for _, _, k in s.out.values())
                if MSG[rc] not in text and not known:
                    rep.undecided.append('%s: some printed text is not constant' % api)
                    continue
                wrong = [MSG[x] for x in MSG if x != rc and MSG[x] in text]
                rep.ob(MSG[rc] in text, 'C08|message|%s|%d|%d' % (api, me, rc), m.loc(m.fns[api]), 'status-message',
                       '%s with method %d and retval %d does not print "%s"%s' % (api, me, rc, MSG[rc], ', it prints "%s"' % wrong[0] if wrong else ''))
                rep.ob(not wrong or not known, 'C08|only-message|%s|%d|%d' % (api, me, rc), m.loc(m.fns[api]), 'status-message',
                       '%s with method %d and retval %d also prints "%s"' % (api, me, rc, wrong and wrong[0]))


def collinear(ctx, rep, spec, have):
    """regressors that are linearly dependent: status 7; the rank is taken of the regressors as stored (one per row)"""
    m = ctx.m
    if not have('rank'):
        return
    for f in ('as154x', 'cssx'):
        if not have(f):
            continue
        g = m.fns[f]
        base = {}
        for nm, v in (('r', 2), ('p', 1), ('q', 1), ('P', 1), ('Q', 1), ('d', 0), ('D', 0), ('N', 97), ('imean', 0), ('cssml', 0)):
            k = pidx(m, g, nm)
            if k is not None:
                base[k] = ('k', v)
        k = pidx(m, g, 'xreg')
        if k is not None:
            base[k] = ('p', 'X', 0)
        if len(base) < 9:
            rep.undecided.append('%s: parameters not found' % f)
            continue
        for rk, text in ((1, 'dependent'), (2, 'independent')):
            s = spec({'rank': ('k', rk), 'fminunc': ('k', 1)})
            s.seen = {}
            c = codes(s.run(f, base).ret)
            rep.count('specialisations')
            if c is None or not any(x[2] == 'rank' for x in s.sites):
                rep.undecided.append('%s: collinearity status undecided' % f)
                continue
            rep.ob((c == {7}) if rk == 1 else 7 not in c, 'C08|collinear|%s|%s' % (f, text), m.loc(g), 'collinear-status',
                   'with two regressors that are linearly %s (rank %d) %s returns %s' % (text, rk, f, show(c)))
        for callee, args, where in s.stubcalls.values():
            if callee == 'rank' and args[1][0] == args[2][0] == 'k':
                rep.ob((args[1][1], args[2][1]) == (2, 97), 'C08|rank-shape|' + f, where, 'collinear-shape',
                       '%s takes the rank of its 2 regressors of 97 values, stored one after the other, as a %d by %d matrix' % (
                           f, args[1][1], args[2][1]))
    if have('auto_arima1'):
        # user regressors of the automatic search
        g = m.fns['auto_arima1']
        base = {}
        for nm, v in (('r', 2), ('N', 97)):
            k = pidx(m, g, nm)
            if k is not None:
                base[k] = ('k', v)
        k = pidx(m, g, 'xreg')
        if k is not None:
            base[k] = ('p', 'X', 0)
        s = spec({'rank': ('k', 1)})
        s.run('auto_arima1', base)
        blocked = sum(1 for x in s.sites if x[0] == 'auto_arima1' and x[2] in ('myarima', 'sarimax_wrapper', 'search_arima'))
        rep.ob(not s.stubcalls or not blocked, 'C08|collinear|auto_arima1', m.loc(g), 'collinear-status',
               'auto_arima1 goes on to fit models although the rank of the regressors is too small')
        for callee, args, where in s.stubcalls.values():
            if callee == 'rank' and args[1][0] == args[2][0] == 'k':
                rep.ob((args[1][1], args[2][1]) == (2, 97), 'C08|rank-shape|auto_arima1', where, 'collinear-shape',
                       'auto_arima1 takes the rank of its 2 regressors of 97 values, stored one after the other, as a %d by %d matrix' % (
                           args[1][1], args[2][1]))


def last(m, s, api, off):
    """values of the last stores to the field on the paths to the return, within exec itself"""
    f = m.fns[api]
    st = {}
    for (fn, bn, ix), (o, v) in s.ostores.items():
        if o == off:
            if fn != api:
                return None
            st.setdefault(bn.lstrip('%'), {})[ix] = v
    blocks = {b.name.lstrip('%'): b for b in f.blocks if (f.name, b.name) in s.blocks}
    out, seen = set(), set()
    work = [n for n, b in blocks.items() if b.term.op == 'ret']
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in st:
            v = codes(st[n][max(st[n])])
            if v is None:
                return None
            out |= v
            continue
        for b in blocks.values():
            if any(x.name.lstrip('%') == n for x in b.succ):
                work.append(b.name.lstrip('%'))
    return out


def wrapper(ctx, rep, have):
    """auto_arima_exec: the status stored comes from the status of the selected fit (or the initial 0)"""
    m = ctx.m
    if not have('auto_arima_exec'):
        return
    f = m.fns['auto_arima_exec']
    off = contracts.field(m, 'auto_arima_set', 'retval')[0]
    src = contracts.field(m, 'sarimax_set', 'retval')
    eff = ctx.eff

    def addr(o):
        """(base value, offset) of a pointer"""
        t = 0
        for _ in range(8):
            if o[0] == 'gep':
                x = eff._gep_off(o[1], o[3])
                o = o[2]
            elif o[0] == 'v' and f.defs.get(o[1]) is not None and f.defs[o[1]].op == 'gep':
                i = f.defs[o[1]]
                x = eff._gep_off(i.x, i.ops[1:])
                o = i.ops[0]
            else:
                return o, t
            if not isinstance(x, int):
                return None, None
            t += x
        return None, None

    def leaves(o, seen):
        if o[0] != 'v':
            return {o}
        if o[1] in seen:
            return set()
        seen.add(o[1])
        i = f.defs.get(o[1])
        if i is not None and i.op in ('phi', 'select'):
            return set().union(*[leaves(x, seen) for x in (i.ops if i.op == 'phi' else i.ops[1:])])
        return {o}
    n = 0
    for b in f.blocks:
        for i in b.ins:
            if i.op != 'store':
                continue
            base, o = addr(i.ops[1])
            if base != ('v', f.params[0][1]) or o != off:
                continue
            for l in leaves(i.ops[0], set()):
                if l == ('c', 0):
                    continue
                d = f.defs.get(l[1]) if l[0] == 'v' else None
                if d is None or d.op != 'load':
                    rep.ob(l[0] != 'c', 'C08|wrapper-status', m.loc(i), 'status-stored',
                           'auto_arima_exec stores the constant %s as status of the selected model' % (l[1],))
                    continue
                _, o2 = addr(d.ops[0])
                n += 1
                if o2 is None:
                    rep.undecided.append('auto_arima_exec: source of the status')
                    continue
                rep.ob(o2 == src[0], 'C08|wrapper-status', m.loc(i), 'status-stored',
                       'auto_arima_exec stores field %s of the selected fit as its status' % contracts.field_at(m, 'sarimax_set', o2))
    if not n:
        rep.undecided.append('auto_arima_exec: no store of the status found')


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


def evaluate(f, o, env, d=0):
    if o[0] == 'c':
        return o[1]
    if o[0] != 'v':
        return None
    if o[1] in env:
        return env[o[1]]
    i = f.defs.get(o[1])
    if i is None or d > 8:
        return None
    if i.op == 'icmp' and i.x in CMP:
        a, b = (evaluate(f, x, env, d + 1) for x in i.ops)
        return None if a is None or b is None else int(CMP[i.x](a, b))
    if i.op in ('zext', 'sext', 'trunc', 'freeze'):
        return evaluate(f, i.ops[0], env, d + 1)
    if i.op in ('and', 'or', 'xor'):
        a, b = (evaluate(f, x, env, d + 1) for x in i.ops)
        if i.op == 'and' and 0 in (a, b):
            return 0
        if i.op == 'or' and 1 in (a, b):
            return 1
        if a is None or b is None:
            return None
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[i.op]
    return None


def on_failure(f, b, d=0):
    """block b is entered only by a floating-point test or by the test of a status for 15"""
    t = b.term
    if d and t.op == 'br' and t.ops and t.ops[0][0] == 'v':
        c = f.defs.get(t.ops[0][1])
        return c is not None and (c.op == 'fcmp' or c.op == 'icmp' and ('c', 15) in c.ops)
    if d and (t.op != 'br' or t.ops):
        return False
    return bool(b.pred) and d < 4 and all(on_failure(f, p, d + 1) for p in b.pred)


def web(f, phi):
    """the phis that exchange values with this one"""
    all_ = [q for b in f.blocks for q in b.phis() if q.ty == phi.ty]
    w, ch = {phi.res}, True
    while ch:
        ch = False
        for q in all_:
            ops = {o[1] for o in q.ops if o[0] == 'v' and f.defs.get(o[1]) is not None and f.defs[o[1]].op == 'phi'}
            new = (ops | {q.res}) - w if q.res in w or ops & w else set()
            if new:
                w |= new
                ch = True
    return w


def failures_kept(ctx, rep):
    """once a function has set its status to 15 because a value is NaN or infinite, it returns 15 on every path"""
    m = ctx.m
    for f in m.fns.values():
        if not f.blocks or f.ret != 'i32':
            continue
        rets = {b.term.ops[0] for b in f.blocks if b.term.op == 'ret' and b.term.ops}
        w = set()
        for b in f.blocks:
            for phi in b.phis():
                if ('v', phi.res) in rets and phi.res not in w:
                    w |= web(f, phi)
        if not w:
            continue
        status = {v for r in w for v in f.dbgvars.get(r, ())}
        done = set()
        for b, v, var in f.dbgconst:
            if v != 15 or var not in status or b.name in done or not on_failure(f, b):
                continue
            done.add(b.name)
            bad = follow(f, m, b, w)
            if bad is None:
                rep.undecided.append('%s: too many paths' % f.name)
                continue
            bad = sorted(bad, key=str)
            rep.count('failure_sites')
            rep.ob(not bad, 'C08|failure-kept|%s' % f.name, m.loc(b.ins[0]), 'failure-kept',
                   '%s sets status 15 here because a value is NaN or infinite, but may return %s at %s' % (
                       f.name, 'another status' if bad and bad[0][0] is None else bad and bad[0][0], bad and bad[0][1]))


def follow(f, m, start, w):
    out, seen, work = set(), set(), [(x, start, ()) for x in start.succ]
    while work:
        b, pr, e = work.pop()
        if (b.name, pr.name, e) in seen:
            continue
        seen.add((b.name, pr.name, e))
        if len(seen) > 20000:
            return None
        env, new = dict(e), {}
        for q in b.phis():
            if q.res in w or q.ty == 'i1':
                for o, l in zip(q.ops, q.x):
                    if f.bmap[l] is pr:
                        new[q.res] = evaluate(f, o, env)
        for k, v in new.items():
            env.pop(k, None)
            if v is not None:
                env[k] = v
        t = b.term
        if t.op == 'ret':
            v = evaluate(f, t.ops[0], env)
            if v != 15:
                out.add((v, m.loc(t)))
            continue
        succ = b.succ
        if t.op == 'br' and t.ops:
            c = evaluate(f, t.ops[0], env)
            if c is not None:
                succ = [f.bmap[t.x[0 if c else 1]]]
        e2 = tuple(sorted(env.items()))
        work.extend((s, b, e2) for s in succ)
    return out
