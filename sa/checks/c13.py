"""Option wiring: what an option selects is what runs.

For each public entry point and each documented value of an option, the call graph is specialised on that value
(conditional constant propagation through every function the entry reaches) and compared with a table saying which
algorithm the value stands for."""
import contracts
import sccp

LEVEL = 'other'
OPT = {0: 'nel_min', 1: 'newton_min_func', 2: 'trsrch', 3: 'trsrch_ddl', 4: 'conjgrad_min_lin', 5: 'bfgs_min', 6: 'bfgs_l_min',
       7: 'bfgs_min2'}
FAM = {'arima_exec': {0: ['as154'], 1: ['css'], 2: ['nlalsm']},
       'sarima_exec': {0: ['as154_seas'], 1: ['css_seas'], 2: ['nlalsms']}}


class Case:
    def __init__(self, api, fields=(), strings=(), args=(), must=(), never=(), text='', consts=()):
        self.api, self.fields, self.strings, self.args = api, dict(fields), dict(strings), dict(args)
        self.must, self.never, self.text = list(must), list(never), text
        self.consts = list(consts)      # (callee, argument index, allowed set, required set)

    def label(self):
        return ','.join('%s=%s' % kv for kv in sorted(list(self.fields.items()) + list(self.strings.items()) +
                                                        [('arg%d' % k, v) for k, v in self.args.items()]))


def cases():
    out = []
    for api, fam in FAM.items():
        for v, must in fam.items():
            never = [x for w, l in fam.items() for x in l if w != v and not (v == 0 and w == 1)]
            out.append(Case(api, {'method': v}, must=must, never=never))
    out.append(Case('sarimax_exec', {'method': 0}, must=['as154x', 'cssx'],
                    consts=[('as154x', 'cssml', {1}, {1})]))
    out.append(Case('sarimax_exec', {'method': 1}, must=['as154x'], never=['cssx'], consts=[('as154x', 'cssml', {0}, {0})]))
    out.append(Case('sarimax_exec', {'method': 2}, must=['cssx'], never=['as154x']))
    for api in ('arima_exec', 'sarima_exec', 'sarimax_exec'):
        for me in (0, 1) if api != 'sarimax_exec' else (0, 1, 2):
            for k, f in OPT.items():
                out.append(Case(api, {'method': me, 'optmethod': k}, must=[f], never=[g for g in OPT.values() if g != f]))
    for k, f in OPT.items():
        # the order of the AR model is chosen by a search that always starts from the default optimiser
        out.append(Case('ar_exec', {'method': 2, 'optmethod': k}, must=[f], never=[g for g in OPT.values() if g not in (f, OPT[7])]))
    AR = {0: 'ywalg2', 1: 'burgalg', 2: 'as154'}
    for k, f in AR.items():
        never = [g for g in AR.values() if g != f]
        out.append(Case('ar_exec', {'method': k}, must=[f], never=never))
        out.append(Case('ar_estimate', args={2: k}, must=[f], never=never))
        out.append(Case('ar', args={3: k}, must=[f], never=never))
    PA = {0: 'pacf_yw', 1: 'pacf_burg', 2: 'pacf_mle'}
    for k, f in PA.items():
        out.append(Case('pacf_opt', args={2: k}, must=[f], never=[g for g in PA.values() if g != f]))
    out.append(Case('pacf', must=['pacf_yw'], never=['pacf_burg', 'pacf_mle']))
    AC = {0: 'autocovar', 1: 'autocovar_fft'}
    for k, f in AC.items():
        out.append(Case('acvf_opt', args={2: k}, must=[f], never=[g for g in AC.values() if g != f]))
    out.append(Case('acvf', must=['autocovar'], never=['autocovar_fft']))
    ST = ['ur_kpss', 'ur_df2', 'ur_pp2']
    SE = ['SHtest', 'OCSBtest']
    A = 'auto_arima_exec'
    out.append(Case(A, {'stationary': 1}, never=['ndiffs', 'nsdiffs'] + ST + SE, must=['sarimax_exec'],
                    text='a series declared stationary is never tested for differencing'))
    out.append(Case(A, {'stationary': 0}, must=['ndiffs', 'nsdiffs']))
    out.append(Case(A, {'seasonal': 0}, never=['nsdiffs'] + SE, must=['ndiffs'],
                    text='a non-seasonal search never tests for seasonal differencing'))
    out.append(Case(A, {'seasonal': 1}, must=['nsdiffs', 'ndiffs']))
    out.append(Case(A, {'stepwise': 0}, must=['search_arima']))
    out.append(Case(A, {'stepwise': 1}, never=['search_arima'], must=['myarima']))
    for t, f in (('kpss', 'ur_kpss'), ('pp', 'ur_pp2'), ('df', 'ur_df2'), ('adf', 'ur_df2')):
        out.append(Case(A, strings={'test': t}, must=[f], never=[g for g in ST if g != f]))
    out.append(Case(A, strings={'seas': 'seas'}, must=['SHtest'], never=['OCSBtest']))
    out.append(Case(A, strings={'seas': 'ocsb'}, must=['OCSBtest'], never=['SHtest']))
    for ty, allow in (('level', {'ur_kpss': (2, 'level'), 'ur_df2': (2, 'drift'), 'ur_pp2': (3, 'constant')}),
                      ('trend', {'ur_kpss': (2, 'trend'), 'ur_df2': (2, 'trend'), 'ur_pp2': (3, 'trend')})):
        for t, f in (('kpss', 'ur_kpss'), ('pp', 'ur_pp2'), ('df', 'ur_df2'), ('adf', 'ur_df2')):
            k, txt = allow[f]
            out.append(Case(A, strings={'test': t, 'type': ty}, must=[f], consts=[(f, k, {txt}, {txt})]))
    for api, g in (('arima_exec', 'css'), ('sarima_exec', 'css_seas')):
        out.append(Case(api, {'method': 0, 'cssml': 0}, never=[g], text='no conditional start when it is switched off'))
        out.append(Case(api, {'method': 0, 'cssml': 1}, must=[g]))
    for me in (1, 2):
        out.append(Case(A, {'method': me}, consts=[('sarimax_setMethod', 1, {me}, {me})],
                        text='every candidate is estimated with the selected method'))
    out.append(Case(A, {'method': 0, 'approximation': 0}, consts=[('sarimax_setMethod', 1, {0}, {0})],
                    text='without approximation every candidate is estimated with the default method'))
    out.append(Case(A, {'method': 0, 'approximation': 1}, consts=[('sarimax_setMethod', 1, {0, 2}, {0, 2})],
                    text='approximate candidates, exact final model'))
    return out


def specialise(ctx, m, c):
    f = ctx.fn(c.api)
    tag = contracts.obj_struct(c.api)
    F = {contracts.field(m, tag, k)[0]: ('k', v) for k, v in c.fields.items()} if tag else {}
    S = {contracts.field(m, tag, k)[0]: v for k, v in c.strings.items()} if tag else {}
    s = sccp.Spec(m, ctx.eff, F, S)
    args = {k: ('k', v) for k, v in c.args.items()}
    if tag:
        args[0] = ('p', 'O', 0)
    s.run(c.api, args)
    s.stored_fns()
    return f, s


def chain(s, api, target):
    """a call path from the entry to the target inside the specialised call graph"""
    prev, work = {api: None}, [api]
    edges = {}
    for a, _, b in s.sites:
        edges.setdefault(a, set()).add(b)
    for a, b in s.handed:
        edges.setdefault(a, set()).add(b)
    while work:
        x = work.pop(0)
        if x == target:
            out = []
            while x:
                out.append(x)
                x = prev[x]
            return [' -> '.join(reversed(out))]
        for y in sorted(edges.get(x, ())):
            if y not in prev:
                prev[y] = x
                work.append(y)
    return []


def run(ctx, rep):
    m = ctx.m
    rep.rule('For each documented option value the call graph of the entry point is specialised on that value by conditional '
             'constant propagation through all functions it reaches: the algorithm the value stands for must stay reachable, '
             'the algorithms of the other values must not, and the constants handed on must be the documented ones.')
    rep.notes.append('assumed option fields are not written during estimation (property C02)')
    allcases = cases()
    base = {}
    for c in allcases:
        try:
            f, s = specialise(ctx, m, c)
        except (KeyError, IndexError, RecursionError) as e:
            rep.undecided.append('%s %s: %r' % (c.api, c.label(), e))
            continue
        rep.count('specialisations')
        rep.count('functions_visited', len(s.reach))
        where = m.loc(f)
        for g in c.must:
            if g not in m.fns:
                rep.undecided.append('%s is no longer a function of the library' % g)
                continue
            rep.ob(g in s.reach, 'C13|must|%s|%s|%s' % (c.api, c.label(), g), where, 'option-selects',
                   '%s with %s can no longer reach %s, the algorithm this value stands for%s'
                   % (c.api, c.label(), g, c.text and ' (%s)' % c.text))
        for g in c.never:
            if g not in m.fns:
                rep.undecided.append('%s is no longer a function of the library' % g)
                continue
            rep.ob(g not in s.reach, 'C13|never|%s|%s|%s' % (c.api, c.label(), g), where, 'option-excludes',
                   '%s with %s can reach %s, which this value does not stand for%s'
                   % (c.api, c.label(), g, c.text and ' (%s)' % c.text), chain(s, c.api, g) if g in s.reach else [])
        for g, k, allowed, required in c.consts:
            if isinstance(k, str):
                names = [n.lstrip('%') for _, n in m.fns[g].params] if g in m.fns else []
                if k not in names:
                    rep.undecided.append('%s has no parameter %s' % (g, k))
                    continue
                k = names.index(k)
            vals = {}
            for caller, callee, args in s.calls:
                if callee == g and caller in s.reach and k < len(args):
                    for v in (args[k][1] if args[k][0] == 'set' else [args[k]]):
                        t = s.text(v)
                        vals.setdefault(t if t is not None else v[1] if v[0] == 'k' else None, set()).add(caller)
            if not vals or None in vals:
                rep.undecided.append('%s with %s: argument %d of %s is not constant' % (c.api, c.label(), k, g))
                vals.pop(None, None)
                for v in sorted(set(vals) - allowed, key=str):
                    rep.ob(False, 'C13|const|%s|%s|%s|%s' % (c.api, c.label(), g, v), where, 'option-passed-on',
                           '%s with %s hands %s to %s in %s; expected %s' % (c.api, c.label(), v, g, ', '.join(sorted(vals[v])), sorted(allowed)))
                continue
            rep.ob(set(vals) <= allowed and required <= set(vals), 'C13|const|%s|%s|%s' % (c.api, c.label(), g), where,
                   'option-passed-on', '%s with %s hands %s to %s (from %s); expected %s%s'
                   % (c.api, c.label(), sorted(vals, key=str), g, sorted(set.union(*vals.values())), sorted(allowed),
                      c.text and ' (%s)' % c.text))
    effective(ctx, rep, m)
    rep.need(rep.counts.get('specialisations', 0) >= 60, 'only %d specialisations could be analysed' % rep.counts.get('specialisations', 0))


# every option of a model object influences its estimation
USED = {'arima_exec': ['p', 'd', 'q', 'N', 'method', 'optmethod', 'cssml'],
        'sarima_exec': ['p', 'd', 'q', 'P', 'D', 'Q', 's', 'N', 'method', 'optmethod', 'cssml'],
        'sarimax_exec': ['p', 'd', 'q', 'P', 'D', 'Q', 's', 'N', 'r', 'imean', 'method', 'optmethod'],
        'ar_exec': ['N', 'method', 'optmethod'],
        'auto_arima_exec': ['pmax', 'dmax', 'qmax', 'Pmax', 'Dmax', 'Qmax', 's', 'r', 'N', 'p_start', 'q_start', 'P_start', 'Q_start',
                            'method', 'optmethod', 'approximation', 'stepwise', 'stationary', 'seasonal', 'num_models', 'Order_max',
                            'test', 'type', 'seas', 'alpha_test', 'alpha_seas', 'information_criteria', 'verbose', 'allowdrift', 'imean']}


def effective(ctx, rep, m):
    for api, names in USED.items():
        tag = contracts.obj_struct(api)
        f = ctx.fn(api)
        reads = {a[1] for a in ctx.eff.sum[api].reads if a[0] == ('P', 0)}
        for n in names:
            try:
                off = contracts.field(m, tag, n)[0]
            except KeyError:
                rep.undecided.append('%s has no field %s' % (tag, n))
                continue
            hit = any(o == off or (isinstance(o, tuple) and o[1] == '+' and o[0] <= off and o[0] > 0 and o[0] == off) for o in reads)
            rep.ob(hit, 'C13|unused|%s|%s' % (api, n), m.loc(f), 'option-is-used',
                   '%s never reads the %s setting of its object' % (api, n))
