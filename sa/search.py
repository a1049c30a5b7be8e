"""The automatic search: candidates inside the limits, the best of them returned.

The shape interpreter runs auto_arima_exec with unknown data; fitting one candidate (myarima) is taken at its interface and its criterion
is an environment: every candidate gets a value, or failure, from an enumerated family of environments (the best one anywhere in the box,
best ones failing, all failing, each attempt better or worse than the last). The differencing decisions (ndiffs, nsdiffs) are enumerated
too, and their own loops are analysed with the tests' outcomes enumerated."""
import itertools

import shape
from shape import sym
from shapes import Prog

INF = 1.7976931348623157e308


class Search(Prog):
    def __init__(self, ctx, limit=6000000):
        Prog.__init__(self, ctx, limit)
        shape.LIM[:] = [300, 4000, 40, 40]
        shape.GENERIC[0] = True
        self.facts = []
        self.tried = []
        self.bad = set()

    def flag(self, what, ok, text=''):
        if ok is True and what in self.bad:
            return
        if ok is False:
            self.bad.add(what)
        self.facts.append((what, ok, text))

    def symbols(self, v):
        return {shape.SYMKEY[i] for m in v.t for i in m if isinstance(shape.SYMKEY[i], tuple)}

    def int_at(self, p, k=0):
        return None if type(p) is not tuple or p[1] is None else self.E.load((p[0], p[1] + 4 * k), 4, 'int', None)

    def double_at(self, p, k=0):
        return None if type(p) is not tuple or p[1] is None else self.E.load((p[0], p[1] + 8 * k), 8, 'double', None)

    def need(self, *v):
        if any(x is None for x in v):
            raise shape.Stop('a candidate is not known')

    def run(self, s, N, maxima, env, d, D, r=0, **o):
        """o: fields of the object"""
        E = self.E
        pm, dm, qm, Pm, Dm, Qm = maxima
        opt = dict(stepwise=1, stationary=0, seasonal=1, approximation=0, Order_max=5, num_models=94, imean=1, allowdrift=1, method=0,
                   p_start=2, q_start=2, P_start=1, Q_start=1, ic='aicc', test='kpss', type='level', seas='seas', at=0.05, as_=0.05, flat='')
        opt.update(o)
        if opt['stationary']:
            d = D = 0
        if s <= 1 or not opt['seasonal']:
            D = Pm = Qm = 0
        self.phase = []
        fn = 'auto_arima_exec (%s)' % ('stepwise' if opt['stepwise'] else 'exhaustive')
        y = self.arr('inp', N, sym=True)
        xr = self.arr('xreg', N * r, sym=True)
        ob = self.call('auto_arima_init', self.ints('pdqmax', [pm, dm, qm]), self.ints('PDQmax', [maxima[3], Dm, maxima[5]]), s, r, N)
        t = 'auto_arima_set'
        for f in ('stepwise', 'stationary', 'seasonal', 'approximation', 'Order_max', 'num_models', 'imean', 'allowdrift', 'method',
                  'p_start', 'q_start', 'P_start', 'Q_start'):
            self.set(ob, t, f, opt[f])
        if 'ic' in o:
            off, sz = self.off(t, 'information_criteria')
            for k, ch in enumerate(opt['ic'].encode() + b'\0'):
                E.store((ob[0], ob[1] + off + k), 1, ch, None)
        if 'test' in o:
            self.call('auto_arima_setStationarityParameters', ob, E.text(opt['test']), opt['at'], E.text(opt['type']))
        if 'seas' in o:
            self.call('auto_arima_setSeasonalParameters', ob, E.text(opt['seas']), opt['as_'])
        ic = opt['ic'] if N > 3 else 'aic'

        def diffs_(E, a, ins, seasonal):
            names = ('nsdiffs', 'ndiffs')
            nm = names[0] if seasonal else names[1]
            lim = self.int_at(a[5])
            want = Dm if seasonal else dm
            self.flag(nm + ': limit', None if lim is None else lim == want, 'called with limit %s, the object has %s' % (lim, want))
            al = self.double_at(a[3]) if seasonal else self.double_at(a[2])
            w = opt['as_'] if seasonal else opt['at']
            self.flag(nm + ': level', None if al is None else al == w, 'called with level %s, the object has %s' % (al, w))
            ts = E.bytes_(a[4] if seasonal else a[3])
            w = opt['seas' if seasonal else 'test'].encode()
            self.flag(nm + ': test', None if ts is None else ts == w, 'called with test %s, the object has %s' % (ts, w))
            if not seasonal:
                ty = E.bytes_(a[4])
                self.flag(nm + ': type', None if ty is None else ty == opt['type'].encode(), 'called with type %s, the object has %s' % (ty, opt['type']))
            else:
                self.flag(nm + ': period', None if a[2] is None else a[2] == s, 'called with period %s' % a[2])
            return D if seasonal else d

        E.hooks['nsdiffs'] = lambda E, a, ins: diffs_(E, a, ins, True)
        E.hooks['ndiffs'] = lambda E, a, ins: diffs_(E, a, ins, False)
        flat = opt['flat']
        D0, d0 = D, d
        if flat in ('regressor, seasonal', 'last regressor, seasonal'):
            D -= 1 if D > 0 and r and not opt['stationary'] else 0
        elif flat in ('regressor', 'last regressor'):
            d -= 1 if d > 0 and r and not opt['stationary'] else 0
        n1 = N - s * D0 if flat.endswith('seasonal') else N - s * D0 - d0 if d0 else -1

        def constant(E, a, ins):
            v = self.double_at(a[0])
            k = [x for x in self.symbols(v) if x[0] == 'xreg'] if isinstance(v, shape.Pol) else []
            if not flat or flat == 'series':
                return int(not k and bool(flat))
            return int(bool(k) and a[1] == n1 and (not flat.startswith('last') or min(x[1] for x in k) >= N * (r - 1)))
        E.hooks['is_constant'] = constant
        fits = []

        def execute(E, a, ins):
            fits.append((a[0], self.double_at(a[1]), a[2] if len(a) > 2 else None))
            return None
        E.hooks['rank'] = lambda E, a, ins: a[1]
        E.hooks['regress'] = lambda E, a, ins: [E.havoc(a[k]) for k in (0, 3, 4) if k < len(a)] and None
        E.hooks['sarimax_exec'] = execute
        E.hooks['myarima_free'] = lambda E, a, ins: None
        E.hooks['aa_ret_free'] = lambda E, a, ins: None
        E.hooks['sort1d_ascending'] = self.sort

        def fit(E, a, ins):
            if len(a) != 12:
                raise shape.Stop('myarima is called in another way')
            o3 = [self.int_at(a[2], k) for k in range(3)]
            s4 = [self.int_at(a[3], k) for k in range(4)] if type(a[3]) is tuple else [0, 0, 0, 0]
            c, approx = a[4], a[7]
            self.need(*o3, *s4, c, approx)
            p, d_, q = o3
            P, D_, Q, s_ = s4
            if type(c) is float:
                c = int(c)
            self.flag(fn + ': data', None if a[1] is None else a[1] == N and self.double_at(a[0]) == sym(('inp', 0)), 'candidates are fitted to other data')
            self.flag(fn + ': regressors', None if a[10] is None else a[10] == r and (not r or a[9] == xr), 'candidates are fitted with other regressors')
            self.flag(fn + ': criterion', None if E.bytes_(a[5]) is None else E.bytes_(a[5]) == ic.encode(), 'candidates are compared by %s, the object has %s' % (E.bytes_(a[5]), ic))
            who = 'p=%d d=%d q=%d P=%d D=%d Q=%d s=%d constant=%d' % (p, d_, q, P, D_, Q, s_, c)
            for nm, v, m in (('p', p, pm), ('q', q, qm), ('P', P, Pm), ('Q', Q, Qm)):
                self.flag(fn + ': limits', 0 <= v <= m, 'candidate %s, %s is at most %d' % (who, nm, m))
            self.flag(fn + ': differencing', (d_, D_) == (d, D) or (D_ == D == 0 or s_ == 0) and d_ == d, 'candidate %s, the tests chose d=%d D=%d' % (who, d, D))
            if P + Q + D_ > 0:
                self.flag(fn + ': period', s_ == s, 'candidate %s, the period is %d' % (who, s))
            if not opt['stepwise']:
                self.flag(fn + ': total order', p + q + P + Q <= opt['Order_max'], 'candidate %s, p+q+P+Q is at most %d' % (who, opt['Order_max']))
            ok = not c or d + D == 1 and opt['allowdrift'] or d + D == 0 and opt['imean']
            self.flag(fn + ': constant', bool(ok), 'candidate %s, mean %s, drift %s' % (who, opt['imean'], opt['allowdrift']))
            if not opt['approximation']:
                self.flag(fn + ': approximation', approx == 0, 'candidate fitted by approximation')
            want = opt['method']
            m = 0 if a[11] == 0 else self.int_at(a[11])
            self.flag(fn + ': method', None if m is None else m == want, 'candidate fitted by method %s, the object has %s' % (m, want))
            v = env(len(self.tried), (p, q, P, Q, c), bool(approx))
            rr = r + (1 if c and d + D == 1 else 0)
            sx = self.call('sarimax_init', p, d_, q, P, D_, Q, s_ if P + Q + D_ else 0, rr, int(bool(c)) if d + D < 2 else 0, N)
            ret = E.region('candidate %d' % len(self.tried), max(x + z for _, x, z in self.m.difields['myarima_set']), 'zero')
            self.set((ret, 0), 'myarima_set', 'sarimax', sx)
            for f, x in (('ic', v), ('aic', None), ('bic', None), ('aicc', None), ('sigma2', None)):
                self.set((ret, 0), 'myarima_set', f, x)
            self.set((ret, 0), 'myarima_set', 'idrift', int(bool(c) and d + D == 1))
            self.tried.append(((p, q, P, Q, c), bool(approx), v))
            return (ret, 0)
        E.hooks['myarima'] = fit
        self.call('auto_arima_exec', ob, y, xr)
        T = self.tried
        if flat == 'series':
            if T or not fits:
                self.flag(fn + ': constant series', None, 'a constant series is searched')
                return
            o, y0, x0 = fits[-1]
            f = lambda n: self.get(o, 'sarimax_set', n)
            has = tuple(f(n) for n in ('p', 'd', 'q', 'P', 'D', 'Q'))
            self.need(*has)
            self.flag(fn + ': constant series', has == (0, d, 0, 0, D, 0) and (not D or f('s') == s), 'constant after differencing d=%d D=%d: fitted p=%d d=%d q=%d P=%d D=%d Q=%d' % ((d, D) + has))
            self.flag(fn + ': data', None if y0 is None else y0 == sym(('inp', 0)), 'the constant series is fitted to other data')
            g = tuple(self.get(ob, t, n) for n in ('p', 'd', 'q', 'P', 'D', 'Q'))
            self.flag(fn + ': constant series', None if None in g else g == has, 'the object reports %s, fitted is %s' % (g, has))
            return
        if not T:
            self.flag(fn + ': candidates', None, 'no candidate was tried')
            return
        g = lambda f: self.get(ob, t, f)
        got = tuple(g(f) for f in ('p', 'q', 'P', 'Q'))
        self.need(*got)
        last = T[-1]
        # what was compared, as the user sees it: the first value of each candidate, by approximation or not
        first, exact = {}, {}
        for c, ap, v in T:
            (first if ap else exact).setdefault(c, v)
        who = lambda c: 'p=%d q=%d P=%d Q=%d constant=%d' % c
        self.flag(fn + ': last fit', last[0][:4] == got, 'the object reports p=%d q=%d P=%d Q=%d, the last fit was %s' % (got + (who(last[0]),)))
        chosen = last[0]
        if not opt['approximation']:
            best = min(exact.values())
            self.flag(fn + ': selection', best >= INF or exact[chosen] == best,
                      '%s (criterion %g) is returned, %s has %g' % (who(chosen), exact[chosen], who(min(exact, key=exact.get)), best))
        else:
            ok = [c for c in sorted(first, key=first.get) if env(0, c, False) < INF and first[c] < INF]
            self.flag(fn + ': refit', last[1] is False or not ok, 'the returned model %s is an approximate fit' % who(chosen))
            if ok and opt['stepwise']:
                self.flag(fn + ': selection', first.get(chosen) == first[ok[0]],
                          '%s (approximate criterion %s) is returned, %s has %g' % (who(chosen), first.get(chosen), who(ok[0]), first[ok[0]]))
            elif ok and env(0, min(first, key=first.get), False) < INF:
                self.flag(fn + ': selection', first.get(chosen) == min(first.values()), '%s is returned, %s is better' % (who(chosen), who(min(first, key=first.get))))
        ks = [0, 1] if d + D == 1 and opt['allowdrift'] or d + D == 0 and opt['imean'] else [0]
        seen = set(first) | set(exact)
        N3 = N // 3
        box = [min(m, N3) for m in (pm, qm)] + [min(m, N3 // s) if s > 1 else 0 for m in (Pm, Qm)]
        if s > 1 and opt['seasonal']:
            for k in (0, 1):
                if box[2 + k] > 0:
                    box[k] = min(box[k], s - 1)
        if not opt['stepwise']:
            miss = [c for c in itertools.product(*[range(b + 1) for b in box], ks) if sum(c[:4]) <= opt['Order_max'] and c not in seen]
            self.flag(fn + ': every combination', not miss, 'not tried: %s' % [who(c) for c in miss[:3]])
            return
        nd = len([1 for c, ap, v in T])
        limit = max(opt['num_models'], 5)
        self.flag(fn + ': number of models', len(seen) <= limit, '%d models tried, the limit is %d' % (len(seen), opt['num_models']))
        start = tuple(min(opt[k + '_start'], b) for k, b in zip(('p', 'q', 'P', 'Q'), box))
        if N >= 10:
            self.flag(fn + ': start', T[0][0][:4] == start, 'the search starts at %s, the start orders are p=%d q=%d P=%d Q=%d' % ((who(T[0][0]),) + start))
        if len(seen) < opt['num_models']:
            vals = first if opt['approximation'] else exact
            top = min(vals, key=vals.get)
            if list(vals.values()).count(vals[top]) == 1:
                near = []
                for k in range(4):
                    for e in (-1, 1):
                        n = list(top)
                        n[k] += e
                        near.append(tuple(n))
                for i, j in ((0, 1), (2, 3)):
                    for e, g in ((-1, -1), (1, 1), (-1, 1), (1, -1)):
                        n = list(top)
                        n[i] += e
                        n[j] += g
                        near.append(tuple(n))
                near += [top[:4] + (k,) for k in ks if k != top[4]]
                miss = [n for n in near if all(0 <= x <= b for x, b in zip(n, box)) and n not in seen]
                if top == (0, 0, 0, 0, 0):      # the null model without constant is tried first, the search goes on with the constant
                    miss = [n for n in miss if n[:4] + (1,) not in seen]
                self.flag(fn + ': local optimum', not miss, 'the search stops at %s without trying %s' % (who(top), [who(n) for n in miss[:3]]))

    def sort(self, E, a, ins):
        n = a[1]
        if type(n) is not int:
            raise shape.Stop('sort of an unknown length')
        v = [self.double_at(a[0], k) for k in range(n)]
        self.need(*v)
        for k, i in enumerate(sorted(range(n), key=lambda i: v[i])):
            E.store((a[2][0], a[2][1] + 4 * k), 4, i, ins)
        for k, x in enumerate(sorted(v)):
            pass
        return None

    # -- how many differences: until the test no longer asks for one, at most max
    def ndiffs(self, outcomes, const, dmax, seasonal):
        E = self.E
        nm = 'nsdiffs' if seasonal else 'ndiffs'
        calls, cc = [0], [0]

        def test(E, a, ins):
            calls[0] += 1
            return outcomes[min(calls[0], len(outcomes)) - 1]

        def constant(E, a, ins):
            cc[0] += 1
            return int(cc[0] > const)
        E.hooks['runseasonalitytests' if seasonal else 'runstattests'] = test
        E.hooks['checkConstant'] = constant
        N, f = 40, 4
        al = self.num(0.05)
        if seasonal:
            got = self.call(nm, self.arr('x', N), N, f, al, E.text('seas'), self.ints('max_D', [dmax]))
        else:
            got = self.call(nm, self.arr('x', N), N, al, E.text('kpss'), E.text('level'), self.ints('max_d', [dmax]))
        want = 0
        if const > 0:
            while want < dmax and outcomes[min(want, len(outcomes) - 1)]:
                want += 1
                if want >= const:
                    break
        self.flag(nm + ': number of differences', None if got is None else got == want,
                  'the test asks %s, constant after %d, at most %d: returned %s, expected %s' % (outcomes, const, dmax, got, want))

    def decision(self, test, kind, p, alpha, want):
        """one stationarity test: the null is rejected or not at the level given"""
        E = self.E
        st = {}

        def kpss(E, a, ins):
            st['type'] = E.bytes_(a[2])
            E.store(a[5], 8, sym('stat'), ins)
            E.store(a[6], 8, p, ins)
            return None

        def df(E, a, ins):
            st['type'] = E.bytes_(a[2])
            return None

        def pp(E, a, ins):
            st['type'] = E.bytes_(a[3])
            return None
        E.hooks['ur_kpss'], E.hooks['ur_df2'], E.hooks['ur_pp2'] = kpss, df, pp
        E.hooks['interpolate_linear'] = lambda E, a, ins: p
        got = self.call('runstattests', self.arr('x', 40), 40, E.text(test), E.text(kind), alpha)
        self.flag('runstattests: decision (%s)' % test, None if got is None else got == want, 'p value %g at level %g: returned %s' % (p, alpha, got))
        w = {'kpss': {'level': b'level', 'trend': b'trend'}, 'adf': {'level': b'drift', 'trend': b'trend'}, 'df': {'level': b'drift', 'trend': b'trend'},
             'pp': {'level': b'constant', 'trend': b'trend'}}[test][kind]
        self.flag('runstattests: model (%s)' % test, None if st.get('type') is None else st['type'] == w, 'the %s model runs as %s' % (kind, st.get('type')))

    def seasonal_decision(self, test, stat, crit, want):
        E = self.E

        def ocsb(E, a, ins):
            E.store(a[5], 8, stat, ins)
            E.store(a[6], 8, crit, ins)
            return None

        def sh(E, a, ins):
            E.store(a[4], 8, stat, ins)
            return None
        E.hooks['OCSBtest'], E.hooks['SHtest'] = ocsb, sh
        got = self.call('runseasonalitytests', self.arr('x', 40), 40, 4, E.text(test))
        self.flag('runseasonalitytests: decision (%s)' % test, None if got is None else got == want, 'statistic %g, critical value %g: returned %s' % (stat, crit, got))


    # -- one candidate: its criterion, and when it counts as failed
    def candidate(self, a, s, r, constant, retval, roots, ic, approx=0, method=0):
        """roots: [(status, modulus)] of the successive root computations"""
        import math
        E = self.E
        p, d, q, P, D, Q = a
        N = 40
        y, xr = self.arr('inp', N, sym=True), self.arr('xreg', N * r, sym=True)
        seen, box = [], {}

        def execute(E, args, ins):
            o = args[0]
            t = 'sarimax_set'
            if type(o) is not tuple:
                raise shape.Stop('sarimax_exec is called in another way')
            box['o'] = o
            box['method'] = self.get(o, t, 'method')
            for f, n in (('phi', p), ('theta', q), ('PHI', P), ('THETA', Q), ('exog', self.get(o, t, 'r'))):
                c = self.get(o, t, f, 'ptr')
                for k in range(n or 0):
                    E.store((c[0], c[1] + 8 * k), 8, sym((f, k), '%s[%d]' % (f, k)), ins)
            for f in ('aic', 'var', 'loglik'):
                self.set(o, t, f, sym(f))
            self.set(o, t, 'retval', retval)
            return None

        def root(E, args, ins):
            n = args[1]
            if type(n) is not int or any(type(args[k]) is not tuple or args[k][1] is None for k in (0, 2, 3)):
                raise shape.Stop('polyroot is called in another way')
            seen.append([self.double_at(args[0], k) for k in range(n + 1)])
            st, m = roots[min(len(seen), len(roots)) - 1]
            for k in range(n):
                x = m if k == n - 1 else 3.0
                E.store((args[2][0], args[2][1] + 8 * k), 8, 0.6 * x, ins)
                E.store((args[3][0], args[3][1] + 8 * k), 8, 0.8 * x, ins)
            return st
        E.hooks['sarimax_exec'], E.hooks['polyroot'] = execute, root
        me = 0 if not method else self.ints('method', [method])
        o = self.call('myarima', y, N, self.ints('order', [p, d, q]), self.ints('seasonal', [P, D, Q, s]), constant, E.text(ic), 0, approx, sym('offset'), xr, r, me)
        fn = 'myarima'
        if 'o' not in box:
            self.flag(fn, None, 'no estimation')
            return
        want = method if method else 2 if approx else 0
        self.flag(fn + ': method', None if box['method'] is None else box['method'] == want, 'fitted by method %s, asked for %s' % (box['method'], want))
        v = self.get(o, 'myarima_set', 'ic', 'double')
        n = int(p + P > 0) + int(q + Q > 0)
        used = [roots[min(k + 1, len(roots)) - 1] for k in range(n)]
        fails = retval != 1 or any(st != 0 or m < 1.01 for st, m in used)
        who = 'status %d, roots %s' % (retval, used)
        if fails:
            self.flag(fn + ': failed candidate', None if v is None else v == INF, 'the criterion of a failed candidate (%s) is %r' % (who, v))
            return
        so = box['o']
        M = self.get(so, 'sarimax_set', 'M')
        k = p + q + P + Q + M + 1
        un = self.get(so, 'sarimax_set', 'Nused')
        self.need(M, un)
        import model
        from shape import fadd, fmul
        aic = sym('aic')
        if want == 2:
            aic = fadd(sym('offset'), fadd(fmul(float(un), shape.fun('log', sym('var'))), 2.0 * k))
        crit = {'aic': aic, 'bic': fadd(aic, k * (math.log(un) - 2.0)), 'aicc': fadd(aic, 2.0 * k * (k + 1) / (un - k - 1))}
        for f in crit:
            g = self.get(o, 'myarima_set', f, 'double')
            self.facts.append((fn + ': ' + f, model.same(g, crit[f]), '%s is %r, expected %r' % (f, g, crit[f])))
        self.facts.append((fn + ': criterion', model.same(v, crit[ic]), 'the candidate is compared by %r, its %s is %r' % (v, ic, crit[ic])))
        c = {}
        for f, n in (('phi', p), ('theta', q), ('PHI', P), ('THETA', Q)):
            c[f] = [sym((f, j)) for j in range(n)]
        for what, poly in (('AR', model.expand(c['phi'], c['PHI'], s)), ('MA', model.expand(c['theta'], c['THETA'], s))):
            if len(poly) > 1:
                hit = [all(model.same(x, y) for x, y in zip(w, poly)) for z in seen if len(z) == len(poly) for w in (z, z[::-1])]
                self.flag(fn + ': %s roots' % what, any(hit), 'no root test of the %s polynomial of the candidate' % what)


def walk(seed, spread):
    """a landscape without regularity: a slope towards a point, and noise"""
    def env(k, c, ap):
        h = seed * 7919 + 1
        for x in c:
            h = (h * 1103515245 + 12345 + x * 2654435761) % 4294967296
        g = seed % 97
        t = (g % 4, g // 2 % 3, g // 3 % 3, g // 5 % 4, g % 2)
        return 1.0 + sum((a - b) * (a - b) for a, b in zip(c, t)) + spread * (h >> 8) / 16777216.0
    return env


def ridge(ij, sign, end):
    """only a step in two orders at once improves"""
    i, j = ij

    def env(k, c, ap):
        o = [x for n, x in enumerate(c) if n not in ij]
        return 1.0 + 10.0 * abs(c[i] - sign * c[j] - (0 if sign > 0 else end[0])) + 0.9 * abs(c[i] - end[1]) + 0.3 * sum(o)
    return env


def to(target, w=(1.0, 1.1, 1.3, 1.7, 0.4)):
    return lambda k, c, ap: sum(z * abs(a - b) for z, a, b in zip(w, c, target)) + 1.0


def programs(deep=False):
    out = []

    def add(label, f):
        out.append((label, f))

    def S(label, *a, **o):
        add(label, lambda P, a=a, o=o: P.run(*a, **o))
    full = lambda c, ap: 0.013 * c[0] + 0.029 * c[1] + 0.0071 * c[2] + 0.0037 * c[3] + 0.0017 * c[4]
    envs = [('rising', lambda k, c, ap: 1.0 + k), ('falling', lambda k, c, ap: 1000.0 - k), ('all fail', lambda k, c, ap: INF)]
    mx = (2, 2, 2, 1, 1, 1)
    boxes = [(s, t) for s, lim in ((0, (2, 2, 0, 0)), (4, (2, 2, 1, 1))) for t in itertools.product(*[range(x + 1) for x in lim], (0, 1))]
    for n, (s, t) in enumerate(boxes):
        for st in (1, 0):
            if st == 0 and n % 3 and not deep:
                continue
            for ap in (0, 1):
                if ap and n % 4 and not deep:
                    continue
                S('best %s, s=%d, stepwise=%d, approximation=%d' % (t, s, st, ap), s, 48, mx, to(t), 0, 0, 0, stepwise=st, approximation=ap)
    fails = [lambda k, c, ap, t=t: INF if c == t else to(t)(k, c, ap) for s, t in boxes[::5]]
    inexact = [lambda k, c, ap, t=t: INF if c == t and not ap else to(t)(k, c, ap) for s, t in boxes[::5]]
    for (s, t), f, g in zip(boxes[::5], fails, inexact):
        for st in (1, 0):
            S('best %s fails, s=%d, stepwise=%d' % (t, s, st), s, 48, mx, f, 0, 0, 0, stepwise=st, approximation=0)
            S('best %s fails when refitted, s=%d, stepwise=%d' % (t, s, st), s, 48, mx, g, 0, 0, 0, stepwise=st, approximation=1)
    for nm, e in envs:
        for s in (0, 4):
            for st in (1, 0):
                for ap in (0, 1):
                    S('%s, s=%d, stepwise=%d, approximation=%d' % (nm, s, st, ap), s, 48, mx, e, 0, 0, 0, stepwise=st, approximation=ap)
    k = 0
    for st in (1, 0):
        for d, D in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0)):
            for me in (0, 1):
                for dr in (0, 1):
                    k += 1
                    t = boxes[(k * 7) % len(boxes)][1]
                    S('d=%d D=%d allow mean %d drift %d stepwise %d' % (d, D, me, dr, st), 4, 48, mx, to(t), d, D, k % 3, stepwise=st, imean=me, allowdrift=dr)
    for st in (1, 0):
        for sea, stat in ((0, 0), (0, 1), (1, 1)):
            S('seasonal %d stationary %d stepwise %d' % (sea, stat, st), 4, 48, mx, to((1, 2, 1, 1, 1)), 1, 1, 0, stepwise=st, seasonal=sea, stationary=stat)
        for ic in ('aic', 'bic', 'aicc'):
            S('criterion %s stepwise %d' % (ic, st), 4, 48, mx, to((1, 1, 0, 1, 0)), 0, 1, 0, stepwise=st, ic=ic)
        for me in (1, 2):
            S('method %d stepwise %d' % (me, st), 0, 48, mx, to((1, 1, 0, 0, 0)), 1, 0, 1, stepwise=st, method=me)
        for om in (0, 1, 3):
            S('total order %d stepwise %d' % (om, st), 4, 48, mx, to((2, 2, 1, 1, 1)), 0, 0, 0, stepwise=st, Order_max=om)
        for N in (10, 12, 20):
            S('N=%d stepwise %d' % (N, st), 4, N, (5, 1, 5, 2, 1, 2), to((5, 5, 2, 2, 1)), 0, 0, 0, stepwise=st, Order_max=14)
        for m in ((0, 1, 0, 0, 0, 0), (3, 0, 0, 1, 0, 0), (0, 2, 3, 0, 1, 2), (1, 1, 2, 2, 1, 0)):
            S('limits %s stepwise %d' % (m, st), 3, 48, m, to(m[0:1] + m[2:3] + m[3:4] + m[5:6] + (1,)), 0, 0, 0, stepwise=st, Order_max=9)
        S('tests stepwise %d' % st, 4, 48, mx, to((0, 1, 1, 0, 0)), 1, 0, 0, stepwise=st, test='adf', type='trend', seas='ocsb', at=0.03, as_=0.07)
    for nm in (1, 2, 4, 5, 6, 7, 9, 12):
        for s in (0, 4):
            S('at most %d models, s=%d' % (nm, s), s, 48, mx, to((0, 2, 1, 0, 1)), 0, 0, 0, num_models=nm)
            S('at most %d models, s=%d, approximation' % (nm, s), s, 48, mx, to((0, 2, 1, 0, 1)), 0, 0, 0, num_models=nm, approximation=1)
    for n in range(160 if not deep else 800):
        lim = ((3, 2, 2, 2, 1, 3), (2, 1, 3, 3, 1, 1), (3, 1, 3, 2, 1, 2), (1, 1, 3, 1, 1, 2))[n % 4]
        st = ((0, 0, 0, 0), (2, 2, 1, 1), (1, 0, 2, 1), (0, 3, 0, 2), (3, 1, 1, 0))[n % 5]
        S('landscape %d, limits %s, start %s' % (n, lim, st), 5, 80, lim, walk(n, (3.0, 12.0, 1.0)[n % 3]), 0, 0, 0, Order_max=9, approximation=int(n % 7 == 0),
          p_start=st[0], q_start=st[1], P_start=st[2], Q_start=st[3])
    for ij in ((0, 1), (2, 3)):
        for sign in (1, -1):
            for e in (0, 3):
                st = {x + '_start': 0 for x in 'pqPQ'}
                a, b = (('p', 'q'), ('P', 'Q'))[ij[0] // 2]
                st[a + '_start'], st[b + '_start'] = (3 - e, 3 - e if sign > 0 else e)
                S('ridge %s %d %d' % (ij, sign, e), 5, 80, (3, 2, 3, 3, 1, 3), ridge(ij, sign, (3, e)), 0, 0, 0, **st)
    for st in (1, 0):
        for r, d, D in ((0, 0, 0), (0, 1, 0), (0, 2, 0), (0, 0, 1), (0, 1, 1), (1, 0, 0), (1, 1, 0), (2, 0, 1), (1, 1, 1)):
            for s in (0, 4):
                if s or not D:
                    S('constant after differencing d=%d D=%d s=%d regressors=%d stepwise %d' % (d, D, s, r, st), s, 48, mx, to((1, 1, 0, 0, 0)), d, D, r, stepwise=st, flat='series')
        for r in (1, 2):
            for d, D in ((1, 0), (2, 0), (0, 1), (1, 1)):
                for fl in ('regressor, seasonal', 'last regressor, seasonal', 'regressor', 'last regressor'):
                    S('constant %s, d=%d D=%d regressors=%d stepwise %d' % (fl, d, D, r, st), 4, 48, mx, to((1, 1, 0, 0, 0)), d, D, r, stepwise=st, flat=fl)
    for a in itertools.product((0, 1, 2), (0, 2), (0, 1), (0, 1)):
        S('start %s' % (a,), 4, 48, mx, to((1, 1, 0, 1, 0)), 0, 0, 0, p_start=a[0], q_start=a[1], P_start=a[2], Q_start=a[3])
    for sea in (0, 1):
        for outc in ((0,), (1, 0), (1, 1, 0), (1, 1, 1)):
            for const in (0, 1, 2, 9):
                for dm in (0, 1, 2):
                    add('%s(%s, constant %d, max %d)' % ('nsdiffs' if sea else 'ndiffs', outc, const, dm),
                        lambda P, a=(outc, const, dm, sea): P.ndiffs(*a))
    for test in ('kpss', 'adf', 'df', 'pp'):
        for kind in ('level', 'trend'):
            for p, al in ((0.03, 0.05), (0.07, 0.05), (0.03, 0.02), (0.07, 0.09)):
                rej = p < al
                add('%s %s p=%g at %g' % (test, kind, p, al), lambda P, a=(test, kind, p, al, int(rej if test == 'kpss' else not rej)): P.decision(*a))
    for a, s in (((1, 0, 1, 0, 0, 0), 0), ((2, 1, 0, 0, 0, 0), 0), ((0, 0, 1, 0, 0, 0), 0), ((0, 1, 0, 0, 0, 1), 4), ((1, 0, 2, 1, 1, 1), 3), ((0, 0, 0, 2, 0, 0), 4),
                 ((0, 0, 0, 0, 0, 0), 0), ((2, 0, 2, 1, 0, 2), 2)):
        for k in (0, 1):
            for r in (0, 1):
                for ic in ('aic', 'bic', 'aicc'):
                    for ap, me in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2)):
                        if deep or (k + r + len(ic) + ap + me + sum(a)) % 2 == 0:
                            add('candidate %s s=%d constant=%d regressors=%d %s approximation %d method %d' % (a, s, k, r, ic, ap, me),
                                lambda P, a=(a, s, k, r, 1, [(0, 1.02)], ic, ap, me): P.candidate(*a))
        for ret in (0, 4, 7, 10, 12, 15, 16):
            add('candidate %s status %d' % (a, ret), lambda P, a=(a, s, 0, 0, ret, [(0, 1.5)], 'aicc'): P.candidate(*a))
        for roots in ([(0, 1.005)], [(0, 1.5), (0, 1.005)], [(0, 1.005), (0, 1.5)], [(1, 1.5)], [(0, 1.5), (1, 1.5)], [(1, 1.5), (0, 1.5)], [(0, 0.5), (0, 2.0)]):
            add('candidate %s roots %s' % (a, roots), lambda P, a=(a, s, 0, 0, 1, roots, 'aic'): P.candidate(*a))
    for stat, crit, w in ((-1.0, -1.8, 1), (-2.5, -1.8, 0), (3.0, 1.5, 1), (1.0, 1.5, 0)):
        add('ocsb %g %g' % (stat, crit), lambda P, a=('ocsb', stat, crit, w): P.seasonal_decision(*a))
    for stat, w in ((0.9, 1), (0.65, 1), (0.63, 0), (0.1, 0)):
        add('seas %g' % stat, lambda P, a=('seas', stat, 0.64, w): P.seasonal_decision(*a))
    return out
