"""Client programs at fixed shapes, for the shape interpreter: every public function is called with orders, lengths and options
given constants and with unknown data, arrays having exactly the extents the interface promises."""
import shape


from shape import MARK


class Prog:
    def __init__(self, ctx, limit=6000000, key=None):
        self.c, self.m = ctx, ctx.m
        self.E = shape.Engine(ctx.m, ctx.eff, limit)
        self.E.hooks['polyroot'] = self.polyroot
        self.E.hooks['fminunc'] = self.fminunc
        self.E.hooks['hessian_fd'] = self.hessian
        self.modular = self.E.scalar_once = True
        self.key = key

    def fminunc(self, E, a, ins):
        """the optimiser's interface: evaluates the objective on N values, leaves N values (its body is analysed on its own)"""
        if not self.modular or len(a) != 7 or type(a[0]) is not tuple or a[2] is None or any(type(a[k]) is not tuple or a[k][1] is None for k in (3, 6)):
            return shape.MISS
        n = a[2]
        f = E.load(a[0], 8, 'ptr', ins)
        par = E.load((a[0][0], None if a[0][1] is None else a[0][1] + 8), 8, 'ptr', ins)
        if not isinstance(f, shape.FnPtr):
            return shape.MISS
        for k in range(n):
            E.load((a[3][0], a[3][1] + 8 * k), 8, 'double', ins)
        for _ in range(2):
            x = E.doubles('point', n)
            if E.call(f, [(x, 0), n, par], ins) is E.NORET:
                return E.NORET
        for k in range(n):
            E.store((a[6][0], a[6][1] + 8 * k), 8, None, ins)
        return None

    def hessian(self, E, a, ins):
        """the second differences of the objective (the body is analysed on its own)"""
        if not self.modular or len(a) != 6 or type(a[0]) is not tuple or a[2] is None or any(type(a[k]) is not tuple or a[k][1] is None for k in (1, 3, 5)):
            return shape.MISS
        n = a[2]
        f = E.load(a[0], 8, 'ptr', ins)
        par = E.load((a[0][0], None if a[0][1] is None else a[0][1] + 8), 8, 'ptr', ins)
        if not isinstance(f, shape.FnPtr):
            return shape.MISS
        for k in (1, 3):
            for j in range(n):
                E.load((a[k][0], a[k][1] + 8 * j), 8, 'double', ins)
        for _ in range(2):
            x = E.doubles('point', n)
            if E.call(f, [(x, 0), n, par], ins) is E.NORET:
                return E.NORET
        for k in range(n * n):
            E.store((a[5][0], a[5][1] + 8 * k), 8, None, ins)
        return None

    def hessian_of(self, n):
        self.modular = False
        f = self.objective_()
        self.call('hessian_fd', f, self.arr('x', n), n, self.arr('dx', n), None, self.out('f', n * n))
        self.outputs('hessian_fd')

    def objective(self, E, a, ins):
        for k in range(a[1] or 0):
            E.load((a[0][0], None if a[0][1] is None else a[0][1] + 8 * k), 8, 'double', ins)
        return None

    def objective_(self):
        self.E.hooks['(objective)'] = self.objective
        f = self.E.region('funcpt', 16, 'arg')
        self.E.put(f, 0, 8, shape.FnPtr('(objective)'))
        self.E.put(f, 8, 8, 0)
        return (f, 0)

    def optimiser(self, n, method):
        self.modular = False
        self.call('fminunc', self.objective_(), 0, n, self.arr('xi', n), 1.0, method, self.arr('xf', n, kind='heap'))

    def polyroot(self, E, a, ins):
        """the root finder's interface: reads coeff[0..n], writes n roots (its body is analysed on its own)"""
        n = a[1]
        if any(type(a[k]) is not tuple for k in (0, 2, 3)):
            return shape.MISS
        if n is None or a[0][1] is None or a[2][1] is None or a[3][1] is None:
            for k in (0, 2, 3):
                E.fine('bounds', ins)
            E.havoc(a[2])
            E.havoc(a[3])
            return None
        for k in range(n + 1):
            E.load((a[0][0], a[0][1] + 8 * k), 8, 'double', ins)
        for k in range(n):
            E.store((a[2][0], a[2][1] + 8 * k), 8, None, ins)
            E.store((a[3][0], a[3][1] + 8 * k), 8, None, ins)
        return None

    # -- small helpers
    def call(self, name, *a):
        fn = self.m.fns.get(name)
        if fn is None or not fn.blocks:
            raise shape.Stop('%s is not defined' % name)
        a = list(a)
        n = len(fn.params)
        if len(a) != n:
            raise shape.Stop('%s takes %d parameters' % (name, n))
        r = self.E.run(fn, a)
        if r is self.E.NORET:
            raise shape.Stop('%s does not return' % name)
        return r

    def arr(self, name, n, sym=False, kind='arg'):
        if n <= 0:
            return 0
        return (self.E.doubles(name, n, key=name if sym else None, kind=kind), 0)

    # -- results: every element present, none computed from unwritten memory
    def check(self, what, p, n, size=8):
        self.results = getattr(self, 'results', 0) + max(n, 0)
        if n <= 0 or type(p) is not tuple:
            return
        c = self.E.mem.m.get(p[0])
        for k in range(n):
            off = p[1] + 8 * k
            x = c.d.get(off) if c is not None else None
            if x is None:
                if p[0].kind == 'heap' and (c is None or off < c.top):
                    self.E.events.setdefault(('missing', what), ('%s[%d] is never assigned' % (what, k), []))
            elif type(x[1]) is shape.Poison:
                t = x[1].text
                if t == MARK:
                    self.E.events.setdefault(('missing', what), ('%s[%d] is not computed by the estimation' % (what, k), []))
                else:
                    self.E.events.setdefault(('poison', x[1].ins), ('%s[%d] is computed from %s, which nothing has written' % (what, k, t), []))

    def out(self, what, n):
        p = self.arr(what, n, kind='heap')
        self.outs = getattr(self, 'outs', []) + [(what, p, n)]
        return p

    def outputs(self, fn):
        for what, p, n in getattr(self, 'outs', ()):
            self.check('%s: %s' % (fn, what), p, n)
        self.outs = []

    def fields(self, o, tag):
        """[(name, pointer, length)] of the results of a model object"""
        g = lambda f: self.get(o, tag, f)
        have = {x[0] for x in self.m.difields[tag]}
        ln = {'phi': 'p', 'theta': 'q', 'PHI': 'P', 'THETA': 'Q'}
        out = []
        for f, k in ln.items():
            if f in have:
                n = g(k)
                out.append((f, self.get(o, tag, f, 'ptr'), n))
        if 'vcov' in have and tag != 'auto_arima_set':
            out.append(('vcov', self.get(o, tag, 'vcov', 'ptr'), g('lvcov')))
        if 'exog' in have:
            out.append(('exog', self.get(o, tag, 'exog', 'ptr'), (g('r') or 0)))
        N = g('N')
        lost = (g('d') if 'd' in have else 0, g('D') if 'D' in have else 0, g('s') if 's' in have else 0)
        if None not in lost and N is not None:
            out.append(('res', self.get(o, tag, 'res', 'ptr'), N - lost[0] - lost[1] * lost[2]))
        out = [(f, p, n) for f, p, n in out if n is not None and type(p) is tuple and p[1] is not None]
        me = g('method')
        for f in ('mean', 'var') + (('loglik', 'aic') if tag != 'ar_set' and (me == 0 or tag == 'sarimax_set' and me == 1) else ('aic',) if tag == 'ar_set' and me == 2 else ()):
            if f in have:
                out.append((f, (o[0], o[1] + self.off(tag, f)[0]), 1))
        return out

    def mark(self, o, tag):
        """forget what construction left in the result fields: what is still there afterwards was not computed"""
        for f, p, n in self.fields(o, tag):
            for k in range(n):
                self.E.store((p[0], p[1] + 8 * k), 8, shape.Poison(MARK, None), None)

    def done(self, o, tag, fn):
        me = self.get(o, tag, 'method')
        fn += '' if me is None else ' (method %d)' % me
        for f, p, n in self.fields(o, tag):
            self.check('%s: %s' % (fn, f), p, n)

    def ints(self, name, v):
        r = self.E.region(name, 4 * len(v), 'arg')
        for k, x in enumerate(v):
            self.E.put(r, 4 * k, 4, x)
        return (r, 0)

    def off(self, tag, f):
        for n, o, sz in self.m.difields[tag]:
            if n == f:
                return o, sz
        raise shape.Stop('%s has no field %s' % (tag, f))

    def set(self, o, tag, f, v):
        off, sz = self.off(tag, f)
        self.E.store((o[0], o[1] + off), sz, v, None)

    def get(self, o, tag, f, ty='int'):
        off, sz = self.off(tag, f)
        return self.E.load((o[0], o[1] + off), sz, ty, None)

    # -- client programs: constructor, options, estimation, forecast, queries, release
    def rest(self, pre, o, tag, vcov=True, ext=None):
        if vcov and tag not in ('ar_set', 'auto_arima_set'):
            n = self.get(o, tag, 'lvcov')
            if n is None:
                raise shape.Stop('lvcov is not constant')
            self.call(pre + '_vcov', o, self.out('vcov', n))
            self.outputs(pre + '_vcov')
        self.call(pre + '_summary', o)
        self.call(pre + '_free', o)

    def arima(self, p, d, q, N, method=0, opt=5, L=3, cssml=None):
        o = self.call('arima_init', p, d, q, N)
        self.call('arima_setMethod', o, method)
        self.call('arima_setOptMethod', o, opt)
        if cssml is not None:
            self.call('arima_setCSSML', o, cssml)
        inp = self.arr('inp', N)
        self.mark(o, 'arima_set')
        self.call('arima_exec', o, inp)
        self.done(o, 'arima_set', 'arima_exec')
        self.call('arima_predict', o, inp, L, self.out('xpred', L), self.out('amse', L))
        self.outputs('arima_predict')
        self.rest('arima', o, 'arima_set')

    def sarima(self, p, d, q, s, P, D, Q, N, method=0, opt=5, L=3, cssml=None):
        o = self.call('sarima_init', p, d, q, s, P, D, Q, N)
        self.call('sarima_setMethod', o, method)
        self.call('sarima_setOptMethod', o, opt)
        if cssml is not None:
            self.call('sarima_setCSSML', o, cssml)
        inp = self.arr('inp', N)
        self.mark(o, 'sarima_set')
        self.call('sarima_exec', o, inp)
        self.done(o, 'sarima_set', 'sarima_exec')
        self.call('sarima_predict', o, inp, L, self.out('xpred', L), self.out('amse', L))
        self.outputs('sarima_predict')
        self.rest('sarima', o, 'sarima_set')

    def sarimax(self, p, d, q, P, D, Q, s, r, imean, N, method=0, opt=5, L=3, params=False):
        o = self.call('sarimax_init', p, d, q, P, D, Q, s, r, imean, N)
        self.call('sarimax_setMethod', o, method)
        self.call('sarimax_setOptMethod', o, opt)
        if params:
            self.call('sarimax_setParams', o, self.arr('phi0', p), self.arr('theta0', q), self.arr('PHI0', P), self.arr('THETA0', Q))
        inp = self.arr('inp', N)
        xr = self.arr('xreg', N * r)
        self.mark(o, 'sarimax_set')
        self.call('sarimax_exec', o, inp, xr)
        self.done(o, 'sarimax_set', 'sarimax_exec')
        self.call('sarimax_predict', o, inp, xr, L, self.arr('newxreg', L * r), self.out('xpred', L), self.out('amse', L))
        self.outputs('sarimax_predict')
        self.rest('sarimax', o, 'sarimax_set')

    def ar(self, method, N, p, opt=5, L=3):
        # the selected order is data dependent: one program per order (the selection is analysed on its own)
        self.E.hooks['ar_estimate'] = lambda E, a, ins: p
        o = self.call('ar_init', method, N)
        inp = self.arr('inp', N)
        self.set(o, 'ar_set', 'optmethod', opt)
        self.mark(o, 'ar_set')
        self.call('ar_exec', o, inp)
        self.done(o, 'ar_set', 'ar_exec')
        self.call('ar_predict', o, inp, L, self.out('xpred', L), self.out('amse', L))
        self.outputs('ar_predict')
        self.rest('ar', o, 'ar_set')

    def num(self, v):
        r = self.E.region('number', 8, 'arg')
        self.E.put(r, 0, 8, v)
        return (r, 0)

    def differences(self, N, test, kind, dmax):
        self.call('ndiffs', self.arr('x', N), N, self.num(0.05), self.E.text(test), self.E.text(kind), self.ints('max_d', [dmax]))

    def seasonal_differences(self, N, f, test, dmax, best=None):
        if best is not None:            # the lag with the smallest criterion is data dependent: one program per outcome
            self.E.hooks['getBestIndex'] = lambda E, a, ins: best
        self.call('nsdiffs', self.arr('x', N), N, f, self.num(0.05), self.E.text(test), self.ints('max_D', [dmax]))

    def candidate(self, N, order, seasonal, constant, approx, r, method=None, s=4):
        """one model of the automatic search"""
        fit = self.call('myarima', self.arr('x', N), N, self.ints('order', order), self.ints('seasonal', list(seasonal) + [s]), constant,
                        self.E.text('aicc'), 0, approx, 0.0, self.arr('xreg', N * r), r, self.ints('method', [method]) if method is not None else 0)
        self.call('myarima_free', fit)

    def auto_predict(self, p, d, q, P, D, Q, s, r, drift, N, L=3):
        """forecast and summary of the automatic model for one outcome of the search"""
        o = self.call('auto_arima_init', 0, 0, s, r, N)
        t = 'auto_arima_set'
        for f, v in (('p', p), ('d', d), ('q', q), ('P', P), ('D', D), ('Q', Q), ('idrift', drift), ('retval', 1), ('Nused', N - d - s * D),
                     ('M', int(d + D == 0) + r + drift)):
            self.set(o, t, f, v)
        for f, n in (('phi', p), ('theta', q), ('PHI', P), ('THETA', Q), ('exog', r + drift)):
            self.set(o, t, f, self.arr(f, n))
        self.set(o, t, 'vcov', self.arr('vcov', (p + q + P + Q + int(d + D == 0) + r + drift) ** 2))
        self.set(o, t, 'mean', None)
        self.set(o, t, 'var', None)
        inp, xr = self.arr('inp', N), self.arr('xreg', N * r)
        self.call('auto_arima_predict', o, inp, xr, L, self.arr('newxreg', L * r), self.out('xpred', L), self.out('amse', L))
        self.outputs('auto_arima_predict')
        self.call('auto_arima_summary', o)
        self.call('auto_arima_free', o)

    def auto(self, s, r, N, pdq=None, PDQ=None, L=3, **opt):
        o = self.call('auto_arima_init', self.ints('pdqmax', pdq) if pdq else 0, self.ints('PDQmax', PDQ) if PDQ else 0, s, r, N)
        for k, v in opt.items():
            if k == 'test':
                self.call('auto_arima_setStationarityParameters', o, self.E.text(v[0]), 0.05, self.E.text(v[1]))
            elif k == 'seas':
                self.call('auto_arima_setSeasonalParameters', o, self.E.text(v), 0.05)
            else:
                self.call('auto_arima_' + k, o, v)
        inp = self.arr('inp', N)
        xr = self.arr('xreg', N * r)
        self.mark(o, 'auto_arima_set')
        self.call('auto_arima_exec', o, inp, xr)
        self.done(o, 'auto_arima_set', 'auto_arima_exec')
        self.call('auto_arima_predict', o, inp, xr, L, self.arr('newxreg', L * r), self.out('xpred', L), self.out('amse', L))
        self.outputs('auto_arima_predict')
        self.rest('auto_arima', o, 'auto_arima_set')

    def est(self, name, *a):
        """a: ('in'|'out'|'io', length) for arrays, plain integers otherwise"""
        self.call(name, *[self.out('argument %d' % (k + 1), x[1]) if type(x) is tuple and x[0] == 'out' else self.arr('arg%d' % k, x[1]) if type(x) is tuple else x
                          for k, x in enumerate(a)])
        self.outputs(name)


def programs(deep=False):
    """[(label, function of Prog)]"""
    out = []

    def add(label, f):
        out.append((label, f))

    def A(k, *a, **o):
        add('%s(%s%s)' % (k, ', '.join(map(str, a)), ''.join(', %s=%s' % x for x in o.items())), lambda p, a=a, o=o: getattr(p, k)(*a, **o))
    for me in range(8):
        for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
            A('optimiser', n, me)
    for n in (1, 2, 4):
        A('hessian_of', n)
    for p, d, q in ((0, 0, 0), (1, 0, 0), (0, 0, 1), (0, 1, 1), (2, 1, 0), (1, 0, 2), (2, 1, 1), (1, 2, 2), (3, 0, 1), (0, 2, 0), (0, 1, 0)):
        for me in (0, 1, 2):
            A('arima', p, d, q, 18, me)
    A('arima', 2, 1, 1, 18, 0, cssml=0)
    for s, S in ((4, (1, 0, 0)), (4, (0, 1, 1)), (3, (1, 1, 1)), (4, (0, 0, 2)), (2, (2, 0, 1)), (3, (0, 1, 0)), (3, (0, 2, 0))):
        for n, (p, d, q) in enumerate(((0, 0, 0), (1, 0, 1), (0, 1, 2), (2, 1, 0))):
            for me in (0, 1, 2):
                if deep or (n + me + s + sum(S)) % 3 != 1:
                    A('sarima', p, d, q, s, *S, 24, me)
    for k, (a, s, r, im) in enumerate((((1, 0, 1, 0, 0, 0), 0, 0, 1), ((1, 0, 1, 0, 0, 0), 0, 2, 1), ((1, 1, 1, 0, 0, 0), 0, 1, 0),
                                       ((2, 0, 0, 1, 0, 0), 4, 1, 1), ((0, 1, 1, 0, 1, 1), 4, 2, 0), ((1, 0, 2, 1, 0, 1), 3, 0, 1),
                                       ((0, 0, 0, 0, 0, 0), 0, 1, 1), ((0, 0, 0, 0, 0, 0), 0, 0, 1), ((0, 1, 0, 0, 1, 0), 4, 1, 1),
                                       ((0, 2, 1, 0, 0, 0), 0, 0, 0), ((0, 0, 0, 1, 1, 1), 3, 2, 1), ((2, 0, 1, 2, 0, 1), 2, 3, 1), ((1, 1, 0, 0, 0, 2), 3, 3, 0))):
        for me in (0, 1, 2):
            A('sarimax', *a, s, r, im, 24 if s else 16, me)
    A('sarimax', 1, 0, 1, 1, 0, 1, 3, 1, 1, 24, 0, params=True)
    A('sarimax', 2, 1, 1, 0, 0, 0, 0, 0, 1, 24, 2, params=True)
    for me in (0, 1, 2):
        for N in (12, 25) + ((40,) if deep else ()):
            for p in (1, 3) + ((11,) if N == 12 and me < 2 else ()):
                if p < N:
                    A('ar', me, N, p)
    for o in (0, 1, 2, 3, 4, 6, 7):
        A('arima', 1, 0, 1, 16, 1, o)
    if deep:
        for o in range(8):
            A('arima', 1, 1, 2, 16, 0, o)
            A('arima', 1, 1, 2, 16, 2, o)
            A('ar', 2, 14, 2, o)
            A('sarimax', 1, 0, 1, 1, 0, 0, 3, 1, 1, 24, o % 3, o)
    for t in ('kpss', 'df', 'pp'):
        for k in ('level', 'trend'):
            for N, dm in ((14, 2), (25, 1)) + (((40, 2),) if deep else ()):
                A('differences', N, t, k, dm)
    for N, f in ((24, 4), (36, 3)) + (((48, 12),) if deep else ()):
        A('seasonal_differences', N, f, 'seas', 1)
    for N, f in ((20, 4), (26, 2)) + (((40, 12),) if deep else ()):
        for best in (0, 1, 2):
            A('seasonal_differences', N, f, 'ocsb', 1, best=best)
    for k, (o, S, s, r) in enumerate((((1, 0, 1), (0, 0, 0), 0, 0), ((0, 1, 1), (0, 0, 0), 0, 1), ((2, 1, 0), (1, 0, 0), 4, 0), ((1, 0, 1), (0, 1, 1), 4, 1),
                                      ((0, 0, 0), (0, 0, 0), 0, 0), ((0, 1, 2), (1, 1, 0), 3, 0))):
        for c in (0, 1):
            for ap in (0, 1):
                if deep or (k + c + ap) % 2:
                    A('candidate', 24, o, S, c, ap, r, s=s)
    A('candidate', 20, (1, 1, 1), (0, 0, 0), 1, 0, 0, 1, s=0)
    A('candidate', 20, (1, 1, 1), (0, 0, 0), 1, 0, 1, 2, s=0)
    for a in ((1, 0, 1, 0, 0, 0, 0, 0, 0), (2, 1, 1, 0, 0, 0, 0, 0, 1), (0, 1, 2, 1, 0, 1, 4, 1, 1), (1, 0, 0, 0, 1, 1, 4, 2, 1), (1, 1, 1, 1, 1, 1, 3, 0, 0),
              (0, 0, 0, 0, 0, 0, 0, 1, 0), (0, 2, 1, 0, 0, 0, 0, 0, 0), (3, 0, 0, 2, 0, 0, 2, 0, 0), (0, 1, 0, 0, 1, 2, 4, 1, 0)):
        A('auto_predict', *a, 24)
    E = lambda n, *a: add('%s(%s)' % (n, ', '.join('%s[%d]' % x if type(x) is tuple else str(x) for x in a)), lambda p: p.est(n, *a))
    for N, M in ((10, 1), (10, 4), (9, 9), (16, 12)):
        E('acvf', ('in', N), N, ('out', M), M)
        E('acvf2acf', ('io', M), M)
        for me in (0, 1):
            E('acvf_opt', ('in', N), N, me, ('out', M), M)
    for N, M in ((10, 1), (12, 4), (15, 6)):
        E('pacf', ('in', N), N, ('out', M), M)
        for me in (0, 1, 2):
            if me < 2 or M < 6:
                E('pacf_opt', ('in', N), N, me, ('out', M), M)
    for N, p in ((12, 1), (15, 2), (20, 4)):
        E('yw', ('in', N), N, p, ('out', p), ('out', 1))
        E('burg', ('in', N), N, p, ('out', p), ('out', 1))
        for me in (0, 1, 2):
            E('ar', ('in', N), N, p, me, ('out', p), ('out', 1))
    for N, p, q in ((20, 1, 1), (24, 2, 1), (26, 0, 2), (24, 1, 3), (22, 2, 0)):
        E('hr', ('in', N), N, p, q, ('out', p), ('out', q), ('out', 1))
    for N, me in ((14, 0), (20, 1), (6, 2), (30, 0)):
        E('ar_estimate', ('in', N), N, me)
    for N, d, pm, h in ((20, 0, 3, 4), (24, 1, 3, 3)):
        E('model_estimate', ('in', N), N, d, pm, h)
    return out
