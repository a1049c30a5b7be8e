"""Objects as their constructors leave them and as setParams and vcov use them, at constant orders with named contents."""
import shape
from shape import sym
from shapes import Prog

# array field: (numbers of elements from the orders, how far the field is used)
KINDS = {
    'arima': (('p', 'd', 'q'), 'arima_init'),
    'sarima': (('p', 'd', 'q', 's', 'P', 'D', 'Q'), 'sarima_init'),
    'sarimax': (('p', 'd', 'q', 'P', 'D', 'Q', 's', 'r', 'imean'), 'sarimax_init'),
}


class Objects(Prog):
    def __init__(self, ctx, limit=4000000):
        Prog.__init__(self, ctx, limit)
        self.facts = []

    def flag(self, what, got, want, text):
        self.facts.append((what, None if got is None else got == want, '%s is %s, expected %s' % (text, got, want)))

    def cells(self, p, n):
        return [self.E.load((p[0], p[1] + 8 * k), 8, 'double', None) for k in range(n)]

    def arrays(self, fn, o, tag, lens):
        """every array has its room inside the object, apart from the others, and starts as zeros"""
        head = self.m.size('%%struct.%s' % tag)
        have = {x[0] for x in self.m.difields[tag]}
        size = o[0].size
        got = []
        for f, n in lens.items():
            if f not in have or n == 0:
                continue
            p = self.get(o, tag, f, 'ptr')
            what = '%s: %s' % (fn, f)
            if type(p) is not tuple or p[1] is None:
                self.facts.append((what, None if p is None else False, '%s is not an array of the object' % f))
                continue
            if p[0] is not o[0]:
                got.append((f, p, n))
                continue
            if type(size) is int:
                self.facts.append((what, p[1] - o[1] >= head - 8 and p[1] + 8 * n <= size, '%s has %d elements from offset %d, the object has %s bytes' % (f, n, p[1], size)))
            got.append((f, p, n))
        for k, (f, p, n) in enumerate(got):
            for g, q, w in got[:k]:
                if p[0] is q[0]:
                    self.facts.append(('%s: arrays apart' % fn, p[1] + 8 * n <= q[1] or q[1] + 8 * w <= p[1], '%s and %s share memory' % (f, g)))
            for t, v in enumerate(self.cells(p, n)):
                self.facts.append(('%s: %s' % (fn, f), None if v is None else v == 0.0, '%s[%d] starts as %r' % (f, t, v)))
        return {f: (p, n) for f, p, n in got}

    def model(self, kind, a, N):
        names, init = KINDS[kind]
        tag = kind + '_set'
        c = dict(P=0, D=0, Q=0, s=0, r=0, imean=1)
        c.update(zip(names, a))
        o = self.call(init, *a, N)
        fn = init
        if type(o) is not tuple:
            self.facts.append((fn, None, 'no object'))
            return
        if kind == 'sarimax' and c['P'] + c['D'] + c['Q'] == 0:
            c['s'] = 0
        M = c['r'] + (1 if c['d'] + c['D'] == 0 and c['imean'] else 0)
        n = N - c['d'] - c['s'] * c['D']
        k = c['p'] + c['q'] + c['P'] + c['Q'] + M
        have = {x[0] for x in self.m.difields[tag]}
        for f, v in list(zip(names, a)) + [('N', N), ('Nused', n), ('M', M), ('ncoeff', k), ('lvcov', k * k), ('method', 0), ('optmethod', 5), ('retval', 0), ('cssml', 1),
                                           ('start', 0)]:
            if f in have:
                if f == 's':
                    v = c['s']
                if f == 'imean' and f not in have:
                    continue
                self.flag('%s: %s' % (fn, f), self.get(o, tag, f), v, f)
        for f, v in (('mean', 0.0), ('var', 1.0)):
            self.flag('%s: %s' % (fn, f), self.get(o, tag, f, 'double'), v, f)
        lens = {'phi': c['p'], 'theta': c['q'], 'PHI': c['P'], 'THETA': c['Q'], 'exog': c['r'], 'res': n, 'vcov': k * k}
        A = self.arrays(fn, o, tag, lens)
        # setParams: each array to its own place, nothing else
        setp = kind + '_setParams'
        if setp in self.m.fns:
            fs = [f for f in ('phi', 'theta', 'PHI', 'THETA') if f in have]
            for given in (fs, []) + tuple([f] for f in fs):
                self.call(setp, o, *[self.arr('new_' + f, max(lens[f], 1), sym=True) if f in given else 0 for f in fs])
                for f, (p, w) in A.items():
                    for t, v in enumerate(self.cells(p, w)):
                        want = sym(('new_' + f, t)) if f in given else 0.0
                        self.facts.append(('%s: %s' % (setp, f), None if v is None else v == want, '%s[%d] is %r, expected %r' % (f, t, v, want)))
        # vcov: the whole matrix, as it is
        if 'vcov' in A:
            p, w = A['vcov']
            for t in range(w):
                self.E.store((p[0], p[1] + 8 * t), 8, sym(('V', t), 'V[%d]' % t), None)
            out = self.out('vcov', w)
            self.call(kind + '_vcov', o, out)
            for t, v in enumerate(self.cells(out, w)):
                self.facts.append(('%s_vcov' % kind, None if v is None else v == sym(('V', t)), 'vcov[%d] is %r' % (t, v)))
            for t, v in enumerate(self.cells(p, w)):
                self.facts.append(('%s_vcov: object' % kind, None if v is None else v == sym(('V', t)), 'vcov[%d] of the object is %r' % (t, v)))

    def ar(self, method, N):
        import math
        o = self.call('ar_init', method, N)
        p = min(N - 1, int(10 * math.log(N)))
        if method == 2:
            p = min(p, 12)
        t = 'ar_set'
        for f, v in (('N', N), ('method', method), ('p', p), ('order', p), ('ordermax', p), ('optmethod', 5), ('retval', 0)):
            self.flag('ar_init: ' + f, self.get(o, t, f), v, f)
        for f, v in (('mean', 0.0), ('var', 1.0)):
            self.flag('ar_init: ' + f, self.get(o, t, f, 'double'), v, f)
        self.arrays('ar_init', o, t, {'phi': p, 'res': N})

    def auto(self, o3, s3, s, r, N):
        o = self.call('auto_arima_init', self.ints('pdqmax', o3) if o3 else 0, self.ints('PDQmax', s3) if s3 else 0, s, r, N)
        t, fn = 'auto_arima_set', 'auto_arima_init'
        o3 = o3 or [5, 2, 5]
        s3 = s3 or [2, 1, 2]
        M = self.get(o, t, 'M')
        have = {x[0] for x in self.m.difields[t]}
        for f, v in (('N', N), ('s', s), ('r', r), ('pmax', o3[0]), ('dmax', o3[1]), ('qmax', o3[2]), ('Pmax', s3[0]), ('Dmax', s3[1]), ('Qmax', s3[2]),
                     ('method', 0), ('optmethod', 5), ('retval', 0), ('verbose', 0), ('stepwise', 1), ('stationary', 0),
                     ('approximation', int(N > 150 or s > 12)), ('Order_max', 5), ('seasonal', 1), ('num_models', 94), ('imean', 1), ('idrift', 1), ('allowdrift', 1),
                     ('p_start', 2), ('q_start', 2), ('P_start', 1), ('Q_start', 1), ('p', 0), ('d', 0), ('q', 0), ('P', 0), ('D', 0), ('Q', 0)):
            if f in have:
                self.flag('%s: %s' % (fn, f), self.get(o, t, f), v, f)
        for f, v in (('mean', 0.0), ('var', 1.0), ('alpha_test', 0.05), ('alpha_seas', 0.05)):
            self.flag('%s: %s' % (fn, f), self.get(o, t, f, 'double'), v, f)
        k = o3[0] + o3[2] + s3[0] + s3[2] + (M or 0)
        if M is not None:
            self.facts.append((fn + ': M', M >= r + 1, 'room for %d regression coefficients, mean or drift and %d regressors are possible' % (M, r)))
        self.arrays(fn, o, t, {'phi': o3[0], 'theta': o3[2], 'PHI': s3[0], 'THETA': s3[2], 'exog': r + 1, 'res': N, 'vcov': k * k})


def programs(deep=False):
    out = []

    def add(k, *a):
        out.append(('%s%r' % (k, a), lambda P, a=a: getattr(P, k)(*a)))
    R = range(4 if deep else 3)
    for p in R:
        for q in R:
            for d in (0, 1, 2):
                if deep or (p + q + d) % 2 == 0 or p != q:
                    add('model', 'arima', (p, d, q), 12)
    for p, d, q, P, D, Q, s in ((0, 0, 0, 0, 0, 0, 0), (1, 0, 2, 2, 0, 1, 4), (2, 1, 0, 0, 1, 2, 3), (0, 1, 1, 1, 1, 0, 2), (3, 0, 1, 1, 2, 3, 2), (1, 2, 2, 0, 0, 1, 4), (0, 0, 3, 2, 1, 0, 5)):
        add('model', 'sarima', (p, d, q, s, P, D, Q), 24)
        for r in (0, 1, 3):
            for im in (0, 1):
                add('model', 'sarimax', (p, d, q, P, D, Q, s, r, im), 24)
    for me in (0, 1, 2):
        for N in (1, 2, 9, 40):
            add('ar', me, N)
    for o3, s3, s, r, N in ((None, None, 0, 0, 30), (None, None, 12, 2, 151), ([3, 1, 2], [1, 0, 2], 4, 1, 150), ([0, 0, 0], [0, 0, 0], 13, 0, 60), ([1, 2, 4], None, 4, 3, 40),
                            (None, [0, 1, 1], 7, 0, 200)):
        add('auto', o3, s3, s, r, N)
    return out
