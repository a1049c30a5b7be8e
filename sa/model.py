"""The model equation at every place that uses it, as polynomials.

The shape interpreter is run with symbols for the data and for the point the optimiser returns. Addresses are constant, so every array
element has a polynomial as its abstract value. Recorded: what an objective hands to the Kalman filter (or sums, for CSS), what ends in
the object, what a forecast hands to the forecasting filter, what is added to its result. Each is compared with the equation
   phi(B) PHI(B^s) (1-B)^d (1-B^s)^D (y_t - sum_j exog_j x_jt - drift t - mean) = theta(B) THETA(B^s) e_t
written in the fields of the object."""
from fractions import Fraction

import shape
from shape import Pol, fadd, fmul, fsub, sym, fneg
from shapes import Prog

TOL = 1e-9
SMALL, LARGE = [1500, 40000, 150, 40], [30000, 3000000, 3000, 30000]    # limits on the size of polynomials


def same(a, b):
    return close(a, b, TOL)


def close(a, b, tol):
    """equal as polynomials (coefficients to rounding); None: not known"""
    for x in (a, b):
        if not (type(x) is float or isinstance(x, Pol)) or type(x) is float and not shape.finite(x):
            return None
    pa, pb = shape.pol(a).t, shape.pol(b).t
    for k in set(pa) | set(pb):
        x, y = float(pa.get(k, 0)), float(pb.get(k, 0))
        if abs(x - y) > tol * max(1.0, abs(x), abs(y)):
            return False
    return True


def total(xs):
    r = 0.0
    for x in xs:
        r = fadd(r, x)
    return r


def polymul(a, b):
    out = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = fadd(out[i + j], fmul(x, y))
    return out


def expand(c, C, s):
    """(1 - sum c B^k)(1 - sum C B^(ks)) as a list of coefficients of B^0, B^1, ..."""
    a = [1.0] + [fneg(x) for x in c]
    b = [1.0] + [0.0] * (s * len(C))
    for j, x in enumerate(C):
        b[(j + 1) * s] = fneg(x)
    return polymul(a, b)


def differences(d, D, s):
    r = [1.0]
    for _ in range(d):
        r = polymul(r, [1.0, -1.0])
    for _ in range(D):
        r = polymul(r, [1.0] + [0.0] * (s - 1) + [-1.0])
    return r


class Model(Prog):
    def __init__(self, ctx, limit=6000000):
        Prog.__init__(self, ctx, limit)
        shape.LIM[:] = SMALL
        shape.GENERIC[0] = True
        h = self.E.hooks
        h['hessian_fd'] = self.hess
        h['karma'] = self.karma
        h['starma'] = self.starma
        h['forkal'] = self.forkal
        h['invertroot'] = self.invert
        h['ludecomp'] = self.lu
        h['minverse'] = self.inverse
        h['checkroots_cerr'] = lambda E, a, ins: 1
        h['rank'] = lambda E, a, ins: a[1]
        h['regress'] = self.regress
        h['polyroot'] = self.roots
        h['nlalsm'] = h['nlalsms'] = self.boxjenkins
        h['macheps'] = lambda E, a, ins: 2.220446049250313e-16
        self.bj = []
        self.filter = []            # karma: (ip, iq, phi, theta, W)
        self.begun = None           # starma: what it was asked for
        self.start = None           # state of the filter at its start
        self.values = []            # objective values, with the point they were computed at
        self.fc = []                # forkal
        self.rooted = []
        self.npoint = self.nhess = self.ninv = 0
        self.inverted = None        # matrix the covariance is the inverse of
        self.mats = {}
        self.facts = []             # (what, ok or None, text)

    # -- reading abstract arrays
    def read(self, p, n):
        if type(p) is not tuple or p[1] is None or n is None:
            return [None] * (n or 0)
        return [self.E.load((p[0], p[1] + 8 * k), 8, 'double', None) for k in range(n)]

    def regress(self, E, a, ins):
        for k in (0, 3, 4):
            if k < len(a):
                E.havoc(a[k])
        return None

    def fminunc(self, E, a, ins):
        if len(a) != 7 or type(a[0]) is not tuple or a[2] is None or any(type(a[k]) is not tuple or a[k][1] is None for k in (3, 6)):
            raise shape.Stop('fminunc is called in another way')
        n = a[2]
        f = E.load(a[0], 8, 'ptr', ins)
        par = E.load((a[0][0], a[0][1] + 8), 8, 'ptr', ins)
        self.npoint += 1
        x = self.arr('b%d' % self.npoint, n, sym=True)
        v = E.call(f, [x if x else 0, n, par], ins)
        if v is E.NORET:
            return v
        pt = [sym(('b%d' % self.npoint, k)) for k in range(n)]
        self.values.append((pt, v))
        for k in range(n):
            E.store((a[6][0], a[6][1] + 8 * k), 8, pt[k], ins)
        return 1

    def invert(self, E, a, ins):
        """may move the coefficients: any values afterwards"""
        if len(a) != 2 or type(a[0]) is not int or type(a[1]) is not tuple or a[1][1] is None:
            raise shape.Stop('invertroot is called in another way')
        self.ninv += 1
        for k in range(a[0]):
            E.store((a[1][0], a[1][1] + 8 * k), 8, sym(('i%d' % self.ninv, k), 'inverted%d[%d]' % (self.ninv, k)), ins)
        return 1

    def lu(self, E, a, ins):
        if type(a[0]) is tuple and a[0][1] is not None and type(a[1]) is int:
            self.mats[a[0]] = self.read(a[0], a[1] * a[1])
            E.havoc(a[2])
        return None

    def inverse(self, E, a, ins):
        if type(a[0]) is tuple and type(a[1]) is int and type(a[3]) is tuple and a[3][1] is not None:
            self.inverted = self.mats.get(a[0])
            for k in range(a[1] * a[1]):
                E.store((a[3][0], a[3][1] + 8 * k), 8, sym(('C', self.nhess, k), 'inverse[%d]' % k), ins)
        return None

    def hess(self, E, a, ins):
        """evaluates the objective at the point and, last, near it; the matrix is named"""
        if len(a) != 6 or type(a[0]) is not tuple or a[2] is None or type(a[5]) is not tuple or a[5][1] is None or type(a[1]) is not tuple or a[1][1] is None:
            raise shape.Stop('hessian_fd is called in another way')
        n = a[2]
        f = E.load(a[0], 8, 'ptr', ins)
        par = E.load((a[0][0], a[0][1] + 8), 8, 'ptr', ins)
        self.nhess += 1
        self.hpoint = self.read(a[1], n)
        x = self.arr('near%d' % self.nhess, n, sym=True)
        E.call(f, [x if x else 0, n, par], ins)
        for k in range(n * n):
            E.store((a[5][0], a[5][1] + 8 * k), 8, sym(('H', self.nhess, k), 'H[%d]' % k), ins)
        return 0

    def starma(self, E, a, ins):
        if len(a) != 7 or any(type(a[k]) is not int for k in (0, 1)) or type(a[5]) is not tuple or a[5][1] is None:
            raise shape.Stop('starma is called in another way')
        ip, iq = a[0], a[1]
        r = max(ip, iq + 1)
        self.nstart = getattr(self, 'nstart', 0) + 1
        self.begun = (ip, iq, self.read(a[2], ip), self.read(a[3], iq))
        for k, n, z in ((4, r, 'A'), (5, r * (r + 1) // 2, 'P'), (6, r * (r + 1) // 2, 'V')):
            for t in range(n):
                E.store((a[k][0], a[k][1] + 8 * t), 8, sym(('start', self.nstart, z, t), '%s0[%d]' % (z, t)), ins)
        return 0

    def karma(self, E, a, ins):
        if len(a) != 16 or any(type(a[k]) is not int for k in (0, 1, 7)):
            raise shape.Stop('karma is called in another way')
        ip, iq, N = a[0], a[1], a[7]
        r = max(ip, iq + 1)
        self.tail('likelihood filter', a[2], a[3], ip, iq)
        self.start = (self.begun, a[12], self.read(a[4], r), self.read(a[5], r * (r + 1) // 2), self.read(a[6], r * (r + 1) // 2))
        self.begun = None
        self.filter.append((ip, iq, self.read(a[2], ip), self.read(a[3], iq), self.read(a[8], N)))
        for t in range(N):
            E.store((a[9][0], a[9][1] + 8 * t), 8, sym(('e', t), 'e[%d]' % t), ins)
        E.store(a[10], 8, sym('sumlog'), ins)
        E.store(a[11], 8, sym('ssq'), ins)
        E.store(a[14], 4, N, ins)
        E.store(a[15], 4, 0, ins)
        return None

    def tail(self, what, phi, theta, ip, iq):
        """the filters work with max(p, q+1) coefficients of each kind"""
        for z, p, n in (('AR', phi, ip), ('MA', theta, iq)):
            for t, v in enumerate(self.read(p, max(ip, iq + 1))[n:]):
                if v is not None and not isinstance(v, shape.Poison):
                    self.fact(what + ': coefficients beyond the order', v, 0.0, '%s coefficient %d' % (z, n + t + 1))

    def forkal(self, E, a, ins):
        if len(a) != 12 or any(type(a[k]) is not int for k in (0, 1, 2, 6, 9)):
            raise shape.Stop('forkal is called in another way')
        ip, iq, d, N, L = a[0], a[1], a[2], a[6], a[9]
        self.tail('forecasting filter', a[3], a[4], ip, iq)
        self.fc.append((ip, iq, d, self.read(a[3], ip), self.read(a[4], iq), self.read(a[5], d), self.read(a[7], N), L))
        for k in range(L):
            E.store((a[10][0], a[10][1] + 8 * k), 8, sym(('f', k), 'f[%d]' % k), ins)
            E.store((a[11][0], a[11][1] + 8 * k), 8, sym(('v', k), 'v[%d]' % k), ins)
        return 0

    BJ = {13: (('N', 1), ('p', 2), ('d', 3), ('q', 4)), 19: (('N', 1), ('p', 2), ('d', 3), ('q', 4), ('s', 7), ('P', 8), ('D', 9), ('Q', 10))}

    def boxjenkins(self, E, a, ins):
        """any estimate: names what it leaves in the arrays it is given"""
        if len(a) not in self.BJ:
            raise shape.Stop('the Box-Jenkins estimation is called in another way')
        c = {f: a[k] for f, k in self.BJ[len(a)]}
        if any(type(x) is not int for x in c.values()):
            raise shape.Stop('the Box-Jenkins estimation is called with unknown orders')
        P, D, Q, s = c.get('P', 0), c.get('D', 0), c.get('Q', 0), c.get('s', 0)
        o = 6 if len(a) == 19 else 0
        M = a[7 + o]
        k = c['p'] + c['q'] + P + Q + M
        self.bj.append((c, M, self.read(a[0], c['N'])))
        for f, p, n in (('phi', a[5], c['p']), ('theta', a[6], c['q'])) + ((('PHI', a[11], P), ('THETA', a[12], Q)) if o else ()) + (
                ('mean', a[8 + o], 1), ('var', a[9 + o], 1), ('vcov', a[11 + o], k * k), ('res', a[12 + o], c['N'] - c['d'] - s * D)):
            for t in range(n):
                E.store((p[0], p[1] + 8 * t), 8, sym(('bj', f, t), '%s[%d] of the estimation' % (f, t)), ins)
        return 1

    def check_bj(self, fn, o, tag, N):
        if len(self.bj) != 1:
            self.flag(fn + ': Box-Jenkins estimation', None, '%d calls' % len(self.bj))
            return
        c, M, y = self.bj[0]
        for f, v in c.items():
            self.flag(fn + ': orders', v == self.get(o, tag, f), 'the estimation runs with %s = %s, the object has %s' % (f, v, self.get(o, tag, f)))
        self.flag(fn + ': mean', M == self.get(o, tag, 'M'), 'the estimation runs with M = %s, the object has %s' % (M, self.get(o, tag, 'M')))
        k = c['p'] + c['q'] + c.get('P', 0) + c.get('Q', 0) + M
        for f, n in (('phi', c['p']), ('theta', c['q']), ('PHI', c.get('P', 0)), ('THETA', c.get('Q', 0)), ('vcov', k * k),
                     ('res', c['N'] - c['d'] - c.get('s', 0) * c.get('D', 0))):
            if n:
                self.facts_list(fn + ': ' + f, self.read(self.get(o, tag, f, 'ptr'), n), [sym(('bj', f, t)) for t in range(n)], f)
        for f in ('mean', 'var'):
            self.fact(fn + ': ' + f, self.get(o, tag, f, 'double'), sym(('bj', f, 0)), f)

    def check_ar(self, o, p, method, N, y, Y):
        """AR objects: the estimator of the method is run on the series at the chosen order and leaves its results in the object"""
        E, tag, asked = self.E, 'ar_set', []

        def by(name):
            def estimate(E, a, ins):
                asked.append((name, self.read(a[0], N), a[1], a[2]))
                for k in range(a[2]):
                    E.store((a[3][0], a[3][1] + 8 * k), 8, sym(('est', k), 'estimate[%d]' % k), ins)
                E.store(a[4], 8, sym(('est', 'var')), ins)
                return None
            return estimate
        E.hooks['ywalg2'], E.hooks['burgalg'] = by('ywalg2'), by('burgalg')
        self.call('ar_exec', o, y)
        fn = 'ar_exec (method %d)' % method
        for f in ('p', 'order'):
            v = self.get(o, tag, f)
            self.flag(fn + ': order', None if v is None else v == p, '%s is %s, the order chosen is %d' % (f, v, p))
        if method == 2:
            c = self.coef(o, tag)
            c['mean'] = E.load((o[0], o[1] + self.off(tag, 'mean')[0]), 8, 'double', None)
            self.check_filter(fn, c, Y, [], N)
            e, ssq = ([sym(('e', t)) for t in range(N)], sym('ssq')) if self.filter else (None, None)
            if e is None:
                e, _ = self.css_residuals(c, Y, [], N)
                ssq = total(fmul(x, x) for x in e)
            self.fact(fn + ': variance', self.get(o, tag, 'var', 'double'), shape.fdiv(ssq, float(N)), 'var')
            self.facts_list(fn + ': residuals', self.read(self.get(o, tag, 'res', 'ptr'), N), e, 'res')
            return fn
        self.flag(fn + ': estimator', len(asked) == 1 and asked[0][0] == ('ywalg2', 'burgalg')[method], 'estimated by %s' % [x[0] for x in asked])
        for name, W, n, k in asked[:1]:
            self.flag(fn + ': estimator', (n, k) == (N, p), 'estimated from %s values at order %s' % (n, k))
            self.facts_list(fn + ': phi', self.read(self.get(o, tag, 'phi', 'ptr'), p), [sym(('est', j)) for j in range(p)], 'phi')
            self.fact(fn + ': var', self.get(o, tag, 'var', 'double'), sym(('est', 'var')), 'var')
        self.fact(fn + ': mean', self.get(o, tag, 'mean', 'double'), fmul(total(Y), 1.0 / N), 'mean')
        return fn

    def roots(self, E, a, ins):
        if len(a) == 4 and type(a[1]) is int:
            self.rooted.append(self.read(a[0], a[1] + 1))
        return Prog.polyroot(self, E, a, ins) if len(a) == 4 else None

    # -- obligations
    def fact(self, what, a, b, text=''):
        ok = same(a, b)
        self.facts.append((what, ok, '%s: %r, the model equation has %r' % (text, a, b)))

    def facts_list(self, what, got, want, text):
        for k, (a, b) in enumerate(zip(got, want)):
            self.fact(what, a, b, '%s[%d]' % (text, k))

    def flag(self, what, ok, text):
        self.facts.append((what, ok, text))

    # -- the model of an object, from its fields
    def coef(self, o, tag, s=None, drift=False):
        g = lambda f: self.get(o, tag, f)
        have = {x[0] for x in self.m.difields[tag]}
        c = {}
        for k in ('p', 'd', 'q', 'P', 'D', 'Q', 's'):
            c[k] = g(k) if k in have else 0
        c['r'] = (g('r') if 'r' in have else 0) + int(drift and tag == 'auto_arima_set')
        c['drift'] = drift
        for f, n in (('phi', 'p'), ('theta', 'q'), ('PHI', 'P'), ('THETA', 'Q'), ('exog', 'r')):
            c[f] = self.read(self.get(o, tag, f, 'ptr'), c[n]) if f in have and c[n] else []
        c['mean'] = self.E.load((o[0], o[1] + self.off(tag, 'mean')[0]), 8, 'double', None)
        if c['d'] + c['D'] > 0:
            c['mean'] = 0.0
        return c

    def series(self, c, y, xr, N, off=0):
        """y_t - regression - drift - mean for t = off .. off+N-1"""
        out = []
        k = int(c['drift'])
        for t in range(N):
            v = fsub(y[t], c['mean'])
            if k:
                v = fsub(v, fmul(c['exog'][0], float(t + 1)))
            for j in range(c['r'] - k):
                v = fsub(v, fmul(c['exog'][k + j], xr[j * N + t]))
            out.append(v)
        return out

    def ar_ma(self, c):
        return [fneg(x) for x in expand(c['phi'], c['PHI'], c['s'])[1:]], expand(c['theta'], c['THETA'], c['s'])[1:]

    def filtered(self, c, y, xr, N):
        z = self.series(c, y, xr, N)
        D = differences(c['d'], c['D'], c['s'])
        return [total(fmul(D[k], z[t - k]) for k in range(len(D))) for t in range(len(D) - 1, N)]

    def check_filter(self, fn, c, y, xr, N):
        if not self.filter:
            return
        ip, iq, phi, theta, W = self.filter[-1]
        ar, ma = self.ar_ma(c)
        fn += ': likelihood'
        self.flag(fn + ' orders', ip >= len(ar) and iq >= len(ma), 'the filter runs with orders %s, the model has %s' % ((ip, iq), (len(ar), len(ma))))
        ar, ma = ar + [0.0] * (ip - len(ar)), ma + [0.0] * (iq - len(ma))
        self.check_start(fn, self.filter[-1])
        self.facts_list(fn + ' AR part', phi, ar, 'AR coefficient')
        self.facts_list(fn + ' MA part', theta, ma, 'MA coefficient')
        w = self.filtered(c, y, xr, N)
        self.flag(fn + ' length', len(W) == len(w), 'the filter runs over %d values, the differenced series has %d' % (len(W), len(w)))
        self.facts_list(fn + ' series', W, w, 'series')

    def check_start(self, fn, f):
        """the filter starts from the stationary distribution: what starma computed for the same model, or that of an AR(1)"""
        ip, iq, phi, theta, W = f
        begun, upd, A, P, V = self.start
        if begun is not None:
            self.flag(fn + ' start', begun[:2] == (ip, iq) and upd == 1, 'the initial state is of orders %s, the filter has %s' % (begun[:2], (ip, iq)))
            if begun[:2] == (ip, iq):
                self.facts_list(fn + ' start', begun[2] + begun[3], phi + theta, 'coefficient of the initial state')
            for z, x in (('A', A), ('P', P), ('V', V)):
                self.facts_list(fn + ' start', x, [sym(('start', self.nstart, z, t)) for t in range(len(x))], 'initial ' + z)
        else:
            self.flag(fn + ' start', ip <= 1 and iq == 0, 'the initial state of a model with orders %s is not computed' % ((ip, iq),))
            if ip <= 1 and iq == 0:
                f1 = phi[0] if ip else 0.0
                self.fact(fn + ' start', V[0], 1.0, 'initial V')
                self.fact(fn + ' start', A[0], 0.0, 'initial A')
                self.fact(fn + ' start', P[0], shape.fdiv(1.0, fsub(1.0, fmul(f1, f1))), 'initial P')

    def css_residuals(self, c, y, xr, N):
        ar, ma = self.ar_ma(c)
        w = self.filtered(c, y, xr, N)
        e = [0.0] * len(w)
        n = len(ar)
        for t in range(n, len(w)):
            v = w[t]
            for k, a in enumerate(ar):
                v = fsub(v, fmul(a, w[t - k - 1]))
            for k, a in enumerate(ma):
                if t - k - 1 >= n:
                    v = fsub(v, fmul(a, e[t - k - 1]))
            e[t] = v
        return e, n

    def logs(self, v):
        """arguments of the logarithms in v; None where v has something else"""
        out = []
        for mon in v.t:
            for i in mon:
                k = shape.SYMKEY[i]
                out.append(k[1] if type(k) is tuple and k[0] == 'log' and isinstance(k[1], Pol) else None)
        return out

    def multiple(self, a, want):
        """a is a constant multiple of want: the factor, or None"""
        if not isinstance(a, Pol) or not isinstance(want, Pol):
            return None
        m = next(iter(want.t))
        if m not in a.t:
            return None
        k = a.t[m] / want.t[m]
        return float(k) if same(a, fmul(want, Pol({(): Fraction(k)}))) else None

    def check_css(self, fn, o, tag, c, y, xr, N):
        """objective, variance and residuals are of the residuals of the model at the reported coefficients"""
        e, n = self.css_residuals(c, y, xr, N)
        want = total(fmul(x, x) for x in e[n:])
        what = fn + ': sum of squares'
        v = self.get(o, tag, 'loglik', 'double')
        if not isinstance(v, Pol) or not isinstance(want, Pol):
            self.flag(what, None, 'not known: %r' % (v,))
        else:
            args = self.logs(v)
            if len(args) != 1 or args[0] is None:
                self.flag(what, None, 'of another form')
            else:
                k = self.multiple(args[0], want)
                self.flag(what, k is not None and k > 0,
                          'the logarithm in the likelihood is not of the sum of squared residuals of the model equation at the reported coefficients')
        var = self.get(o, tag, 'var', 'double')
        k = self.multiple(var, want)
        M = len(e)
        self.flag(fn + ': variance', None if var is None else k is not None and any(abs(k * z - 1) < 1e-9 for z in (M, M - n)),
                  'not the mean of the squared residuals of the model equation at the reported coefficients')
        self.facts_list(fn + ': residuals', self.read(self.get(o, tag, 'res', 'ptr'), M), e, 'res')

    def covariance(self, fn, o, tag, c, k, n):
        """inverse of n times the Hessian of the objective at the estimate; the coefficients are those of the point"""
        pt = getattr(self, 'hpoint', None)
        if pt is None or self.inverted is None:
            return
        self.flag(fn + ': covariance size', len(pt) == k, 'the covariance matrix is of %d coefficients, the model has %d' % (len(pt), k))
        if len(pt) != k:
            return
        H = [[sym(('H', self.nhess, i * k + j)) for j in range(k)] for i in range(k)]
        for i in range(k):
            for j in range(k):
                self.fact(fn + ': information', self.inverted[i * k + j], fmul(0.5 * n, fadd(H[i][j], H[j][i])), 'information[%d,%d]' % (i, j))
        V = self.read(self.get(o, tag, 'vcov', 'ptr'), k * k)
        self.facts_list(fn + ': covariance', V, [sym(('C', self.nhess, z)) for z in range(k * k)], 'vcov')
        own = c['phi'] + [fneg(x) for x in c['theta']] + c['PHI'] + [fneg(x) for x in c['THETA']]
        if k > len(own) + len(c['exog']):
            own.append(c['mean'])
        for z, (a, b) in enumerate(zip(own + c['exog'], pt)):
            self.fact(fn + ': coefficients', a, b, 'coefficient %d' % z)

    def check_lik(self, fn, o, tag, n):
        """loglik = -n/2 (log(2 pi ssq / n) + 1) - (sum of log f)/2"""
        import math
        v = self.get(o, tag, 'loglik', 'double')
        if not isinstance(v, Pol) or not self.filter:
            return
        want = fmul(-0.5, fadd(fadd(sym('sumlog'), n * (1.0 + math.log(2 * math.pi))), fmul(float(n), shape.fun('log', shape.fdiv(sym('ssq'), float(n))))))
        self.facts.append((fn + ': log likelihood', close(v, want, 1e-5), '%r, the model equation has %r' % (v, want)))

    def check_forecast(self, fn, c, y, xr, nx, N, L, xp, am):
        if len(self.fc) != 1:
            self.flag(fn + ': filter', None, 'no forecasting filter')
            return
        ip, iq, nd, phi, theta, delta, W, l = self.fc[0]
        ar, ma = self.ar_ma(c)
        D = differences(c['d'], c['D'], c['s'])
        self.flag(fn + ': orders', ip >= len(ar) and iq >= len(ma) and nd >= len(D) - 1 and l == L,
                  'the filter runs with %s, the model has %s' % ((ip, iq, nd, l), (len(ar), len(ma), len(D) - 1, L)))
        ar, ma, D = ar + [0.0] * (ip - len(ar)), ma + [0.0] * (iq - len(ma)), D + [0.0] * (nd + 1 - len(D))
        self.facts_list(fn + ': AR part', phi, ar, 'AR coefficient')
        self.facts_list(fn + ': MA part', theta, ma, 'MA coefficient')
        self.facts_list(fn + ': differencing', delta, [fneg(x) for x in D[1:]], 'differencing coefficient')
        self.facts_list(fn + ': series', W, self.series(c, y, xr, N), 'series')
        X, A = self.read(xp, L), self.read(am, L)
        k = int(c['drift'])
        for t in range(L):
            v = fadd(sym(('f', t)), c['mean'])
            if k:
                v = fadd(v, fmul(c['exog'][0], float(N + t + 1)))
            for j in range(c['r'] - k):
                v = fadd(v, fmul(c['exog'][k + j], nx[j * L + t]))
            self.fact(fn + ': forecast', X[t], v, 'xpred[%d]' % t)
            self.fact(fn + ': forecast error', A[t], sym(('v', t)), 'amse[%d]' % t)

    # -- client programs
    def data(self, name, n):
        p = self.arr(name, n, sym=True)
        return p, self.read(p, n) if n > 0 else []

    def criteria(self, fn, o, tag, k, n):
        """aic = -2 loglik + 2 (coefficients and variance)"""
        if 'aic' not in {x[0] for x in self.m.difields[tag]}:
            return
        g = lambda f: self.get(o, tag, f, 'double')
        L = g('loglik')
        if isinstance(L, Pol):
            self.fact(fn + ': aic', g('aic'), fadd(fmul(-2.0, L), float(2 * (k + 1))), 'aic')

    def univariate(self, kind, a, N, method, L=3):
        pre, tag = kind, kind + '_set'
        E = self.E
        if method == (2 if kind == 'sarimax' else 1) and kind != 'ar':
            shape.LIM[:] = LARGE
        xr, XR, nx, NX, r = 0, [], 0, [], 0
        if kind == 'ar':
            p, = a
            E.hooks['ar_estimate'] = lambda E, a, ins: p
            o = self.call('ar_init', method, N)
        else:
            o = self.call(pre + '_init', *a, N)
            self.call(pre + '_setMethod', o, method)
        y, Y = self.data('inp', N)
        bj = method == 2 and kind in ('arima', 'sarima')
        if kind == 'sarimax':
            r = a[7]
            xr, XR = self.data('xreg', N * r)
            nx, NX = self.data('newxreg', L * r)
            self.call('sarimax_exec', o, y, xr)
        else:
            self.call(pre + '_exec', o, y)
        fn = '%s_exec (method %d)' % (pre, method)
        if bj:
            self.check_bj(fn, o, tag, N)
        if kind == 'ar':
            fn = self.check_ar(o, p, method, N, y, Y)
        bj = bj or kind == 'ar'
        if bj:          # estimated by other means: any coefficients
            self.symbols(o, tag)
        c = self.coef(o, tag)
        if not bj:
            css = method == (2 if kind == 'sarimax' else 1)
            k = c['p'] + c['q'] + c['P'] + c['Q'] + self.get(o, tag, 'M')
            n = N - c['d'] - c['s'] * c['D']
            self.covariance(fn, o, tag, c, k, n)
            if css:
                self.check_css(fn, o, tag, c, Y, XR, N)
            else:
                self.check_filter(fn, c, Y, XR, N)
                self.check_lik(fn, o, tag, n)
                self.criteria(fn, o, tag, k, N)
                if self.filter:
                    e, ssq = [sym(('e', t)) for t in range(n)], sym('ssq')
                else:
                    e, _ = self.css_residuals(c, Y, XR, N)
                    ssq = total(fmul(x, x) for x in e)
                self.fact(fn + ': variance', self.get(o, tag, 'var', 'double'), shape.fdiv(ssq, float(n)), 'var')
                self.facts_list(fn + ': residuals', self.read(self.get(o, tag, 'res', 'ptr'), n), e, 'res')
        self.forecast(pre, o, tag, c, y, Y, xr, XR, nx, NX, N, L)

    def forecast(self, pre, o, tag, c, y, Y, xr, XR, nx, NX, N, L):
        xp, am = self.arr('xpred', L, kind='heap'), self.arr('amse', L, kind='heap')
        self.fc = []
        if tag in ('sarimax_set', 'auto_arima_set'):
            self.call(pre + '_predict', o, y, xr, L, nx, xp, am)
        else:
            self.call(pre + '_predict', o, y, L, xp, am)
        self.check_forecast(pre + '_predict', c, Y, XR, NX, N, L, xp, am)

    def symbols(self, o, tag):
        g = lambda f: self.get(o, tag, f)
        have = {x[0] for x in self.m.difields[tag]}
        for f, n in (('phi', 'p'), ('theta', 'q'), ('PHI', 'P'), ('THETA', 'Q')):
            if f in have:
                p = self.get(o, tag, f, 'ptr')
                for k in range(g(n)):
                    self.E.store((p[0], p[1] + 8 * k), 8, sym((f, k), '%s[%d]' % (f, k)), None)
        self.set(o, tag, 'mean', sym('mean'))

    def auto(self, a, s, r, constant, N, otype, L=3):
        """the chosen candidate in place of the search: how it is estimated, reported and used"""
        p, d, q, P, D, Q = a
        E = self.E
        y, Y = self.data('inp', N)
        xr, XR = self.data('xreg', N * r)
        nx, NX = self.data('newxreg', L * r)
        drift = int(constant and d + D == 1)
        fit = {}

        def search(E, args, ins):
            if otype == 1:
                o = self.call('myarima', y, N, self.ints('order', [p, d, q]), self.ints('seasonal', [P, D, Q, s]), constant,
                              E.text('aicc'), 0, 0, 0.0, xr, r, 0)
                t = 'myarima_set'
            else:
                o = self.call('sarimax_wrapper', 0, y, N, self.ints('order', [p, d, q]), self.ints('seasonal', [P, D, Q, s]), xr, r,
                              drift, int(constant and d + D == 0), 0, 0, 0)
                t = 'sarimax_wrapper_set'
            ret = E.region('chosen', self.m.size('%struct.aa_ret_set'), 'zero')
            for f, v in (('myarima', o if otype == 1 else 0), ('Arima', o if otype == 2 else 0), ('otype', otype)):
                off, sz = self.off('aa_ret_set', f)
                E.put(ret, off, sz, v)
            fit['o'], fit['t'] = o, t
            so = self.get(o, t, 'sarimax', 'ptr')
            fit['aic'] = {f: self.get(o, t, f, 'double') for f in ('aic', 'bic', 'aicc', 'sigma2')}
            c = self.coef(so, 'sarimax_set')
            fit['c'] = c
            fit['M'] = self.get(so, 'sarimax_set', 'M')
            fit['lik'] = self.get(so, 'sarimax_set', 'loglik', 'double')
            fit['var'] = self.get(so, 'sarimax_set', 'var', 'double')
            n = N - d - s * D
            fit['res'] = self.read(self.get(so, 'sarimax_set', 'res', 'ptr'), n)
            k = p + q + P + Q + fit['M']
            v = self.get(so, 'sarimax_set', 'vcov', 'ptr')
            for j in range(k * k):      # give the covariance names, to follow it
                E.store((v[0], v[1] + 8 * j), 8, sym(('V', j), 'V[%d]' % j), None)
            fit['k'] = k
            return (ret, 0)
        E.hooks['auto_arima1'] = search
        E.hooks['aa_ret_free'] = lambda E, a, ins: None
        o = self.call('auto_arima_init', self.ints('pdqmax', [3, 2, 3]), self.ints('PDQmax', [2, 1, 2]), s, r, N)
        self.call('auto_arima_exec', o, y, xr)
        t = 'auto_arima_set'
        fn = 'auto_arima_exec (%s)' % ('search' if otype == 1 else 'single model')
        i = self.get(o, t, 'idrift')
        self.flag(fn + ': drift', None if i is None else i == drift, 'drift reported as %s' % i)
        c = self.coef(o, t, drift=bool(drift))
        if drift + r != c['r']:
            self.flag(fn + ': regressors', False, 'object reports %d regressors, the model has %d' % (c['r'] - drift, r))
            return
        for f in ('phi', 'theta', 'PHI', 'THETA', 'exog'):
            self.facts_list(fn + ': ' + f, c[f], fit['c'][f], f)
        for f in ('p', 'd', 'q', 'P', 'D', 'Q'):
            v = self.get(o, t, f)
            self.flag(fn + ': orders', None if v is None else v == dict(zip('pdqPDQ', a))[f], '%s reported as %s' % (f, v))
        self.fact(fn + ': mean', c['mean'], fit['c']['mean'], 'mean')
        self.fact(fn + ': loglik', self.get(o, t, 'loglik', 'double'), fit['lik'], 'loglik')
        self.fact(fn + ': var', self.get(o, t, 'var', 'double'), fit['var'], 'var')
        n, k = N - d - s * D, fit['k']
        for f, w in (('ncoeff', k), ('Nused', n)):
            v = self.get(o, t, f)
            self.flag(fn + ': ' + f, None if v is None else v == w, '%s is %s, the model has %d' % (f, v, w))
        for f in ('aic', 'bic', 'aicc', 'sigma2'):
            v = self.get(o, t, f, 'double')
            if isinstance(fit['aic'][f], Pol):
                self.fact(fn + ': ' + f, v, fit['aic'][f], f)
        self.facts_list(fn + ': residuals', self.read(self.get(o, t, 'res', 'ptr'), n), fit['res'], 'res')
        self.facts_list(fn + ': covariance', self.read(self.get(o, t, 'vcov', 'ptr'), k * k), [sym(('V', j)) for j in range(k * k)], 'vcov')
        lik = fit['lik']
        if isinstance(lik, Pol):
            aic = fadd(fmul(-2.0, lik), float(2 * (k + 1)))
            import math
            self.fact(fn + ': aic', fit['aic']['aic'], aic, 'aic')
            self.fact(fn + ': bic', fit['aic']['bic'], fadd(aic, (k + 1) * (math.log(n) - 2)), 'bic')
            self.fact(fn + ': aicc', fit['aic']['aicc'], fadd(aic, 2.0 * (k + 1) * (k + 2) / (n - k - 2)), 'aicc')
        self.check_filter(fn, c, Y, XR, N)
        self.forecast('auto_arima', o, t, c, y, Y, xr, XR, nx, NX, N, L)


def programs(deep=False):
    out = []

    def add(k, *a):
        out.append(('%s%r' % (k, a), lambda P, a=a: getattr(P, k)(*a)))
    for p, d, q in ((0, 0, 0), (1, 0, 0), (0, 0, 1), (2, 0, 1), (1, 1, 2), (3, 2, 0), (0, 1, 1), (1, 0, 3), (2, 2, 2)):
        for me in (0, 1, 2):
            add('univariate', 'arima', (p, d, q), (p + d + 4 if me == 1 else 14) if me != 2 else 16, me)
    for (p, d, q), s, (P, D, Q) in (((1, 0, 1), 4, (1, 0, 1)), ((0, 1, 1), 4, (0, 1, 1)), ((2, 0, 0), 3, (1, 1, 0)), ((0, 0, 2), 3, (2, 0, 1)), ((1, 1, 0), 2, (0, 0, 2)),
                                    ((1, 2, 1), 2, (1, 1, 1)), ((0, 0, 0), 4, (1, 0, 0)), ((3, 0, 1), 2, (2, 0, 0)),
                                    ((1, 0, 2), 2, (1, 0, 2)), ((2, 0, 1), 2, (2, 0, 1)), ((0, 1, 3), 2, (0, 1, 2)), ((1, 0, 0), 3, (0, 1, 0))):
        for me in (0, 1, 2):
            add('univariate', 'sarima', (p, d, q, s, P, D, Q), p + s * P + d + s * D + 4 if me == 1 else 26, me)
    for (p, d, q), (P, D, Q), s, r, im in (((1, 0, 1), (0, 0, 0), 0, 0, 1), ((1, 0, 1), (0, 0, 0), 0, 2, 1), ((2, 0, 0), (0, 0, 0), 0, 1, 0), ((1, 1, 1), (0, 0, 0), 0, 2, 0),
                                           ((1, 0, 1), (1, 0, 1), 4, 1, 1), ((0, 1, 1), (0, 1, 1), 4, 2, 0), ((1, 0, 0), (1, 1, 0), 3, 1, 1), ((2, 1, 0), (0, 0, 2), 3, 0, 0),
                                           ((0, 0, 1), (0, 1, 0), 2, 3, 1), ((0, 0, 0), (0, 0, 0), 0, 2, 1), ((0, 2, 1), (1, 0, 0), 2, 1, 0),
                                           ((1, 0, 2), (1, 0, 2), 2, 0, 1), ((2, 0, 1), (2, 0, 1), 2, 1, 1), ((0, 1, 3), (0, 1, 2), 2, 0, 0),
                                           ((1, 0, 0), (0, 0, 0), 0, 2, 0), ((1, 1, 0), (0, 0, 0), 0, 1, 0), ((0, 0, 0), (0, 0, 0), 0, 1, 1)):
        for me in (0, 1, 2):
            add('univariate', 'sarimax', (p, d, q, P, D, Q, s, r, im), p + s * P + d + s * D + 4 if me == 2 else 26, me)
    for me in (0, 1, 2):
        for p in (0, 1, 3):
            add('univariate', 'ar', (p,), 12, me)
    for a, s in (((1, 0, 1, 0, 0, 0), 0), ((2, 1, 1, 0, 0, 0), 0), ((1, 0, 1, 1, 0, 1), 4), ((0, 1, 2, 1, 0, 0), 4), ((1, 0, 0, 0, 1, 1), 4), ((0, 1, 1, 0, 1, 1), 3),
                 ((0, 0, 0, 0, 0, 0), 0), ((2, 0, 2, 0, 0, 0), 0), ((0, 2, 1, 0, 0, 0), 0), ((0, 0, 1, 0, 0, 0), 0), ((1, 0, 0, 0, 0, 1), 2), ((1, 0, 2, 1, 0, 2), 2), ((2, 0, 1, 2, 0, 1), 3)):
        for k in (0, 1):
            for r in (0, 1, 2):
                for ot in (1, 2):
                    if deep or (r + k + ot + sum(a)) % 2 == 0 or k + r == 0:
                        add('auto', a, s, r, k, 26, ot)
    return out
