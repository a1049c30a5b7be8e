"""What regressions, linear systems, decompositions and recursions compute, for all data, at fixed lengths.

As in linear.py the shape interpreter is run with a symbol for every observation and gives every result as an expression in them: a polynomial that
may contain quotients, square roots, exponentials and logarithms. Such an expression is compared with the definition as an identity, by evaluating
both at several points (an identity between such expressions that holds at independent random points holds everywhere, with probability one)."""
import functools
import math
import random

import shape
from linear import Linear, lin, prod, mean
from shape import Pol, sym

FUN = {'sqrt': math.sqrt, 'log': math.log, 'exp': math.exp, 'fabs': abs, 'sin': math.sin, 'cos': math.cos, 'pow': math.pow, 'tanh': math.tanh,
       'atanh': math.atanh, 'expm1': math.expm1, 'log1p': math.log1p, 'log10': math.log10}


class Unknown(Exception):
    pass


class Point:
    """an assignment of numbers to the data, and the value of expressions at it"""

    def __init__(self, seed, lo=-1.0, hi=1.0):
        self.r = random.Random(seed)
        self.lo, self.hi = lo, hi
        self.v = {}

    def of(self, key):
        if key not in self.v:
            if type(key) is tuple and key and key[0] == 'inv':
                x = 1.0 / self(key[1])
            elif type(key) is tuple and key and key[0] == 'let':
                x = self(key[1])
            elif type(key) is tuple and key and key[0] in FUN and all(isinstance(a, (Pol, float)) for a in key[1:]):
                x = FUN[key[0]](*[self(a) for a in key[1:]])
            elif type(key) is tuple and len(key) == 2 and type(key[0]) is str and type(key[1]) is int:
                x = self.r.uniform(self.lo, self.hi)
            else:
                raise Unknown(str(key))
            self.v[key] = x
        return self.v[key]

    def __call__(self, v):
        if isinstance(v, Pol):
            t = 0.0
            for m, c in v.t.items():
                p = float(c)
                for i in m:
                    p *= self.of(shape.SYMKEY[i])
                t += p
            return t
        if type(v) in (float, int):
            return float(v)
        raise Unknown(repr(v))


def design(n, k, intercept=True):
    """k columns of n fixed numbers, the first one constant"""
    cols = [[1.0] * n] if intercept else []
    r = random.Random(1000 * n + k)
    while len(cols) < k:
        cols.append([round(r.uniform(-2, 2), 3) for _ in range(n)])
    return cols


class Derived(Linear):
    def __init__(self, ctx, limit=20000000):
        Linear.__init__(self, ctx, limit)
        self.E.scalar_once = False
        shape.LIM[:] = [120, 3000, 3000, 3000]
        shape.LET[0] = True
        self.E.hooks['qsort'] = self.qsort

    def qsort(self, E, a, ins):
        """sorts when the comparison decides every pair"""
        p, n, w, f = a
        if type(p) is not tuple or p[1] is None or type(n) is not int or type(w) is not int or n > 400 or not isinstance(f, shape.FnPtr):
            return shape.MISS
        g = E.m.fns.get(f.name)
        if g is None or not g.blocks or p[0] not in E.mem.m or not E.inside(p, n * w, ins, 'sort'):
            return shape.MISS

        class No(Exception):
            pass

        def cmp(i, j):
            r = E.run(g, [(p[0], p[1] + i * w), (p[0], p[1] + j * w)], ins)
            if type(r) is not int:
                raise No()
            return r
        try:
            order = sorted(range(n), key=functools.cmp_to_key(cmp))
        except No:
            return shape.MISS
        d = E.mem.mut(p[0]).d
        old = {o: d.pop(o) for o in list(d) if p[1] <= o < p[1] + n * w}
        for new, k in enumerate(order):
            for o, c in old.items():
                if p[1] + k * w <= o < p[1] + (k + 1) * w:
                    d[o + (new - k) * w] = c
        return None

    def numbers(self, name, v):
        r = self.E.region(name, 8 * max(len(v), 1), 'arg')
        for k, x in enumerate(v):
            self.E.put(r, 8 * k, 8, float(x))
        return (r, 0)

    def ident(self, what, got, want, data=None, tol=1e-6, lo=-1.0, hi=1.0):
        """got: expressions; want: expressions, or a function from the values of the data to numbers"""
        pts = [Point(s, lo, hi) for s in (11, 12, 13, 14)]
        for P in pts:
            if data:                     # the same order everywhere
                for d in data:
                    P(d)
        try:
            w = [want([P(d) for d in data]) if callable(want) else [P(x) for x in want] for P in pts]
        except (Unknown, ZeroDivisionError, ValueError) as e:
            self.facts.append((what, None, 'expected value: %s' % e))
            return
        for k, g in enumerate(got):
            if type(g) is shape.Poison:
                self.facts.append((what, False, 'element %d is computed from unwritten memory' % k))
                continue
            ok, text = True, ''
            for P, x in zip(pts, w):
                try:
                    y = P(g)
                except (Unknown, ZeroDivisionError, ValueError, OverflowError) as e:
                    ok, text = None, 'element %d: %s' % (k, str(e)[:80])
                    break
                if abs(x[k] - y) > tol * (1 + abs(x[k])):
                    ok, text = False, 'element %d is %s, which is %.9g where the definition gives %.9g' % (k, repr(g)[:120], y, x[k])
                    break
            self.facts.append((what, ok, text))

    # -- linear systems and least squares
    def system(self, n, k):
        import numpy as np
        r = random.Random(100 * n + k)
        A = [[round(r.uniform(-2, 2), 3) for _ in range(n)] for _ in range(n)]
        if k % 3 == 1 and n > 1:
            A[0][0] = 0.0                    # a pivot is needed
        if k % 3 == 2 and n > 2:             # the largest entry of each column below the diagonal
            for i in range(n):
                A[(i + 1) % n][i] += 5.0
        a = self.numbers('A', [x for row in A for x in row])
        (p, b) = self.x('b', n)
        ip = self.E.region('ipiv', 4 * n, 'heap')
        x = self.y('x', n)
        self.call('ludecomp', a, n, (ip, 0))
        self.call('linsolve', a, n, p, (ip, 0), x)
        got = self.cells(x, n)
        self.ident('linsolve: equations', got, lambda v: list(np.linalg.solve(np.array(A), np.array(v))), b)
        for i in range(n):                   # columns of the inverse, through the unit vectors
            pass
        inv = self.y('inv', n * n)
        self.call('minverse', a, n, (ip, 0), inv)
        G = self.cells(inv, n * n)
        # the inverse applied to unknown right-hand sides
        y = [lin([(G[i * n + j] if type(G[i * n + j]) is float else float('nan'), b[j]) for j in range(n)]) for i in range(n)]
        self.ident('minverse: equations', y, lambda v: list(np.linalg.solve(np.array(A), np.array(v))), b)

    def least(self, fn, M, n):
        import numpy as np
        X = np.array(design(M, n)).T
        a = self.numbers('A', X.reshape(-1).tolist())
        (p, b) = self.x('b', M)
        x = self.y('x', n)
        self.call(fn, a, p, M, n, x)
        self.ident(fn + ': normal equations', self.cells(x, n), lambda v: list(np.linalg.lstsq(X, np.array(v), rcond=None)[0]), b)

    def regress(self, N, p, intercept, method):
        import numpy as np
        cols = design(N, p, intercept)
        X = np.array(cols).T
        xi = self.numbers('X', [v for c in (cols[1:] if intercept else cols) for v in c])
        q, y = self.x('y', N)
        o = self.call('reg_init', N, p)
        self.call('setIntercept', o, int(intercept))
        if method != 'qr':
            self.call('setLLSMethod', o, self.E.text(method))
        res, vc = self.y('res', N), self.y('varcovar', p * p)
        self.call('regress', o, xi, q, res, vc, 0.05)
        tag = ' (%s%s)' % (method, '' if intercept else ', no intercept')
        H = np.linalg.inv(X.T @ X)

        def fit(v):
            v = np.array(v)
            b = H @ X.T @ v
            e = v - X @ b
            return v, b, e, float(e @ e), float(((v - v.mean()) ** 2).sum() if intercept else v @ v)
        st = self.m.difields['reg_set']
        base = self.off('reg_set', 'beta')[0]
        size = 32                               # value, lower, upper, stdErr
        dl = lambda off: self.E.load((o[0], o[1] + off), 8, 'double', None)
        self.ident('regress: coefficients' + tag, [dl(base + size * k) for k in range(p)], lambda v: list(fit(v)[1]), y)
        self.ident('regress: standard errors' + tag, [dl(base + size * k + 24) for k in range(p)],
                   lambda v: [math.sqrt(fit(v)[3] / (N - p) * H[k, k]) for k in range(p)], y)
        self.ident('regress: residuals' + tag, self.cells(res, N), lambda v: list(fit(v)[2]), y)
        self.ident('regress: covariance' + tag, self.cells(vc, p * p), lambda v: list((fit(v)[3] / (N - p) * H).reshape(-1)), y)
        g = lambda f: self.get(o, 'reg_set', f, 'double')
        self.ident('regress: variance' + tag, [g('sigma')], lambda v: [fit(v)[3] / (N - p)], y)
        self.ident('regress: sums of squares' + tag, [g('TSS'), g('ESS'), g('RSS')],
                   lambda v: [fit(v)[4], fit(v)[4] - fit(v)[3], fit(v)[3]], y)
        self.ident('regress: goodness of fit' + tag, [g('r2')], lambda v: [1 - fit(v)[3] / fit(v)[4]], y)
        ll = lambda v: -N / 2.0 * (math.log(2 * math.pi) + math.log(fit(v)[3] / N) + 1)
        k = p
        self.ident('regress: log likelihood' + tag, [g('loglik')], lambda v: [ll(v)], y)
        self.ident('regress: criteria' + tag, [g('aic'), g('bic')], lambda v: [-2 * ll(v) + 2 * k, -2 * ll(v) + math.log(N) * k], y)
        if st:
            self.call('free_reg', o)

    # -- autoregressions from sample correlations
    def yulewalker(self, N, p):
        import numpy as np
        q, y = self.x('x', N)

        def solve(v, p=p):
            v = np.array(v) - np.mean(v)
            c = [float(v[:N - k] @ v[k:]) / N for k in range(p + 1)]
            T = np.array([[c[abs(i - j)] for j in range(p)] for i in range(p)])
            phi = np.linalg.solve(T, np.array(c[1:]))
            return phi, c[0] - float(phi @ np.array(c[1:]))
        phi = self.y('phi', p)
        self.call('ywalg', q, N, p, phi)
        self.ident('ywalg: Yule-Walker equations', self.cells(phi, p), lambda v: list(solve(v)[0]), y)
        phi, var = self.y('phi', p), self.y('var', 1)
        self.call('yw', q, N, p, phi, var)
        self.ident('yw: Yule-Walker equations', self.cells(phi, p), lambda v: list(solve(v)[0]), y)
        self.ident('yw: innovation variance', self.cells(var, 1), lambda v: [solve(v)[1]], y)
        par = self.y('par', p)
        self.call('pacf', q, N, par, p)
        self.ident('pacf: partial correlations', self.cells(par, p), lambda v: [solve(v, k)[0][-1] for k in range(1, p + 1)], y)

    def burg(self, N, p):
        q, y = self.x('x', N)

        def solve(v, p=p):
            f, b, a = list(v), list(v), [1.0]
            e = None
            for m in range(1, p + 1):
                n = sum(f[t] * b[t - 1] for t in range(m, N))
                d = sum(f[t] ** 2 + b[t - 1] ** 2 for t in range(m, N))
                k = -2 * n / d
                f, b = [0.0] * m + [f[t] + k * b[t - 1] for t in range(m, N)], [0.0] * m + [b[t - 1] + k * f[t] for t in range(m, N)]
                a = a + [0.0]
                a = [a[i] + k * a[m - i] for i in range(m + 1)]
                e = sum(f[t] ** 2 + b[t] ** 2 for t in range(m, N)) / (2 * (N - m))
            return [-x for x in a[1:]], e
        for fn in ('burgalg', 'burg'):
            phi, var = self.y('phi', p), self.y('var', 1)
            self.call(fn, q, N, p, phi, var)
            self.ident(fn + ': coefficients', self.cells(phi, p), lambda v: solve(v)[0], y)
            self.ident(fn + ': innovation variance', self.cells(var, 1), lambda v: [solve(v)[1]], y)
        par = self.y('par', p)
        self.call('pacf_opt', q, N, 1, par, p)
        self.ident('pacf_opt: partial correlations (Burg)', self.cells(par, p), lambda v: [solve(v, k)[0][-1] for k in range(1, p + 1)], y)

    def longrun(self, N, l):
        q, y = self.x('u', N)
        s = self.numbers('sum', [0.25])
        self.call('ppsum', q, N, l, s)
        want = lin([(0.25, 1.0)] + [(2.0 / N * (1 - i / (l + 1.0)), prod(y[j], y[j - i])) for i in range(1, l + 1) for j in range(i, N)])
        self.same('ppsum: weighted covariances', self.cells(s, 1), [want])

    # -- recursions of a model
    def weights(self, p, q, n):
        (a, phi), (b, theta) = self.x('phi', p), self.x('theta', q)
        r = self.y('psi', n)
        self.call('psiweight', a, b, r, p, q, n)
        psi = [1.0]
        for j in range(1, n):
            psi.append(lin(([(1, theta[j - 1])] if j <= q else []) + [(1, prod(phi[k - 1], psi[j - k])) for k in range(1, min(p, j) + 1)]))
        self.same('psiweight: expansion of theta/phi', r, psi)
        r = self.y('pi', n)
        self.call('piweight', a, b, r, p, q, n)
        pi = [1.0]
        for j in range(1, n):
            pi.append(lin(([(-1, phi[j - 1])] if j <= p else []) + [(-1, prod(theta[k - 1], pi[j - k])) for k in range(1, min(q, j) + 1)]))
        self.same('piweight: expansion of phi/theta', r, pi)

    def partial(self, p):
        a, u = self.x('u', p)
        b, c = self.y('ar', p), self.y('back', p)
        self.call('artrans', p, a, b)

        def levinson(v):
            phi = []
            for k, x in enumerate(v):
                r = math.tanh(x)
                phi = [phi[j] - r * phi[k - 1 - j] for j in range(k)] + [r]
            return phi
        self.ident('artrans: coefficients', self.cells(b, p), levinson, u)
        self.call('arinvtrans', p, b, c)
        self.ident('arinvtrans: inverse', self.cells(c, p), u)
        c = self.y('back', p)
        a, u = self.x('v', p)
        self.call('arinvtrans', p, a, b)
        self.call('artrans', p, b, c)
        self.ident('artrans: inverse', self.cells(c, p), u, lo=-0.3, hi=0.3)

    # -- decompositions
    def power(self, n, lam):
        p, y = self.x('y', n)
        z, w = self.y('z', n), self.y('w', n)
        self.call('boxcox_eval', p, n, lam, z)
        self.ident('boxcox_eval: transform', self.cells(z, n), lambda v: [math.log(t) if lam == 0 else (t ** lam - 1) / lam for t in v], y, lo=0.5, hi=3)
        self.call('inv_boxcox_eval', z, n, lam, w)
        self.ident('inv_boxcox_eval: inverse', self.cells(w, n), y, lo=0.5, hi=3)

    def stl(self, N, f, kind, win, degree, exact):
        """exact: the series is a line plus a periodic pattern, with unknown coefficients"""
        if exact:
            pat = [sym(('c', k), 'c%d' % k) for k in range(f)]
            a, b = sym(('a', 0), 'a'), sym(('b', 0), 'b')
            y = [lin([(1, a), (1, pat[t % f])] + ([(t, b)] if exact == 'line' else [])) for t in range(N)]
        else:
            y = [sym(('y', k), 'y[%d]' % k) for k in range(N)]
        r = self.E.region('y', 8 * N, 'arg')
        for k in range(N):
            self.E.put(r, 8 * k, 8, y[k])
        S, T, R = self.y('seasonal', N), self.y('trend', N), self.y('remainder', N)
        w = self.ints('window', [win])
        dg = self.ints('degree', [degree])
        self.call('stl', (r, 0), N, f, self.E.text(kind), w, dg, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, S, T, R)
        s, t, e = self.cells(S, N), self.cells(T, N), self.cells(R, N)
        tag = ' (%s)' % kind
        self.ident('stl: components add up' + tag, [lin([(1, p), (1, q), (1, u)]) if all(isinstance(z, (Pol, float)) for z in (p, q, u)) else
                                                    next(z for z in (p, q, u) if not isinstance(z, (Pol, float))) for p, q, u in zip(s, t, e)], y)
        if exact:
            m = lin([(1.0 / f, c) for c in pat])
            self.ident('stl: seasonal component of a periodic series' + tag, s, [lin([(1, pat[k % f]), (-1, m)]) for k in range(N)])
            self.ident('stl: trend of a line' + tag, t, [lin([(1, a), (1, m)] + ([(k, b)] if exact == 'line' else [])) for k in range(N)])

    def interpolation(self, n):
        rng = random.Random(n)
        x = sorted(rng.uniform(0, 10) for _ in range(n))
        p = self.numbers('x', x)
        q, y = self.x('y', n)
        z = [x[0] - 1, x[0], x[-1], x[-1] + 2] + [x[k] for k in range(n)] + [0.3 * x[k] + 0.7 * x[k + 1] for k in range(n - 1)]

        def want(t):
            if t <= x[0]:
                return lin([(1, y[0])])
            if t >= x[-1]:
                return lin([(1, y[-1])])
            k = max(i for i in range(n) if x[i] <= t)
            w = (t - x[k]) / (x[k + 1] - x[k])
            return lin([(1 - w, y[k]), (w, y[k + 1])])
        out = self.y('out', len(z))
        self.call('approx', p, q, n, self.numbers('z', z), out, len(z))
        self.ident('approx: linear interpolation', self.cells(out, len(z)), [want(t) for t in z])
        r = list(range(n))
        random.Random(n + 1).shuffle(r)
        p = self.numbers('xs', [x[k] for k in r])
        reg = self.E.region('ys', 8 * n, 'arg')
        for i, k in enumerate(r):
            self.E.put(reg, 8 * i, 8, y[k])
        for t in z:
            self.ident('interpolate_linear: linear interpolation', [self.call('interpolate_linear', p, (reg, 0), n, t)], [want(t)])
        L = self.y('lin', n)
        lo, hi = sym(('lo', 0), 'lo'), sym(('hi', 0), 'hi')
        self.call('linspace', L, n, lo, hi)
        self.ident('linspace: points', self.cells(L, n), [lin([(1 - k / (n - 1.0), lo), (k / (n - 1.0), hi)]) for k in range(n)])


def _add(out):
    def add(fn, *a):
        out.append(('%s %s' % (fn, ', '.join(map(str, a))), lambda P, a=a, fn=fn: getattr(P, fn)(*a)))
    return add


def regressions(deep=False):
    out = []
    add = _add(out)
    for n in (1, 2, 3, 4, 6):
        for k in (0, 1, 2):
            add('system', n, k)
    for fn in ('lls_qr', 'lls_normal', 'lls_svd', 'lls_svd2'):
        for M, n in ((3, 1), (4, 2), (6, 3), (5, 5), (9, 4)):
            add('least', fn, M, n)
    for method in ('qr', 'normal', 'svd'):
        for N, p in ((4, 1), (6, 2), (9, 3), (12, 5)):
            add('regress', N, p, True, method)
            add('regress', N, p, False, method)
    for n in (2, 3, 5, 8):
        add('interpolation', n)
    return out


def estimators(deep=False):
    out = []
    add = _add(out)
    for N, p in ((4, 1), (5, 1), (5, 2), (7, 2), (6, 3), (9, 4), (12, 6), (15, 3)):
        add('yulewalker', N, p)
        add('burg', N, p)
    for N, l in ((4, 1), (6, 3), (9, 4), (5, 0)):
        add('longrun', N, l)
    return out


def recursions(deep=False):
    out = []
    add = _add(out)
    for p, q in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 3), (3, 2)):
        add('weights', p, q, 6)
    for p in (1, 2, 3, 4, 5, 7):
        add('partial', p)
    return out


def decompositions(deep=False):
    out = []
    add = _add(out)
    for lam in (0.0, 0.5, 1.0, -0.7, 2.0):
        add('power', 3, lam)
    for N, f in ((16, 4), (19, 4), (15, 3), (25, 6), (24, 12)):
        for win in (7, 13):
            add('stl', N, f, 'null', win, 0, None)
            add('stl', N, f, 'null', win, 1, 'line')
            add('stl', N, f, 'null', win, 0, 'pattern')
        add('stl', N, f, 'period', 7, 0, None)
        add('stl', N, f, 'period', 7, 0, 'pattern')
    return out
