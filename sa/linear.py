"""What the transforms, filters, products and correlations compute, for all data, at fixed lengths.

The shape interpreter is run with a symbol for every element of the input. Lengths are constant, so every address, loop count, twiddle factor and
filter coefficient is constant and every element of the output has a polynomial in the input as its abstract value. It is compared, as a polynomial,
with the definition (discrete Fourier transform, convolution sum, covariance sum, ...) or, for a transform and its inverse, with the input."""
import math
from fractions import Fraction

import shape
from model import close
from shape import Pol, fadd, fmul, fsub, sym, pol, fdiv, fneg
from shapes import Prog

TOL = 1e-8


def lin(terms):
    """sum of coefficient * value"""
    t = {}
    for c, v in terms:
        if not c:
            continue
        c = float(c)
        for m, q in pol(v).t.items():
            t[m] = t.get(m, 0) + c * q
    return Pol({m: c for m, c in t.items() if c})


def mean(v):
    return lin([(Fraction(1, len(v)), x) for x in v])


def prod(a, b):
    t = {}
    for m, c in pol(a).t.items():
        for n, d in pol(b).t.items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return Pol({m: c for m, c in t.items() if c})


class Linear(Prog):
    def __init__(self, ctx, limit=20000000):
        Prog.__init__(self, ctx, limit)
        shape.LIM[:] = [20000, 4000000, 3000, 3000]
        shape.GENERIC[0] = True
        shape.COEF[0] = float
        shape.DIVLIM[0] = 4000
        self.facts = []

    def x(self, name, n):
        """an input of n symbols, and the symbols"""
        r = self.E.region(name, 8 * max(n, 1), 'arg')
        v = [sym((name, k), '%s[%d]' % (name, k)) for k in range(n)]
        for k in range(n):
            self.E.put(r, 8 * k, 8, v[k])
        return (r, 0), v

    def y(self, name, n):
        return (self.E.region(name, 8 * n, 'heap'), 0)

    def cells(self, p, n):
        if type(p) is not tuple or p[1] is None:
            return [None] * n
        return [self.E.load((p[0], p[1] + 8 * k), 8, 'double', None) for k in range(n)]

    def same(self, what, got, want, tol=TOL):
        if isinstance(got, tuple):
            got = self.cells(got, len(want))
        for k, (a, b) in enumerate(zip(got, want)):
            if isinstance(b, Pol) and not b.t:
                b = 0.0
            if type(a) is shape.Poison:
                self.facts.append((what, False, 'element %d is computed from unwritten memory' % k))
                continue
            ok = close(a, b, tol)
            self.facts.append((what, ok, '' if ok else 'element %d is %s, expected %s' % (k, repr(a)[:250], repr(b)[:250])))

    def count(self, what, got, want):
        self.facts.append((what, None if got is None else got == want, 'returned %s, expected %s' % (got, want)))

    # -- Fourier
    def dft(self, re, im, sgn):
        N = len(re)
        out = []
        for k in range(N):
            c = [(math.cos(2 * math.pi * (j * k % N) / N), -sgn * math.sin(2 * math.pi * (j * k % N) / N)) for j in range(N)]
            out.append(lin([(c[j][0], re[j]) for j in range(N)] + [(-c[j][1], im[j]) for j in range(N)]))
            out.append(lin([(c[j][1], re[j]) for j in range(N)] + [(c[j][0], im[j]) for j in range(N)]))
        return out

    def fft(self, N, sgn):
        o = self.call('fft_init', N, sgn)
        p, v = self.x('x', 2 * N)
        q = self.y('y', 2 * N)
        self.call('fft_exec', o, p, q)
        self.same('fft_exec: transform', q, self.dft(v[::2], v[1::2], sgn))
        o = self.call('fft_init', N, -sgn)
        z = self.y('z', 2 * N)
        self.call('fft_exec', o, q, z)
        self.same('fft_exec: inverse', z, [lin([(N, a)]) for a in v])
        self.same('fft_exec: input', p, v)
        self.call('free_fft', o)

    def rfft(self, N):
        o = self.call('fft_real_init', N, 1)
        p, v = self.x('x', N)
        q = self.y('y', 2 * N)
        self.call('fft_r2c_exec', o, p, q)
        self.same('fft_r2c_exec: transform', q, self.dft(v, [0.0] * N, 1))
        i = self.call('fft_real_init', N, -1)
        z = self.y('z', N)
        self.call('fft_c2r_exec', i, q, z)
        self.same('fft_c2r_exec: inverse', z, [lin([(N, a)]) for a in v])
        self.call('free_real_fft', o)
        self.call('free_real_fft', i)

    # -- convolution and filters
    def convsum(self, a, b):
        n = len(a) + len(b) - 1
        return [lin([(1, prod(a[j], b[k - j])) for j in range(len(a)) if 0 <= k - j < len(b)]) for k in range(n)]

    def convolve(self, kind, method, N, L):
        (p, a), (q, b) = self.x('a', N), self.x('b', L)
        full = self.convsum(a, b)
        big, small = max(N, L), min(N, L)
        want = {'full': full, 'same': full[(len(full) - big) // 2:][:big], 'valid': full[small - 1:][:big - small + 1]}[kind]
        r = self.y('c', len(want))
        n = self.call('convolve', self.E.text(kind), self.E.text(method), p, N, q, L, r)
        self.count('convolve: length (%s)' % kind, n, len(want))
        self.same('convolve: %s %s' % (kind, method), r, want)

    def direct(self, fn, N, L):
        (p, a), (q, b) = self.x('a', N), self.x('b', L)
        want = self.convsum(a, b)
        if fn == 'filter':
            want = want[:N]
        r = self.y('c', len(want))
        self.call(fn, p, N, q, L, r)
        self.same(fn + ': sum', r, want)

    def moving(self, fn, N, w):
        p, v = self.x('x', N)
        r = self.y('y', N)
        q = w // 2
        ext = [v[0]] * q + v + [v[-1]] * q
        wt = [1.0 / w] * w if w % 2 else [0.5 / w] + [1.0 / w] * (w - 1) + [0.5 / w]
        if fn == 'mafilter_wt':
            c, wt = self.x('w', w)
            self.call(fn, p, N, c, w, r)
            want = [lin([(1, prod(wt[j], ext[i + j])) for j in range(w)]) for i in range(N)]
        else:
            self.call(fn, p, N, w, r)
            want = [lin([(c, ext[i + j]) for j, c in enumerate(wt)]) for i in range(N)]
            if fn == 'mafilter2':
                want = [v[i] if i < q or i >= N - q else want[i] for i in range(N)]
        self.same(fn + ': average', r, want)

    def exponential(self, N, alpha):
        p, v = self.x('x', N)
        r = self.y('y', N)
        self.call('expfilter', p, N, alpha, r)
        want = [v[0]]
        for i in range(1, N):
            want.append(lin([(alpha, v[i]), (1 - alpha, want[-1])]))
        self.same('expfilter: average', r, want)

    # -- differences, polynomials, resampling
    def diff(self, N, d):
        p, v = self.x('x', N)
        r = self.y('y', N)
        n = self.call('diff', p, N, d, r)
        for _ in range(d):
            v = [lin([(1, b), (-1, a)]) for a, b in zip(v, v[1:])]
        self.count('diff: length', n, len(v))
        self.same('diff: differences', r, v)

    def diffs(self, N, D, s):
        p, v = self.x('x', N)
        r = self.y('y', N)
        n = self.call('diffs', p, N, D, s, r)
        for _ in range(D):
            v = [lin([(1, b), (-1, a)]) for a, b in zip(v, v[s:])]
        self.count('diffs: length', n, len(v))
        self.same('diffs: differences', r, v)

    def operator(self, d, s):
        want = [1.0]
        for _ in range(d):
            want = [(want[k] if k < len(want) else 0.0) - (want[k - s] if 0 <= k - s < len(want) else 0.0) for k in range(len(want) + s)]
        r = self.y('c', len(want))
        if s == 1:
            self.call('deld', d, r)
            self.same('deld: polynomial', r, want)
        r = self.y('c', len(want))
        self.call('delds', d, s, r)
        self.same('delds: polynomial', r, want)

    def poly(self, n, m):
        (p, a), (q, b) = self.x('a', n), self.x('b', m)
        r = self.y('c', n + m - 1)
        k = self.call('poly', p, q, r, n, m)
        self.count('poly: length', k, n + m - 1)
        self.same('poly: product', r, self.convsum(a, b))

    def resample(self, n, M):
        p, v = self.x('x', n)
        want = []
        for k, a in enumerate(v):
            want += [a] + [0.0] * ((M - 1) if k < n - 1 and M else 0)
        for fn in ('upsample', 'upsamp'):
            r = self.y('y', len(want))
            k = self.call(fn, p, n, M, r)
            self.count(fn + ': length', k, len(want))
            self.same(fn + ': elements', r, want)
        if M:
            w2 = [a for k in range(n) for a in [v[k]] + [0.0] * (M - 1)]
            r = self.y('y', len(w2))
            k = self.call('upsamp2', p, n, M, r)
            self.count('upsamp2: length', k, len(w2))
            self.same('upsamp2: elements', r, w2)
        want = v[::M] if M else v
        for fn in ('downsample', 'downsamp'):
            r = self.y('y', len(want))
            k = self.call(fn, p, n, M, r)
            self.count(fn + ': length', k, len(want))
            self.same(fn + ': elements', r, want)

    def cumulative(self, n, l):
        p, v = self.x('x', n)
        r = self.y('y', n)
        self.call('cumsum', p, n, r)
        self.same('cumsum: sums', r, [lin([(1, a) for a in v[:k + 1]]) for k in range(n)])

    def circular(self, n, L):
        p, v = self.x('x', n)
        self.call('circshift', p, n, L)
        self.same('circshift: elements', p, [v[(k + L) % n] for k in range(n)])

    def extension(self, n, a):
        p, v = self.x('x', n)
        w = v + [v[-1]] * (n % 2)
        r = self.y('y', len(w) + 2 * a)
        k = self.call('per_ext', p, n, a, r)
        self.count('per_ext: length', k, len(w))
        self.same('per_ext: elements', r, [w[(j - a) % len(w)] for j in range(len(w) + 2 * a)])
        r = self.y('y', n + 2 * a)
        k = self.call('symm_ext', p, n, a, r)
        self.count('symm_ext: length', k, n)
        ref = lambda j: v[j] if 0 <= j < n else ref(-1 - j) if j < 0 else ref(2 * n - 1 - j)
        self.same('symm_ext: elements', r, [ref(j - a) for j in range(n + 2 * a)])

    # -- matrices
    def matrix(self, m, n, k):
        (p, a), (q, b) = self.x('a', m * n), self.x('b', n * k)
        want = [lin([(1, prod(a[i * n + l], b[l * k + j])) for l in range(n)]) for i in range(m) for j in range(k)]
        for fn in ('nmult', 'tmult', 'rmult', 'smult', 'mmult'):
            r = self.y('c', m * k)
            self.call(fn, p, q, r, m, n, k)
            self.same(fn + ': product', r, want)

    def transpose(self, m, n):
        p, a = self.x('a', m * n)
        want = [a[i * n + j] for j in range(n) for i in range(m)]
        for fn in ('stranspose', 'ctranspose', 'mtranspose'):
            r = self.y('c', m * n)
            self.call(fn, p, m, n, r)
            self.same(fn + ': transpose', r, want)
        self.call('itranspose', p, m, n)
        self.same('itranspose: transpose', p, want)

    def elementwise(self, m, n):
        (p, a), (q, b) = self.x('a', m * n), self.x('b', m * n)
        for fn, s in (('madd', 1), ('msub', -1)):
            r = self.y('c', m * n)
            self.call(fn, p, q, r, m, n)
            self.same(fn + ': elements', r, [lin([(1, x), (s, y)]) for x, y in zip(a, b)])
        self.call('scale', p, m, n, 2.5)
        self.same('scale: elements', p, [lin([(2.5, x)]) for x in a])
        r = self.y('e', m * m)
        self.call('eye', r, m)
        self.same('eye: elements', r, [float(i == j) for i in range(m) for j in range(m)])
        r = self.y('e', m * m)
        self.call('eye_scale', r, m, 0.75)
        self.same('eye_scale: elements', r, [0.75 * (i == j) for i in range(m) for j in range(m)])

    # -- wavelets
    def wavelet(self, kind, name, N, J, ext=None, method=None):
        E = self.E
        w = self.call('wave_init', E.text(name))
        p, v = self.x('x', N)
        o = self.call('wt_init', w, E.text(kind), N, J)
        if ext:
            self.call('setDWTExtension', o, E.text(ext))
        if method:
            self.call('setWTConv', o, E.text(method))
        self.call(kind, o, p)
        tag = '%s, %s' % (ext or 'per', method or 'direct')
        L = [E.load((o[0], o[1] + self.off('wt_set', 'length')[0] + 4 * k), 4, 'int', None) for k in range(J + 2)]
        out = self.get(o, 'wt_set', 'output', 'ptr')
        n = self.get(o, 'wt_set', 'outlength')
        if None in L or n is None or type(out) is not tuple:
            raise shape.Stop('lengths are not constant')
        if kind == 'dwt':
            self.count('dwt: lengths', (L[J + 1], n), (N, sum(L[:J + 1])))
        if kind == 'dwt' and ext == 'per' and N % (1 << J) == 0 and orthogonal(name):
            # an orthogonal transform keeps inner products: checked through the coefficients of the linear forms
            rows = [pol(c) for c in self.cells(out, n)] if all(isinstance(c, (Pol, float)) for c in self.cells(out, n)) else None
            ok = rows and all(abs(sum(float(c) * float(b.t.get(m, 0)) for m, c in a.t.items()) - (a is b)) < 1e-6 for a in rows for b in rows)
            self.facts.append(('dwt: energy', ok if rows else None, '%s: the rows of the transform are not orthonormal' % name))
        mra = self.call({'dwt': 'getDWTmra', 'swt': 'getSWTmra', 'modwt': 'getMODWTmra'}[kind], o, out)
        if method == 'fft' or kind != 'modwt':
            c = self.cells(mra, N * (J + 1))
            if None not in c:
                self.same('%s: multiresolution (%s)' % (kind, tag), [lin([(1, c[i * N + k]) for i in range(J + 1)]) for k in range(N)], v, 1e-6)
        rec = self.y('rec', N)
        self.call('i' + kind, o, rec)
        self.same('i%s: reconstruction (%s)' % (kind, tag), rec, v, 1e-6)
        self.call('wt_free', o)
        self.call('wave_free', w)

    # -- moments and correlations
    def moments(self, N):
        p, v = self.x('x', N)
        m = mean(v)
        c = [lin([(1, a), (-1, m)]) for a in v]
        self.same('mean: definition', [self.call('mean', p, N)], [m])
        self.same('var: definition', [self.call('var', p, N)], [lin([(Fraction(1, N), prod(a, a)) for a in c])])

    def acov(self, v, M):
        N = len(v)
        m = mean(v)
        c = [lin([(1, a), (-1, m)]) for a in v]
        return [lin([(Fraction(1, N), prod(c[t], c[t + k])) for t in range(N - k)]) for k in range(M)]

    def correlation(self, N, M):
        p, v = self.x('x', N)
        g = self.acov(v, M)
        rho = [1.0] + [None] * (M - 1)
        for name, a in (('acvf', ()), ('acvf_opt', (0,)), ('acvf_opt', (1,))):
            r = self.y('par', M)
            self.call(name, p, N, *a, r, M)
            got = self.cells(r, M)
            tag = '%s%s' % (name, ' (method %d)' % a if a else '')
            self.same(tag + ': covariances', got, g)
            self.call('acvf2acf', r, M)
            acf = self.cells(r, M)
            self.ratio('acvf2acf: correlations', acf, got)
        r = self.y('acorr', M)
        self.call('autocorr', p, N, r, M)
        self.ratio('autocorr: correlations', self.cells(r, M), g)
        o = self.call('auto_fft_init', N)
        r = self.y('acorr', M)
        self.call('autocorr_fft', o, p, r, M)
        self.ratio('autocorr_fft: correlations', self.cells(r, M), g)

    def ratio(self, what, got, g):
        """got[k] * g[0] == g[k], where got may hold 1/(something equal to g[0])"""
        self.same(what + ' (first)', got[:1], [1.0])
        for k in range(1, len(got)):
            v = got[k]
            n = self.clear(v, g[0])
            ok = None if n is None else close(n, g[k], TOL)
            self.facts.append((what, ok, '' if ok else 'element %d is %s, expected the covariance %d over the first' % (k, repr(v)[:200], k)))

    def clear(self, v, den):
        """v * den for v = numerator * 1/den"""
        if not isinstance(v, Pol):
            return fmul(v, den) if type(v) is float else None
        inv = {i for m in v.t for i in m if type(shape.SYMKEY.get(i)) is tuple and shape.SYMKEY[i][0] == 'inv'}
        if len(inv) != 1:
            return None
        i = inv.pop()
        ok = close(shape.SYMKEY[i][1], den, TOL)
        if not ok or any(m.count(i) != 1 for m in v.t):
            return None
        return Pol({tuple(x for x in m if x != i): c for m, c in v.t.items()})

    def spectrum(self, N, side):
        o = self.call('spectrum_fft_init', N, N)
        p, v = self.x('x', N)
        n = N if side == 2 else N // 2 + 1
        s, f = self.y('spec', N), self.y('freq', N)
        self.call('periodogram', o, p, s, f, side)
        d = self.dft(v, [0.0] * N, 1)
        want = [lin([(1.0 / N, prod(d[2 * k], d[2 * k])), (1.0 / N, prod(d[2 * k + 1], d[2 * k + 1]))]) for k in range(N)]
        fr = [2 * math.pi * k / N for k in range(N // 2 + 1)]
        if side == 2:
            fr += [-fr[N - k] for k in range(N // 2 + 1, N)]
        else:
            want = [want[k] if k == 0 or 2 * k == N else lin([(2, want[k])]) for k in range(n)]
        self.same('periodogram: power', s, want[:n])
        self.same('periodogram: frequencies', f, fr[:n])


def orthogonal(name):
    return name[:2] in ('ha', 'db', 'sy', 'co')


def programs(deep=False):
    out = []

    def add(fn, *a):
        out.append(('%s %s' % (fn, ', '.join(map(str, a))), lambda P, a=a, fn=fn: getattr(P, fn)(*a)))
    for N in list(range(1, 33)) + [34, 36, 37, 38, 41, 43, 44, 45, 46, 48, 49, 50, 53, 55, 56, 59, 60, 62, 63, 64, 65, 67, 70, 72, 77, 81, 96, 100, 121, 125, 128] + \
            (list(range(66, 200)) if deep else []):
        for sgn in (1, -1):
            add('fft', N, sgn)
    for N in list(range(2, 42, 2)) + [48, 50, 54, 62, 64, 70, 98, 106, 120, 128]:
        add('rfft', N)
    for kind in ('full', 'same', 'valid'):
        for method in ('direct', 'fft'):
            for N, L in ((1, 1), (5, 1), (1, 4), (6, 3), (3, 6), (7, 4), (4, 7), (5, 5), (8, 3), (9, 2), (12, 6), (11, 12)):
                add('convolve', kind, method, N, L)
    for fn in ('conv_direct', 'conv_directx', 'conv', 'convx', 'filter'):
        for N, L in ((1, 1), (5, 1), (1, 4), (6, 3), (3, 6), (7, 4), (5, 5), (9, 8)):
            if fn != 'filter' or N >= L:
                add('direct', fn, N, L)
    for fn in ('mafilter', 'mafilter2', 'mafilter_wt'):
        for N, w in ((7, 1), (7, 3), (8, 2), (9, 4), (11, 5), (12, 6), (13, 12), (6, 6)):
            add('moving', fn, N, w)
    for a in (0.1, 0.75, 1.0):
        add('exponential', 6, a)
    for N in (5, 9, 12):
        for d in (1, 2, 3, 4):
            add('diff', N, d)
        for D, s in ((1, 1), (1, 2), (2, 2), (1, 3), (1, 4), (2, 1)):
            add('diffs', N, D, s)
    for D, s in ((2, 4), (3, 4), (2, 7), (1, 12), (2, 12), (3, 2)):
        add('diffs', 40, D, s)
    for d in (1, 2, 3, 4, 5):
        for s in (1, 2, 3, 4, 7, 12):
            add('operator', d, s)
    for n, m in ((1, 1), (1, 4), (4, 1), (2, 3), (5, 3), (3, 7), (6, 6)):
        add('poly', n, m)
    for n in (1, 2, 5, 8):
        for M in (0, 1, 2, 3, 4):
            add('resample', n, M)
        add('cumulative', n, 2)
        for L in (0, 1, 2, 3, n, n + 1, -1, -2):
            add('circular', n, L)
        for a in (1, 2, 3):
            if a <= n:
                add('extension', n, a)
    for d in ((1, 1, 1), (2, 3, 4), (4, 3, 2), (1, 5, 2), (5, 1, 5), (3, 3, 3), (4, 4, 4), (6, 5, 7)):
        add('matrix', *d)
    for d in ((1, 1), (2, 3), (3, 2), (1, 6), (6, 1), (4, 4), (5, 7), (9, 4)):
        add('transpose', *d)
        add('elementwise', *d)
    for name in ('haar', 'db2', 'db3', 'db5', 'sym4', 'coif1', 'bior2.2', 'bior3.1', 'rbior2.2', 'rbior1.3', 'bior4.4', 'db9'):
        L = {'db9': 18, 'db5': 10, 'bior4.4': 10}.get(name, 8)
        for N, J in ((16, 1), (16, 2), (15, 1), (21, 2), (32, 3), (37, 2), (40, 3)):
            if N >> (J - 1) < L:
                continue
            for ext in ('per', 'sym'):
                for method in ('direct', 'fft'):
                    if method == 'fft' and N > 21 and not deep:
                        continue
                    add('wavelet', 'dwt', name, N, J, ext, method)
        for N, J in ((16, 1), (16, 2), (24, 3), (20, 2)):
            for method in ('direct', 'fft'):
                add('wavelet', 'swt', name, N, J, None, method)
        if orthogonal(name):
            for N, J in ((16, 1), (15, 2), (21, 2), (24, 3)):
                if N < L:
                    continue
                for method, ext in (('direct', None), ('fft', 'per'), ('fft', 'sym')):
                    add('wavelet', 'modwt', name, N, J, ext, method)
    for N in (1, 2, 3, 6, 9, 15):
        add('moments', N)
    for N, M in ((2, 2), (5, 5), (7, 3), (8, 8), (10, 6), (13, 5)):
        add('correlation', N, M)
    for N in (3, 4, 5, 8, 9, 12):
        for side in (1, 2):
            add('spectrum', N, side)
    return out


STATS = ('moments', 'correlation', 'spectrum')


def transforms(deep=False):
    return [p for p in programs(deep) if p[0].split(' ')[0] not in STATS]


def statistics(deep=False):
    return [p for p in programs(deep) if p[0].split(' ')[0] in STATS]
