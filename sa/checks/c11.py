"""Wavelet filters: every documented name yields filters of the documented length that satisfy the filter-bank identities."""
import math

import elem
import sccp

LEVEL = 'proof'
TOL = 2e-9
BIOR = {'1.1': 2, '1.3': 6, '1.5': 10, '2.2': 6, '2.4': 10, '2.6': 14, '2.8': 18, '3.1': 4, '3.3': 8, '3.5': 12, '3.7': 16, '3.9': 20,
        '4.4': 10, '5.5': 12, '6.8': 18}


def names():
    out = {'haar': 2, 'meyer': 102}
    out.update({'db%d' % k: 2 * k for k in range(1, 39)})
    out.update({'sym%d' % k: 2 * k for k in range(2, 21)})
    out.update({'coif%d' % k: 6 * k for k in range(1, 18)})
    out.update({'bior' + k: v for k, v in BIOR.items()})
    out.update({'rbior' + k: v for k, v in BIOR.items()})
    return out


def spec(ctx, name):
    s = sccp.Spec(ctx.m, ctx.eff)
    digits = ''
    for ch in reversed(name):
        if not ch.isdigit():
            break
        digits = ch + digits
    s.fold['atoi'] = lambda args: ('k', int(digits or 0))
    return s


def conv(a, b):
    out = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def run(ctx, rep):
    m = ctx.m
    rep.rule('For every wavelet name the selection code is specialised on the name; the table entry and factor each filter '
             'coefficient receives is derived by affine element-wise dataflow through the copy helpers; the resulting four filters '
             'must satisfy the perfect-reconstruction and alias-cancellation identities of a two-channel filter bank, and the '
             'length reported for the name must be the length of the tables.')
    fl, fc = ctx.fn('filtlength'), ctx.fn('filtcoef')
    got = {}
    for name, want in sorted(names().items()):
        rep.count('wavelets')
        lit = ('p', ('L', name), 0)
        s = spec(ctx, name)
        r = s.run('filtlength', {0: lit})
        if not r.ret or r.ret[0] != 'k':
            rep.undecided.append('length of %s is not a constant' % name)
            continue
        n = r.ret[1]
        rep.ob(n == want, 'C11|length|' + name, m.loc(fl), 'filter-length',
               'filtlength("%s") is %d, the filters of this wavelet have %d coefficients' % (name, n, want))
        if n != want:
            continue
        s = spec(ctx, name)
        r = s.run('filtcoef', {0: lit})
        e = elem.Elem(m, s, ctx.eff)
        F = [elem.Buf(x, n) for x in ('lp1', 'hp1', 'lp2', 'hp2')]
        try:
            # integers the propagation knows (the filter length) are handed to the element-wise walk
            pre = {k: v[1] for k, v in r.env.items() if v and v[0] == 'k'}
            env = dict(pre)
            for (_, pn), a in zip(fc.params, [None] + [('b', b, 0) for b in F]):
                if a is not None:
                    env[pn] = a
            e.known = pre
            e.entry(fc, env, r)
        except elem.Undecided as x:
            rep.undecided.append('%s: %s' % (name, x))
            continue
        for g, ins, b, i, kind in e.oob:
            rep.bad('C11|extent|%s|%s' % (name, b.name.split(':')[0]), m.loc(ins), 'table-extent',
                    'for "%s" %s %ss element %d of %s, which has %s elements' % (name, g.name, kind, i, b.name, b.size))
        if e.oob:
            continue
        vec, ok = {}, True
        for b in F:
            missing = [i for i in range(n) if i not in b.cells]
            rep.ob(not missing, 'C11|assigned|%s|%s' % (name, b.name), m.loc(fc), 'filter-assigned',
                   'for "%s" coefficient %s of filter %s is never assigned' % (name, missing[:1], b.name))
            if missing:
                ok = False
                continue
            vec[b.name] = [e.number(b.cells[i]) for i in range(n)]
        if not ok:
            continue
        got[name] = vec
        judge(rep, m, fc, name, n, vec, sorted({t for b in F for t in [v[1] for v in b.cells.values() if v[0] == 't']}))
    family(rep, m, fc, got)
    rep.need(rep.counts.get('identities', 0) >= 200 or rep.undecided or rep.findings, 'no filter bank was analysed')


def judge(rep, m, fc, name, n, v, tables):
    where = '%s (%s)' % (m.loc(fc), ', '.join(t.lstrip('@') for t in tables))
    L1, H1, L2, H2 = v['lp1'], v['hp1'], v['lp2'], v['hp2']
    tol = TOL if name != 'meyer' else 1e-3

    def ob(ok, what, text):
        rep.count('identities')
        rep.ob(ok, 'C11|%s|%s' % (what, name), where, what, '%s: %s' % (name, text))
    # low-pass gain sqrt(2), high-pass zero mean
    for t, x in (('decomposition', L1), ('reconstruction', L2)):
        ob(abs(sum(x) - math.sqrt(2)) < tol * 10, 'gain-' + t, '%s low-pass coefficients sum to %.12g, not sqrt(2)' % (t, sum(x)))
    for t, x in (('decomposition', H1), ('reconstruction', H2)):
        ob(abs(sum(x)) < tol * 10, 'zero-' + t, '%s high-pass coefficients sum to %.3g, not 0' % (t, sum(x)))
    # no distortion: L1*L2 + H1*H2 = 2 z^-(n-1) ; no aliasing: L1(-z)*L2 + H1(-z)*H2 = 0
    alt = lambda x: [c if k % 2 == 0 else -c for k, c in enumerate(x)]
    T = [a + b for a, b in zip(conv(L1, L2), conv(H1, H2))]
    d = max(range(len(T)), key=lambda k: abs(T[k]))
    worst = max([abs(T[k]) for k in range(len(T)) if k != d] or [0])
    ob(d == n - 1 and abs(T[d] - 2) < tol and worst < tol, 'reconstruction',
       'analysis and synthesis filters do not reconstruct: delay %d gain %.12g, largest distortion %.3g' % (d, T[d], worst))
    A = [a + b for a, b in zip(conv(alt(L1), L2), conv(alt(H1), H2))]
    ob(max(map(abs, A)) < tol, 'aliasing', 'largest alias term %.3g' % max(map(abs, A)))
    if not name.startswith(('bior', 'rbior')):
        w = 0.0
        for k in range(0, n, 2):
            w = max(w, abs(sum(L2[i] * L2[i + k] for i in range(n - k)) - (k == 0)))
        ob(w < tol, 'orthonormality', 'low-pass filter is not orthonormal to its even shifts (error %.3g)' % w)
    if not name.startswith(('bior', 'rbior')):
        ob(max(abs(a - b) for a, b in zip(L1, reversed(L2))) < tol, 'mirror-low', 'the decomposition low-pass filter is not the reversed reconstruction filter')
        ob(max(abs(a - b) for a, b in zip(H1, reversed(H2))) < tol, 'mirror-high', 'the decomposition high-pass filter is not the reversed reconstruction filter')
        ob(max(abs(H2[k] - (-1) ** k * L2[n - 1 - k]) for k in range(n)) < tol, 'quadrature', 'the high-pass filter is not the alternating flip of the low-pass filter')
    # vanishing moments: p for dbp and symp
    p = int(name[2:]) if name.startswith('db') else int(name[3:]) if name.startswith('sym') else \
        2 * int(name[4:]) if name.startswith('coif') else 0
    # the number of vanishing moments distinguishes the members of a family; low orders are enough and well conditioned
    for k in range(1, min(p, 4)):
        mom = sum(c * (i / n) ** k for i, c in enumerate(H2))
        ob(abs(mom) < 1e-7, 'moment-%d' % k, 'high-pass moment %d is %.3g, not 0' % (k, mom))


def centre(x):
    return sum(k * c * c for k, c in enumerate(x)) / sum(c * c for c in x)


def family(rep, m, fc, got):
    """what tells the families apart"""
    for name, v in sorted(got.items()):
        n = len(v['lp2'])
        if name.startswith('db') and n >= 4:
            rep.ob(centre(v['lp2']) < (n - 1) / 2.0, 'C11|orientation|' + name, m.loc(fc), 'orientation',
                   '%s: the reconstruction filter is not in its extremal-phase orientation' % name)
        if name.startswith('sym') and n >= 8 and 'db' + name[3:] in got:
            a = abs(centre(v['lp2']) - (n - 1) / 2.0)
            b = abs(centre(got['db' + name[3:]]['lp2']) - (n - 1) / 2.0)
            rep.ob(a < b, 'C11|symmetry|' + name, m.loc(fc), 'symmetry',
                   '%s is no more symmetric than db%s' % (name, name[3:]))
        if name.startswith('rbior') and name[1:] in got:
            w = got[name[1:]]
            for x, y in (('lp1', 'lp2'), ('lp2', 'lp1')):
                d = max(abs(a - b) for a, b in zip(v[x], reversed(w[y])))
                rep.ob(d < TOL, 'C11|dual|%s|%s' % (name, x), m.loc(fc), 'dual',
                       '%s: filter %s is not the reversed filter %s of %s (difference %.3g)' % (name, x, y, name[1:], d))
    if 'haar' in got and 'db1' in got:
        rep.ob(got['haar'] == got['db1'], 'C11|alias|haar', m.loc(fc), 'alias', 'haar and db1 differ')
