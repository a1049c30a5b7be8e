"""Summaries, covariance queries: what is printed or copied under a name is the object's own value of that name.

For every summary function and every combination of options the function is specialised (conditional constant propagation); the
provenance of each printed number is derived as an element of an object field, indexed by a polynomial in the orders and the loop
counter, and compared with what the label printed next to it stands for."""
import re

import contracts
import prov
import sccp
from poly import Poly, ZERO, atom

LEVEL = 'proof'
TERMS = {'AR': 'phi', 'MA': 'theta', 'SAR': 'PHI', 'SMA': 'THETA'}
SCALAR = {'AIC criterion': 'aic', 'BIC criterion': 'bic', 'AICC criterion': 'aicc', 'Log Likelihood': 'loglik', 'Return Code': 'retval'}
METHOD = {'arima': {0: 'MLE', 1: 'CSS', 2: 'BOX-JENKINS'}, 'sarimax': {0: 'CSS-MLE', 1: 'MLE', 2: 'CSS'},
          'ar': {0: 'Yule Walker', 1: 'Burg', 2: 'MLE'}}
METHOD['sarima'], METHOD['auto_arima'] = METHOD['arima'], METHOD['sarimax']
OPTNAME = {0: 'Nelder-Mead', 1: 'Newton Line Search', 2: 'Newton Trust Region - Hook Step', 3: 'Newton Trust Region - Double Dog-Leg',
           4: 'Conjugate Gradient', 5: 'BFGS', 6: 'L-BFGS', 7: 'BFGS More-Thuente Line Search'}
SUMS = ['arima_summary', 'sarima_summary', 'sarimax_summary', 'auto_arima_summary', 'ar_summary']


ORDERS = [(2, 1, 1, 3), (1, 3, 2, 1), (0, 2, 2, 1), (3, 0, 1, 2), (0, 0, 1, 2), (1, 2, 0, 0), (3, 2, 3, 2)]


def cases(api):
    kind = api.replace('_summary', '')
    out = []
    for me in METHOD[kind]:
        base = {'method': me}
        if kind == 'ar':
            out.append(base)
        elif kind in ('arima', 'sarima'):
            out += [dict(base, M=M, retval=1) for M in (0, 1)]
        elif kind == 'sarimax':
            out += [dict(base, M=r + mn, r=r, retval=1) for r in (0, 1, 3) for mn in (0, 1)]
        else:
            out += [dict(base, M=r + mn + dr, r=r, idrift=dr, retval=1) for r in (0, 1, 3) for mn in (0, 1) for dr in (0, 1) if not (mn and dr)]
    if kind != 'ar':
        out += [dict(out[0], optmethod=k) for k in OPTNAME]
    # some concrete orders, which also decides code that chooses by the orders
    last = [c for c in out if 'optmethod' not in c][-1]
    for n in ORDERS:
        o = dict(zip(('p',) if kind == 'ar' else ('p', 'q') if kind == 'arima' else ('p', 'q', 'P', 'Q'), n))
        out += [dict(out[0], **o), dict(last, **o)]
    return out


class Obj:
    def __init__(self, m, tag, F):
        self.m, self.tag, self.F = m, tag, F

    def off(self, nm):
        x = contracts.field(self.m, self.tag, nm)
        return x[0] if x else None

    def int(self, nm):
        if self.off(nm) is None:
            return Poly.const(0)
        v = self.F.get(nm)
        return Poly.const(v) if v is not None else Poly.of(atom('pf', self.off(nm), 'field+%d' % self.off(nm)))

    def name(self, o):
        return contracts.field_at(self.m, self.tag, o) or '?'


def describe(ob, v):
    if v is None:
        return 'an unknown value'
    if v[0] == 'i':
        s = repr(v[1])
        return re.sub(r'field\+(\d+)', lambda k: ob.name(int(k.group(1))), s)
    if v[0] == 'el':
        if v[1] == ('O',):
            return ob.name(v[2].c0()) if v[2].is_const() else 'object memory'
        if v[1][0] == 'F':
            return '%s at byte %s' % (ob.name(v[1][1]), re.sub(r'field\+(\d+)', lambda k: ob.name(int(k.group(1))), repr(v[2])))
        return str(v[1])
    if v[0] in ('fn', 'op'):
        return '%s(%s)' % (v[1], ', '.join(describe(ob, x) for x in v[2]))
    return str(v)


def run(ctx, rep):
    m = ctx.m
    rep.rule('Every number a summary prints is traced to the element of the object it is loaded from; the label printed with it names the '
             'field, loop counters and orders give the index; standard errors must be the square root of the diagonal entry of the '
             'covariance at the position of that coefficient; each coefficient group is printed completely; covariance queries copy '
             'element i of vcov to element i of the caller for all lvcov elements.')
    for api in SUMS:
        if api not in m.fns:
            rep.undecided.append(api + ' is not defined')
            continue
        for F in cases(api):
            one(ctx, rep, api, F)
    for api in ('arima_vcov', 'sarima_vcov', 'sarimax_vcov'):
        vcov(ctx, rep, api)
    rep.need(rep.counts.get('printed_values', 0) > 500 or rep.findings or rep.undecided, 'no printed values seen')


def one(ctx, rep, api, F):
    m = ctx.m
    kind = api.replace('_summary', '')
    tag = contracts.obj_struct(api)
    ob = Obj(m, tag, F)
    lab = ','.join('%s=%s' % x for x in sorted(F.items()))
    fields = {ob.off(k): ('k', v) for k, v in F.items() if ob.off(k) is not None}
    s = sccp.Spec(m, ctx.eff, fields, {})
    P, top = prov.root(m, ctx.eff, s, api, {0: (('p', 'O', 0), ('q', ('O',), ZERO))})
    rep.count('specialisations')
    npar = ob.int('p') + ob.int('q') + ob.int('P') + ob.int('Q')
    pq = npar + ob.int('M')
    before = {'AR': ZERO, 'MA': ob.int('p'), 'SAR': ob.int('p') + ob.int('q'), 'SMA': ob.int('p') + ob.int('q') + ob.int('P')}
    drift = F.get('idrift', 0) if kind == 'auto_arima' else 0
    mean = F.get('M', 0) - F.get('r', 0) - drift
    if kind in ('arima', 'sarima'):
        mean = F.get('M', 0)
    texts, complete, seen, open_ = [], {}, set(), False

    def se(v, pos):
        return v == ('fn', 'sqrt', (('el', ('F', ob.off('vcov')), (pos * pq + pos) * Poly.const(8), 8),))

    def ob_(ok, v, what, ins, text):
        rep.count('printed_values')
        if v is None:
            rep.undecided.append('%s: %s is not traced' % (api, what))
            return
        rep.ob(ok, 'C18|printed|%s|%s' % (api, what), m.loc(ins), 'printed-value', '%s (%s): %s' % (api, lab, text))
    for fr, i in P.sites(top, {'printf', 'puts', 'fputs'}):
        args = []
        for o in i.ops:
            c = s.val(fr.res.env, o) if fr.res is not None else None
            t = s.text(c) if c and c[0] == 'p' else None
            args.append(('t', t) if t is not None else fr.val(o))
        if not args or args[0] is None or args[0][0] != 't':
            open_ = True
            continue
        fmt, rest = args[0][1], args[1:]
        texts.append(fmt)
        texts += [a[1] for a in rest if a and a[0] == 't']
        if any(a is None for a in rest) and '%s' in fmt:
            open_ = True
        w = re.match(r'(AR|MA|SAR|SMA)%', fmt)
        if w and len(rest) >= 2 and 'd' in fmt:
            g = w.group(1)
            k, val = rest[0], rest[1]
            idx = k[1] - Poly.const(1) if k and k[0] == 'i' else None
            ob_(idx is not None and val == ('el', ('F', ob.off(TERMS[g])), idx * Poly.const(8), 8), None if k is None else val, g + ' coefficient', i,
                'the value printed as %s coefficient number %s is %s' % (g, describe(ob, k), describe(ob, val)))
            if len(rest) > 2 and idx is not None:
                ob_(se(rest[2], before[g] + idx), rest[2], g + ' standard error', i,
                    'the standard error printed for %s coefficient %s is %s' % (g, describe(ob, k), describe(ob, rest[2])))
            # all of them: a counting loop of `order` iterations whose counter starts at 0
            l = fr.cfg.loop_of(i.bb) if hasattr(fr.cfg, 'loop_of') else None
            if idx is not None and l is not None:
                n = every(fr, l, i)
                c = Poly.of(fr.K(l))
                order = ob.int({'AR': 'p', 'MA': 'q', 'SAR': 'P', 'SMA': 'Q'}[g])
                if n is None or idx != c:
                    rep.undecided.append('%s: number of %s coefficients printed' % (api, g))
                else:
                    ob_(n == order, ('i', n), g + ' count', i, '%s coefficients 1 to %s are printed, the model has %s' % (
                        g, describe(ob, ('i', n)), describe(ob, ('i', order))))
            seen.add(g)
            continue
        t = rest[0][1] if rest and rest[0] and rest[0][0] == 't' else None
        if t in ('MEAN', 'SIGMA^2', 'TREND', 'EXOG') and len(rest) >= 2:
            v = rest[1]
            seen.add(t)
            if t == 'MEAN':
                ob_(v == ('el', ('O',), Poly.const(ob.off('mean')), 8), v, t, i, 'the value printed as mean is %s' % describe(ob, v))
                if len(rest) > 2:
                    ob_(se(rest[2], npar), rest[2], t + ' standard error', i, 'the standard error printed for the mean is %s' % describe(ob, rest[2]))
                if mean in (0, 1):
                    ob_((len(rest) > 2) == bool(mean), rest[-1], t + ' presence', i,
                        'the mean is printed %s a standard error although it was %sestimated' % ('with' if len(rest) > 2 else 'without', '' if mean else 'not '))
            elif t == 'SIGMA^2':
                fs = [ob.off(x) for x in (('sigma2',) if kind == 'auto_arima' else ('var',))]
                ob_(v in [('el', ('O',), Poly.const(x), 8) for x in fs if x is not None], v, t, i, 'the value printed as sigma^2 is %s' % describe(ob, v))
            elif t == 'TREND':
                if drift:
                    ob_(v == ('el', ('F', ob.off('exog')), ZERO, 8), v, t, i, 'the value printed as drift is %s' % describe(ob, v))
                    if len(rest) > 2:
                        ob_(se(rest[2], npar + Poly.const(mean)), rest[2], t + ' standard error', i,
                            'the standard error printed for the drift is %s' % describe(ob, rest[2]))
                else:
                    ob_(v == ('f', 0.0), v, t, i, 'the model has no drift, the value printed is %s' % describe(ob, v))
            elif t == 'EXOG':
                if v is None or v[0] != 'el':
                    ob_(False, v, t, i, 'the value printed as regressor coefficient is %s' % describe(ob, v))
                    continue
                idx = None
                if v[1] == ('F', ob.off('exog')):
                    idx = divide(v[2], 8)
                ob_(idx is not None, v, t, i, 'the value printed as regressor coefficient is %s' % describe(ob, v))
                if idx is None:
                    continue
                if len(rest) > 2:
                    ob_(se(rest[2], npar + Poly.const(mean) + idx), rest[2], t + ' standard error', i,
                        'the standard error printed for regressor coefficient %s is %s' % (describe(ob, ('i', idx)), describe(ob, rest[2])))
                l = fr.cfg.loop_of(i.bb)
                n = every(fr, l, i) if l is not None else None
                if n is not None:
                    ob_(n == Poly.const(F['r']) and idx == Poly.of(fr.K(l)) + Poly.const(drift), ('i', n), 'EXOG count', i,
                        '%s regressor coefficients from position %s are printed, the model has %d after %d drift column(s)' % (
                            describe(ob, ('i', n)), describe(ob, ('i', idx)), F['r'], drift))
            continue
        if 'Order' in fmt and fmt.count('%d') in (1, 3, 6):
            want = {1: ['p'], 3: ['p', 'd', 'q'], 6: ['p', 'd', 'q', 'P', 'D', 'Q']}[fmt.count('%d')]
            for nm, v in zip(want, rest):
                ob_(v == ('i', ob.int(nm)), v, 'order ' + nm, i, 'the value printed as order %s is %s' % (nm, describe(ob, v)))
            seen.add('order')
            continue
        for L, nm in SCALAR.items():
            if fmt.strip().startswith(L) and '%' in fmt and rest:
                want = ('i', ob.int(nm)) if nm == 'retval' else ('el', ('O',), Poly.const(ob.off(nm)), 8)
                ob_(rest[0] == want, rest[0], nm, i, 'the value printed as %s is %s' % (L, describe(ob, rest[0])))
                seen.add(nm)
        w = re.match(r'\s*([-+]) %g\*([xa])\[t - %d', fmt)
        if w and len(rest) >= 2:
            nm = 'phi' if w.group(2) == 'x' else 'theta'
            v, k = rest[0], rest[1]
            idx = k[1] - Poly.const(1) if k and k[0] == 'i' else None
            el = ('el', ('F', ob.off(nm)), idx * Poly.const(8), 8) if idx is not None else None
            ob_(v in (el, ('fn', 'fabs', (el,))), v if el else None, 'equation term ' + nm, i,
                'the equation prints %s as coefficient of %s[t - %s]' % (describe(ob, v), w.group(2), describe(ob, k)))
            gd = guard(fr, i.bb)
            if gd is None:
                rep.undecided.append('%s: sign of the equation term' % api)
            else:
                ob_(gd[0] == el and gd[1] == {'-': 1, '+': -1}[w.group(1)], gd[0], 'equation sign ' + nm, i,
                    'the sign printed for the %s term %s depends on %s' % (nm, describe(ob, k), describe(ob, gd[0])))
    # presence
    need = ['AR', 'SIGMA^2', 'MEAN', 'order']
    empty = {g for g, o in (('AR', 'p'), ('MA', 'q'), ('SAR', 'P'), ('SMA', 'Q')) if F.get(o) == 0}
    if kind != 'ar':
        need.append('MA')
    if kind in ('sarima', 'sarimax', 'auto_arima'):
        need += ['SAR', 'SMA']
    if F.get('r', 0) > 0:
        need.append('EXOG')
    if drift:
        need.append('TREND')
    if kind != 'ar' and (kind in ('sarimax', 'auto_arima') or F['method'] < 2):
        need += ['loglik']
    if kind == 'auto_arima':
        need += ['aic', 'bic', 'aicc']
    for x in need:
        if x in empty:
            continue
        if x in seen:
            rep.ob(True, 'C18|missing|%s|%s' % (api, x), m.loc(m.fns[api]), 'printed-value', '')
        elif open_:
            rep.undecided.append('%s: some texts are not constant, %s not found' % (api, x))
        else:
            rep.ob(False, 'C18|missing|%s|%s' % (api, x), m.loc(m.fns[api]), 'printed-value', '%s (%s) does not print %s' % (api, lab, x))
    want = [('method', METHOD[kind][F['method']], METHOD[kind])]
    if 'optmethod' in F and (F['method'] < 2 or kind in ('sarimax', 'auto_arima')):
        want.append(('optimiser', OPTNAME[F['optmethod']], OPTNAME))
    norm = [re.sub(r'\s*-\s*', '-', t.strip()) for t in texts]
    for what, w, table in want:
        w2 = re.sub(r'\s*-\s*', '-', w)
        if not any(t == re.sub(r'\s*-\s*', '-', x) for t in norm for x in table.values()) and w2 not in norm:
            # worded differently, nothing to compare
            rep.undecided.append('%s: name of the %s not found' % (api, what))
            continue
        rep.ob(w2 in norm, 'C18|%s-name|%s|%s' % (what, api, lab), m.loc(m.fns[api]), 'printed-name',
               '%s (%s) names the %s %s, not %s' % (api, lab, what, [t for t in texts if re.sub(r'\s*-\s*', '-', t.strip()) in [re.sub(r'\s*-\s*', '-', x) for x in table.values()]], w))


def every(fr, l, i):
    """iterations of the loop, when the statement runs in each of them"""
    if i.bb is l.header or not all(fr.cfg.dom(i.bb, x) for x in l.latches):
        return None
    return fr.trips(l)


def divide(p, n):
    if any(c % n for c in p.t.values()):
        return None
    return Poly({k: c // n for k, c in p.t.items()})


def guard(fr, b):
    """(element, sign) of the comparison with zero that decides whether block b runs"""
    for _ in range(4):
        ps = [p for p in b.pred if fr.edges is None or (p.name, b.name) in fr.edges]
        if len(ps) != 1:
            return None
        p = ps[0]
        t = p.term
        if t.op == 'br' and t.ops and t.ops[0][0] == 'v':
            c = fr.fn.defs.get(t.ops[0][1])
            if c is not None and c.op == 'fcmp':
                a, z = fr.val(c.ops[0]), fr.val(c.ops[1])
                pos = fr.fn.bmap[t.x[0].lstrip('%')] is b if t.x[0].lstrip('%') in fr.fn.bmap else fr.fn.bmap[t.x[0]] is b
                if z == ('f', 0.0) and pos:
                    return (a, 1) if c.x in ('ogt', 'oge', 'ugt') else (a, -1) if c.x in ('olt', 'ole', 'ult') else None
                if a == ('f', 0.0) and pos:
                    return (z, -1) if c.x in ('ogt', 'oge') else (z, 1) if c.x in ('olt', 'ole') else None
                return None
            return None
        b = p
    return None


def vcov(ctx, rep, api):
    m = ctx.m
    if api not in m.fns:
        rep.undecided.append(api + ' is not defined')
        return
    tag = contracts.obj_struct(api)
    ob = Obj(m, tag, {})
    s = sccp.Spec(m, ctx.eff, {}, {})
    P, top = prov.root(m, ctx.eff, s, api, {0: (('p', 'O', 0), ('q', ('O',), ZERO)), 1: (None, ('q', ('P', 1), ZERO))})
    want = ob.int('lvcov')
    n = 0
    for fr, i in list(P.stores(top)) + list(P.sites(top, {'memcpy', 'llvm.memcpy.p0.p0.i64'})):
        if i.op == 'call':
            d, sr, ln = fr.val(i.ops[0]), fr.val(i.ops[1]), fr.val(i.ops[2])
            if not d or d[0] != 'q' or d[1] != ('P', 1):
                continue
            n += 1
            if sr is None or ln is None:
                rep.undecided.append(api + ': copy not traced')
                continue
            rep.ob(sr == ('q', ('F', ob.off('vcov')), d[2]) and ln == ('i', want * Poly.const(8)), 'C18|vcov|' + api, m.loc(i), 'copied-value',
                   '%s copies %s bytes of %s' % (api, describe(ob, ln), sr))
            continue
        d = fr.val(i.ops[1])
        if not d or d[0] != 'q' or d[1] != ('P', 1):
            continue
        n += 1
        v = fr.val(i.ops[0])
        l = fr.cfg.loop_of(i.bb)
        t = every(fr, l, i) if l is not None else None
        if v is None or t is None:
            rep.undecided.append(api + ': copy not traced')
            continue
        rep.ob(v == ('el', ('F', ob.off('vcov')), d[2], 8), 'C18|vcov|' + api, m.loc(i), 'copied-value',
               '%s stores %s into element at byte %s of the caller' % (api, describe(ob, v), d[2]))
        rep.ob(t == want and d[2] == Poly.of(fr.K(l)) * Poly.const(8), 'C18|vcov-count|' + api, m.loc(i), 'copied-value',
               '%s copies %s elements; the covariance has lvcov' % (api, describe(ob, ('i', t))))
    if not n:
        rep.undecided.append(api + ': no copy to the caller found')
