"""Constructors and setters: exactly the documented values are accepted, recorded as given, everything else is refused
without touching the object."""
import contracts
import objects
import shaperun
import paths
from paths import LO, HI, iv_or, iv_not, iv_and

LEVEL = 'other'
PRINTS = ('@printf', '@puts', '@putchar', '@fprintf', '@fputs', '@perror', '@vprintf', '@fwrite')


class H(paths.Hooks):
    def __init__(self, m):
        self.m = m

    def inline(self, fn, depth):
        return depth < 4 and sum(len(b.ins) for b in fn.blocks) < 400

    def call(self, st, ins, name, args, fn):
        if name in PRINTS and 'print' not in st.ev:
            return 'print'
        return None

    def store(self, st, ins, ptr, val, fn):
        return None


def interp(ctx, m, fname):
    p = paths.Paths(m, ctx.eff, H(m))
    return p, p.analyse(fname)


def accepted(paths_, atom):
    out = ()
    for st in paths_:
        out = iv_or(out, st.rng.get(atom, paths.FULL))
    return out


def strsets(st, k):
    """-> (literals equal to string parameter k on this path, literals known different, resolved)"""
    eq, ne = set(), set()
    for a, r in st.rng.items():
        if a[0] == 'str' and a[1] in ('@strcmp',) and ('p', ('P', k), 0) in a[2]:
            o = [x for x in a[2] if isinstance(x, str)]
            if o:
                if r == ((0, 0),):
                    eq.add(o[0])
                elif iv_and(r, ((0, 0),)) == ():
                    ne.add(o[0])
    return eq, ne


def fmt(r):
    return ','.join('%s' % l if l == h else '%s..%s' % ('min' if l == LO else l, 'max' if h == HI else h) for l, h in r) or 'none'


def setter(ctx, rep, m, name, opts):
    f = ctx.fn(name)
    tag = contracts.obj_struct(name)
    where = m.loc(f)
    p, rets = interp(ctx, m, name)
    rep.count('setters')
    rep.count('paths', len(rets) + len(p.exits))
    if any(paths.unresolved(st) for st, _ in rets):
        rep.undecided.append('%s: a path depends on values the domain does not model' % name)
        return
    rep.need(rets, '%s never returns' % name)
    base = ('P', 0)
    cells = {k for st, _ in rets for k in st.mem if k[0] == base}

    def written(st):
        out = {}
        for (b, off), v in st.mem.items():
            if b == base and v != ('s', ('F', b, off), 0) and not (v[0] == 'u' and v[1] == ('F', b, off)) and \
                    not (v[0] == 'p' and v[1] == ('L', b, off)):
                out[off] = v
        return out
    fields = {}
    for k, fld, acc in opts:
        fo = contracts.field(m, tag, fld)
        rep.need(fo is not None, 'field %s of %s vanished' % (fld, tag))
        fields[fo[0]] = (k, fld, acc, fo[1])
    for st, _ in rets:
        w = written(st)
        took = [o for o in fields if o in w]
        # all options of one call together, or none
        if w and set(took) != set(fields):
            rep.ob(False, 'C09|partial|%s' % name, where, 'all-or-nothing',
                   '%s: a path that returns stores only %s' % (name, sorted(fields[o][1] for o in took)))
        else:
            rep.ob(True, 'C09|partial|%s' % name, where, 'all-or-nothing', '')
        if not w:
            rep.ob('print' in st.ev, 'C09|silent|%s' % name, where, 'refusal-is-reported',
                   '%s can ignore its argument without any message' % name)
        for off, v in w.items():
            if off not in fields:
                continue
            k, fld, acc, size = fields[off]
            if acc is None:
                rep.ob(v == ('u', ('P', k)) or v == ('s', ('P', k), 0), 'C09|value|%s|%s' % (name, fld), where, 'stores-the-argument',
                       '%s stores something other than its argument in %s' % (name, fld))
            elif acc[0] == 'int':
                r = st.rng.get(('P', k), paths.FULL)
                same = v == ('s', ('P', k), 0) or (v[0] == 'k' and r == ((v[1], v[1]),))
                rep.ob(same, 'C09|value|%s|%s' % (name, fld), where, 'stores-the-argument',
                       '%s stores %s in %s when its argument is %s' % (name, v[1] if v[0] == 'k' else 'a different value', fld, fmt(r)))
            else:
                eq, ne = strsets(st, k)
                src = v[1] if v[0] in ('str', 'strp') else None
                same = src == ('p', ('P', k), 0) or (v[0] == 'str' and v[1] in eq)
                if v[0] not in ('str', 'strp'):
                    rep.undecided.append('%s: how %s is filled' % (name, fld))
                else:
                    rep.ob(same, 'C09|value|%s|%s' % (name, fld), where, 'stores-the-argument',
                           '%s stores a different text in %s than the one it was given' % (name, fld))
                rep.ob(bool(eq) and all(x in acc[1] for x in eq), 'C09|accepts|%s|%s' % (name, fld), where, 'accepted-set',
                       '%s accepts %s for %s' % (name, sorted(eq) or 'any text not equal to %s' % sorted(ne), fld))
                rep.ob(not eq or max(len(x) for x in eq) < size, 'C09|fits|%s|%s' % (name, fld), where, 'text-fits',
                       '%s copies a text longer than the field %s' % (name, fld))
    for off, (k, fld, acc, size) in fields.items():
        acc_p = [st for st, _ in rets if off in written(st)]
        if acc is None:
            continue
        if acc[0] == 'int':
            got = accepted(acc_p, ('P', k))
            want = ()
            for x in acc[1]:
                want = iv_or(want, ((x, x),))
            rep.ob(got == want, 'C09|accepts|%s|%s' % (name, fld), where, 'accepted-set',
                   '%s accepts %s for %s, documented %s' % (name, fmt(got), fld, fmt(want)))
            # the documented values must be accepted on every path
            for st, _ in rets:
                if off not in written(st):
                    i = iv_and(st.rng.get(('P', k), paths.FULL), want)
                    rep.ob(not i, 'C09|refuses|%s|%s' % (name, fld), where, 'documented-values-accepted',
                           '%s can refuse the documented value %s' % (name, fmt(i)))
            for st, i in p.exits:
                x = iv_and(st.rng.get(('P', k), paths.FULL), want)
                rep.ob(not x, 'C09|refuses|%s|%s' % (name, fld), m.loc(i), 'documented-values-accepted',
                       '%s can end the program for the documented value %s' % (name, fmt(x)))
        else:
            got = set()
            for st in acc_p:
                got |= strsets(st, k)[0]
            rep.ob(got >= set(acc[1]), 'C09|refuses|%s|%s' % (name, fld), where, 'documented-values-accepted',
                   '%s refuses the documented %s' % (name, sorted(set(acc[1]) - got)))
            # wherever it gives up, some text argument is none of the documented ones
    texts = [(k, acc) for k, fld, acc in opts if acc and acc[0] == 'str']
    if texts:
        for st, i in p.exits:
            okk = any(set(acc[1]) <= strsets(st, k)[1] for k, acc in texts)
            rep.ob(okk, 'C09|refuses-pair|%s' % name, m.loc(i), 'documented-values-accepted',
                   '%s can end the program although every text argument is a documented one' % name)
            rep.ob('print' in st.ev, 'C09|silent|%s' % name, m.loc(i), 'refusal-is-reported', '%s can exit without any message' % name)


def init(ctx, rep, m, name, sp):
    f = ctx.fn(name)
    tag = contracts.obj_struct(name)
    where = m.loc(f)
    p, rets = interp(ctx, m, name)
    rep.count('constructors')
    rep.count('paths', len(rets) + len(p.exits))
    rep.need(rets, '%s never returns' % name)

    def atom(key):
        return ('P', key) if isinstance(key, int) else ('F', ('P', key[0]), key[1])

    def isnull(st, k):
        for c, t in st.tru.items():
            if c[0] == 'icmp' and c[1] in ('eq', 'ne') and ('null',) in c[2:] and ('p', ('P', k), 0) in c[2:]:
                return t == (c[1] == 'eq')
        return None

    for st, v in rets:
        if v[0] != 'p' or v[1][0] != 'M':
            rep.undecided.append('%s returns something other than a new block on some path' % name)
            continue
        obj = v[1]
        zero = (obj, 'zero') in st.mem
        nulls = {k: isnull(st, k) for k in sp.get('null', {})}

        def cell(fld):
            fo = contracts.field(m, tag, fld)
            rep.need(fo is not None, 'field %s of %s vanished' % (fld, tag))
            w = st.mem.get((obj, fo[0]))
            if w is None and zero and fo[0] < st.mem.get((obj, 'written'), ('k', HI))[1]:
                return ('k', 0), fo[1]
            return w, fo[1]
        for key, fld in sp['record'].items():
            zs = None
            if isinstance(fld, tuple):
                fld, zs = fld
            w, _ = cell(fld)
            if not isinstance(key, int) and nulls.get(key[0]):
                want = sp['null'][key[0]][fld]
                ok = w == ('k', want) or w == ('kf', float(want))
                rep.ob(ok, 'C09|default|%s|%s' % (name, fld), where, 'documented-default',
                       '%s sets %s to %s by default, documented %s' % (name, fld, w, want))
                continue
            a = atom(key)
            ok = w == ('s', a, 0) or w is not None and w[0] == 'k' and st.rng.get(a) == ((w[1], w[1]),)
            if not ok and zs:       # a period of a model without seasonal part is recorded as 0
                tot = {(('P', x),): 1 for x in zs}
                for b, r in st.rng.items():
                    if r == ((0, 0),) and paths.poly(('s', b, 0)) == tot:
                        ok = w == ('k', 0)
                if all(st.rng.get(('P', x)) == ((0, 0),) for x in zs):
                    ok = w == ('k', 0)
            rep.ob(ok, 'C09|record|%s|%s' % (name, fld), where, 'records-arguments',
                   '%s records %s in %s instead of the argument' % (name, show(w), fld))
        for key, lo in sp['low'].items():
            if not isinstance(key, int) and nulls.get(key[0]):
                continue
            fld = sp['record'].get(key)
            w = cell(fld[0] if isinstance(fld, tuple) else fld)[0]
            r = st.range(w) if w else paths.FULL
            rep.ob(bool(r) and r[0][0] >= lo, 'C09|low|%s|%s' % (name, key), where, 'refuses-invalid',
                   '%s builds a model although %s may be %s' % (name, pname(f, key, sp), fmt(r)))
        for key, want in sp.get('only', {}).items():
            r = st.rng.get(atom(key), paths.FULL)
            rep.ob(iv_and(r, want) == r, 'C09|only|%s|%s' % (name, key), where, 'refuses-invalid',
                   '%s builds a model although %s may be %s' % (name, pname(f, key, sp), fmt(r)))
        for fld, want in sp['default'].items():
            w, size = cell(fld)
            if isinstance(want, str):
                ok = w == ('str', want)
                if w is None or w[0] not in ('str', 'k'):
                    rep.undecided.append('%s: how %s is filled' % (name, fld))
                    continue
            elif w is not None and w[0] in ('k', 'kf'):
                ok = float(w[1]) == float(want)
            else:
                ok = False
            rep.ob(ok, 'C09|default|%s|%s' % (name, fld), where, 'documented-default',
                   '%s sets %s to %s by default, documented %s' % (name, fld, show(w), want))
    # refusals only for a reason: some argument is outside its range on every path that gives up
    for st, i in p.exits:
        if paths.unresolved(st):
            rep.undecided.append('%s: exit depends on values the domain does not model' % name)
            continue
        reason = False
        for key, lo in sp['low'].items():
            r = st.rng.get(atom(key), paths.FULL)
            if r and r[-1][1] < lo:
                reason = True
        for key, want in sp.get('only', {}).items():
            if not iv_and(st.rng.get(atom(key), paths.FULL), want):
                reason = True
        rep.ob(reason, 'C09|refuses|%s' % name, m.loc(i), 'valid-arguments-accepted',
               '%s can give up although every argument is valid' % name)
        rep.ob('print' in st.ev, 'C09|silent|%s' % name, m.loc(i), 'refusal-is-reported', '%s can exit without any message' % name)


def pname(f, key, sp):
    if isinstance(key, int):
        return f.params[key][1].lstrip('%')
    x = sp['record'].get(key)
    return x if isinstance(x, str) else str(key)


def show(w):
    if w is None:
        return 'nothing'
    return str(w[1]) if w[0] in ('k', 'kf', 'str') else 'another value'


def run(ctx, rep):
    rep.rule('Path-sensitive interval analysis of every setter and constructor (helpers inlined): the union of argument values on the '
             'paths that store equals the documented set, the stored value equals the argument, paths that do not store print a '
             'message and store nothing, texts fit their field; constructors record their arguments, refuse negative orders and '
             'lengths below 1, accept everything else and set the documented defaults.')
    m = ctx.m
    for name, opts in contracts.OPTIONS.items():
        setter(ctx, rep, m, name, opts)
    for name, sp in contracts.INITS.items():
        init(ctx, rep, m, name, sp)
    rep.rule('At enumerated orders, by abstract interpretation with named contents: every count and default of a new object, the room, the '
             'separation and the zero start of its arrays; setParams copies each array to its own place or clears it, touching nothing else; '
             'vcov returns the whole matrix as it is.')
    deep = rep.tier == 'thorough'
    res, rest = shaperun.facts(ctx, objects.programs(deep), objects.Objects, 8000000 if deep else 4000000, 600)

    def anchor(what):
        fn = m.fns.get(what.split(':')[0].split(' ')[0])
        return m.loc(fn) if fn is not None else what.split(':')[0]
    shaperun.report(rep, 'C09', res, rest, anchor)
    rep.need(rep.counts.get('setters') == len(contracts.OPTIONS) and rep.counts.get('constructors') == 5, 'instances missing')
