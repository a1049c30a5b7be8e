"""Fitted models are immutable under prediction/query/summary; estimation never alters configuration;
each setter writes exactly its own option."""
import contracts
import effects
from checks.c01 import api, reach

LEVEL = 'proof'


def run(ctx, rep):
    rep.rule('Field-sensitive mod/ref per public function: predict/vcov/summary write nothing reachable from the handle; exec '
             'writes no configuration field (and no field of it through embedded pointers); a setter writes only the field(s) '
             'of its own option, and for a valid value does write them.')
    m, eff = ctx.m, ctx.eff
    for name, kind, roles, f, S in api(ctx, rep):
        if roles[0] != 'o':
            continue
        tag = contracts.obj_struct(name)
        rep.need(tag in m.difields, 'no layout for struct ' + str(tag))
        own = [a for a in S.writes if reach(a)[0] == ('P', 0)]
        unk = [a for a in S.writes if effects.root(a[0])[0] == 'U']
        rep.need(not unk, '%s writes through an unresolved pointer' % name)
        flds = {}
        for a in own:
            last = reach(a)[1]
            off = last[1]
            if off == 'free' or a[1] in ('freed', 'free'):
                fl = {'(freed)'} if a[0] == ('P', 0) else contracts.fields_from(m, tag, off if isinstance(off, int) else off[0])
                fl = {x + ' (freed)' if x != '(freed)' else x for x in fl}
            elif isinstance(off, int):
                fl = {contracts.field_at(m, tag, off)}
            else:
                fl = contracts.fields_from(m, tag, off[0])
            for x in fl:
                if a[0][0] == 'D':
                    x = '*' + x
                flds.setdefault(x, a)
        if kind in ('predict', 'query', 'summary'):
            rep.count('query_functions')
            rep.ob(not own, 'C02|query-writes|%s|%s' % (name, ','.join(sorted(flds))), m.loc(f), 'query-is-readonly',
                   '%s may modify the fitted object: %s' % (name, sorted(flds)),
                   eff.witness(name, 'w', own[0]) if own else ())
        elif kind == 'exec':
            rep.count('exec_functions')
            conf = contracts.CONFIG[tag]
            names = [x[0] for x in m.difields[tag]]
            for c in conf:
                rep.need(c in names, 'configuration field %s of %s vanished' % (c, tag))
                rep.ob(c not in flds, 'C02|exec-config|%s|%s' % (name, c), m.loc(f), 'exec-keeps-configuration',
                       '%s may overwrite the configuration field %s' % (name, c),
                       eff.witness(name, 'w', flds[c]) if c in flds else ())
            rep.need(len(flds) >= 5, '%s: no result field seen written' % name)
        elif kind == 'set':
            rep.count('setters')
            want = set(contracts.SETTER_FIELDS[name])
            extra = set(flds) - want
            rep.ob(not extra, 'C02|setter-extra|%s|%s' % (name, ','.join(sorted(extra))), m.loc(f), 'setter-writes-own-option',
                   '%s also writes %s' % (name, sorted(extra)),
                   eff.witness(name, 'w', flds[sorted(extra)[0]]) if extra else ())
            for w in sorted(want):
                rep.ob(w in flds, 'C02|setter-missing|%s|%s' % (name, w), m.loc(f), 'setter-writes-own-option',
                       '%s never writes its option %s' % (name, w))
    rep.need(rep.counts.get('query_functions', 0) >= 13 and rep.counts.get('exec_functions', 0) == 5 and
             rep.counts.get('setters', 0) >= 15, 'contract instances missing: %s' % rep.counts)
