"""Caller's arrays are read-only and are not retained: mod/ref + escape analysis per API function."""
import contracts
import effects

LEVEL = 'proof'


def api(ctx, rep):
    n = 0
    for name, (kind, roles) in list(contracts.API.items()) + list(contracts.EXT.items()):
        f = ctx.fn(name)
        rep.need(len(f.params) == len(roles), '%s has %d parameters, contract has %d' % (name, len(f.params), len(roles)))
        n += 1
        yield name, kind, roles, f, ctx.eff.sum[name]
    rep.need(n >= 50, 'only %d API functions found' % n)


def reach(addr):
    """(root object, address at the outermost level) of an effect address"""
    obj, off = addr
    last = addr
    while obj[0] == 'D':
        last = obj[1]
        obj = obj[1][0]
    return obj, last


def run(ctx, rep):
    rep.rule('For every public function, the set of abstract locations it (or anything it calls, through function pointers '
             'included) may write must not be rooted in a parameter whose contract role is input data or string; and no '
             'address derived from such a parameter may be stored in memory that outlives the call or returned.')
    m, eff = ctx.m, ctx.eff
    pos = 0
    for name, kind, roles, f, S in api(ctx, rep):
        rep.count('api_functions')
        ins = [k for k, r in enumerate(roles) if r in 'it']
        for k in ins:
            rep.count('input_parameters')
            hit = [a for a in S.writes if reach(a)[0] == ('P', k)]
            for a in hit[:1]:
                pass
            pn = f.params[k][1].lstrip('%')
            rep.ob(not hit, 'C01|modified|%s|arg%d' % (name, k), m.loc(f), 'input-not-modified',
                   '%s may write through its input argument %r (argument %d)' % (name, pn, k + 1),
                   eff.witness(name, 'w', hit[0]) if hit else ())
            kept = [a for a, vs in S.contents.items()
                    for v in vs if reach(v)[0] == ('P', k) and v[0][0] == 'P' and effects.root(a[0])[0] in ('P', 'G')]
            rep.ob(not kept, 'C01|retained|%s|arg%d' % (name, k), m.loc(f), 'input-not-retained',
                   '%s stores the address of its input argument %r in memory that outlives the call: %s' % (
                       name, pn, [eff.show(f, a) for a in kept[:3]]))
            rep.ob(not any(v[0] == ('P', k) for v in S.ret), 'C01|returned|%s|arg%d' % (name, k), m.loc(f),
                   'input-not-returned', '%s returns its input argument %r' % (name, pn))
        # positive control: the same query does see the documented outputs
        outs = [k for k, r in enumerate(roles) if r in 'wx']
        for k in outs:
            pos += any(reach(a)[0] == ('P', k) for a in S.writes)
        unk = [a for a in S.writes if effects.root(a[0])[0] == 'U']
        rep.need(not unk, '%s writes through a pointer the analysis cannot resolve: %s' % (name, eff.witness(name, 'w', unk[0]) if unk else ''))
    rep.need(pos >= 20, 'positive control failed: only %d output parameters seen written' % pos)
    rep.count('output_parameters_seen_written', pos)
