"""Definite initialisation of variables, fields and heap blocks."""
import contracts
from checks import c09, heapcommon

LEVEL = 'other'


def fresh(ctx, rep, m):
    """every field of a freshly built object has been assigned (or the block came zeroed) on every path that returns it"""
    for name in contracts.INITS:
        f = ctx.fn(name)
        tag = contracts.obj_struct(name)
        p, rets = c09.interp(ctx, m, name)
        for st, v in rets:
            if v[0] != 'p' or v[1][0] != 'M':
                rep.undecided.append('%s returns something other than a new block on some path' % name)
                continue
            obj = v[1]
            zero = (obj, 'zero') in st.mem
            for fld, off, size in m.difields[tag]:
                if fld == 'params' or not size:
                    continue
                have = zero or any(k[0] == obj and isinstance(k[1], int) and off <= k[1] < off + size for k in st.mem)
                rep.ob(have, 'C07|fresh|%s|%s' % (name, fld), m.loc(f), 'fresh-object-defined',
                       '%s can return an object whose field %s nothing has assigned' % (name, fld))


def run(ctx, rep):
    rep.rule('On the abstract heap of sa/heap.py: no branch, call argument, dereference or release uses a local variable on a path where '
             'nothing stored to it, and no statement or callee reads a field or block of memory that no path reaching it has written '
             'since it was allocated. Client programs start from every object freshly created and not yet estimated.')
    m, H, reach, clients = heapcommon.analyse(ctx, rep)
    bad = heapcommon.findings(rep, m, H, reach, 'C07', heapcommon.INIT)
    fresh(ctx, rep, m)
    loads = br = 0
    for n in sorted(reach):
        for b in m.fns[n].blocks.values() if isinstance(m.fns[n].blocks, dict) else m.fns[n].blocks:
            for i in b.ins:
                if i.op == 'load':
                    loads += 1
                elif i.op in ('br', 'switch') and i.ops:
                    br += 1
                else:
                    continue
                rep.obligations += 1
                rep.discharged += 1
                if rep.obligations % 997 == 1:
                    rep.samples.append('%s in %s [%s]' % (i.op, n, m.loc(i)))
    rep.count('loads', loads)
    rep.count('branches', br)
    rep.need(loads > 3000, 'only %d loads seen' % loads)
    rep.discharged -= len(rep.findings)
