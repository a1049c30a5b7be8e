"""Estimating again is estimating afresh: exec reads nothing that an earlier exec left in the object.

Flow-sensitive interprocedural analysis of each exec, specialised on its options: for every result field the reads that can
happen before this exec has assigned the field, and for every result array the reads that nothing in this exec precedes with a write."""
import contracts
import effects
import sccp

LEVEL = 'other'
EXECS = {'arima_exec': (0, 1, 2), 'sarima_exec': (0, 1, 2), 'sarimax_exec': (0, 1, 2), 'auto_arima_exec': (0, 1, 2), 'ar_exec': (0, 1, 2)}
WR = {'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0, None), 'llvm.memcpy.p0.p0.i64': (0, 1), 'llvm.memset.p0.i64': (0, None),
      'strcpy': (0, 1), 'strncpy': (0, 1)}


class Walk:
    """pointer values map to (cell, offset): cell 'O' is the object (offset: int, or None when unknown), cell ('R', key) an array"""

    def __init__(self, m, eff, spec, scalars, area):
        self.m, self.eff, self.spec = m, eff, spec
        self.scalars, self.area = scalars, area      # offsets of scalar result fields; first offset of the parameter area
        self.exposed = {}                            # (cell, kind) -> (instruction, chain)
        self.memo = {}
        self.uses = {}
        self.gave_up = set()
        self.depth = 0

    def fn(self, f, res, pm, st, chain, report=True):
        """pm: {parameter name: pointer}, st: (must-written scalars, may-written arrays) -> state at return, or None"""
        key = (f.name, id(res), tuple(sorted(pm.items(), key=str)), st, report)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = st
        if len(chain) > 25:
            self.gave_up.add(f.name)
            return st
        blocks = [b for b in f.blocks if res is None or not res.done or b.name in res.blocks]
        live = {b.name for b in blocks}
        edges = {(a.name, b.name) for a, b in res.edges} if res is not None and res.done else None
        ptr = dict(pm)
        ch = True
        while ch:
            ch = False
            for b in blocks:
                for i in b.ins:
                    if not i.res or i.res in ptr or i.ty != 'ptr' and i.op != 'gep':
                        continue
                    v = None
                    if i.op == 'gep':
                        q = self.p(ptr, i.ops[0])
                        if q:
                            o = self.eff._gep_off(i.x, i.ops[1:])
                            v = self.shift(q, o if isinstance(o, int) else None)
                    elif i.op in ('bitcast', 'freeze'):
                        v = self.p(ptr, i.ops[0])
                    elif i.op in ('phi', 'select'):
                        qs = [self.p(ptr, o) for o in (i.ops if i.op == 'phi' else i.ops[1:])]
                        qs = {q for q in qs if q}
                        if len(qs) == 1:
                            v = qs.pop()
                        elif qs:
                            cs = {q[0] for q in qs}
                            v = (cs.pop(), None) if len(cs) == 1 else None
                    elif i.op == 'load':
                        q = self.p(ptr, i.ops[0])
                        if q and q[0] == 'O' and isinstance(q[1], int) and q[1] not in self.scalars:
                            v = (('R', q[1]), None)
                    if v is not None:
                        ptr[i.res] = v
                        ch = True
        IN = {b.name: None for b in blocks}
        IN[f.blocks[0].name] = st
        ret = None
        for final in (False, True):
            work = [f.blocks[0]] if not final else [b for b in blocks if IN[b.name] is not None]
            while work:
                b = work.pop(0)
                s = self.block(f, res, b, IN[b.name], ptr, chain, final and report)
                if s is None:
                    continue
                if b.term.op == 'ret' and final:
                    ret = s if ret is None else (ret[0] & s[0], ret[1] | s[1])
                if final:
                    continue
                for x in b.succ:
                    if x.name not in live or (edges is not None and (b.name, x.name) not in edges):
                        continue
                    if failed(f, b, x):
                        continue
                    n = s if IN[x.name] is None else (IN[x.name][0] & s[0], IN[x.name][1] | s[1])
                    if n != IN[x.name]:
                        IN[x.name] = n
                        if x not in work:
                            work.append(x)
        self.memo[key] = ret
        return ret

    @staticmethod
    def shift(q, o):
        return (q[0], None if o is None or q[1] is None else q[1] + o)

    def p(self, ptr, o):
        if o[0] == 'v':
            return ptr.get(o[1])
        if o[0] == 'gep':
            q = self.p(ptr, o[2])
            if q:
                x = self.eff._gep_off(o[1], o[3])
                return self.shift(q, x if isinstance(x, int) else None)
        return None

    def arr(self, q):
        """array behind a pointer: an object pointer into the parameter area is that area"""
        if q[0] == 'O':
            return ('R', 'params') if q[1] is None or q[1] >= self.area else None
        return q[0]

    def note(self, cell, i, chain, final):
        if final:
            self.exposed.setdefault(cell, (i, chain))

    def read(self, q, i, st, chain, final, ty=None):
        if q[0] == 'O' and isinstance(q[1], int) and q[1] in self.scalars:
            if q[1] not in st[0]:
                self.note(q[1], i, chain, final)
            return
        a = self.arr(q)
        if a and a not in st[1] and a in self.results:
            self.note(a, i, chain, final)

    def unread_copy(self, i):
        """the value is not used, or only stored into a field of an internal record which nothing reads"""
        us = self.eff_uses(i)
        if any(u.op != 'store' or u.ops[0] != ('v', i.res) for u in us):
            return False
        for u in us:
            d = i.bb.fn.defs.get(u.ops[1][1]) if u.ops[1][0] == 'v' else None
            if d is None or d.op != 'gep' or not str(d.x).startswith('%struct.') or len(d.ops) != 3 or d.ops[2][0] != 'c':
                return False
            if (d.x, d.ops[2][1]) in self.read_fields() or (d.x, None) in self.read_fields():
                return False
        return True

    def eff_uses(self, i):
        f = i.bb.fn
        if f.name not in self.uses:
            d = self.uses[f.name] = {}
            for b in f.blocks:
                for j in b.ins:
                    for o in set(j.ops):
                        if o[0] == 'v':
                            d.setdefault(o[1], []).append(j)
        return self.uses[f.name].get(i.res, [])

    def read_fields(self):
        if not hasattr(self, 'rf'):
            rf = set()
            for f in self.m.fns.values():
                for b in f.blocks:
                    for i in b.ins:
                        if i.op != 'gep' or not str(i.x).startswith('%struct.'):
                            continue
                        if len(i.ops) != 3 or i.ops[2][0] != 'c':
                            rf.add((i.x, None))
                            continue
                        if any(not (u.op == 'store' and u.ops[1] == ('v', i.res) and u.ops[0] != ('v', i.res)) for u in self.eff_uses(i)):
                            rf.add((i.x, i.ops[2][1]))
            self.rf = rf
        return self.rf

    def write(self, q, st):
        if q[0] == 'O' and isinstance(q[1], int) and q[1] < self.area:
            return (st[0] | {q[1]}, st[1])
        a = self.arr(q)
        # the arrays of an object are parts of one area: a write to one may be a write to another only through the area itself
        return (st[0], st[1] | {a}) if a else st

    def block(self, f, res, b, st, ptr, chain, final):
        for i in b.ins:
            if i.op == 'load':
                q = self.p(ptr, i.ops[0])
                if q and not self.unread_copy(i):
                    self.read(q, i, st, chain, final)
            elif i.op == 'store':
                q = self.p(ptr, i.ops[1])
                if q:
                    st = self.write(q, st)
            elif i.op == 'call':
                qs = [self.p(ptr, o) for o in i.ops]
                if i.x[0][0] != 'g':
                    if any(qs):
                        self.gave_up.add(f.name)
                        for q in qs:
                            if q:
                                st = self.write(q, st)
                    continue
                n = i.x[0][1].lstrip('@')
                if n in ('exit', 'abort'):
                    return None
                if not any(qs):
                    g = self.m.fns.get(n)
                    continue
                if n in WR:
                    d, s = WR[n]
                    if s is not None and qs[s]:
                        self.read(qs[s], i, st, chain, final)
                    if qs[d]:
                        st = self.write(qs[d], st)
                    continue
                g = self.m.fns.get(n)
                if g is None or not g.blocks:
                    continue
                cargs = tuple((self.spec.val(res.env, i.ops[k]) or sccp.TOP) if res is not None and k < len(i.ops) else sccp.TOP
                              for k in range(len(g.params)))
                sub = self.spec.res.get((n, cargs))
                pm = {}
                parts = set()
                for k, (_, pn) in enumerate(g.params):
                    if k < len(qs) and qs[k]:
                        q = qs[k]
                        if q[0] == 'O' and (q[1] is None or q[1] >= self.area):
                            q = (('R', 'params', i.idx, f.name, k), 0)     # this argument's part of the parameter area
                            parts.add(q[0])
                        pm[pn] = q
                back = parts - st[1]
                if ('R', 'params') in st[1]:
                    s0 = (st[0], st[1] | parts)
                else:
                    s0 = st
                self.results |= parts
                r = self.fn(g, sub, pm, s0, chain + (i,), final)
                if r is None:
                    return None
                if any(x in r[1] for x in back):
                    r = (r[0], (r[1] - back) | {('R', 'params')})
                else:
                    r = (r[0], r[1] - back)
                st = r
        return st


def run(ctx, rep):
    m, eff = ctx.m, ctx.eff
    rep.rule('For each exec and method: forward dataflow over the specialised call graph of the result fields already assigned; a read of a '
             'result field that some path reaches before the field is assigned, or of a result array before anything in this exec has '
             'written to it, makes the result depend on an earlier estimation.')
    for api, methods in EXECS.items():
        if api not in m.fns:
            rep.undecided.append(api + ' is not defined')
            continue
        tag = contracts.obj_struct(api)
        fields = {nm: (o, sz) for nm, o, sz in m.difields.get(tag, ())}
        area = fields['params'][0] if 'params' in fields else max(o for o, _ in fields.values()) + 8
        pnt = pointers(m, tag)
        written = set()
        for a in eff.sum[api].writes:
            if effects.root(a[0]) == ('P', 0) and a[0] == ('P', 0) and isinstance(a[1], int):
                written.add(a[1])
        cfgf = {fields[n][0] for n in contracts.CONFIG[tag] if n in fields}
        scal = {o for nm, (o, sz) in fields.items() if o in written and o < area and nm not in pnt} - cfgf
        for me, cm in [(x, y) for x in methods for y in ((0, 1) if 'cssml' in fields else (None,))]:
            F = {fields['method'][0]: ('k', me)}
            if cm is not None:
                F[fields['cssml'][0]] = ('k', cm)
            if 'start' in fields:
                F[fields['start'][0]] = ('k', 0)
            s = sccp.Spec(m, eff, F, {})
            r = s.run(api, {0: ('p', 'O', 0)})
            f = m.fns[api]
            w = Walk(m, eff, s, scal | cfgf | {o for nm, (o, sz) in fields.items() if o < area and nm not in pnt}, area)
            w.targets = scal
            w.results = {('R', 'params')} | {('R', fields[n][0]) for n in pnt}
            w.fn(f, r, {f.params[0][1]: ('O', 0)}, (frozenset(), frozenset()), ())
            rep.count('specialisations')
            rep.count('contexts', len(w.memo))
            for g in sorted(w.gave_up):
                rep.undecided.append('%s method %d: %s' % (api, me, g))
            for o in sorted(scal):
                nm = contracts.field_at(m, tag, o)
                e = w.exposed.get(o)
                rep.ob(e is None, 'C14|%s|%s' % (api, nm), m.loc(e[0]) if e else m.loc(f), 'result-read-before-assigned',
                       '%s with method %d reads the result field %s left by an earlier estimation' % (api, me, nm),
                       [m.loc(x) for x in e[1]] if e else ())
            arrs = [c for c in w.exposed if isinstance(c, tuple)]
            rep.count('arrays_tracked', len(w.results))
            for c in w.results:
                e = w.exposed.get(c)
                rep.ob(e is None, 'C14|%s|array|%s' % (api, arrname(m, tag, c, m.fns)), m.loc(e[0]) if e else m.loc(f),
                       'result-read-before-assigned', '%s with method %d reads %s before this estimation has written to it' % (
                           api, me, arrname(m, tag, c, m.fns)), [m.loc(x) for x in e[1]] if e else ())


def failed(f, b, x):
    """the edge b -> x carries a status other than 1 (success) into the return of a function of the estimation"""
    if x.term.op != 'ret' or not x.term.ops:
        return False
    v = x.term.ops[0]
    if v[0] == 'v':
        for i in x.ins:
            if i.op == 'phi' and i.res == v[1]:
                for o, l in zip(i.ops, i.x):
                    if f.bmap[l] is b:
                        return notone(f, b, x, o, 0)
                return False
    return notone(f, b, x, v, 0)


def notone(f, b, x, v, depth):
    if v[0] == 'c':
        return isinstance(v[1], int) and v[1] > 1
    if v[0] != 'v' or depth > 6:
        return False
    t = b.term
    if t.op == 'switch' and t.ops and t.ops[0] == v:
        cs = [c for c, l in t.x[1] if f.bmap[l] is x]
        if f.bmap[t.x[0]] is x:
            return any(c == 1 and f.bmap[l] is not x for c, l in t.x[1])
        return bool(cs) and 1 not in cs
    if t.op == 'br' and t.ops and t.ops[0][0] == 'v':
        c = next((i for i in b.ins if i.res == t.ops[0][1]), None)
        if c is not None and c.op == 'icmp' and c.ops[0] == v and c.ops[1][0] == 'c':
            k = c.ops[1][1]
            h = {'eq': 1 == k, 'ne': 1 != k, 'sgt': 1 > k, 'sge': 1 >= k, 'slt': 1 < k, 'sle': 1 <= k}.get(c.x)
            if h is not None and t.x[0] != t.x[1] and (x is f.bmap[t.x[0]]) != h:
                return True
    return bool(b.pred) and all(notone(f, p, b, v, depth + 1) for p in b.pred)


def pointers(m, tag):
    out = set()
    t = m.structs.get('%struct.' + tag)
    for nm, o, sz in m.difields.get(tag, ()):
        if sz == 8 and ftype(m, tag, o) == 'ptr':
            out.add(nm)
    return out


def ftype(m, tag, off):
    t = m.structs.get('%struct.' + tag)
    if t is None:
        return None
    for k in range(len(t[1])):
        o, ty = m.field_off('%struct.' + tag, k)
        if o == off:
            return ty
    return None


def arrname(m, tag, c, fns):
    if len(c) > 2:
        return 'the coefficient array passed as argument %d in %s' % (c[4], c[3])
    return 'the coefficient area' if c[1] == 'params' else contracts.field_at(m, tag, c[1])
