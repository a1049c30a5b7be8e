"""Provenance of values: which element of which field of the object a value is, as a polynomial in the object's integer fields
and the loop counters.  Built on a specialisation (sccp.Spec): merges keep only the edges the specialisation left.

Values: ('i', Poly)  ('q', base, Poly byte offset)  ('el', base, Poly, size)  ('fn', name, args)  ('op', op, args)  ('f', c)  None
Bases: ('O',) the object, ('F', off) what its pointer field at off points to, ('P', k) another pointer argument, ('G', name)."""
from cfg import Cfg
from poly import Poly, atom, ZERO
import sccp


class Frame:
    def __init__(self, P, fn, args, res, depth, fid):
        self.P, self.fn, self.args, self.res, self.depth, self.fid = P, fn, args, res, depth, fid
        self.cfg = P.cfg(fn)
        self.memo, self.busy = {}, set()
        self.edges = {(a.name, b.name) for a, b in res.edges} if res is not None and res.edges else None
        self.blocks = [b for b in fn.blocks if res is None or b.name in res.blocks]

    def loop(self, b):
        for l in self.cfg.loops:
            if l.header is b:
                return l
        return None

    def K(self, l):
        return atom('pk', (self.fid, l.header.name), 'i')

    def val(self, o):
        k = o[0]
        if k == 'c':
            return ('i', Poly.const(o[1]))
        if k == 'f':
            return ('f', o[1])
        if k == 'null':
            return ('q', ('null',), ZERO)
        if k == 'g':
            return ('q', ('G', o[1]), ZERO)
        if k == 'gep':
            return self.gep(self.val(o[2]), o[1], o[3])
        if k != 'v':
            return None
        n = o[1]
        if n in self.memo:
            return self.memo[n]
        if n in self.busy:
            return None
        if self.res is not None:
            c = self.res.env.get(n)
            if c and c[0] == 'k':
                return ('i', Poly.const(c[1]))
        for j, (_, pn) in enumerate(self.fn.params):
            if pn == n:
                return self.args[j] if j < len(self.args) else None
        i = self.fn.defs.get(n)
        if i is None:
            return None
        self.busy.add(n)
        r = self.ev(i)
        self.busy.discard(n)
        if not self.busy:
            self.memo[n] = r
        return r

    def gep(self, b, ty, idx):
        if b is None or b[0] != 'q':
            return None
        m, off, cur = self.P.m, ZERO, ty
        for n, ix in enumerate(idx):
            v = self.val(ix)
            if n == 0:
                if v is None or v[0] != 'i':
                    return None
                off = off + v[1] * m.size(cur)
                continue
            t = m.structs[cur] if isinstance(cur, str) and cur.startswith('%') else cur
            if t[0] == 'struct':
                fo, cur = m.field_off(cur, ix[1])
                off = off + Poly.const(fo)
            else:
                if v is None or v[0] != 'i':
                    return None
                cur = t[2]
                off = off + v[1] * m.size(cur)
        return ('q', b[1], b[2] + off)

    def ev(self, i):
        P = self.P
        if i.op in ('add', 'sub', 'mul'):
            a, b = self.val(i.ops[0]), self.val(i.ops[1])
            if a and b and a[0] == b[0] == 'i':
                return ('i', a[1] + b[1] if i.op == 'add' else a[1] - b[1] if i.op == 'sub' else a[1] * b[1])
            return None
        if i.op == 'shl' and i.ops[1][0] == 'c':
            a = self.val(i.ops[0])
            return ('i', a[1] * Poly.const(1 << i.ops[1][1])) if a and a[0] == 'i' else None
        if i.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            return self.val(i.ops[0])
        if i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'fpext', 'fptrunc'):
            a = tuple(self.val(o) for o in i.ops)
            return None if None in a else ('op', i.op, a)
        if i.op == 'gep':
            return self.gep(self.val(i.ops[0]), i.x, i.ops[1:])
        if i.op == 'load':
            p = self.val(i.ops[0])
            if p is None or p[0] != 'q':
                return None
            return P.load(p, i)
        if i.op == 'call' and i.x[0][0] == 'g':
            n = i.x[0][1].lstrip('@')
            if n.startswith('llvm.fabs'):
                n = 'fabs'
            if n.startswith('llvm.sqrt'):
                n = 'sqrt'
            if n in ('sqrt', 'fabs', 'log', 'exp'):
                a = self.val(i.ops[0])
                return None if a is None else ('fn', n, (a,))
            g = P.m.fns.get(n)
            if g is not None and g.blocks and g.ret != 'void':
                fr = P.frame(self, i, g)
                if fr is not None:
                    vs = [fr.val(b.term.ops[0]) for b in fr.blocks if b.term.op == 'ret' and b.term.ops]
                    if vs and all(v is not None and v == vs[0] for v in vs):
                        return vs[0]
            return None
        if i.op == 'select':
            c = self.res.env.get(i.ops[0][1]) if self.res is not None and i.ops[0][0] == 'v' else None
            if c and c[0] == 'k':
                return self.val(i.ops[1] if c[1] else i.ops[2])
            a, b = self.val(i.ops[1]), self.val(i.ops[2])
            return a if a == b else None
        if i.op == 'phi':
            return self.phi(i)
        return None

    def live(self, i):
        b = i.bb
        return [(o, nm) for o, nm in zip(i.ops, i.x) if self.edges is None or (self.fn.bmap[nm].name, b.name) in self.edges]

    def phi(self, i):
        l = self.loop(i.bb)
        ins = self.live(i)
        if l is None:
            vs = [self.val(o) for o, _ in ins if o[0] != 'undef']
            return vs[0] if vs and all(v is not None and v == vs[0] for v in vs) else None
        ent = [o for o, nm in ins if self.fn.bmap[nm] not in l.blocks]
        lat = [o for o, nm in ins if self.fn.bmap[nm] in l.blocks]
        vs = [self.val(o) for o in ent]
        if not vs or any(v is None or v != vs[0] for v in vs):
            return None
        s = vs[0]
        if not lat:
            return s
        ds = {self.delta(o, i.res, 0) for o in lat}
        if len(ds) != 1 or None in ds:
            return None
        d = next(iter(ds))
        k = Poly.of(self.K(l)) * d
        if s[0] == 'i':
            return ('i', s[1] + k)
        if s[0] == 'q':
            return ('q', s[1], s[2] + k)
        return None

    def delta(self, o, h, d):
        """constant o - h along the way round the loop"""
        if o[0] != 'v' or d > 12:
            return None
        if o[1] == h:
            return 0
        i = self.fn.defs.get(o[1])
        if i is None:
            return None
        if i.op in ('add', 'sub'):
            for a, b in ((0, 1), (1, 0)):
                c = self.val(i.ops[b]) if i.ops[b][0] in ('c', 'v') and i.ops[b] != ('v', h) else None
                if c and c[0] == 'i' and c[1].is_const() and not (i.op == 'sub' and a == 1):
                    r = self.delta(i.ops[a], h, d + 1)
                    if r is not None:
                        return r + c[1].c0() * (1 if i.op == 'add' else -1)
            return None
        if i.op == 'gep' and len(i.ops) == 2:
            r = self.delta(i.ops[0], h, d + 1)
            c = self.val(i.ops[1])
            if r is not None and c and c[0] == 'i' and c[1].is_const():
                return r + c[1].c0() * self.P.m.size(i.x)
            return None
        if i.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.delta(i.ops[0], h, d + 1)
        if i.op == 'phi':
            l2 = self.loop(i.bb)
            if l2 is not None:
                return None
            r = {self.delta(x, h, d + 1) for x, _ in self.live(i)}
            return next(iter(r)) if len(r) == 1 else None
        return None

    def trips(self, l):
        """number of iterations of a counting loop as a Poly, or None"""
        t = l.header.term
        ex = None
        for b in l.blocks:
            for s in b.succ:
                if s not in l.blocks and (self.edges is None or (b.name, s.name) in self.edges):
                    if ex is not None and ex is not b:
                        return None
                    ex = b
        if ex is None or ex.term.op != 'br' or not ex.term.ops or ex.term.ops[0][0] != 'v':
            return None
        c = self.fn.defs.get(ex.term.ops[0][1])
        if c is None or c.op != 'icmp':
            return None
        a, b = self.val(c.ops[0]), self.val(c.ops[1])
        if not a or not b or a[0] != 'i' or b[0] != 'i':
            return None
        op = c.x
        stay = self.fn.bmap[ex.term.x[0].lstrip('%')] if ex.term.x[0].lstrip('%') in self.fn.bmap else self.fn.bmap[ex.term.x[0]]
        if stay not in l.blocks:
            op = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}[op]
        k = self.K(l)
        if op in ('sgt', 'sge', 'ugt', 'uge'):
            a, b = b, a
            op = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[op]
        d = b[1] - a[1]          # stays while d > 0 (slt), d >= 0 (sle)
        co = d.coef(k.id)
        c1 = co[0] if co else None
        if op == 'ne' and c1 is not None and c1 == Poly.const(1):
            d = -d
            c1 = -c1
        if c1 is None or not (c1 == Poly.const(-1)):
            return None
        if ex is not l.header or len(l.blocks) == 1:
            return None
        n = d + Poly.of(k)
        if any(k.id in mm for mm in n.t):
            return None
        if op == 'sle':
            n = n + Poly.const(1)
        elif op not in ('slt', 'ult', 'ne'):
            return None
        return n


class Prov:
    def __init__(self, m, eff, spec):
        self.m, self.eff, self.spec = m, eff, spec
        self._cfg, self.nfr = {}, 0
        self.frames = {}

    def cfg(self, fn):
        c = self._cfg.get(fn.name)
        if c is None:
            c = self._cfg[fn.name] = Cfg(fn)
        return c

    def load(self, p, i):
        base, off = p[1], p[2]
        if base == ('O',) and off.is_const():
            o = off.c0()
            f = self.spec.fields.get(o)
            if i.ty == 'ptr':
                return ('q', ('F', o), ZERO)
            if i.ty in ('i32', 'i64'):
                return ('i', Poly.const(f[1])) if f and f[0] == 'k' else ('i', Poly.of(atom('pf', o, 'field+%d' % o)))
        if i.ty in ('double', 'float'):
            return ('el', base, off, self.m.size(i.ty))
        return None

    def frame(self, up, ins, g):
        if up.depth > 6:
            return None
        k = (up.fid, ins)
        if k in self.frames:
            return self.frames[k]
        s = self.spec
        cargs = []
        for j in range(len(g.params)):
            cargs.append((s.val(up.res.env, ins.ops[j]) or sccp.TOP) if j < len(ins.ops) and up.res is not None else sccp.TOP)
        res = s.res.get((g.name, tuple(cargs)))
        self.nfr += 1
        fr = Frame(self, g, [up.val(o) for o in ins.ops], res, up.depth + 1, self.nfr)
        self.frames[k] = fr
        return fr

    def sites(self, fr, names):
        """(frame, call) of every call to one of `names`, callees walked at their call sites"""
        for b in fr.blocks:
            for i in b.ins:
                if i.op == 'call' and i.x[0][0] == 'g':
                    n = i.x[0][1].lstrip('@')
                    if n in names:
                        yield fr, i
                    g = self.m.fns.get(n)
                    if g is not None and g.blocks and n not in names:
                        sub = self.frame(fr, i, g)
                        if sub is not None:
                            yield from self.sites(sub, names)

    def stores(self, fr):
        for b in fr.blocks:
            for i in b.ins:
                if i.op == 'store':
                    yield fr, i
                elif i.op == 'call' and i.x[0][0] == 'g':
                    g = self.m.fns.get(i.x[0][1].lstrip('@'))
                    if g is not None and g.blocks:
                        sub = self.frame(fr, i, g)
                        if sub is not None:
                            yield from self.stores(sub)


def root(m, eff, spec, fname, args):
    """specialise and return (Prov, top frame); args: {index: (sccp value, provenance value)}"""
    r = spec.run(fname, {k: v[0] for k, v in args.items() if v[0] is not None})
    P = Prov(m, eff, spec)
    f = m.fns[fname]
    P.nfr += 1
    return P, Frame(P, f, [args[k][1] if k in args else None for k in range(len(f.params))], r, 0, P.nfr)
