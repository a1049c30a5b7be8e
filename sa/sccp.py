"""Interprocedural sparse conditional constant propagation, specialised on assumed option values.

Given an entry function, constants for some of its arguments and for some fields of the object behind its first
argument, computes the blocks, functions and calls that remain reachable.  Values: unvisited / constant / varying, where
a constant is an integer, a float, null, or an address (object, byte offset).  Contexts are the constant arguments of a
call.  The assumed fields are configuration: nothing on the way writes them (that is property C02)."""
import heapq

from cfg import rpo
import effects
import paths

TOP = ('top',)


class Res:
    __slots__ = ('blocks', 'ret', 'calls', 'done', 'edges', 'env')

    def __init__(self):
        self.blocks, self.ret, self.calls, self.done = set(), None, [], False


class Spec:
    def __init__(self, mod, eff, fields=None, strings=None):
        """fields: {offset: value} of object ('O'); strings: {offset: text}"""
        self.m, self.eff = mod, eff
        self.fields, self.strings = fields or {}, strings or {}
        self.res = {}
        self.stack = []
        self.handed, self.fold, self.stub = set(), {}, {}
        self.out = {}             # (function, block, index of the call) -> (callee, literal texts, whether all of them are known)
        self.ostores = {}         # (function, block, index) -> (object offset, value)
        self._users, self._cells = {}, {}
        self.okey, self.refined = None, False
        self.stubcalls = {}
        self.reach = set()        # functions
        self.blocks = set()       # (function, block)
        self.calls = set()        # (caller, callee, const args)
        self.p = paths.Paths(mod, eff, paths.Hooks())
        self.sites = set()        # (caller, block, callee) including externals

    def run(self, fname, args=None):
        """args: {index: value}; parameter 0 is the object when it is a pointer to one"""
        f = self.m.fns[fname]
        vals = tuple((args or {}).get(k, TOP) for k in range(len(f.params)))
        return self.fn(f, vals)

    def fn(self, f, vals):
        key = (f.name, vals)
        r = self.res.get(key)
        if r is not None:
            if not r.done:
                return r
            return r
        if len(self.res) > 4000:
            vals = tuple(TOP for _ in vals)
            key = (f.name, vals)
            if key in self.res:
                return self.res[key]
        if f.name in self.stack and any(v != TOP for v in vals):
            return self.fn(f, tuple(TOP for _ in vals))
        r = self.res[key] = Res()
        self.stack.append(f.name)
        self.reach.add(f.name)
        env = {n: v for (_, n), v in zip(f.params, vals)}
        edges, seen = set(), set()
        r.edges, r.env = edges, env
        r.blocks.add(f.blocks[0].name)
        order = {b: i for i, b in enumerate(rpo(f.blocks[0]))}
        users = self.users(f)
        heap = [(0, f.blocks[0].name)]
        pend = {f.blocks[0].name}

        def push(b):
            if b.name not in pend:
                pend.add(b.name)
                heapq.heappush(heap, (order.get(b, 1 << 30), b.name))
        swept = 0
        while heap or (self.refined and swept != len(edges)):
            if not heap:                   # edges found since may let more members of a value set through
                swept = len(edges)
                for bn in sorted(r.blocks):
                    push(self.blk(f, bn))
            bn = heapq.heappop(heap)[1]
            pend.discard(bn)
            b = self.blk(f, bn)
            first = b.name not in seen
            seen.add(b.name)
            r.blocks.add(b.name)
            for i in b.ins:
                if i.op == 'phi':
                    v = None
                    for o, nm in zip(i.ops, i.x):
                        if (self.blk(f, nm), b) in edges:
                            v = self.meet(v, self.refine(f, r, env, o, self.blk(f, nm), b))
                    if v is None:
                        continue
                elif i.op == 'alloca' and i.res in self.cells(f):
                    c = None
                    for st, sb in self.cells(f)[i.res]:
                        if sb in r.blocks and st.ops[0][0] != 'undef':
                            c = self.meet(c, self.val(env, st.ops[0]))
                    v = c and ('p', ('C', c), 0)
                elif i.op == 'call':
                    v = self.call(f, b, i, env, r)
                elif i.op == 'ret':
                    r.ret = self.meet(r.ret, self.refine(f, r, env, i.ops[0], b) if i.ops else ('none',))
                    continue
                elif i.op == 'store':
                    if first and i.ops[1][0] == 'v' and i.ops[1][1] in self.cells(f):
                        push(f.blocks[0])
                    a = self.val(env, i.ops[1])
                    if a and a[0] == 'p' and a[1] == 'O':
                        v = self.val(env, i.ops[0])
                        if v is not None:
                            k = (f.name, b.name, i.idx)
                            self.ostores[k] = (a[2], self.meet(self.ostores[k][1], v) if k in self.ostores and key != self.okey else v)
                            self.okey = key
                    continue
                elif i.op in ('br', 'switch'):
                    for t in self.targets(f, i, env):
                        if (b, t) not in edges:
                            edges.add((b, t))
                            push(t)
                    continue
                elif i.res:
                    v = self.ev(env, i)
                else:
                    continue
                if i.res:
                    old = env.get(i.res)
                    if old != v and old != TOP:
                        v = self.meet(old, v)
                        if v == old:
                            continue
                        env[i.res] = v
                        for u in users.get(i.res, ()):
                            if u in r.blocks:
                                push(self.blk(f, u))
        # calls recorded with the final environment
        for b in f.blocks:
            if b.name in r.blocks:
                self.blocks.add((f.name, b.name))
        self.stack.pop()
        r.done = True
        return r

    def refine(self, f, r, env, o, b, to=None):
        """value of o at the end of block b (on its edge to `to`): the members of a value set with which b can be reached"""
        v = self.val(env, o)
        if not v or v[0] != 'set' or o[0] != 'v' or o[1] not in f.defs:
            return v
        self.refined = True
        src = f.defs[o[1]].bb
        keep = None
        for k in sorted(v[1], key=str):
            memo = {o[1]: k}

            def cond(x, d=0):
                if x[0] != 'v' or d > 6:
                    return self.val(env, x)
                if x[1] in memo:
                    return memo[x[1]]
                j = f.defs.get(x[1])
                if j is not None and j.op in ('icmp', 'and', 'or', 'xor', 'select', 'zext', 'sext', 'trunc', 'freeze'):
                    e2 = dict(env)
                    for y in j.ops:
                        if y[0] == 'v':
                            e2[y[1]] = cond(y, d + 1)
                    return self.ev(e2, j)
                return self.val(env, x)
            seen, work, ok = set(), [src], False
            while work and not ok:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                t = x.term
                if t.op == 'br' and t.ops and t.ops[0][0] == 'v':
                    e2 = dict(env)
                    e2[t.ops[0][1]] = cond(t.ops[0])
                    nx = self.targets(f, t, e2)
                elif t.op == 'switch' and t.ops[0] == o:
                    nx = self.targets(f, t, {**env, o[1]: k})
                else:
                    nx = [y for y in x.succ]
                nx = [y for y in nx if (x, y) in r.edges]
                if x is b and (to is None or to in nx):
                    ok = True
                    break
                work += [y for y in nx if y is not src]
            if ok:
                keep = self.meet(keep, k)
        return keep

    @staticmethod
    def blk(f, n):
        return f.bmap[n] if n in f.bmap else f.bmap[n.lstrip('%')]

    def users(self, f):
        u = self._users.get(f.name)
        if u is None:
            u = self._users[f.name] = {}

            def see(o, bn):
                if o[0] == 'v':
                    u.setdefault(o[1], set()).add(bn)
                elif o[0] == 'gep':
                    see(o[2], bn)
            for b in f.blocks:
                for i in b.ins:
                    for o in i.ops:
                        see(o, b.name)
            for a in self.cells(f):
                for st, _ in self.cells(f)[a]:
                    if st.ops[0][0] == 'v':
                        u.setdefault(st.ops[0][1], set()).add(f.blocks[0].name)
        return u

    def cells(self, f):
        """scalar stack slots whose address is only loaded from, stored to, merged and passed to functions that do not
        write through it -> {slot: its stores}"""
        c = self._cells.get(f.name)
        if c is not None:
            return c
        c = self._cells[f.name] = {}
        for b in f.blocks:
            for i in b.ins:
                if i.op != 'alloca':
                    continue
                der, stores, ok, work = {i.res}, [], True, [i.res]
                while work and ok:
                    x = work.pop()
                    for bb in f.blocks:
                        for j in bb.ins:
                            if not any(o == ('v', x) or (o[0] == 'gep' and o[2] == ('v', x)) for o in j.ops):
                                continue
                            if j.op in ('phi', 'select'):
                                if j.res not in der:
                                    der.add(j.res)
                                    work.append(j.res)
                            elif j.op == 'store':
                                if j.ops[0] == ('v', x) or x != i.res or j.ops[1] != ('v', x):
                                    ok = False
                                else:
                                    stores.append((j, bb.name))
                            elif j.op == 'call':
                                callee = j.x[0]
                                nm = callee[1].lstrip('@') if callee[0] == 'g' else None
                                S = self.eff.sum.get(nm)
                                if S is None:
                                    ok = ok and bool(nm) and nm.startswith('llvm.dbg')
                                    continue
                                for k, o in enumerate(j.ops):
                                    if o == ('v', x) and any(effects.root(a[0]) == ('P', k) for a in S.writes):
                                        ok = False
                                    elif o[0] == 'gep':
                                        ok = False
                            elif j.op not in ('load', 'icmp'):
                                ok = False
                if ok and stores:
                    c[i.res] = stores
        return c

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if a == TOP or b == TOP:
            return TOP
        u = (a[1] if a[0] == 'set' else frozenset([a])) | (b[1] if b[0] == 'set' else frozenset([b]))
        if len(u) > 12 or any(x[0] not in ('k', 'null') and not (x[0] == 'p' and x[1][0] == 'G') for x in u):
            return TOP
        return ('set', u)

    def val(self, env, o):
        k = o[0]
        if k == 'v':
            return env.get(o[1])
        if k == 'c':
            return ('k', o[1])
        if k == 'f':
            return ('kf', o[1])
        if k == 'null':
            return ('null',)
        if k == 'g':
            return ('p', ('G', o[1]), 0)
        if k == 'gep':
            b = self.val(env, o[2])
            off = self.eff._gep_off(o[1], o[3])
            if b and b[0] == 'p' and isinstance(off, int):
                return ('p', b[1], b[2] + off)
        return TOP

    def ev(self, env, i):
        vs = [self.val(env, o) for o in i.ops]
        if any(v is None for v in vs) and i.op != 'select':
            return None
        if i.op == 'load':
            p = vs[0]
            if p[0] == 'p' and p[1][0] == 'C' and p[2] == 0:
                return p[1][1]
            if p[0] == 'p' and p[1] == 'O':
                if p[2] in self.fields:
                    return self.fields[p[2]]
            return TOP
        if i.op == 'gep':
            p = vs[0]
            if p[0] == 'p':
                ops = [('c', v[1]) if v[0] == 'k' else o for v, o in zip(vs[1:], i.ops[1:])]
                off = self.eff._gep_off(i.x, ops)
                if isinstance(off, int):
                    return ('p', p[1], p[2] + off)
            return TOP
        if i.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            if vs[0][0] == 'set' and i.op == 'trunc':
                return TOP
            if i.op == 'trunc' and i.ty == 'i1' and vs[0][0] == 'k':
                return ('k', vs[0][1] & 1)
            return vs[0]
        if i.op == 'select':
            c = vs[0]
            if c is None:
                return None
            if c[0] == 'k':
                return vs[1] if c[1] else vs[2]
            return self.meet(vs[1], vs[2])
        if i.op == 'icmp':
            a, b = vs
            if a[0] == 'k' and b[0] == 'k':
                x, y = a[1], b[1]
                return ('k', int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                                  'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[i.x]))
            if {a[0], b[0]} == {'p', 'null'} and i.x in ('eq', 'ne'):
                return ('k', int(i.x == 'ne'))
            if a[0] == b[0] == 'null' and i.x in ('eq', 'ne'):
                return ('k', int(i.x == 'eq'))
            return TOP
        if i.op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl'):
            a, b = vs
            if a[0] == 'k' and b[0] == 'k':
                r = self.p.arith(None, i.op, a, b)
                return r if r[0] == 'k' else TOP
            if i.op in ('mul', 'and') and ('k', 0) in (a, b):
                return ('k', 0)
            return TOP
        return TOP

    def targets(self, f, i, env):
        def blk(n):
            return f.bmap[n] if n in f.bmap else f.bmap[n.lstrip('%')]
        if i.op == 'br':
            if not i.ops:
                return [blk(i.x[0])]
            c = self.val(env, i.ops[0])
            if c is None:
                return []
            if c[0] == 'k':
                return [blk(i.x[0] if c[1] else i.x[1])]
            return [blk(t) for t in i.x]
        v = self.val(env, i.ops[0])
        if v is None:
            return []
        if v[0] == 'k':
            for k, t in i.x[1]:
                if k == v[1]:
                    return [blk(t)]
            return [blk(i.x[0])]
        return [blk(i.x[0])] + [blk(t) for _, t in i.x[1]]

    def text(self, v):
        if v and v[0] == 'p':
            if v[1] == 'O':
                return self.strings.get(v[2])
            if v[1][0] == 'L':
                return v[1][1][v[2]:]
            return self.p.cstr(v)
        return None

    def call(self, f, b, i, env, r):
        callee = i.x[0]
        args = [self.val(env, o) for o in i.ops]
        if any(a is None for a in args):
            return None
        names = []
        if callee[0] == 'g':
            names = [callee[1].lstrip('@')]
        for o in i.ops:                    # functions handed over may be called
            if o[0] == 'g' and o[1].lstrip('@') in self.m.fns:
                self.handed.add((f.name, o[1].lstrip('@')))
                self.touch(o[1].lstrip('@'))
        for n in names:
            self.sites.add((f.name, b.name, n))
            g = self.m.fns.get(n)
            if g is None or not g.blocks:
                if n in ('printf', 'puts', 'fputs', 'fprintf'):
                    ts = [self.text(x) for x in args if x[0] == 'p']
                    self.out[f.name, b.name, i.idx] = (n, tuple(t for t in ts if t is not None), None not in ts and
                                                       not any(o[0] == 'v' and x == TOP and f.defs.get(o[1]) is not None and
                                                               f.defs[o[1]].ty == 'ptr' for o, x in zip(i.ops, args)))
                if n == 'strcmp':
                    x, y = self.text(args[0]), self.text(args[1])
                    if x is not None and y is not None:
                        return ('k', 0 if x == y else 1)
                elif n == 'strlen' and self.text(args[0]) is not None:
                    return ('k', len(self.text(args[0])))
                elif n == 'strstr' and None not in (self.text(args[0]), self.text(args[1])):
                    k = self.text(args[0]).find(self.text(args[1]))
                    return ('null',) if k < 0 else ('p', ('L', self.text(args[0])), k)
                elif n in self.fold:
                    return self.fold[n](args)
                return TOP
            if n in self.stub:
                self.stubcalls[i] = (n, tuple(args), self.m.loc(i))
                return self.stub[n]
            cargs = tuple(args[k] if k < len(args) else TOP for k in range(len(g.params)))
            self.calls.add((f.name, n, cargs))
            sub = self.fn(g, cargs)
            if not sub.done:
                return TOP
            if g.ret == 'void':
                return TOP
            return sub.ret
        return TOP

    def touch(self, n):
        f = self.m.fns[n]
        self.fn(f, tuple(TOP for _ in f.params))

    def stored_fns(self):
        """functions whose address is stored (struct initialisers such as custom_function) in reachable blocks"""
        done = set()
        while True:
            new = False
            for fn, bn in list(self.blocks):
                if (fn, bn) in done:
                    continue
                done.add((fn, bn))
                f = self.m.fns[fn]
                b = f.bmap[bn] if bn in f.bmap else f.bmap[bn.lstrip('%')]
                for i in b.ins:
                    for o in i.ops if i.op in ('store', 'phi', 'select') else ():
                        if o[0] == 'g' and o[1].lstrip('@') in self.m.fns and o[1].lstrip('@') not in self.reach:
                            self.handed.add((fn, o[1].lstrip('@')))
                            self.touch(o[1].lstrip('@'))
                            new = True
            if not new:
                return
