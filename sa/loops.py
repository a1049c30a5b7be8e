"""Progress of loops: which exit tests move towards their bound on every way round the loop."""
from cfg import Cfg

NEG = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'eq': 'ne', 'ne': 'eq'}
INF = float('inf')
CASTS = ('sext', 'zext', 'trunc')


def hull(a, b):
    return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))


class Writes:
    """what a function may store to, transitively: struct fields, its parameters' targets and other memory by type"""

    def __init__(self, m):
        self.m = m
        self.own, self.calls, self.trans = {}, {}, {}
        for f in m.fns.values():
            w, c = set(), set()
            for i in f.instrs():
                if i.op == 'store':
                    w.add(place(f, i.ops[1], i.ty))
                elif i.op == 'call':
                    c.add(callee(i))
            self.own[f.name], self.calls[f.name] = w, c

    def of(self, name):
        if name in self.trans:
            return self.trans[name]
        seen, st, out = set(), [name], set()
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n is None:
                out.add(('?',))
            elif n in self.own:
                out |= {p for p in self.own[n] if p[0] != 'alloca'}
                st.extend(self.calls[n])
            elif n in COPY:
                out.add(('bytes',))
        self.trans[name] = out
        return out


COPY = ('memcpy', 'memmove', 'memset', 'strcpy', 'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64')


def callee(i):
    return i.x[0][1].lstrip('@') if i.x[0][0] == 'g' else None


def place(f, p, ty):
    if p[0] != 'v':
        return ('global', p[1])
    i = f.defs.get(p[1])
    if i is None or i.op not in ('alloca', 'gep'):
        return ('mem', ty)
    if i.op == 'alloca':
        return ('alloca', i.res, 0)
    t = str(i.x)
    if t.startswith('%struct') and len(i.ops) == 3 and i.ops[2][0] == 'c':
        return ('field', t, i.ops[2][1])
    b = f.defs.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
    if b is not None and b.op == 'alloca':
        return ('alloca', b.res, i.ops[-1][1] if i.ops[-1][0] == 'c' else None)
    return ('mem', ty)


def same_place(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'alloca':
        return a[1] == b[1] and (a[2] is None or b[2] is None or a[2] == b[2])
    return a == b


PURE = ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'sext', 'zext', 'trunc', 'select', 'icmp',
        'fptosi', 'sitofp', 'fadd', 'fsub', 'fmul', 'fdiv', 'gep', 'fcmp', 'fneg')


class Loops:
    def __init__(self, fn, writes):
        self.fn = fn
        self.w = writes
        self.g = Cfg(fn)
        self.stores = {}

    def written(self, L):
        """(stores in the loop: (place, instruction)), places written by calls, allocas handed to calls)"""
        r = self.stores.get(L.header)
        if r is None:
            st, by, esc = [], set(), set()
            for b in L.blocks:
                for i in b.ins:
                    if i.op == 'store':
                        st.append((place(self.fn, i.ops[1], i.ty), i))
                    elif i.op == 'call':
                        c = callee(i)
                        by |= self.w.of(c)
                        for o in i.ops:
                            x = self.d(o)
                            while x is not None and x.op == 'gep':
                                x = self.d(x.ops[0])
                            if x is not None and x.op == 'alloca':
                                esc.add(x.res)
            r = self.stores[L.header] = (st, by, esc)
        return r

    def disturbed(self, p, L):
        """the loop may change what is at p other than by its own stores to p"""
        st, by, esc = self.written(L)
        if p[0] == 'alloca':
            return p[1] in esc
        return any(same_place(p, q) or q == ('?',) and p[0] != 'field' for q in by)

    def d(self, v):
        return self.fn.defs.get(v[1]) if v[0] == 'v' else None

    def strip(self, v):
        i = self.d(v)
        while i is not None and i.op in CASTS:
            v = i.ops[0]
            i = self.d(v)
        return v

    def invariant(self, v, L, depth=0):
        i = self.d(v)
        if i is None or i.bb not in L.blocks:
            return True
        if depth > 12:
            return False
        if i.op in PURE:
            return all(self.invariant(o, L, depth + 1) for o in i.ops)
        if i.op == 'load':
            p = place(self.fn, i.ops[0], i.ty)
            if p[0] in ('mem', 'field') and not self.invariant(i.ops[0] if p[0] == 'mem' else self.d(i.ops[0]).ops[0], L, depth + 1):
                return False
            st, by, esc = self.written(L)
            return not any(same_place(p, q) for q, _ in st) and not self.disturbed(p, L)
        if i.op == 'call' and callee(i) in ('pow', 'sqrt', 'ceil', 'floor', 'strcmp', 'fabs', 'llvm.fabs.f64'):
            return all(self.invariant(o, L, depth + 1) for o in i.ops)
        return False

    def delta(self, v, phi, L, path=()):
        """interval of v - phi, phi the value at the start of this iteration; None: not known"""
        v = self.strip(v)
        i = self.d(v)
        if i is phi:
            return (0, 0)
        if i is None or i.bb not in L.blocks:
            return None
        if i in path:
            return 'self'
        self.fuel -= 1
        if self.fuel < 0:
            return None
        if i.op in ('add', 'sub') and i.ops[1][0] == 'c' or i.op == 'add' and i.ops[0][0] == 'c':
            k, o = (1, 0) if i.ops[1][0] == 'c' else (0, 1)
            c = i.ops[k][1] * (-1 if i.op == 'sub' else 1)
            r = self.delta(i.ops[o], phi, L, path)
            if r is None or type(r) is str:
                return r if r is None else ('self', c) if r == 'self' else None
            if type(r[0]) is str:
                return ('self', r[1] + c)
            return (r[0] + c, r[1] + c)
        if i.op in ('sdiv', 'ashr', 'lshr', 'udiv') and i.ops[1][0] == 'c':
            r = self.delta(i.ops[0], phi, L, path)
            return None
        if i.op in ('phi', 'select'):
            vs = i.ops if i.op == 'phi' else i.ops[1:]
            base, steps = None, []
            first = True
            for w in vs:
                r = self.delta(w, phi, L, path + (i,))
                if r is None:
                    return None
                if r == 'self':
                    steps.append(0)
                elif type(r[0]) is str:
                    steps.append(r[1])
                else:
                    base = r if first else hull(base, r)
                    first = False
            if first:
                return None
            lo, hi = base
            if any(s < 0 for s in steps):
                lo = -INF
            if any(s > 0 for s in steps):
                hi = INF
            return (lo, hi)
        return None

    def header_phi(self, v, L):
        """(phi, offset) when v is a header phi of L plus a constant"""
        off = 0
        while True:
            v = self.strip(v)
            i = self.d(v)
            if i is None:
                return None
            if i.op == 'phi' and i.bb is L.header:
                return i, off
            if i.op in ('add', 'sub') and i.ops[1][0] == 'c':
                off += i.ops[1][1] * (-1 if i.op == 'sub' else 1)
                v = i.ops[0]
                continue
            return None

    def change(self, v, L):
        """interval by which v changes from one iteration to the next"""
        if self.invariant(v, L):
            return (0, 0)
        h = self.header_phi(v, L)
        if h is None:
            return self.cell(v, L)
        phi = h[0]
        out, first = None, True
        for w, bn in zip(phi.ops, phi.x):
            if self.fn.bmap[bn] in L.blocks:
                self.fuel = 2000
                r = self.delta(w, phi, L)
                if r is None or type(r) is str or type(r[0]) is str:
                    return None
                out = r if first else hull(out, r)
                first = False
        return out

    def cell(self, v, L):
        """the same for a variable in memory: one store in the loop, on every way round, of its own value plus a constant"""
        i = self.d(self.strip(v))
        while i is not None and i.op in ('add', 'sub') and i.ops[1][0] == 'c':
            i = self.d(self.strip(i.ops[0]))
        if i is None or i.op != 'load':
            return None
        p = place(self.fn, i.ops[0], i.ty)
        st, by, esc = self.written(L)
        mine = [x for q, x in st if same_place(p, q)]
        if len(mine) != 1 or self.disturbed(p, L) or not all(self.g.dom(mine[0].bb, l) for l in L.latches):
            return None
        x = self.d(self.strip(mine[0].ops[0]))
        if x is None or x.op not in ('add', 'sub') or x.ops[1][0] != 'c':
            return None
        y = self.d(self.strip(x.ops[0]))
        if y is None or y.op != 'load' or not same_place(p, place(self.fn, y.ops[0], y.ty)):
            return None
        if any(y.bb in l.blocks and l is not L for l in self.g.loops_of(mine[0].bb) if l.header in L.blocks):
            return None
        c = x.ops[1][1] * (-1 if x.op == 'sub' else 1)
        return (c, c)

    def conds(self, v, want, depth=0):
        """[(pred, x, y)] that all hold when v == want (conjuncts)"""
        i = self.d(v)
        if i is None or depth > 6:
            return []
        if i.op == 'icmp':
            return [(i.x if want else NEG[i.x], i.ops[0], i.ops[1])]
        if i.op == 'xor' and i.ops[1] in (('c', 1), ('c', -1), ('c', True)):
            return self.conds(i.ops[0], not want, depth + 1)
        if i.op == 'and' and want or i.op == 'or' and not want:
            return self.conds(i.ops[0], want, depth + 1) + self.conds(i.ops[1], want, depth + 1)
        if i.op == 'phi':               # short circuit
            for k, w in enumerate(i.ops):
                if w[0] == 'c' and bool(w[1]) != want:
                    rest = [x for j, x in enumerate(i.ops) if j != k]
                    if len(rest) == 1:
                        return self.conds(rest[0], want, depth + 1)
        return []

    def mandatory(self, L):
        """(pred, x, y) that hold whenever the loop goes round again"""
        out = []
        for b in L.blocks:
            t = b.term
            if t.op != 'br' or not t.ops or not all(self.g.dom(b, l) for l in L.latches):
                continue
            ins = [self.fn.bmap[n] in L.blocks for n in t.x]
            if ins.count(True) == 1:
                out += [(c, b) for c in self.conds(t.ops[0], ins[0])]
        return out

    def progress(self, L):
        """the test that must fail after finitely many iterations, or None; and the tests that vary"""
        for (p, x, y), b in self.mandatory(L):
            if 'ptr' in str(p):
                continue
            a, c = self.change(x, L), self.change(y, L)
            if a is None or c is None:
                continue
            lo, hi = a[0] - c[1], a[1] - c[0]
            if p in ('slt', 'sle', 'ult', 'ule') and lo >= 1 or p in ('sgt', 'sge', 'ugt', 'uge') and hi <= -1 or p == 'ne' and (lo >= 1 or hi <= -1):
                return (p, x, y)
        return None

    # ---- further forms of progress

    def signed_step(self, v, phi, L, depth=0):
        """+1 / -1 when v is phi plus / minus amounts the loop does not change (taken positive), else None"""
        v = self.strip(v)
        i = self.d(v)
        if i is None or depth > 6:
            return None
        if i.op in ('add', 'sub'):
            for a, b in ((0, 1), (1, 0)):
                if i.op == 'sub' and a == 1:
                    continue
                x = self.strip(i.ops[a])
                same = self.d(x) is phi
                r = 0 if same else self.signed_step(x, phi, L, depth + 1)
                if r is not None and self.invariant(i.ops[b], L):
                    o = i.ops[b]
                    s = (1 if o[1] > 0 else -1) if o[0] == 'c' else 1
                    s = -s if i.op == 'sub' else s
                    return s if r in (0, s) else None
        return None

    def divides(self, v, phi, L):
        v = self.strip(v)
        i = self.d(v)
        if i is None:
            return False
        if i.op in ('sdiv', 'udiv', 'ashr', 'lshr') and self.d(self.strip(i.ops[0])) is phi:
            c = i.ops[1]
            return c[0] != 'c' and i.op in ('sdiv', 'udiv') and self.invariant(c, L) or c[0] == 'c' and c[1] >= (2 if i.op in ('sdiv', 'udiv') else 1)
        return False

    def nexts(self, phi, L):
        return [w for w, bn in zip(phi.ops, phi.x) if self.fn.bmap[bn] in L.blocks]

    def param_cell(self, v, L):
        """change of an integer behind a pointer parameter that the loop hands to no one"""
        i = self.d(self.strip(v))
        if i is None or i.op != 'load' or i.ops[0][0] != 'v' or i.ops[0][1] in self.fn.defs:
            return None
        p = i.ops[0]
        mine = []
        for b in L.blocks:
            for x in b.ins:
                if x.op == 'store' and x.ops[1] == p:
                    mine.append(x)
                elif x.op == 'call' and p in x.ops:
                    return (1, 1)               # counted by a helper
        if len(mine) != 1 or not all(self.g.dom(mine[0].bb, l) for l in L.latches):
            return None
        x = self.d(self.strip(mine[0].ops[0]))
        if x is None or x.op != 'add' or x.ops[1][0] != 'c':
            return None
        y = self.d(self.strip(x.ops[0]))
        if y is None or y.op != 'load' or y.ops[0] != p:
            return None
        return (x.ops[1][1],) * 2

    def weaker(self, L):
        """a mandatory test that moves to its bound by an unchanging amount, by division, or behind a pointer"""
        for (p, x, y), b in self.mandatory(L):
            if 'ptr' in str(p):
                continue
            for a, c, q in ((x, y, p), (y, x, SWAP.get(p, p))):
                if not self.invariant(c, L):
                    continue
                h = self.header_phi(a, L)
                if h is not None:
                    ss = [self.signed_step(w, h[0], L) for w in self.nexts(h[0], L)]
                    if ss and (all(s == 1 for s in ss) and q in ('slt', 'sle', 'ult', 'ule') or all(s == -1 for s in ss) and q in ('sgt', 'sge', 'ugt', 'uge')):
                        return 'step'
                    if q in ('sgt', 'sge') and c[0] == 'c' and c[1] >= (0 if q == 'sgt' else 1) and all(self.divides(w, h[0], L) for w in self.nexts(h[0], L)):
                        return 'division'
                i = self.d(self.strip(a))
                if q == 'eq' and c == ('c', 0) and i is not None and i.op in ('srem', 'urem'):
                    h = self.header_phi(i.ops[0], L)
                    if h is not None and all(self.divides(w, h[0], L) for w in self.nexts(h[0], L)):
                        return 'division'
                r = self.param_cell(a, L)
                if r is not None and r[0] >= 1 and q in ('slt', 'sle'):
                    return 'count'
        return None

    # ---- what a loop must not do

    def stuck(self, v, want, L, depth=0):
        """once v == want at the end of a round, it is so at the end of every later one"""
        if self.invariant(v, L):
            return True
        i = self.d(v)
        if i is None or depth > 6:
            return False
        if i.op == 'icmp':
            p = i.x if want else NEG[i.x]
            a, c = self.change(i.ops[0], L), self.change(i.ops[1], L)
            if a is None or c is None:
                for u, w, q in ((i.ops[0], i.ops[1], p), (i.ops[1], i.ops[0], SWAP.get(p, p))):
                    h = self.header_phi(u, L)
                    if h is None or not self.invariant(w, L):
                        continue
                    ss = [self.signed_step(x, h[0], L) for x in self.nexts(h[0], L)]
                    if ss and (all(s == -1 for s in ss) and q in ('slt', 'sle', 'ult', 'ule') or all(s == 1 for s in ss) and q in ('sgt', 'sge', 'ugt', 'uge')):
                        return True
                return False
            lo, hi = a[0] - c[1], a[1] - c[0]
            return lo == hi == 0 or p in ('slt', 'sle', 'ult', 'ule') and hi <= 0 or p in ('sgt', 'sge', 'ugt', 'uge') and lo >= 0
        if i.op == 'xor' and i.ops[1] in (('c', 1), ('c', -1), ('c', True)):
            return self.stuck(i.ops[0], not want, L, depth + 1)
        if i.op in ('and', 'or'):
            r = [self.stuck(o, want, L, depth + 1) for o in i.ops]
            return all(r)
        if i.op == 'phi':
            r = [self.stuck(o, want, L, depth + 1) for o in i.ops if o[0] != 'c']
            return bool(r) and all(r)
        return False

    def undone(self, L):
        """the counter of the loop is moved away from its bound again by a loop inside it: (pred, nested loop) or None"""
        for (p, x, y), b in self.mandatory(L):
            if 'ptr' in str(p):
                continue
            for a, c, q in ((x, y, p), (y, x, SWAP.get(p, p))):
                h = self.header_phi(a, L)
                if h is None or not self.invariant(c, L) or q not in ('slt', 'sle', 'ult', 'ule', 'sgt', 'sge', 'ugt', 'uge'):
                    continue
                up = q in ('slt', 'sle', 'ult', 'ule')
                for n in self.g.loops:
                    if n is L or n.header not in L.blocks or n.header is L.header:
                        continue
                    for k in n.header.ins:
                        if k.op != 'phi':
                            continue
                        start = [w for w, bn in zip(k.ops, k.x) if self.fn.bmap[bn] not in n.blocks]
                        if not any(self.flows(w, h[0], L) for w in start) or not any(self.flows(w, k, L) for w in self.nexts(h[0], L)):
                            continue
                        s = [self.signed_step(w, k, n) for w in self.nexts(k, n)]
                        if any(z == (-1 if up else 1) for z in s):
                            return q, n
        return None

    def flows(self, v, target, L, seen=None):
        """v is target, possibly moved by amounts"""
        seen = set() if seen is None else seen
        i = self.d(self.strip(v))
        if i is target:
            return True
        if i is None or i in seen or i.bb not in L.blocks or i.op not in ('phi', 'add', 'sub', 'select'):
            return False
        seen.add(i)
        return any(self.flows(o, target, L, seen) for o in i.ops if o[0] == 'v')

    def exits(self, L):
        for b in L.blocks:
            t = b.term
            if t.op == 'br' and t.ops:
                ins = [self.fn.bmap[n] in L.blocks for n in t.x]
                if ins.count(True) == 1:
                    yield b, t.ops[0], ins[0]
            elif any(self.fn.bmap[n] not in L.blocks for n in (t.x if isinstance(t.x, (list, tuple)) else []) if isinstance(n, str) and n in self.fn.bmap):
                yield b, None, True

    def stands_still(self, L):
        """a way round the loop on which nothing the loop's branches depend on changes; None if there is none"""
        phis, places, seen, todo = set(), [], set(), []
        for b in L.blocks:
            t = b.term
            if t.op == 'br' and t.ops:
                todo.append(t.ops[0])
            elif t.op == 'switch':
                todo.append(t.ops[0])
        while todo:
            v = todo.pop()
            i = self.d(v)
            if i is None or i.bb not in L.blocks or i.res in seen:
                continue
            seen.add(i.res)
            if i.op == 'phi' and i.bb is L.header:
                phis.add(i)
                todo += self.nexts(i, L)
                continue
            if i.op == 'call' and callee(i) not in MATH:
                if callee(i) is None or self.w.of(callee(i)) - {('alloca',)} or callee(i) not in self.w.own:
                    return None
                places.append(ANY)              # reads memory, writes none
            if i.op == 'load':
                places.append(place(self.fn, i.ops[0], i.ty))
            todo += [o for o in i.ops if o[0] == 'v']
        st, by, esc = self.written(L)
        inner = {l.header for l in self.g.loops if l is not L and l.header in L.blocks and len(l.blocks) < len(L.blocks)}
        count = 0
        stack = [(L.header, None, {}, (L.header,), {})]
        while stack:
            b, pred, env, path, facts = stack.pop()
            count += 1
            if count > 20000:
                return None
            env = dict(env)
            if pred is not None:
                for i in b.ins:
                    if i.op != 'phi':
                        break
                    if b in inner:
                        env[i.res] = ('?',)
                        continue
                    w = i.ops[i.x.index(pred.name)]
                    env[i.res] = self.resolve(w, env)
            changed = False
            for i in b.ins:
                if i.op == 'store' and (ANY in places or any(same_place(place(self.fn, i.ops[1], i.ty), q) for q in places)):
                    changed = True
                elif i.op == 'call':
                    c = callee(i)
                    ws = self.w.of(c)
                    if c not in MATH and (ws or c not in self.w.own) and ANY in places or any(same_place(p, q) or q[0] in ('?', 'bytes') for p in places for q in ws) or any(p[0] == 'alloca' and p[1] in esc for p in places):
                        changed = True
            if changed:
                continue
            t = b.term
            for n in ([x for x in t.x if isinstance(x, str)] if t.op in ('br', 'switch') and t.x else []):
                s = self.fn.bmap.get(n)
                known = facts
                if t.op == 'br' and t.ops and t.x[0] != t.x[1]:
                    v = self.resolve(t.ops[0], env)
                    taken = n == t.x[0]
                    if v[0] == 'c':
                        if bool(v[1]) != taken:
                            continue
                    else:
                        k, pol = self.key(v, env)
                        if known.get(k, taken == pol) != (taken == pol):
                            continue
                        known = dict(known)
                        known[k] = taken == pol
                if s is L.header:
                    if all(self.resolve(i.ops[i.x.index(b.name)], env) == ('v', i.res) for i in phis):
                        return path
                elif s in L.blocks and s not in path:
                    stack.append((s, b, env, path + (s,), known))
        return None

    def resolve(self, v, env):
        while True:
            v = self.strip(v)
            if v[0] == 'v' and v[1] in env:
                w = env[v[1]]
                if w == v:
                    return v
                v = w
                if v[0] == '?':
                    return v
                continue
            return v

    def key(self, v, env, depth=0):
        """a name for the value of v on this path, and the polarity of a comparison under its canonical predicate"""
        v = self.resolve(v, env)
        i = self.d(v)
        if i is None or depth > 8 or i.op in ('phi', 'call', 'alloca'):
            return v, True
        if i.op in ('icmp', 'fcmp') :
            p, pol = CANON.get(i.x, (i.x, True))
            return ('cmp', p) + tuple(self.key(o, env, depth + 1)[0] for o in i.ops), pol
        if i.op == 'xor' and i.ops[1] in (('c', 1), ('c', -1), ('c', True)):
            k, pol = self.key(i.ops[0], env, depth + 1)
            return k, not pol
        return (i.op, str(i.x)) + tuple(self.key(o, env, depth + 1)[0] for o in i.ops), True


CANON = {'une': ('oeq', False), 'ne': ('eq', False), 'sge': ('slt', False), 'sgt': ('sle', False), 'uge': ('ult', False), 'ugt': ('ule', False)}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
ANY = ('any',)
MATH = ('pow', 'sqrt', 'ceil', 'floor', 'strcmp', 'fabs', 'llvm.fabs.f64', 'log', 'exp', 'sin', 'cos')
