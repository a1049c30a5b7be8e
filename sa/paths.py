"""Path-sensitive abstract interpretation of single functions (helpers inlined) over a small domain:
integer values are constants or atom+constant, every atom carries a set of integer intervals, other
conditions are remembered by structure.  Memory is a map from (object, offset) to values.  Loops are
cut at their header after forgetting whatever the body may change, so the result covers every trip
count.  Paths that reach a block in the same abstract state are merged.  No solver, no execution."""
from cfg import Cfg
from irlib import AnalysisError
import effects
from effects import oadd

LO, HI = -(1 << 31), (1 << 31) - 1
FULL = ((LO, HI),)


def iv_and(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                out.append((l, h))
    return tuple(sorted(out))


def iv_or(a, b):
    xs = sorted(tuple(a) + tuple(b))
    out = []
    for l, h in xs:
        if out and l <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(h, out[-1][1]))
        else:
            out.append((l, h))
    return tuple(out)


def iv_not(a):
    out, at = [], LO
    for l, h in sorted(a):
        if l > at:
            out.append((at, l - 1))
        at = h + 1
    if at <= HI:
        out.append((at, HI))
    return tuple(out)


def iv_pred(pred, k):
    k = int(k)
    if pred == 'eq':
        return ((k, k),)
    if pred == 'ne':
        return iv_not(((k, k),))
    if pred in ('slt', 'ult'):
        return ((LO, k - 1),) if k > LO else ()
    if pred in ('sle', 'ule'):
        return ((LO, k),)
    if pred in ('sgt', 'ugt'):
        return ((k + 1, HI),) if k < HI else ()
    if pred in ('sge', 'uge'):
        return ((k, HI),)
    return FULL


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
       'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
        'ule': 'uge', 'uge': 'ule'}


class St:
    __slots__ = ('env', 'mem', 'rng', 'tru', 'ev', 'via')

    def __init__(self):
        self.env, self.mem, self.rng, self.tru, self.ev = {}, {}, {}, {}, ()

    def copy(self):
        s = St()
        s.env, s.mem, s.rng, s.tru, s.ev = dict(self.env), dict(self.mem), dict(self.rng), dict(self.tru), self.ev
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.rng.items()),
                frozenset(self.tru.items()), self.ev)

    # -- values
    def range(self, v, d=0):
        if v[0] == 'k':
            return ((v[1], v[1]),)
        if v[0] == 's':
            a, o = v[1], v[2]
            r = self.rng.get(a, FULL)
            if a[0] == 'op' and d < 4:
                x, y = self.range(a[2], d + 1), self.range(a[3], d + 1)
                if x and y:
                    l1, h1, l2, h2 = x[0][0], x[-1][1], y[0][0], y[-1][1]
                    q = None
                    if a[1] == 'add':
                        q = (l1 + l2, h1 + h2)
                    elif a[1] == 'sub':
                        q = (l1 - h2, h1 - l2)
                    elif a[1] == 'mul':
                        c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                        q = (min(c), max(c))
                    elif a[1] == 'sdiv' and l2 == h2 and l2 > 0:
                        q = (int(l1 / l2), int(h1 / l2))
                    elif a[1] == 'srem' and l2 == h2 and l2 > 0:
                        q = (0 if l1 >= 0 else 1 - l2, l2 - 1)
                    elif a[1] == 'and' and l2 == h2 and l2 >= 0:
                        q = (0, l2)
                    if q:
                        r = iv_and(r, ((max(q[0], LO), min(q[1], HI)),))
            if o:
                r = tuple((max(l + o, LO) if l != LO else LO, min(h + o, HI) if h != HI else HI) for l, h in r)
            return r
        return FULL

    def const(self, v):
        if v[0] == 'k':
            return v[1]
        r = self.range(v)
        if len(r) == 1 and r[0][0] == r[0][1]:
            return r[0][0]
        return None

    def truth(self, c):
        """True / False / None for a condition value"""
        if c[0] == 'k':
            return bool(c[1])
        if c[0] == 'not':
            t = self.truth(c[1])
            return None if t is None else not t
        if c[0] == 'icmp':
            _, pred, a, b = c
            if a[0] == 'p' or b[0] == 'p':
                t = self._ptrcmp(pred, a, b)
                return self.tru.get(c) if t is None else t
            if a == b:
                return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
            ra, rb = self.range(a), self.range(b)
            if not ra or not rb:
                return None
            if a[0] == 's' and b[0] == 's' and a[1] == b[1]:
                d = a[2] - b[2]
                return bool(iv_and(((d, d),), iv_pred(pred, 0)))
            if len(rb) == 1 and rb[0][0] == rb[0][1]:
                w = iv_pred(pred, rb[0][0])
                i = iv_and(ra, w)
                if not i:
                    return False
                if i == ra:
                    return True
            elif len(ra) == 1 and ra[0][0] == ra[0][1]:
                w = iv_pred(SWAP[pred], ra[0][0])
                i = iv_and(rb, w)
                if not i:
                    return False
                if i == rb:
                    return True
            else:
                lo1, hi1, lo2, hi2 = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
                if pred in ('slt',) and hi1 < lo2 or pred == 'sle' and hi1 <= lo2 or pred == 'sgt' and lo1 > hi2 or \
                        pred == 'sge' and lo1 >= hi2 or pred == 'ne' and (hi1 < lo2 or lo1 > hi2):
                    return True
                if pred == 'slt' and lo1 >= hi2 or pred == 'sle' and lo1 > hi2 or pred == 'sgt' and hi1 <= lo2 or \
                        pred == 'sge' and hi1 < lo2 or pred == 'eq' and (hi1 < lo2 or lo1 > hi2):
                    return False
            t = self.tru.get(c)
            if t is None:
                t = self.tru.get(('icmp', SWAP[pred], b, a))
            if t is None:
                for q, val in ((NEG[pred], False),):
                    x = self.tru.get(('icmp', q, a, b))
                    if x is None:
                        x = self.tru.get(('icmp', SWAP[q], b, a))
                    if x is not None:
                        t = not x
            return t
        return self.tru.get(c)

    def _ptrcmp(self, pred, a, b):
        if pred not in ('eq', 'ne'):
            return None
        if a[0] != 'p':
            a, b = b, a
        r = None
        if b[0] == 'null':
            if a[1][0] in ('A', 'M', 'G'):
                r = False
        elif b[0] == 'p' and a == b and isinstance(a[2], int):
            r = True
        if r is None:
            return None
        return r if pred == 'eq' else not r

    def assume(self, c, t):
        """refine; False when contradictory"""
        x = self.truth(c)
        if x is not None:
            return x == t
        if c[0] == 'not':
            return self.assume(c[1], not t)
        if c[0] == 'icmp':
            _, pred, a, b = c
            if not t:
                pred = NEG[pred]
            for p, u, v in ((pred, a, b), (SWAP[pred], b, a)):
                k = self.const(v) if v[0] in 'ks' else None
                if k is not None and u[0] == 's':
                    w = iv_pred(p, k - u[2]) if LO <= k - u[2] <= HI else FULL
                    n = iv_and(self.rng.get(u[1], FULL), w)
                    if not n:
                        return False
                    self.rng[u[1]] = n
                    return True
            self.tru[c] = t
            return True
        self.tru[c] = t
        return True


class Hooks:
    """clients override; each may return a replacement event appended to the path's history, or None"""

    def inline(self, fn, depth):
        return depth < 4

    def store(self, st, ins, ptr, val, fn):
        return None

    def call(self, st, ins, name, args, fn):
        return None


class Paths:
    def __init__(self, mod, eff, hooks, cap=3000):
        self.m, self.eff, self.h, self.cap = mod, eff, hooks, cap
        self.cfgs = {}
        self.live = {}
        self.exits = []        # (state, ins) at noreturn calls
        self.nstates = 0
        self.uid = {}
        self.track = None      # predicate on atoms whose history is kept through merges (None: all)

    def cfg(self, f):
        if f.name not in self.cfgs:
            self.cfgs[f.name] = Cfg(f)
            self.live[f.name] = self._live(f)
        return self.cfgs[f.name]

    def _live(self, f):
        use, de = {}, {}
        for b in f.blocks:
            u, d = set(), set()
            for i in b.ins:
                if i.op != 'phi':
                    for o in i.ops:
                        self._uses(o, u, d)
                if i.op == 'call':
                    self._uses(i.x[0], u, d)
                if i.res:
                    d.add(i.res)
            use[b], de[b] = u, d
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set()
                for s in b.succ:
                    out |= live[s] - {i.res for i in s.phis()}
                    for i in s.phis():
                        for o, n in zip(i.ops, i.x):
                            if n.lstrip('%') == b.name.lstrip('%') and o[0] == 'v':
                                out.add(o[1])
                n = use[b] | (out - de[b]) | {i.res for i in b.phis()}
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live

    @staticmethod
    def _uses(o, u, d):
        if o[0] == 'v' and o[1] not in d:
            u.add(o[1])
        elif o[0] == 'gep':
            Paths._uses(o[2], u, d)
            for x in o[3]:
                Paths._uses(x, u, d)

    # ---------------------------------------------------------------- entry
    def analyse(self, fname, pre=None, args=None):
        """-> list of (final state, return value); states at exit() calls are in self.exits"""
        f = self.m.fns[fname]
        st = St()
        vals = []
        for k, (ty, n) in enumerate(f.params):
            v = args[k] if args and k in args else (('p', ('P', k), 0) if ty == 'ptr' else ('s', ('P', k), 0) if ty in ('i32', 'i64', 'i8')
                                                    else ('u', ('P', k)))
            vals.append(v)
        if pre:
            pre(st)
        return self.func(f, st, vals, 0, ())

    def func(self, f, st, vals, depth, ctx):
        self.cfg(f)
        env = st.env
        st = st.copy()
        st.env = {n: v for (_, n), v in zip(f.params, vals)}
        cf = self.cfgs[f.name]
        live = self.live[f.name]
        head = {l.header: l for l in cf.loops}
        pend = {cf.order[0]: {}}
        rets = []
        pend[cf.order[0]][st.key()] = (st, None)
        for b in cf.order:
            sts = pend.pop(b, {})
            if len(sts) > self.cap:
                sts = self.squash(sts)
            self.nstates += len(sts)
            for s, _ in sts.values():
                for fs in self.block(f, b, s, depth, ctx, rets):
                    for nxt, s2 in self.branch(f, b, fs):
                        lp = head.get(nxt)
                        if lp and b in lp.blocks:
                            continue      # back edge: covered by the havocked header state
                        s3 = self.phis(f, b, nxt, s2, lp, ctx)
                        lv = live[nxt]
                        s3.env = {n: v for n, v in s3.env.items() if n in lv}
                        pend.setdefault(nxt, {})[s3.key()] = (s3, None)
        out, seen = [], set()
        for s, v in rets:
            s.env = env
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def squash(self, sts):
        """too many states: keep only what the ranges and events say"""
        out = {}
        for s, _ in sts.values():
            s.tru = {c: t for c, t in s.tru.items() if self.track and self.track(c)}
            s.rng = {a: r for a, r in s.rng.items() if not self.track or self.track(a)}
            out[s.key()] = (s, None)
        if len(out) > self.cap:
            raise AnalysisError('too many paths')
        return out

    def phis(self, f, b, nxt, st, lp, ctx):
        st = st.copy()
        new = {}
        for i in nxt.phis():
            if lp:
                v = None
            else:
                v = None
                for o, n in zip(i.ops, i.x):
                    if n.lstrip('%') == b.name.lstrip('%'):
                        v = self.val(st, o)
            if v is None:
                a = ('phi', ctx, f.name, i.res)
                v = ('p', ('Q', a), 0) if i.ty == 'ptr' else ('s', a, 0) if i.ty and i.ty[0] == 'i' and i.ty != 'i1' else ('u', a)
                st.rng.pop(a, None)
                self.forget(st, a)
            new[i.res] = v
        st.env.update(new)
        if lp:
            self.havoc_loop(f, st, lp, ctx)
        return st

    def forget(self, st, a):
        def has(v):
            return isinstance(v, tuple) and (v == a or any(has(x) for x in v))
        for c in [c for c in st.tru if has(c)]:
            del st.tru[c]

    def havoc_loop(self, f, st, lp, ctx):
        for b in lp.blocks:
            for i in b.ins:
                if i.op == 'store':
                    p = self.addr(st, f, i.ops[1])
                    self.kill(st, p, ('loop', f.name, i.idx))
                elif i.op == 'call':
                    self.call_effects(st, f, i, loop=True, ctx=ctx)

    def addr(self, st, f, o):
        """best-effort static address of an operand inside a loop not yet executed"""
        if o[0] == 'v' and o[1] not in st.env:
            i = f.defs.get(o[1])
            if i is not None and i.op == 'gep':
                b = self.addr(st, f, i.ops[0])
                if b and b[0] == 'p':
                    return ('p', b[1], oadd(b[2], self.gepconst(i.x, i.ops[1:])))
            elif i is not None and i.op == 'load':
                b = self.addr(st, f, i.ops[0])
                if b and b[0] == 'p':
                    if isinstance(b[2], int):
                        return st.mem.get((b[1], b[2]), ('p', ('L', b[1], b[2]), 0))
                    return None
            return None
        return self.val(st, o)

    def kill(self, st, p, tag):
        if p is None or p[0] != 'p':
            for k in list(st.mem):
                if k[0][0] not in ('A',):
                    st.mem[k] = ('u', ('hav', k) + tag)
            return
        base, off = p[1], p[2]
        if isinstance(off, int):
            st.mem[(base, off)] = ('u', ('hav', (base, off)) + tag)
        else:
            for k in list(st.mem):
                if k[0] == base and isinstance(k[1], int) and k[1] >= off[0]:
                    st.mem[k] = ('u', ('hav', k) + tag)
            if base[0] == 'M':
                st.mem[(base, 'written')] = ('k', min(off[0], st.mem.get((base, 'written'), ('k', off[0]))[1]))
        if base[0] in ('Q', 'L', 'X'):
            # an unresolved pointer may alias other unresolved ones
            for k in list(st.mem):
                if k[0][0] in ('Q', 'X') and k[0] != base:
                    st.mem[k] = ('u', ('hav', k) + tag)

    # ---------------------------------------------------------------- values
    def gepconst(self, ty, idx):
        return self.eff._gep_off(ty, idx)

    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.env.get(o[1], ('u', ('undefd', o[1])))
        if k == 'c':
            return ('k', o[1])
        if k == 'f':
            return ('kf', o[1])
        if k == 'null':
            return ('null',)
        if k == 'g':
            return ('p', ('G', o[1]), 0)
        if k == 'gep':
            b = self.val(st, o[2])
            if b[0] == 'p':
                return ('p', b[1], oadd(b[2], self.eff._gep_off(o[1], o[3])))
        return ('u', o)

    def arith(self, st, op, a, b):
        if a[0] == 'k' and b[0] == 'k':
            x, y = a[1], b[1]
            if op == 'add':
                return ('k', x + y)
            if op == 'sub':
                return ('k', x - y)
            if op == 'mul':
                return ('k', x * y)
            if op == 'sdiv' and y:
                return ('k', int(x / y))
            if op == 'srem' and y:
                return ('k', x - y * int(x / y))
            if op == 'and':
                return ('k', x & y)
            if op == 'or':
                return ('k', x | y)
            if op == 'xor':
                return ('k', x ^ y)
            if op == 'shl':
                return ('k', x << y)
        if op == 'add' and a[0] == 'k':
            a, b = b, a
        if op == 'shl' and b[0] == 'k':
            op, b = 'mul', ('k', 1 << b[1])
        if op == 'add' and a[0] == 's' and b[0] == 'k':
            return ('s', a[1], a[2] + b[1])
        if op == 'sub' and a[0] == 's' and b[0] == 'k':
            return ('s', a[1], a[2] - b[1])
        if op == 'sub' and a == b:
            return ('k', 0)
        if op == 'sub' and a[0] == 's' and b[0] == 's' and a[1] == b[1]:
            return ('k', a[2] - b[2])
        if op == 'mul' and a[0] == 'k':
            a, b = b, a
        if op == 'mul' and b == ('k', 1):
            return a
        if op == 'mul' and b == ('k', 0):
            return b
        if op in ('add', 'mul') and repr(a) > repr(b):
            a, b = b, a
        if a[0] in 'ks' and b[0] in 'ks':
            return ('s', ('op', op, a, b), 0)
        return ('u', ('op', op, a, b))

    def cond(self, v):
        """condition from an i1 value"""
        if v[0] in ('icmp', 'not', 'fcmp', 'k', 'u', 'and', 'or'):
            return v
        return ('icmp', 'ne', v, ('k', 0))

    # ---------------------------------------------------------------- transfer
    def block(self, f, b, st, depth, ctx, rets):
        """execute the non-phi instructions; -> list of states at the terminator"""
        work = [(st.copy(), 0)]
        out = []
        ins = b.ins
        while work:
            s, k = work.pop()
            dead = False
            while k < len(ins):
                i = ins[k]
                k += 1
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch'):
                    break
                if i.op == 'unreachable':
                    dead = True
                    break
                if i.op == 'ret':
                    rets.append((s, self.val(s, i.ops[0]) if i.ops else ('none',)))
                    dead = True
                    break
                if i.op == 'call':
                    res = self.call(s, f, i, depth, ctx)
                    if res is None:
                        dead = True
                        break
                    if len(res) == 1:
                        s = res[0]
                        continue
                    for r in res:
                        work.append((r, k))
                    dead = True
                    break
                self.simple(s, f, i, ctx)
            if not dead:
                out.append(s)
        return out

    def simple(self, st, f, i, ctx):
        op = i.op
        r = None
        if op == 'load':
            p = self.val(st, i.ops[0])
            if p[0] == 'p' and isinstance(p[2], int):
                r = st.mem.get((p[1], p[2]))
                if r is None and (p[1], 'zero') in st.mem and p[2] < st.mem.get((p[1], 'written'), ('k', HI))[1]:
                    r = st.mem[(p[1], p[2])] = ('k', 0)
                if r is None:
                    g = self.m.globals.get(p[1][1]) if p[1][0] == 'G' else None
                    a = ('F', p[1], p[2])
                    r = ('p', ('L', p[1], p[2]), 0) if i.ty == 'ptr' else ('s', a, 0) if i.ty in ('i32', 'i64', 'i8') else ('u', a)
                    st.mem[(p[1], p[2])] = r
                elif r[0] == 'u' and i.ty in ('i32', 'i64', 'i8'):
                    r = ('s', r[1], 0)
                    st.mem[(p[1], p[2])] = r
                elif r[0] == 'u' and i.ty == 'ptr':
                    r = ('p', ('X', r[1]), 0)
                    st.mem[(p[1], p[2])] = r
                elif r[0] == 'k' and i.ty == 'double':
                    r = ('kf', 0.0) if r[1] == 0 else ('u', ('cell', p[1], p[2]))
                elif r[0] == 'k' and r[1] == 0 and i.ty == 'ptr':
                    r = ('null',)
            else:
                a = ('ld', ctx, f.name, i.res)
                st.rng.pop(a, None)
                self.forget(st, a)
                r = ('p', ('Q', a), 0) if i.ty == 'ptr' else ('s', a, 0) if i.ty in ('i32', 'i64', 'i8') else ('u', a)
        elif op == 'store':
            p = self.val(st, i.ops[1])
            v = self.val(st, i.ops[0])
            e = self.h.store(st, i, p, v, f)
            if p[0] == 'p' and isinstance(p[2], int):
                self.kill(st, p, ('st',))
                st.mem[(p[1], p[2])] = v
            else:
                self.kill(st, p, ('st', f.name, i.idx))
            if e is not None:
                st.ev = st.ev + (e,)
            return
        elif op == 'gep':
            b = self.val(st, i.ops[0])
            if b[0] == 'p':
                vals = [self.val(st, x) for x in i.ops[1:]]
                ops = [('c', self_c) if (self_c := st.const(v) if v[0] in 'ks' else None) is not None else o
                       for v, o in zip(vals, i.ops[1:])]
                r = ('p', b[1], oadd(b[2], self.eff._gep_off(i.x, ops)))
            else:
                r = ('p', ('X', ('gep', ctx, f.name, i.res)), (0, '+'))
        elif op == 'icmp':
            r = ('icmp', i.x, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            t = st.truth(r)
            if t is not None:
                r = ('k', int(t))
        elif op == 'fcmp':
            r = ('fcmp', i.x, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        elif op in ('sext', 'trunc', 'freeze', 'bitcast'):
            r = self.val(st, i.ops[0])
        elif op == 'zext':
            r = self.val(st, i.ops[0])
        elif op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'ashr', 'udiv', 'urem', 'lshr'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if op == 'xor' and b in (('k', 1), ('k', -1)) and i.ty == 'i1':
                r = ('not', self.cond(a))
            else:
                r = self.arith(st, op, a, b)
        elif op == 'select':
            c = self.cond(self.val(st, i.ops[0]))
            t = st.truth(c)
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if t is not None:
                r = a if t else b
            elif a == b:
                r = a
            else:
                q = ('sel', c, a, b)
                r = ('s', q, 0) if i.ty in ('i32', 'i64') else ('u', q)
                ra, rb = st.range(a) if a[0] in 'ks' else FULL, st.range(b) if b[0] in 'ks' else FULL
                if r[0] == 's':
                    st.rng[q] = iv_or(ra, rb)
        elif op == 'alloca':
            base = ('A', ctx, f.name, i.res)
            for k in [k for k in st.mem if k[0] == base]:
                del st.mem[k]
            r = ('p', base, 0)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            vs = tuple(self.val(st, o) for o in i.ops)
            a = ('f' + op,) + vs
            if len(repr(a)) > 1500:
                a = ('big', ctx, f.name, i.res)
                self.forget(st, a)
            r = ('s', a, 0) if op.startswith('fpto') else ('u', a)
        else:
            a = ('ins', ctx, f.name, i.res)
            self.forget(st, a)
            r = ('p', ('Q', a), 0) if i.ty == 'ptr' else ('s', a, 0) if i.ty in ('i32', 'i64', 'i8') else ('u', a)
        if i.res:
            if r[0] in 'su' and len(repr(r)) > 2000:
                r = (r[0], ('big', ctx, f.name, i.res)) + r[2:]
                self.forget(st, r[1])
                st.rng.pop(r[1], None)
            st.env[i.res] = r

    def branch(self, f, b, st):
        t = b.term
        if t.op == 'br':
            if not t.ops:
                return [(f.bmap[t.x[0]], st)]
            c = self.cond(self.val(st, t.ops[0]))
            out = []
            for tgt, tv in ((t.x[0], True), (t.x[1], False)):
                s = st.copy()
                if self.assume(s, c, tv):
                    out.append((f.bmap[tgt], s))
            return out
        if t.op == 'switch':
            v = self.val(st, t.ops[0])
            out = []
            rest = st.copy()
            ok = True
            for k, tgt in t.x[1]:
                s = rest.copy()
                c = ('icmp', 'eq', v, ('k', k))
                if s.assume(c, True):
                    out.append((f.bmap[tgt], s))
                ok = ok and rest.assume(c, False)
            if ok:
                out.append((f.bmap[t.x[0]], rest))
            return out
        return []

    def assume(self, s, c, tv):
        if c[0] == 'icmp' and c[2][0] in ('icmp', 'fcmp', 'not') and c[3][0] == 'k':   # (zext cond) != 0
            if c[3][1] == 0 and c[1] in ('eq', 'ne'):
                return self.assume(s, c[2], tv if c[1] == 'ne' else not tv)
        return s.assume(c, tv)

    # ---------------------------------------------------------------- calls
    NORET = {'@exit', '@abort', '@_exit', '@__assert_fail'}
    PURESTR = {'@strcmp', '@strlen', '@strncmp', '@strstr', '@atoi'}

    @staticmethod
    def unesc(t):
        import re
        t = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t)
        return t.split('\0')[0]

    def cstr(self, v):
        if v[0] == 'p' and v[1][0] == 'G' and isinstance(v[2], int):
            g = self.m.globals.get(v[1][1])
            if g is not None and isinstance(g.init, tuple) and g.init and g.init[0] == 'str':
                return self.unesc(g.init[1])[v[2]:]
            if g is not None and isinstance(g.init, (str, bytes)):
                return g.init
        return None

    def call(self, st, f, i, depth, ctx):
        callee = i.x[0]
        name = callee[1] if callee[0] == 'g' else None
        args = [self.val(st, o) for o in i.ops]
        e = self.h.call(st, i, name, args, f)
        if e is not None:
            st.ev = st.ev + (e,)
        if name in self.NORET:
            self.exits.append((st, i))
            return None
        fn = self.m.fns.get(name.lstrip('@')) if name else None
        if fn is not None and fn.blocks and self.h.inline(fn, depth) and len(ctx) < 8:
            c2 = ctx + ((f.name, i.idx, i.bb.name if i.bb else ''),)
            if not any(c[0] == fn.name for c in c2):
                out = []
                for s, v in self.func(fn, st, args, depth + 1, c2):
                    s = s.copy()
                    if i.res:
                        s.env[i.res] = v
                    out.append(s)
                return out or None
        st = st.copy()
        self.call_effects(st, f, i, args=args, ctx=ctx)
        if i.res:
            a = None
            if name in ('@malloc', '@calloc'):
                base = ('M', ctx, f.name, i.res)
                for k in [k for k in st.mem if k[0] == base]:
                    del st.mem[k]
                st.env[i.res] = ('p', base, 0)
                if name == '@calloc':
                    st.mem[(base, 'zero')] = ('k', 0)
                return [st]
            if name in self.PURESTR:
                a = ('str', name, tuple(self.cstr(x) or x for x in args))
                st.env[i.res] = ('p', ('Q', a), 0) if i.ty == 'ptr' else ('s', a, 0)
                return [st]
            if name and name.startswith('@llvm.') and i.ty == 'double' or name in ('@sqrt', '@pow', '@fabs', '@log', '@exp'):
                st.env[i.res] = ('u', (name,) + tuple(args)) if len(repr(args)) < 1200 else ('u', ('R', ctx, f.name, i.res))
                return [st]
            a = ('R', ctx, f.name, i.res)
            st.rng.pop(a, None)
            self.forget(st, a)
            st.env[i.res] = ('p', ('Q', a), 0) if i.ty == 'ptr' else ('s', a, 0) if i.ty in ('i32', 'i64', 'i8') else ('u', a)
        return [st]

    def call_effects(self, st, f, i, args=None, loop=False, ctx=()):
        callee = i.x[0]
        name = callee[1].lstrip('@') if callee[0] == 'g' else None
        if args is None:
            args = [self.addr(st, f, o) for o in i.ops]
        tag = ('call', ctx, f.name, i.res or '%s.%d' % (i.bb.name, i.idx))
        if name in ('printf', 'puts', 'putchar', 'free', 'strcmp', 'strlen', 'exit', 'malloc', 'calloc'):
            return
        S = self.eff.sum.get(name) if name else None
        if S is None or name is None:
            ext = name in ('memcpy', 'llvm.memcpy.p0.p0.i64', 'memset', 'llvm.memset.p0.i64', 'strcpy', 'strncpy', 'memmove',
                           'llvm.memmove.p0.p0.i64', 'sprintf', 'strcat')
            if ext:
                p = args[0]
                if p is None or p[0] != 'p':
                    self.kill(st, None, tag)
                elif name in ('strcpy', 'strncpy', 'sprintf', 'strcat') or not loop and 'memcpy' in name and self.cstr(args[1]):
                    if isinstance(p[2], int):
                        src = args[1] if len(args) > 1 and not loop and name in ('strcpy', 'strncpy') or 'memcpy' in name else None
                        lit = self.cstr(src) if src else None
                        st.mem[(p[1], p[2])] = ('str', lit) if lit is not None else ('strp', src) if src else ('u', ('strof',) + tag)
                    else:
                        self.kill(st, ('p', p[1], oadd(p[2], (0, '+'))), tag)
                else:
                    self.kill(st, ('p', p[1], oadd(p[2], (0, '+'))), tag)
                return
            if name and (name.startswith('llvm.') or name in self.m.decls if hasattr(self.m, 'decls') else True):
                return
            self.kill(st, None, tag)
            return
        for a in S.writes:
            obj, off = a
            if obj[0] == 'P':
                p = args[obj[1]] if obj[1] < len(args) else None
                if p is None or p[0] != 'p':
                    if p is not None and p[0] in ('null', 'k'):
                        continue
                    self.kill(st, None, tag)
                elif isinstance(off, int) and isinstance(p[2], int):
                    self.kill(st, ('p', p[1], p[2] + off), tag)
                else:
                    self.kill(st, ('p', p[1], oadd(p[2], (0, '+'))), tag)
            elif obj[0] == 'D':
                root = effects.root(obj)
                # content behind a pointer field: forget everything known behind loaded pointers
                for k in list(st.mem):
                    if k[0][0] in ('L', 'Q', 'X', 'M'):
                        st.mem[k] = ('u', ('hav', k) + tag)


def leaves(v, out=None):
    """atoms a value is built from"""
    out = set() if out is None else out
    if v[0] == 's':
        a = v[1]
        if a[0] == 'op':
            leaves(a[2], out)
            leaves(a[3], out)
        else:
            out.add(a)
    elif v[0] == 'u':
        out.add(v[1])
    return out


def poly(v, sub=None):
    """canonical polynomial {monomial: coefficient} of an integer value; None when not polynomial"""
    if v[0] == 'k':
        return {(): v[1]} if v[1] else {}
    if v[0] != 's':
        return None
    a, o = v[1], v[2]
    if sub and a in sub:
        r = {(): sub[a]} if sub[a] else {}
    elif a[0] == 'op' and a[1] in ('add', 'sub', 'mul'):
        x, y = poly(a[2], sub), poly(a[3], sub)
        if x is None or y is None:
            return None
        r = {}
        if a[1] == 'mul':
            for m1, c1 in x.items():
                for m2, c2 in y.items():
                    m = tuple(sorted(m1 + m2, key=repr))
                    r[m] = r.get(m, 0) + c1 * c2
        else:
            g = 1 if a[1] == 'add' else -1
            r = dict(x)
            for m, c in y.items():
                r[m] = r.get(m, 0) + g * c
    else:
        r = {(a,): 1}
    if o:
        r[()] = r.get((), 0) + o
    return {m: c for m, c in r.items() if c}


def unresolved(st):
    """does the path depend on something the domain does not model (loop-carried or loaded through unknown pointers)?"""
    def has(v):
        if isinstance(v, tuple):
            if v and v[0] in ('phi', 'ld', 'hav', 'big', 'ins', 'gep'):
                return True
            return any(has(x) for x in v)
        return False
    return any(has(a) for a in st.rng) or any(has(c) for c in st.tru)
