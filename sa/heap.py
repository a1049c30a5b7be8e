"""Path-sensitive heap typestate analysis (property simulation in the style of ESP).

Abstract states are tracked per program point as a small set: states that agree on the heap shape
(which allocations are live / freed, what every pointer variable and pointer field denotes) are
merged, keeping the branch facts common to them, so correlated conditions such as
`if (D > 0) x = malloc(..); ... if (D > 0) free(x);` stay exact.  Functions are summarised bottom-up
by their outcomes (what they allocate and hand over, what they free, what they store).

Pointer values: ('n',) null  ('o',oid,off) into object  ('u',) uninitialised  ('?',) unknown
                ('g',name) global  ('f',name) function
Objects: ('A',site..) allocated here or by a callee; ('P',k) what parameter k points to;
         ('D',oid,off) initial pointee of a pointer cell of an external object; ('S',reg) stack.
Integers: Poly over atoms interned in poly.py.
"""
from cfg import Cfg, sccs
from poly import Poly, atom, ATOMS, ZERO, ONE
import effects as _eff

NULL = ('n',)
UNDEF = ('u',)
UNK = ('?',)
NORETURN = {'exit', 'abort', '_exit', '__assert_fail'}
ALLOCF = {'malloc', 'calloc'}
STR_PURE = {'strcmp', 'strncmp', 'strlen'}
NEG = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq',
       'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}


def lin(p):
    """split poly into (linear part without constant, constant)"""
    c = p.t.get((), 0)
    if c:
        d = dict(p.t)
        d.pop((), None)
        return Poly(d), c
    return p, 0


# callers' guarantees used (and listed in the evidence of the checks that use this analysis)
NOTHING = frozenset([('n', 0)])    # marks a block that some path merged into this state never wrote
ASSUME = {('mixed_radix_dit_rec', 'N'): (1, None), ('linreg_multi', 'intercept'): (0, 1),
          ('as154x', 'd'): (0, None), ('as154x', 'D'): (0, None), ('cssx', 'd'): (0, None), ('cssx', 'D'): (0, None)}
# blocks whose filling depends on conditions outside the analysis: (function, block) -> why it is filled
FILLED = {('bfgs_l_min', 'sk'): 'bfgs_rec reads only the steps of earlier iterations, each stored at the end of its iteration',
          ('bfgs_l_min', 'yk'): 'as sk'}


class State:
    __slots__ = ('status', 'cells', 'init', 'env', 'facts', 'nes', 'trace', 'zero', 'strs')

    def __init__(self):
        self.status = {}    # A-oid -> 'L' | 'F' | 'E'
        self.cells = {}     # (oid, off) -> value
        self.init = {}      # A-oid -> frozenset of ('c',off) / ('r',off)
        self.env = {}
        self.facts = {}     # linear part -> constant c : part + c >= 0
        self.nes = frozenset()
        self.trace = ()
        self.zero = frozenset()   # zero-initialised objects

    def copy(self):
        s = State()
        s.status = dict(self.status)
        s.cells = dict(self.cells)
        s.init = dict(self.init)
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.nes = self.nes
        s.trace = self.trace
        s.zero = self.zero
        return s

    # ---- facts
    def add(self, p):
        """assume p >= 0; False when contradictory"""
        if p.is_const():
            return p.c0() >= 0
        L, c = lin(p)
        o = self.facts.get(L)
        if o is not None and o <= c:
            c = o
        n = self.facts.get(-L)
        if n is not None and n + c < 0:
            return False
        # integer tightening with disequalities
        ch = True
        while ch:
            ch = False
            for q in self.nes:
                M, k = lin(q)
                if M == L and k == c:      # L + c != 0 and L + c >= 0
                    c -= 1
                    ch = True
                elif M == -L and k == -c:
                    c -= 1
                    ch = True
            if ch and n is not None and n + c < 0:
                return False
        self.facts[L] = c
        if self.nes and len(L.t) == 1 and any(len(q.t) > 1 and self.pinned(q) for q in self.nes):
            return False
        return self._bounds_ok(L, c)

    def pinned(self, p):
        """the unit bounds force p == 0"""
        lo = hi = 0
        for m, k in p.t.items():
            if not m:
                lo, hi = lo + k, hi + k
                continue
            u = Poly({m: 1})
            a, b = self.facts.get(u), self.facts.get(-u)
            if a is None or b is None or -a != b:
                return False
            lo, hi = lo + k * b, hi + k * b
        return lo == 0 == hi

    def _bounds_ok(self, L, c):
        """L + c >= 0 against unit bounds on its atoms: sum of upper bounds"""
        s = c
        for m, k in L.t.items():
            mono = Poly({m: 1})
            b = None
            if k > 0:
                n = self.facts.get(-mono)    # -m + n >= 0 : m <= n
                b = n
            else:
                n = self.facts.get(mono)     # m + n >= 0 : m >= -n
                b = None if n is None else -n
            if b is None:
                if k < 0 and len(m) >= 1 and all(self.facts.get(Poly({(a,): 1}), 1) <= 0 for a in m):
                    b = 0                     # product of nonnegatives is >= 0
                else:
                    return True
            s += k * b
        return s >= 0

    def feasible(self, p):
        """may p >= 0 hold?"""
        if p.is_const():
            return p.c0() >= 0
        L, c = lin(p)
        n = self.facts.get(-L)
        if n is not None and n + c < 0:
            return False
        return self._bounds_ok(L, c)

    def add_ne(self, p):
        if len(p.t) > 1 and self.pinned(p):
            return False
        return self._add_ne(p)

    def _add_ne(self, p):
        if p.is_const():
            return p.c0() != 0
        L, c = lin(p)
        if self.facts.get(L) == c:
            if not self.add(p - 1):
                return False
        if self.facts.get(-L) == -c:
            if not self.add(-p - 1):
                return False
        a, b = self.facts.get(L), self.facts.get(-L)
        if a is not None and b is not None and a == -b and a == c:
            return False
        if p not in self.nes and -p not in self.nes:
            self.nes = self.nes | {p}
        return True

    def kill_atom(self, aid, name=None):
        for L in [L for L in self.facts if any(aid in m for m in L.t)]:
            del self.facts[L]
        if any(any(aid in m for m in q.t) for q in self.nes):
            self.nes = frozenset(q for q in self.nes if not any(aid in m for m in q.t))
        for k, v in list(self.env.items()):
            if isinstance(v, Poly) and k != name and any(aid in m for m in v.t):
                del self.env[k]
        for k, v in list(self.cells.items()):
            if isinstance(v, Poly) and any(aid in m for m in v.t):
                self.cells[k] = None      # unknown int


class Fl(float):
    """known floating-point constant held by an SSA value on this path"""


class Outcome:
    __slots__ = ('ret', 'objs', 'stores', 'frees', 'facts', 'nes', 'escaped', 'desc', 'noret')

    def key(self):
        return (self.ret if not isinstance(self.ret, Poly) or self.ret.is_const() else 'int', tuple(self.objs), tuple(sorted(self.stores.items(), key=repr)),
                tuple(sorted(self.frees, key=repr)))

    def trivial(self):
        return not self.objs and not self.frees and not any(isinstance(v, tuple) for v in self.stores.values())


class Finding:
    def __init__(self, kind, fn, ins, what, detail, trace):
        self.kind, self.fn, self.ins, self.what, self.detail, self.trace = kind, fn, ins, what, detail, trace


class Heap:
    MAXSTATES = 220
    MAXSTEPS = 60000

    def __init__(self, mod, eff, track_init=True):
        self.m, self.eff = mod, eff
        self.der = {}
        self.sum = {}        # fn -> list of Outcome, or None = neutral
        self.findings = {}
        self.undecided = []
        self.stats = {'functions': 0, 'allocation_sites': 0, 'free_sites': 0, 'paths_merged_states': 0, 'outcomes': 0,
                      'exit_states': 0}
        self.track_init = track_init
        self.noret = set()
        refs = {f: {g for g in eff.calls.get(f, ()) if g in mod.fns} for f in mod.fns}
        for comp in sccs(sorted(mod.fns), lambda n: refs[n]):
            for n in comp:
                self.sum[n] = None
            rounds = 2 if len(comp) > 1 or comp[0] in refs[comp[0]] else 1
            for _ in range(rounds):
                for n in comp:
                    FnHeap(self, mod.fns[n]).run()
                    self.der[n] = self.mustderef(mod.fns[n])

    def mustderef(self, fn):
        """pointer parameters (k) and pointer fields of parameters (k, off) dereferenced on every path that returns"""
        pidx = {n: k for k, (t, n) in enumerate(fn.params) if t == 'ptr'}

        def root(o, d=0):
            if o[0] != 'v' or d > 6:
                return None
            if o[1] in pidx:
                return (pidx[o[1]], 0)
            i = fn.defs.get(o[1])
            if i is None:
                return None
            if i.op == 'bitcast':
                return root(i.ops[0], d + 1)
            if i.op == 'gep':
                r = root(i.ops[0], d + 1)
                if r is None or len(r) > 2:
                    return (r[0], r[1], None) if r else None
                off = constoff(self.m, i)
                return None if r[1] is None else (r[0], None if off is None else r[1] + off)
            return None

        def ptr(o):
            """which (k) / (k, off) value is this pointer based on"""
            r = root(o)
            if r is not None:
                return r[0]
            for _ in range(6):
                i = fn.defs.get(o[1]) if o[0] == 'v' else None
                if i is None:
                    return None
                if i.op in ('gep', 'bitcast'):
                    o = i.ops[0]
                    continue
                if i.op == 'load':
                    r = root(i.ops[0])
                    return (r[0], r[1]) if r is not None and r[1] is not None else None
                return None
            return None

        cfg = Cfg(fn)
        gen = {}
        for b in cfg.order:
            g = set()
            for i in b.ins:
                if i.op in ('load', 'store'):
                    g.add(ptr(i.ops[0] if i.op == 'load' else i.ops[1]))
                elif i.op == 'call' and i.x[0][0] == 'g':
                    for x in self.der.get(i.x[0][1][1:], ()):
                        k = x if isinstance(x, int) else x[0]
                        if k < len(i.ops):
                            q = ptr(i.ops[k])
                            if isinstance(x, int):
                                g.add(q if root(i.ops[k]) is None or root(i.ops[k])[1] == 0 else None)
                            elif isinstance(q, int) and root(i.ops[k])[1] == 0:
                                g.add((q, x[1]))
            # a field store before the dereference makes it a different value
            gen[b] = g - {None}
        stored = set()
        for b in cfg.order:
            for i in b.ins:
                if i.op == 'store':
                    r = root(i.ops[1])
                    if r is not None:
                        stored.add((r[0], r[1]))
        D = {b: None for b in cfg.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(cfg.order):
                t = b.term
                ss = [D[x] for x in b.succ if x in D]
                if not b.succ:
                    new = set(gen[b]) if t.op == 'ret' else None
                else:
                    ss = [x for x in ss if x is not None]
                    new = None if not ss else set.intersection(*ss) | gen[b]
                if any(i.op == 'call' and i.x[0][0] == 'g' and (i.x[0][1][1:] in NORETURN or i.x[0][1][1:] in self.noret) for i in b.ins):
                    new = None
                if new != D[b]:
                    D[b] = new
                    ch = True
        r = D[cfg.order[0]] or set()
        return {x for x in r if isinstance(x, int) or x not in stored}

    def report(self, kind, fn, ins, what, detail, trace):
        k = (kind, fn.name, what)
        if k not in self.findings:
            self.findings[k] = Finding(kind, fn, ins, what, detail, trace)


def constoff(m, i):
    """constant byte offset of a gep instruction, or None"""
    off, first, cur = 0, True, i.x
    for ix in i.ops[1:]:
        if ix[0] != 'c':
            return None
        if first:
            off += ix[1] * m.size(cur)
            first = False
            continue
        t = m.structs[cur] if isinstance(cur, str) and cur.startswith('%') else cur
        if t[0] == 'struct':
            fo, cur = m.field_off(cur, ix[1])
            off += fo
        else:
            cur = t[2]
            off += ix[1] * m.size(cur)
    return off


class TooMany(Exception):
    pass


class FnHeap:
    def __init__(self, H, fn):
        self.H, self.fn, self.m = H, fn, H.m
        self.cfg = Cfg(fn)
        self.hdr = {l.header: l for l in self.cfg.loops}
        self.live = self.liveness()
        self.canret = self.returns()
        self.exits = []
        self.steps = 0
        self.final = False
        self.opcache = {}

    # ---- liveness of SSA names (for state merging)
    def liveness(self):
        use, dfn = {}, {}
        phiuse = {}
        for b in self.cfg.order:
            u, d = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    for v, bn in zip(i.ops, i.x):
                        if v[0] == 'v':
                            phiuse.setdefault(bn, set()).add(v[1])
                    d.add(i.res)
                    continue
                for o in self.operands(i):
                    if o not in d:
                        u.add(o)
                if i.res:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        li = {b: set() for b in self.cfg.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.cfg.order):
                out = set(phiuse.get(b.name, ()))
                for s in b.succ:
                    if s in li:
                        out |= li[s]
                n = use[b] | (out - dfn[b])
                if n != li[b]:
                    li[b] = n
                    ch = True
        # close over pure definitions: values recomputed on demand keep their sources alive
        src = {}

        def sources(v, d=0):
            r = src.get(v)
            if r is not None:
                return r
            src[v] = {v}
            i = self.fn.defs.get(v)
            r = {v}
            if i is not None and i.op in ('add', 'sub', 'mul', 'gep', 'sext', 'zext', 'trunc', 'icmp', 'xor', 'select', 'bitcast',
                                          'freeze', 'and', 'or', 'shl', 'sdiv', 'srem', 'ashr', 'lshr'):
                for o in self.operands(i):
                    r |= sources(o, d + 1)
            src[v] = r
            return r
        return {b: set().union(*[sources(v) for v in s]) if s else set() for b, s in li.items()}

    @staticmethod
    def operands(i):
        out = []

        def op(o):
            if o[0] == 'v':
                out.append(o[1])
            elif o[0] == 'gep':
                op(o[2])
                for x in o[3]:
                    op(x)
        for o in i.ops:
            op(o)
        if i.op == 'call':
            op(i.x[0])
        return out

    def returns(self):
        """blocks from which the function can still return (the others only lead to exit/abort)"""
        dead = set()
        for b in self.cfg.order:
            for i in b.ins:
                if i.op == 'call' and i.x[0][0] == 'g' and (i.x[0][1][1:] in NORETURN or i.x[0][1][1:] in self.H.noret):
                    dead.add(b)
        ok = {b for b in self.cfg.order if b not in dead and b.term.op == 'ret'}
        ch = True
        while ch:
            ch = False
            for b in self.cfg.order:
                if b not in ok and b not in dead and any(s in ok for s in b.succ):
                    ok.add(b)
                    ch = True
        return ok

    # ---- evaluation
    def opq(self, name):
        return Poly.of(atom('hs', (self.fn.name, name), self.m.varname(self.fn, name)))

    def ival(self, st, o):
        k = o[0]
        if k == 'c':
            return Poly.const(o[1])
        if k == 'undef':
            return UNDEF
        if k != 'v':
            return None
        n = o[1]
        v = st.env.get(n)
        if v is not None:
            return v
        i = self.fn.defs.get(n)
        if i is None:
            for kk, (t, pn) in enumerate(self.fn.params):
                if pn == n:
                    return Poly.of(atom('hp', (self.fn.name, kk), n.lstrip('%')))
            return self.opq(n)
        if i.op in ('add', 'sub', 'mul') and i.ty in ('i32', 'i64'):
            a, b = self.ival(st, i.ops[0]), self.ival(st, i.ops[1])
            if isinstance(a, Poly) and isinstance(b, Poly):
                r = a + b if i.op == 'add' else a - b if i.op == 'sub' else a * b
                if len(r.t) <= 12 and r.deg() <= 4:
                    return r
            return self.opq(n)
        if i.op in ('sext', 'zext', 'trunc', 'freeze'):
            if i.op == 'zext' and i.x == 'i1':
                t = self.truth(st, i.ops[0])
                if t is not None:
                    return Poly.const(int(t))
                return self.opq(n)
            r = self.ival(st, i.ops[0])
            return r if isinstance(r, Poly) else self.opq(n)
        if i.op == 'shl' and i.ops[1][0] == 'c':
            a = self.ival(st, i.ops[0])
            if isinstance(a, Poly):
                return a * (1 << i.ops[1][1])
        if i.op == 'select':
            t = self.truth(st, i.ops[0])
            if t is not None:
                return self.ival(st, i.ops[1] if t else i.ops[2])
        return self.opq(n)

    def pval(self, st, o):
        k = o[0]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'g':
            n = o[1][1:]
            if n in self.m.fns or o[1] in self.m.decls:
                return ('f', n)
            return ('o', ('G', o[1]), 0)
        if k == 'gep':
            b = self.pval(st, o[2])
            return self.gep(st, b, o[1], o[3])
        if k != 'v':
            return UNK
        n = o[1]
        v = st.env.get(n)
        if v is not None:
            return v
        i = self.fn.defs.get(n)
        if i is None:
            for kk, (t, pn) in enumerate(self.fn.params):
                if pn == n:
                    return ('o', ('P', kk), 0)
            return UNK
        if i.op == 'gep':
            return self.gep(st, self.pval(st, i.ops[0]), i.x, i.ops[1:])
        if i.op == 'alloca':
            return ('o', ('S', n), 0)
        if i.op in ('bitcast', 'freeze'):
            return self.pval(st, i.ops[0])
        if i.op == 'select':
            t = self.truth(st, i.ops[0])
            if t is not None:
                return self.pval(st, i.ops[1] if t else i.ops[2])
            a, b = self.pval(st, i.ops[1]), self.pval(st, i.ops[2])
            return a if a == b else ('?', 's')
        return UNK

    def gep(self, st, b, ty, idx):
        if b[0] != 'o':
            return b if b[0] in ('u', 'n', '?') else UNK
        off = b[2]
        cur, first, m = ty, True, self.m
        var = off is None
        o = 0
        for ix in idx:
            if first:
                first = False
                sz = m.size(cur)
                if ix[0] == 'c':
                    o += ix[1] * sz
                else:
                    var = True      # element chosen at run time, even when its value is known on this path
                continue
            t = m.structs[cur] if isinstance(cur, str) and cur.startswith('%') else cur
            if t[0] == 'struct':
                fo, cur = m.field_off(cur, ix[1])
                o += fo
            else:
                cur = t[2]
                if ix[0] == 'c':
                    o += ix[1] * m.size(cur)
                else:
                    var = True
        return ('o', b[1], None if var else off + o)

    # ---- conditions
    def truth(self, st, o):
        if o[0] == 'c':
            return bool(o[1])
        if o[0] != 'v':
            return None
        v = st.env.get(o[1])
        if isinstance(v, Poly) and v.is_const():
            return bool(v.c0())
        i = self.fn.defs.get(o[1])
        if i is None:
            return None
        if i.op == 'icmp':
            r = self.cmp(st, i)
            if r is None:
                return None
            kind, a = r
            if kind == 'const':
                return a
            s1 = self.feas(st, kind, a)
            s2 = self.feas(st, *self.negate(kind, a))
            if s1 and not s2:
                return True
            if s2 and not s1:
                return False
            return None
        if i.op == 'fcmp':
            a, b = (Fl(x[1]) if x[0] == 'f' else st.env.get(x[1]) if x[0] == 'v' else None for x in i.ops)
            if isinstance(a, Fl) and isinstance(b, Fl) and a == a and b == b:
                return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}.get(i.x[1:] if i.x[0] in 'ou' else '')
            return None
        if i.op == 'xor' and i.ops[1] == ('c', 1):
            t = self.truth(st, i.ops[0])
            return None if t is None else not t
        if i.op == 'freeze':
            return self.truth(st, i.ops[0])
        if i.op == 'select' and i.ty == 'i1':
            t = self.truth(st, i.ops[0])
            if t is not None:
                return self.truth(st, i.ops[1] if t else i.ops[2])
        if i.op in ('and', 'or'):
            a, b = self.truth(st, i.ops[0]), self.truth(st, i.ops[1])
            if i.op == 'and':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        return None

    @staticmethod
    def feas(st, kind, a):
        if kind == 'ge':
            return st.feasible(a)
        if kind == 'eq':
            if not (st.feasible(a) and st.feasible(-a)):
                return False
            return not (a in st.nes or -a in st.nes)
        if kind == 'ne':
            if a.is_const():
                return a.c0() != 0
            L, c = lin(a)
            x, y = st.facts.get(L), st.facts.get(-L)
            return not (x is not None and y is not None and x == -y and x == c)
        return True

    @staticmethod
    def negate(kind, a):
        if kind == 'ge':
            return 'ge', -a - 1
        return ('ne' if kind == 'eq' else 'eq'), a

    def nullcond(self, st, p):
        """nullness of pointer value: True null, False non-null, Poly atom when symbolic, None unknown"""
        if p == NULL:
            return True
        if p[0] in ('f', 'g'):
            return False
        if p[0] == 'o':
            ob = p[1]
            if ob[0] in ('A', 'S', 'G'):
                return False
            if p[2] != 0:
                return False
            return Poly.of(atom('hn', (self.fn.name, ob), 'isnull(%s)' % (ob,)))
        return None

    def cmp(self, st, i):
        a, b = i.ops
        pr = i.x
        if i.ty == 'ptr':
            if pr not in ('eq', 'ne'):
                return None
            p, q = self.pval(st, a), self.pval(st, b)
            if p == NULL:
                p, q = q, p
            if q == NULL:
                n = self.nullcond(st, p)
                if n is None:
                    return None
                if isinstance(n, Poly):
                    return ('eq', n - 1) if pr == 'eq' else ('eq', n)
                return ('const', n == (pr == 'eq'))
            if p[0] == 'o' and q[0] == 'o' and p[2] is not None and q[2] is not None and p[1][0] in 'AS' and q[1][0] in 'AS':
                return ('const', ((p[1], p[2]) == (q[1], q[2])) == (pr == 'eq'))
            for x, y in ((p, q), (q, p)):
                # a fresh, unshared allocation never equals a pointer obtained elsewhere
                if x[0] == 'o' and x[1][0] == 'A' and st.status.get(x[1]) == 'L' and (y == UNK or y[0] == 'o' and y[1] != x[1]):
                    return ('const', pr == 'ne')
            return None
        if b == ('c', 0) and pr in ('ne', 'eq') and a[0] == 'v':
            d = self.fn.defs.get(a[1])
            if d is not None and d.op in ('zext', 'sext') and d.x == 'i1':
                t = self.truth(st, d.ops[0])
                if t is not None:
                    return ('const', t == (pr == 'ne'))
                c = self.defcmp(st, d.ops[0])
                if c is not None:
                    return c if pr == 'ne' or c[0] == 'const' else self.negate(*c)
                return None
        x, y = self.ival(st, a), self.ival(st, b)
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return None
        x, y = self.fixed(st, x), self.fixed(st, y)
        if pr in ('slt', 'ult'):
            return 'ge', y - x - 1
        if pr in ('sle', 'ule'):
            return 'ge', y - x
        if pr in ('sgt', 'ugt'):
            return 'ge', x - y - 1
        if pr in ('sge', 'uge'):
            return 'ge', x - y
        return ('eq' if pr == 'eq' else 'ne'), x - y

    @staticmethod
    def fixed(st, p):
        """replace atoms that occur in products and that the facts pin to one value"""
        if not any(len(m) > 1 for m in p.t):
            return p
        val = {}
        for m in p.t:
            if len(m) > 1:
                for a in m:
                    u = Poly({(a,): 1})
                    lo, hi = st.facts.get(u), st.facts.get(-u)
                    if lo is not None and hi is not None and -lo == hi:
                        val[a] = hi
        if not val:
            return p
        t = {}
        for m, c in p.t.items():
            k = []
            for a in m:
                if len(m) > 1 and a in val:
                    c = c * val[a]
                else:
                    k.append(a)
            k = tuple(k)
            t[k] = t.get(k, 0) + c
        return Poly({k: c for k, c in t.items() if c})

    def defcmp(self, st, o):
        i = self.fn.defs.get(o[1]) if o[0] == 'v' else None
        if i is not None and i.op == 'icmp':
            return self.cmp(st, i)
        return None

    def assume(self, st, o, truth):
        """refine st with i1 operand o == truth; False when infeasible"""
        t = self.truth(st, o)
        if t is not None:
            return t == truth
        if o[0] != 'v':
            return True
        i = self.fn.defs.get(o[1])
        if i is None:
            return True
        st.env[o[1]] = Poly.const(int(truth))
        if i.op == 'icmp':
            b = i.ops[1]
            a = i.ops[0]
            if b == ('c', 0) and i.x in ('ne', 'eq') and a[0] == 'v':
                d = self.fn.defs.get(a[1])
                if d is not None and d.op in ('zext', 'sext') and d.x == 'i1':
                    return self.assume(st, d.ops[0], truth == (i.x == 'ne'))
            del st.env[o[1]]
            r = self.cmp(st, i)
            if r is None:
                st.env[o[1]] = Poly.const(int(truth))
                return True
            if r[0] == 'const':
                return r[1] == truth
            kind, p = r if truth else self.negate(*r)
            if kind == 'ge':
                return st.add(p)
            if kind == 'eq':
                if p in st.nes or -p in st.nes:
                    return False
                return st.add(p) and st.add(-p)
            return st.add_ne(p)
        if i.op == 'xor' and i.ops[1] == ('c', 1):
            return self.assume(st, i.ops[0], not truth)
        if i.op == 'freeze':
            return self.assume(st, i.ops[0], truth)
        if i.op in ('and', 'select') and i.ty == 'i1':
            if truth and (i.op == 'and' or i.ops[2] == ('c', 0)):
                return self.assume(st, i.ops[0], True) and self.assume(st, i.ops[1], True)
            if not truth and i.op == 'select' and i.ops[1] == ('c', 1):
                return self.assume(st, i.ops[0], False) and self.assume(st, i.ops[2], False)
        if i.op == 'or' and not truth:
            return self.assume(st, i.ops[0], False) and self.assume(st, i.ops[1], False)
        return True

    # ---- memory
    def loadcell(self, st, ob, off, ty, ins):
        """value of pointer/int cell"""
        if off is None:
            if ty == 'ptr':
                # element of a container we do not index
                for (o2, f2), v in st.cells.items():
                    if o2 == ob and isinstance(v, tuple) and v[0] == 'o':
                        return UNK
            return None
        v = st.cells.get((ob, off), 0)
        if v != 0:
            return v
        if ob[0] in ('P', 'D', 'G'):
            if ob[0] == 'G' and self.m.globals.get(ob[1]) is not None and self.m.globals[ob[1]].const:
                return None if ty != 'ptr' else UNK
            if ty == 'ptr':
                d = 0
                x = ob
                while x[0] == 'D':
                    d += 1
                    x = x[1]
                v = ('o', ('D', ob, off), 0) if d < 3 else UNK
            else:
                v = Poly.of(atom('hc', (self.fn.name, ob, off), '%s[%s]' % (ob, off)))
            st.cells[(ob, off)] = v
            return v
        return None

    def mark_init(self, st, ob, off, size=None):
        s = st.init.get(ob)
        if s is None:
            return
        if off is None:
            if ('r', 0) not in s or NOTHING <= s:
                st.init[ob] = frozenset([('r', 0)])
        else:
            s = s - NOTHING
            if ('c', off) not in s and not any(t == 'r' and off >= o for t, o in s):
                st.init[ob] = s | {('c', off)}
            elif s != st.init[ob]:
                st.init[ob] = s

    def is_init(self, st, ob, off):
        s = st.init.get(ob)
        if s is None or ob in st.zero:
            return True
        if off is None:
            return not NOTHING <= s
        return any((t == 'c' and o == off) or (t == 'r' and off >= o) for t, o in s)

    def use(self, st, p, ins, what):
        """pointer dereferenced"""
        if p == UNDEF:
            self.bad('uninit-pointer', st, ins, what, 'an uninitialised pointer is used')
            return False
        if p == NULL:
            self.bad('null-deref', st, ins, what, 'a null pointer set by the library itself is dereferenced')
            return False
        if p[0] == 'o':
            s = st.status.get(p[1])
            if s == 'F':
                self.bad('use-after-free', st, ins, what, 'memory already released is used')
                return False
        return True

    def bad(self, kind, st, ins, what, text):
        self.H.report(kind, self.fn, ins, what, text, st.trace)

    def vname(self, o):
        if o[0] == 'v':
            n = self.m.varname(self.fn, o[1])
            i = self.fn.defs.get(o[1])
            if n == o[1].lstrip('%') and i is not None and i.op == 'gep':
                return self.vname(i.ops[0])
            if n == o[1].lstrip('%') and i is not None and i.op == 'load':
                g = self.fn.defs.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
                if g is not None and g.op == 'gep':
                    t = g.x
                    if isinstance(t, str) and t.startswith('%struct') and len(g.ops) >= 3 and g.ops[2][0] == 'c':
                        try:
                            fo, _ = self.m.field_off(t, g.ops[2][1])
                            return self.vname(g.ops[0]) + '->' + str(self.m.field_name(t, fo))
                        except Exception:
                            pass
            return n
        return str(o[-1])

    def objname(self, oid):
        """stable description of an allocation"""
        if oid[0] == 'A':
            site = oid[1]
            ins = site[0]
            n = self.target_name(ins)
            sub = '' if len(oid) < 3 or oid[2] == 0 else '#%s' % oid[2]
            return n + sub
        if oid[0] == 'P':
            return '*' + self.fn.params[oid[1]][1].lstrip('%')
        if oid[0] == 'D':
            return '*(%s+%s)' % (self.objname(oid[1]), oid[2])
        return str(oid[-1])

    def target_name(self, ins):
        """source variable (or field) an allocation is first assigned to"""
        n = self.m.varname(self.fn, ins.res) if ins.res else ''
        if ins.res and n == ins.res.lstrip('%'):
            for j in self.fn.instrs():
                if j.op == 'store' and j.ops[0] == ('v', ins.res):
                    q = j.ops[1]
                    if q[0] == 'v':
                        g = self.fn.defs.get(q[1])
                        if g is not None and g.op == 'gep' and isinstance(g.x, str) and g.x.startswith('%struct') and len(g.ops) >= 3:
                            fo, _ = self.m.field_off(g.x, g.ops[2][1])
                            return self.vname(g.ops[0]) + '->' + str(self.m.field_name(g.x, fo))
                        if g is not None and g.op == 'gep':
                            return self.vname(g.ops[0]) + '[]'
                if j.op == 'phi' and ('v', ins.res) in j.ops:
                    return self.m.varname(self.fn, j.res)
            if ins.op == 'call' and ins.x[0][0] == 'g':
                return 'result of ' + ins.x[0][1][1:]
        return n

    # ---- liveness of objects inside a state
    def reach(self, st, live, extra=()):
        seen = set()
        work = []
        for k, v in st.env.items():
            if k in live and isinstance(v, tuple) and v[0] == 'o':
                work.append(v[1])
        for v in extra:
            if isinstance(v, tuple) and v[0] == 'o':
                work.append(v[1])
        byobj = {}
        for (ob, off), v in st.cells.items():
            if isinstance(v, tuple) and v[0] == 'o':
                if ob[0] in ('P', 'D', 'G', 'S'):
                    work.append(v[1])
                byobj.setdefault(ob, []).append(v[1])
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            work.extend(byobj.get(o, ()))
        return seen

    # ---- state keys and merging
    def key(self, st, b=None):
        """heap shape: offsets, integer contents and initialisation are merged, not distinguished"""
        cells = []
        fr = st.status
        for (ob, off), v in st.cells.items():
            if isinstance(v, tuple):
                if v[0] == 'o':
                    o = v[1]
                    if o[0] == 'D' and o == ('D', ob, off):
                        continue
                    v = 'freed' if fr.get(o) == 'F' else o
                cells.append((ob, off, v))
        env = []
        for k, v in st.env.items():
            if isinstance(v, tuple):
                if v[0] == 'o':
                    v = 'freed' if fr.get(v[1]) == 'F' else v[1]
                env.append((k, v))
        # second run (see fix): blocks written on one path only keep the paths apart
        raw = frozenset(o for o in self.split if NOTHING <= st.init.get(o, frozenset())) if self.split and (b is None or b in self.splitb) else None
        return (frozenset((k, s) for k, s in st.status.items() if s != 'F' or k[0] in 'PD'), frozenset(cells), frozenset(env), raw)

    @staticmethod
    def join2(v, w):
        """join of two pointer values with the same key"""
        if v == w:
            return v
        if v[0] == 'o' and w[0] == 'o' and v[1] == w[1]:
            return ('o', v[1], None)
        return v

    def merge(self, a, b, widen=False):
        """merge b into a (same key); returns True when a changed"""
        ch = False
        for k in list(a.env):
            v = a.env[k]
            w = b.env.get(k)
            if v != w:
                if isinstance(v, (Poly, Fl)) or w is None:
                    del a.env[k]
                    ch = True
                    if isinstance(v, Poly):
                        # keep the value's range as bounds on the opaque value
                        at = Poly.of(atom('hs', (self.fn.name, k), self.m.varname(self.fn, k)))
                        lo, hi = self.low(a, v), self.low(a, -v)
                        if lo is not None and at not in a.facts:
                            a.facts[at] = -lo
                        if hi is not None and -at not in a.facts:
                            a.facts[-at] = -hi
                elif isinstance(w, tuple):
                    j = self.join2(v, w)
                    if j != v:
                        a.env[k] = j
                        ch = True
        for k in list(a.cells):
            v = a.cells[k]
            w = b.cells.get(k, 0)
            if w == 0:
                if k[0][0] in ('P', 'D', 'G'):
                    # lazily created initial value
                    init = self.initial(k, v)
                    if v == init:
                        continue
                if v is not None and not isinstance(v, tuple):
                    a.cells[k] = None
                    ch = True
                continue
            if v != w and v is not None:
                if isinstance(v, Poly) or isinstance(w, Poly) or w is None:
                    a.cells[k] = None
                    ch = True
                else:
                    j = self.join2(v, w)
                    if j != v:
                        a.cells[k] = j
                        ch = True
        for o, x in b.init.items():
            y = a.init.get(o)
            if y is not None and not x <= y:
                a.init[o] = self.widen_init(x | y)
                ch = True
        for k, w in b.cells.items():
            if k not in a.cells:
                if k[0][0] in ('P', 'D', 'G') and w == self.initial(k, w):
                    continue
                a.cells[k] = None if not isinstance(w, tuple) else w
                ch = True
        for L in list(a.facts):
            c = a.facts[L]
            d = b.facts.get(L)
            if d is None:
                d = self.constfact(b, L)
            if d is None:
                del a.facts[L]
                ch = True
            elif d > c:
                if widen:
                    del a.facts[L]
                else:
                    a.facts[L] = d
                ch = True
        n = a.nes & b.nes
        if n != a.nes:
            keep = set(n)
            for q in a.nes - n:
                # q != 0 holds in b when implied by strict bounds
                L, c = lin(q)
                if (b.facts.get(L) is not None and b.facts[L] < c) or (b.facts.get(-L) is not None and b.facts[-L] < -c):
                    keep.add(q)
            if frozenset(keep) != a.nes:
                a.nes = frozenset(keep)
                ch = True
        for q in b.nes - a.nes:
            L, c = lin(q)
            # strict bound in a implies q != 0 too: remember it when a's bound was dropped
            pass
        return ch

    def constfact(self, st, L):
        """bound c (L + c >= 0) implied by the values the state holds for the atoms of L"""
        p = Poly.const(0)
        for m, co in L.t.items():
            if len(m) != 1:
                return None
            A = ATOMS[m[0]]
            v = st.env.get(A.key[1]) if A.kind == 'hs' and A.key[0] == self.fn.name else None
            p = p + (v * co if isinstance(v, Poly) else Poly({m: co}))
        lo = self.low(st, p)
        return None if lo is None else -lo

    @staticmethod
    def low(st, p):
        """constant lower bound of p in st, from unit bounds"""
        if p.is_const():
            return p.c0()
        L, c = lin(p)
        f = st.facts.get(L)
        if f is not None:
            return c - f
        tot = c
        for m, k in L.t.items():
            f = st.facts.get(Poly({m: 1 if k > 0 else -1}))
            if f is None:
                return None
            tot += abs(k) * -f
        return tot

    @staticmethod
    def widen_init(x):
        if len(x) > 24 and any(o > 512 for t, o in x):
            return frozenset([('r', 0)]) | (x & NOTHING)
        return x

    def initial(self, k, v):
        ob, off = k
        if isinstance(v, tuple):
            return ('o', ('D', ob, off), 0)
        return Poly.of(atom('hc', (self.fn.name, ob, off), '%s[%s]' % (ob, off)))

    # ---- main loop
    def run(self):
        H = self.H
        H.stats['functions'] += 1
        fn = self.fn
        st = State()
        st.trace = ()
        for k, (t, n) in enumerate(fn.params):
            lo = ASSUME.get((fn.name, H.m.varname(fn, n)))
            if lo is not None and t in ('i32', 'i64'):
                v = self.ival(st, ('v', n))
                st.add(v - Poly.const(lo[0]))
                if lo[1] is not None:
                    st.add(Poly.const(lo[1]) - v)
        self.loopw = {}      # object -> headers of loops some iteration of which writes it
        self.loopx = {}
        self.split = ()
        bad = self.fix(st.copy())
        if bad is None:
            H.undecided.append('%s: too many abstract states' % fn.name)
            H.sum[fn.name] = None
            return
        if bad:
            # second run: a loop that fills a block leaves it filled even when it runs zero times (zero elements), and
            # paths on which the blocks in question are unwritten are kept apart
            for ob, hs in self.loopw.items():
                for h in hs:
                    self.loopx.setdefault(h, set()).add(ob)
            keep = self.table, self.exits, dict(H.findings), dict(H.stats)
            obs = sorted({ob for _, _, l in bad for ob, _ in l}, key=str)
            res, first = [], {}
            for group in [obs] + ([[o] for o in obs] if len(obs) > 1 else []):
                self.exits = []
                self.split = set(group)
                # blocks from which a suspicious read can still be reached
                self.splitb = {i.bb for i, _, l in bad if any(x[0] in self.split for x in l)}
                ch = True
                while ch:
                    ch = False
                    for b in self.cfg.order:
                        if b not in self.splitb and any(x in self.splitb for x in b.succ):
                            self.splitb.add(b)
                            ch = True
                r = self.fix(st.copy())
                if r is not None:
                    res += [(ins, what, [x for x in l if x[0] in self.split]) for ins, what, l in r
                            if any(x[0] in self.split for x in l)]
                    if group is obs:
                        break
                elif group is not obs or len(obs) == 1:
                    H.undecided.append('%s: initialisation of %s: too many abstract states' % (fn.name, self.objname(group[0])))
            self.table, self.exits, H.findings, H.stats = keep
            self.split = ()
            for ins, what, l in res:
                if (fn.name, what.split('[')[0]) in FILLED or (ins, what) in first:
                    continue
                first[ins, what] = 1
                self.bad('uninit-field', l[0][1], ins, what, 'memory never written since its allocation is read')
        H.stats['paths_merged_states'] += sum(len(v) for v in self.table.values())
        self.summarise()

    def fix(self, st):
        """run to a fixpoint; the reads of unwritten memory, or None when there are too many states"""
        self.table = {}
        self.steps = 0
        work = []
        self.push(work, self.cfg.order[0], st, None)
        try:
            while work:
                work.sort(key=lambda x: -self.cfg.num[x[0]])
                b, key = work.pop()
                st = self.table[b].get(key)
                if st is None:
                    continue
                self.steps += 1
                if self.steps > self.H.MAXSTEPS:
                    raise TooMany()
                self.block(work, b, st.copy())
        except TooMany:
            return None
        return self.initreads()

    def filled(self, o, x):
        """what callers are told: a block some loop fills counts as written"""
        return x - NOTHING if o in self.loopw else x

    def initreads(self):
        """second pass over the final states: reads of memory no path has written since its allocation"""
        self.final = True
        self.reads = {}
        ex = self.exits
        self.exits = []
        for b in self.cfg.order:
            for st in list(self.table.get(b, {}).values()):
                self.block(None, b, st.copy())
        self.exits = ex
        self.final = False
        out = []
        for (ins, what), l in self.reads.items():
            badl = [(ob, st) for ob, ok, st in l if not ok]
            if badl:
                out.append((ins, what, badl))
        return out

    def callreads(self, st, i, S, args):
        """memory handed to a callee that only reads it must have been written"""
        written = {}
        for ob, off in S.writes:
            if ob[0] == 'P':
                written.setdefault(ob[1], []).append(off)
        for ob, off in S.reads:
            if ob[0] != 'P' or ob[1] >= len(args) or off == 'free':
                continue
            p = args[ob[1]]
            if not isinstance(p, tuple) or p[0] != 'o' or p[1][0] != 'A' or p[1] not in st.init:
                continue
            w = written.get(ob[1], ())
            one = isinstance(off, int) and p[2] is not None
            if any(w == 'free' or not one or not isinstance(x, int) or x == off for x in w):
                continue
            self.readinit(st, (p[0], p[1], p[2] + off if one else None), i, self.vname(i.ops[ob[1]]) + ('->+%d' % off if one and off else ''))

    def readinit(self, st, p, i, what=None):
        k = (i, what or self.fieldname(i.ops[0], p))
        self.reads.setdefault(k, []).append((p[1], self.is_init(st, p[1], p[2]), st))

    def push(self, work, b, st, pred):
        if work is None:
            return
        if self.loopx and pred is not None:
            for l in self.cfg.loops_of(pred):
                if b not in l.blocks:
                    for ob in self.loopx.get(l.header, ()):
                        s = st.init.get(ob)
                        if s is not None and NOTHING <= s:
                            st.init[ob] = s - NOTHING
        # phis
        live = self.live[b]
        vals = {}
        if pred is not None:
            for i in b.phis():
                for v, bn in zip(i.ops, i.x):
                    if bn == pred.name:
                        if i.ty == 'ptr':
                            vals[i.res] = self.pval(st, v)
                        elif i.ty in ('i32', 'i64', 'i1', 'i8', 'i16'):
                            if i.ty == 'i1':
                                t = self.truth(st, v)
                                vals[i.res] = Poly.const(int(t)) if t is not None else None
                            else:
                                vals[i.res] = self.ival(st, v)
                        elif v[0] == 'undef':
                            vals[i.res] = UNDEF
                        else:
                            w = Fl(v[1]) if v[0] == 'f' else st.env.get(v[1]) if v[0] == 'v' else None
                            vals[i.res] = w if w == UNDEF or isinstance(w, Fl) else None
                        break
            # redefinition kills old opaque meaning
            aids = {n: atom('hs', (self.fn.name, n), self.m.varname(self.fn, n)).id for n in vals}
            redef = {aids[n] for n, v in vals.items() if not (isinstance(v, Poly) and v == Poly({(aids[n],): 1}))}
            rngs, shifts = {}, {}
            for n, v in vals.items():
                a = aids[n]
                if a not in redef or not isinstance(v, Poly):
                    continue
                sh = v - Poly({(a,): 1})
                if sh.is_const():
                    shifts[a] = sh.c0()
                elif any(x in redef for m in v.t for x in m):
                    rngs[a] = self.low(st, v), self.low(st, -v)
            kept = []
            for L, c in st.facts.items():
                # n := n + c : bounds move along
                hit = {x for m in L.t for x in m} & redef
                if hit and all(x in shifts for x in hit) and all(len(m) == 1 or not (set(m) & redef) for m in L.t):
                    kept.append((L, c - sum(L.t.get((x,), 0) * shifts[x] for x in hit)))
            for n in vals:
                st.env.pop(n, None)
                if aids[n] in redef:
                    self.killa(st, aids[n])
            st.facts.update(kept)
            for a, (lo, hi) in rngs.items():
                if lo is not None:
                    st.facts[Poly({(a,): 1})] = -lo
                if hi is not None:
                    st.facts[Poly({(a,): -1})] = -hi
            for n, v in vals.items():
                if v is None:
                    continue
                if isinstance(v, Poly) and any(x in redef or x == aids[n] for m in v.t for x in m):
                    continue
                st.env[n] = v
            if b in self.hdr and pred in self.hdr[b].blocks:
                self.backedge(st, self.hdr[b])
        for k in [k for k in st.env if k not in live and k not in vals]:
            del st.env[k]
        self.gc(st, live | set(vals), b)
        key = self.key(st, b)
        t = self.table.setdefault(b, {})
        if key in t:
            old = t[key]
            if self.merge(old, st, b in self.hdr and pred in self.hdr[b].blocks):
                work.append((b, key))
        else:
            if len(t) >= self.H.MAXSTATES:
                raise TooMany()
            t[key] = st
            work.append((b, key))

    def killa(self, st, aid):
        st.kill_atom(aid)

    def backedge(self, st, loop):
        """forget facts about values recomputed in the loop"""
        names = set()
        for bl in loop.blocks:
            for i in bl.ins:
                if i.res:
                    names.add(i.res)
        hd = {i.res for i in loop.header.phis()}
        names -= hd
        for k in hd:
            v = st.env.get(k)
            if isinstance(v, Poly) and any(ATOMS[a].kind == 'hs' and ATOMS[a].key[0] == self.fn.name and ATOMS[a].key[1] in names
                                           for m in v.t for a in m):
                lo, hi = self.low(st, v), self.low(st, -v)
                at = Poly.of(atom('hs', (self.fn.name, k), self.m.varname(self.fn, k)))
                del st.env[k]
                if lo is not None:
                    st.facts[at] = -lo
                if hi is not None:
                    st.facts[-at] = -hi
        bad = set()
        for L in list(st.facts):
            for m in L.t:
                for a in m:
                    A = ATOMS[a]
                    if A.kind == 'hs' and A.key[0] == self.fn.name and A.key[1] in names:
                        bad.add(L)
        for L in bad:
            del st.facts[L]
        if st.nes:
            st.nes = frozenset(q for q in st.nes if not any(
                ATOMS[a].kind == 'hs' and ATOMS[a].key[0] == self.fn.name and ATOMS[a].key[1] in names for m in q.t for a in m))
        for k in list(st.env):
            if k in names and k not in hd:
                i = self.fn.defs[k]
                # loaded values and opaque flags of the previous iteration
                if isinstance(st.env[k], Poly) and k not in self.live[loop.header]:
                    del st.env[k]

    def gc(self, st, live, b, ins=None):
        """unreachable live allocation = leak; drop freed unreachable objects"""
        alive = [o for o, s in st.status.items() if s in 'LF']
        if not alive:
            return
        r = self.reach(st, live)
        for o in alive:
            if o not in r:
                if st.status[o] == 'L' and b in self.canret:
                    self.leak(st, o, b)
                self.drop(st, o)

    def drop(self, st, o):
        st.status.pop(o, None)
        st.init.pop(o, None)
        st.zero = st.zero - {o}
        for k in [k for k in st.cells if k[0] == o]:
            del st.cells[k]

    def leak(self, st, o, b):
        ins = o[1][0]
        self.H.report('leak', self.fn, ins, self.objname(o), 'memory allocated at %s is neither released nor handed over on a path through %s' % (
            self.m.loc(ins), self.m.loc(b.ins[0]) if b.ins else '?'), st.trace + (('lost at', b.ins[0] if b.ins else None),))

    def wrote(self, ob, b):
        for l in self.cfg.loops_of(b):
            self.loopw.setdefault(ob, set()).add(l.header)

    def block(self, work, b, st):
        self.cur = b
        for i in b.ins:
            if i.op == 'phi':
                continue
            r = self.step(st, i, b)
            if r is False:
                return
            if isinstance(r, list):
                # several outcomes of a call: continue each separately
                rest = b.ins[i.idx + 1:] if i.idx >= 0 and b.ins[i.idx] is i else b.ins[b.ins.index(i) + 1:]
                for s2 in r:
                    self.rest(work, b, s2, rest)
                return
        self.terminate(work, b, st)

    def rest(self, work, b, st, seq):
        self.cur = b
        for k, i in enumerate(seq):
            r = self.step(st, i, b)
            if r is False:
                return
            if isinstance(r, list):
                for s2 in r:
                    self.rest(work, b, s2, seq[k + 1:])
                return
        self.terminate(work, b, st)

    def terminate(self, work, b, st):
        t = b.term
        if t.op == 'br':
            if not t.ops:
                self.push(work, self.fn.bmap[t.x[0]], st, b)
                return
            c = t.ops[0]
            self.checkint(st, c, t, 'branch condition')
            for k, truth in ((0, True), (1, False)):
                s = st.copy()
                if self.assume(s, c, truth):
                    line = self.m.loc(t)
                    s.trace = (s.trace + ((line, 'taken' if truth else 'not taken'),))[-14:]
                    self.push(work, self.fn.bmap[t.x[k]], s, b)
            return
        if t.op == 'switch':
            v = self.ival(st, t.ops[0])
            dflt, cases = t.x
            for c, lab in cases:
                s = st.copy()
                if isinstance(v, Poly):
                    d = v - c
                    if not (self.feas(s, 'eq', d) and s.add(d) and s.add(-d)):
                        continue
                s.trace = (s.trace + ((self.m.loc(t), 'case %d' % c),))[-14:]
                self.push(work, self.fn.bmap[lab], s, b)
            s = st.copy()
            ok = True
            if isinstance(v, Poly):
                for c, _ in cases:
                    if not s.add_ne(v - c):
                        ok = False
                        break
            if ok:
                self.push(work, self.fn.bmap[dflt], s, b)
            return
        if t.op == 'ret':
            ret = None
            if t.ops:
                ret = self.pval(st, t.ops[0]) if t.ty == 'ptr' else (self.ival(st, t.ops[0]) if t.ty in ('i32', 'i64') else None)
                if ret == UNDEF or (t.ops[0][0] == 'undef' and t.ty != 'void'):
                    self.bad('uninit-value', st, t, 'return value', 'an indeterminate value is returned')
                if t.ops[0][0] == 'v' and st.env.get(t.ops[0][1]) == UNDEF:
                    self.bad('uninit-value', st, t, self.vname(t.ops[0]), 'an indeterminate value is returned')
            self.exits.append((st, ret, t))

    def checkint(self, st, o, ins, what):
        """use of a possibly indeterminate scalar"""
        seen = set()

        def go(o, d):
            if o[0] == 'undef':
                return ('undef',)
            if o[0] != 'v' or o[1] in seen or d > 12:
                return None
            seen.add(o[1])
            if st.env.get(o[1]) == UNDEF:
                return o
            i = self.fn.defs.get(o[1])
            if i is None or i.op in ('phi', 'load', 'call', 'alloca') or o[1] in st.env:
                return None
            for x in i.ops:
                r = go(x, d + 1)
                if r:
                    return r
            return None
        r = go(o, 0)
        if r:
            self.bad('uninit-value', st, ins, self.vname(r) if r[0] == 'v' else 'undefined', 'an indeterminate value reaches a %s' % what)
            # report once per path: make it determinate from here on
            if r[0] == 'v':
                st.env.pop(r[1], None)

    def newobj(self, st, ins, k=0, zero=False):
        oid = ('A', (ins,), k)
        if oid in st.status:
            # re-executed site: the previous instance keeps a summary identity
            old = ('A', (ins, 'prev'), k)
            self.rename(st, oid, old)
        st.status[oid] = 'L'
        st.init[oid] = NOTHING
        if zero:
            st.zero = st.zero | {oid}
        return oid

    def rename(self, st, a, b):
        s = st.status.pop(a)
        if b in st.status:
            # two or more old instances: no longer individually tracked
            s = 'E'
        st.status[b] = s
        st.init.pop(a, None)
        st.init.pop(b, None)
        for k, v in list(st.env.items()):
            if isinstance(v, tuple) and v[0] == 'o' and v[1] == a:
                st.env[k] = ('o', b, v[2])
        for k, v in list(st.cells.items()):
            if isinstance(v, tuple) and v[0] == 'o' and v[1] == a:
                v = ('o', b, v[2])
                st.cells[k] = v
            if k[0] == a:
                del st.cells[k]
                st.cells[(b, k[1])] = v

    def step(self, st, i, b):
        op = i.op
        if i.res:
            n = i.res
            if n in st.env:
                del st.env[n]
            A = _lookup('hs', (self.fn.name, n))
            if A is not None:
                st.kill_atom(A.id)
        if op == 'load':
            p = self.pval(st, i.ops[0])
            if not self.use(st, p, i, self.vname(i.ops[0])):
                return False
            if p[0] == 'o':
                if self.final and p[1][0] == 'A' and p[1] in st.init:
                    self.readinit(st, p, i)
                if i.ty == 'ptr':
                    v = self.loadcell(st, p[1], p[2], 'ptr', i)
                    st.env[i.res] = v if isinstance(v, tuple) else UNK
                    if p[1] in st.zero and v is None and p[2] is not None:
                        st.env[i.res] = NULL
                elif i.ty in ('i32', 'i64'):
                    v = self.loadcell(st, p[1], p[2], i.ty, i)
                    if isinstance(v, Poly):
                        st.env[i.res] = v
                    elif p[2] is not None and v is None and (p[1], p[2]) in st.cells:
                        # give the cell the name of this load
                        st.cells[(p[1], p[2])] = self.opq(i.res)
                        st.env[i.res] = self.opq(i.res)
            elif i.ty == 'ptr':
                st.env[i.res] = UNK
            return True
        if op == 'store':
            p = self.pval(st, i.ops[1])
            if not self.use(st, p, i, self.vname(i.ops[1])):
                return False
            if i.ty != 'ptr':
                self.checkint(st, i.ops[0], i, 'store')
            if p[0] == 'o':
                ob, off = p[1], p[2]
                self.mark_init(st, ob, off)
                self.wrote(ob, b)
                if i.ty == 'ptr':
                    v = self.pval(st, i.ops[0])
                    if off is None:
                        if v[0] == 'o' and v[1][0] == 'A':
                            self.escape(st, v[1])
                        self.killcells(st, ob, None, ptr=True)
                    else:
                        st.cells[(ob, off)] = v
                        if ob[0] == 'G' and v[0] == 'o':
                            self.escape(st, v[1])
                elif i.ty in ('i32', 'i64'):
                    v = self.ival(st, i.ops[0])
                    if off is None:
                        self.killcells(st, ob, None)
                    else:
                        st.cells[(ob, off)] = v if isinstance(v, Poly) else None
                        for k in [k for k in st.cells if k[0] == ob and k[1] is not None and k[1] != off and abs(k[1] - off) < 4]:
                            st.cells[k] = None
                else:
                    # other types cannot alias tracked cells of the same type; same-offset reuse kills
                    if off is not None and (ob, off) in st.cells:
                        st.cells[(ob, off)] = None
            else:
                if i.ty == 'ptr':
                    v = self.pval(st, i.ops[0])
                    if v[0] == 'o' and v[1][0] == 'A':
                        self.escape(st, v[1])
            return True
        if op == 'call':
            return self.call(st, i, b)
        if op in ('fcmp', 'icmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'fptosi'):
            return True
        return True

    def fieldname(self, o, p):
        i = self.fn.defs.get(o[1]) if o[0] == 'v' else None
        if i is not None and i.op == 'gep' and isinstance(i.x, str) and i.x.startswith('%struct') and p[2] is not None:
            return '%s->%s' % (self.vname(i.ops[0]), self.m.field_name(i.x, p[2]))
        return '%s[%s]' % (self.vname(o), p[2])

    def escape(self, st, o):
        work = [o]
        while work:
            o = work.pop()
            if st.status.get(o) == 'L':
                st.status[o] = 'E'
                st.init.pop(o, None)
                for (ob, off), v in st.cells.items():
                    if ob == o and isinstance(v, tuple) and v[0] == 'o':
                        work.append(v[1])

    def killcells(self, st, ob, off, ptr=False):
        for k in list(st.cells):
            if k[0] == ob and (off is None or k[1] == off):
                v = st.cells[k]
                if isinstance(v, tuple) and v[0] == 'o' and v[1][0] == 'A' and ptr:
                    self.escape(st, v[1])
                    st.cells[k] = UNK
                elif isinstance(v, tuple):
                    if ptr:
                        st.cells[k] = UNK
                else:
                    st.cells[k] = None

    # ---- calls
    def call(self, st, i, b):
        tgt = i.x[0]
        name = None
        if tgt[0] == 'g':
            name = tgt[1][1:]
        else:
            v = self.pval(st, tgt)
            if v[0] == 'f':
                name = v[1]
        args = []
        for o, t in zip(i.ops, i.x[1]):
            if t == 'ptr':
                args.append(self.pval(st, o))
            else:
                if not (name or '').startswith('llvm.'):
                    self.checkint(st, o, i, 'call argument')
                args.append(self.ival(st, o) if t in ('i32', 'i64', 'i1') else None)
        if name in NORETURN:
            return False
        if name in ALLOCF:
            self.H.stats['allocation_sites'] += 1
            st.env[i.res] = ('o', self.newobj(st, i, 0, name == 'calloc'), 0)
            return True
        if name == 'realloc':
            p = args[0]
            if not self.use(st, p, i, self.vname(i.ops[0])) and p != NULL:
                return False
            oid = self.newobj(st, i)
            st.init[oid] = frozenset([('r', 0)])
            if p[0] == 'o' and p[1] in st.status:
                st.status[p[1]] = 'F'
            elif p[0] == 'o':
                st.cells[('X', p[1]), 'freed'] = ('freed',)
            st.env[i.res] = ('o', oid, 0)
            return True
        if name == 'free':
            self.H.stats['free_sites'] += 1
            return self.free(st, i, args[0], self.vname(i.ops[0]))
        if name and name.startswith('llvm.'):
            base = name.split('.')[1]
            if base in ('memcpy', 'memmove', 'memset'):
                n = args[2]
                if isinstance(n, Poly) and n.is_const() and n.c0() == 0:
                    return True
                for k in ((0, 1) if base != 'memset' else (0,)):
                    p = args[k]
                    if p == NULL or p[0] == 'n':
                        continue      # zero-length copies of absent optional arrays
                    if not self.use(st, p, i, self.vname(i.ops[k])):
                        return False
                p = args[0]
                if p[0] == 'o':
                    s = st.init.get(p[1])
                    if s is not None:
                        st.init[p[1]] = (s - NOTHING) | {('r', p[2] or 0)}
                    self.wrote(p[1], b)
                    self.killcells(st, p[1], None)
                    if base == 'memcpy' and args[1][0] == 'o' and isinstance(n, Poly) and n.is_const():
                        for (ob, off), v in list(st.cells.items()):
                            if ob == args[1][1] and off is not None and args[1][2] is not None and p[2] is not None and \
                                    0 <= off - args[1][2] < n.c0():
                                st.cells[(p[1], p[2] + off - args[1][2])] = v
            return True
        if name in STR_PURE:
            ok = all(a is None or isinstance(a, Poly) or (a[0] == 'o' and a[1][0] in 'PG' and a[2] is not None) for a in args)
            for k, a in enumerate(args):
                if isinstance(a, tuple) and not self.use(st, a, i, self.vname(i.ops[k])):
                    return False
            if ok and all(not isinstance(a, Poly) for a in args):
                k = ('hf', (self.fn.name, name, tuple(self.strkey(a) for a in args)))
                st.env[i.res] = Poly.of(atom(k[0], k[1], '%s(..)' % name))
            return True
        if name is None or name not in self.m.fns:
            for k, a in enumerate(args):
                if isinstance(a, tuple):
                    if a[0] == 'o' and st.status.get(a[1]) == 'F' and name != 'printf':
                        self.use(st, a, i, self.vname(i.ops[k]))
                        return False
                    if name is None and a[0] == 'o':
                        self.killobj(st, a[1])
            if name == 'qsort' and args[0][0] == 'o':
                self.killcells(st, args[0][1], None)
            if i.res and i.ty == 'ptr':
                st.env[i.res] = UNK
            return True
        return self.apply(st, i, b, name, args)

    def strkey(self, a):
        if a[1][0] == 'G':
            g = self.m.globals.get(a[1][1])
            if g is not None and g.const and g.init is not None:
                return ('str', repr(g.init))
        return a

    def killobj(self, st, ob):
        seen = set()
        work = [ob]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            s = st.init.get(o)
            if s is not None:
                st.init[o] = (s - NOTHING) | {('r', 0)}
            for k in list(st.cells):
                if k[0] == o:
                    v = st.cells[k]
                    if isinstance(v, Poly):
                        st.cells[k] = None
                    elif isinstance(v, tuple) and v[0] == 'o':
                        work.append(v[1])

    def free(self, st, i, p, what):
        if p == NULL:
            return True
        if p == UNDEF:
            self.bad('uninit-free', st, i, what, 'an uninitialised pointer is passed to free')
            return False
        if p[0] == 'o':
            ob = p[1]
            if ob[0] in ('S', 'G'):
                self.bad('bad-free', st, i, what, 'memory that was not allocated is passed to free')
                return False
            if p[2] not in (0, None):
                self.bad('bad-free', st, i, what, 'a pointer into the middle of an allocation is passed to free')
                return False
            s = st.status.get(ob)
            if s == 'F':
                self.bad('double-free', st, i, what, 'memory is released twice')
                return False
            if ob[0] == 'A':
                st.status[ob] = 'F'
                st.init.pop(ob, None)
            else:
                st.status[ob] = 'F'
        return True

    def mapobj(self, st, ob, args, new):
        """callee object -> caller pointer value"""
        if ob[0] == 'P':
            return args[ob[1]] if ob[1] < len(args) and isinstance(args[ob[1]], tuple) else UNK
        if ob[0] == 'D':
            base = self.mapobj(st, ob[1], args, new)
            if base[0] != 'o' or base[2] is None:
                return UNK
            v = self.loadcell(st, base[1], base[2] + ob[2], 'ptr', None)
            if v is None and base[1][0] == 'A':
                if base[1] in st.zero:
                    return NULL
                if base[1] in st.init and not self.is_init(st, base[1], base[2] + ob[2]):
                    return UNDEF
            return v if isinstance(v, tuple) else UNK
        if ob[0] == 'N':
            return ('o', new[ob[1]], 0)
        if ob[0] == 'G':
            return ('o', ob, 0)
        return UNK

    def mapval(self, st, v, args, new):
        if isinstance(v, tuple) and v and v[0] == 'o':
            p = self.mapobj(st, v[1], args, new)
            if p[0] != 'o':
                return p
            return ('o', p[1], None if p[2] is None or v[2] is None else p[2] + v[2])
        return v

    def mappoly(self, st, q, args, callee):
        """callee poly over hp/hc/hn atoms -> caller poly or None"""
        r = Poly()
        for m, c in q.t.items():
            t = Poly.const(c)
            for a in m:
                A = ATOMS[a]
                if A.kind == 'hp':
                    v = args[A.key[1]] if A.key[1] < len(args) else None
                elif A.kind == 'hc':
                    p = self.mapobj(st, A.key[1], args, None)
                    v = None
                    if p[0] == 'o' and p[2] is not None:
                        v = self.loadcell(st, p[1], p[2] + A.key[2], 'i32', None)
                elif A.kind == 'hn':
                    p = self.mapobj(st, A.key[1], args, None)
                    v = self.nullcond(st, p) if p is not None else None
                    if isinstance(v, bool):
                        v = Poly.const(int(v))
                elif A.kind == 'hf':
                    v = None
                    ks = []
                    for x in A.key[2]:
                        if x[0] == 'str':
                            ks.append(x)
                        else:
                            p = self.mapobj(st, x[1], args, None)
                            if p[0] == 'o' and p[2] is not None and p[1][0] in 'PG':
                                ks.append(self.strkey(('o', p[1], p[2] + x[2])))
                            else:
                                ks = None
                                break
                    if ks is not None:
                        if all(k[0] == 'str' for k in ks) and A.key[1] == 'strcmp':
                            v = Poly.const(0 if ks[0] == ks[1] else 1)
                        else:
                            v = Poly.of(atom('hf', (self.fn.name, A.key[1], tuple(ks)), '%s(..)' % A.key[1]))
                else:
                    v = None
                if not isinstance(v, Poly):
                    return None
                t = t * v
            r = r + t
        return r

    def apply(self, st, i, b, name, args):
        H = self.H
        S = H.eff.sum[name]
        outs = H.sum.get(name)
        if name in H.noret:
            return False
        # pointers the callee dereferences must be valid
        checked = set()
        for d in (S.reads, S.writes):
            for a in d:
                if a[0][0] == 'P' and a[0][1] not in checked and a[1] != 'free':
                    checked.add(a[0][1])
        for k in sorted(checked):
            if k < len(args) and isinstance(args[k], tuple):
                p = args[k]
                if p == UNDEF or (p[0] == 'o' and st.status.get(p[1]) == 'F'):
                    if not self.use(st, p, i, self.vname(i.ops[k])):
                        return False
        for x in sorted(H.der.get(name, ()), key=str):
            k = x if isinstance(x, int) else x[0]
            p = args[k] if k < len(args) else None
            if not isinstance(p, tuple):
                continue
            if isinstance(x, tuple):
                if p[0] != 'o' or p[2] is None:
                    continue
                p = st.cells.get((p[1], p[2] + x[1]))
                if p not in (NULL, UNDEF):
                    continue
            if p in (NULL, UNDEF) and not self.use(st, p, i, self.vname(i.ops[k]) + ('' if isinstance(x, int) else '->+%d' % x[1])):
                return False
        if self.final:
            self.callreads(st, i, S, args)
        if outs is None:
            self.effects_kill(st, i, S, args)
            if i.res and i.ty == 'ptr':
                st.env[i.res] = self.retval(st, S, args)
            return True
        res = []
        for oc in outs:
            s = st.copy() if len(outs) > 1 else st
            ok = True
            for L, c in oc.facts.items():
                q = self.mappoly(s, L + c, args, name)
                if q is not None and not s.add(q):
                    ok = False
                    break
            if ok:
                for q0 in oc.nes:
                    q = self.mappoly(s, q0, args, name)
                    if q is not None and not s.add_ne(q):
                        ok = False
                        break
            if not ok:
                continue
            s.trace = s.trace
            good = True
            frees = [(ob, self.mapobj(s, ob, args, None)) for ob in sorted(oc.frees, key=lambda o: -_depth(o))]
            stores = {}
            new = {}
            self.effects_kill(s, i, S, args, oc.stores)
            for j, (zero, cells, init) in enumerate(oc.objs):
                new[j] = self.newobj(s, i, j, zero)
            for j, (zero, cells, init) in enumerate(oc.objs):
                s.init[new[j]] = init
                for off, v in cells:
                    if isinstance(v, int):
                        s.cells[(new[j], off)] = Poly.const(v)
                    else:
                        s.cells[(new[j], off)] = self.mapval(s, v, args, new)
            for (ob, off), v in oc.stores.items():
                p = self.mapobj(s, ob, args, new)
                if p[0] == 'o' and p[2] is not None:
                    stores[(p[1], p[2] + off)] = self.mapval(s, v, args, new) if isinstance(v, tuple) else (Poly.const(v) if isinstance(v, int) else None)
                elif isinstance(v, tuple) and v[0] == 'o' and v[1][0] == 'N':
                    self.escape(s, new[v[1][1]])
            for ob, p in frees:
                if not self.free(s, i, p, '%s (in %s)' % (self.calleeobj(ob, i), name)):
                    good = False
                    break
            if not good:
                continue
            for k, v in stores.items():
                s.cells[k] = v
                self.mark_init(s, k[0], k[1])
            if i.res:
                if i.ty == 'ptr':
                    s.env[i.res] = self.mapval(s, oc.ret, args, new) if isinstance(oc.ret, tuple) else UNK
                elif isinstance(oc.ret, Poly):
                    q = self.mappoly(s, oc.ret, args, name)
                    if q is not None:
                        s.env[i.res] = q
            self.gc(s, self.live_after(i, b), b, i)
            res.append(s)
        if len(outs) == 1:
            return True if res else False
        if not res:
            return False
        return res

    def live_after(self, i, b):
        k = (b, i.idx)
        r = self.opcache.get(k)
        if r is None:
            live = set()
            for s in b.succ:
                live |= self.live.get(s, set())
                for ph in s.phis():
                    for v, bn in zip(ph.ops, ph.x):
                        if bn == b.name and v[0] == 'v':
                            live |= self.srcs(v[1])
            seen = False
            for j in b.ins:
                if seen:
                    for o in self.operands(j):
                        live |= self.srcs(o)
                if j is i:
                    seen = True
            if i.res:
                live.add(i.res)
            r = self.opcache[k] = live
        return r

    def srcs(self, v, d=0):
        r = {v}
        i = self.fn.defs.get(v)
        if i is not None and i.op not in ('phi', 'load', 'call', 'alloca') and d < 30:
            for o in self.operands(i):
                r |= self.srcs(o, d + 1)
        return r

    def calleeobj(self, ob, i):
        if ob[0] == 'P':
            return self.vname(i.ops[ob[1]])
        if ob[0] == 'D':
            return '*(%s+%s)' % (self.calleeobj(ob[1], i), ob[2])
        return str(ob)

    def retval(self, st, S, args):
        vs = set()
        for ob, off in S.ret:
            if ob[0] == 'P' and ob[1] < len(args) and isinstance(args[ob[1]], tuple) and args[ob[1]][0] == 'o':
                p = args[ob[1]]
                vs.add(('o', p[1], p[2] + off if isinstance(off, int) and p[2] is not None else None))
            else:
                return UNK
        return vs.pop() if len(vs) == 1 else UNK

    def effects_kill(self, st, i, S, args, precise=None):
        """forget cells the callee may overwrite; note what it may initialise"""
        def T(ob):
            if ob[0] == 'P':
                return args[ob[1]] if ob[1] < len(args) and isinstance(args[ob[1]], tuple) else UNK
            if ob[0] == 'D':
                a = T(ob[1][0])
                o = ob[1][1]
                if a[0] != 'o' or a[2] is None or not isinstance(o, int):
                    return UNK
                v = st.cells.get((a[1], a[2] + o))
                if v is None and a[1][0] in ('P', 'D'):
                    v = self.loadcell(st, a[1], a[2] + o, 'ptr', None)
                return v if isinstance(v, tuple) else UNK
            return UNK
        todo = []
        for (ob, off) in S.writes:
            p = T(ob)
            if p[0] != 'o' or off == 'free':
                continue
            todo.append((p, off, (ob, off) in S.contents))
        for p, off, isptr in todo:
            o = p[1]
            s = st.init.get(o)
            if isinstance(off, int) and p[2] is not None:
                at = p[2] + off
                if s is not None:
                    st.init[o] = (s - NOTHING) | {('c', at)}
                    self.wrote(o, self.cur)
                v = st.cells.get((o, at), 0)
                if isinstance(v, Poly):
                    st.cells[(o, at)] = None
                elif v == 0 and o[0] in ('P', 'D'):
                    st.cells[(o, at)] = None
                elif isinstance(v, tuple) and isptr and precise is None:
                    st.cells[(o, at)] = UNK
            else:
                lo = (off[0] if isinstance(off, tuple) else off) + (p[2] or 0)
                if s is not None:
                    st.init[o] = (s - NOTHING) | {('r', lo)}
                    self.wrote(o, self.cur)
                for k in list(st.cells):
                    if k[0] == o and isinstance(k[1], int) and k[1] >= lo:
                        if isinstance(st.cells[k], Poly):
                            st.cells[k] = None

    # ---- summary
    def summarise(self):
        H = self.H
        outs = {}
        for st, ret, t in self.exits:
            H.stats['exit_states'] += 1
            extra = [ret] if isinstance(ret, tuple) else []
            # stack cells die at return
            st = st.copy()
            for k in [k for k in st.cells if k[0][0] == 'S']:
                del st.cells[k]
            st.env = {}
            r = self.reach(st, set(), extra)
            for o, s in list(st.status.items()):
                if s == 'L' and o[0] == 'A' and o not in r:
                    ins = o[1][0]
                    H.report('leak', self.fn, ins, self.objname(o),
                             'memory allocated at %s is neither released nor handed over when %s returns at %s' % (
                                 self.m.loc(ins), self.fn.name, self.m.loc(t)), st.trace)
            if isinstance(ret, tuple) and ret[0] == 'o' and st.status.get(ret[1]) == 'F':
                self.bad('use-after-free', st, t, 'return value', 'released memory is returned')
            oc = self.outcome(st, ret)
            k = oc.key()
            if k in outs:
                a = outs[k]
                for L in list(a.facts):
                    d = oc.facts.get(L)
                    if d is None:
                        del a.facts[L]
                    elif d > a.facts[L]:
                        a.facts[L] = d
                a.nes = a.nes & oc.nes
                if a.ret != oc.ret:
                    a.ret = None
            else:
                outs[k] = oc
        if not self.exits:
            H.noret.add(self.fn.name)
            H.sum[self.fn.name] = None
            return
        l = list(outs.values())
        H.stats['outcomes'] += len(l)
        if all(o.trivial() for o in l) and not (self.fn.ret == 'ptr' and any(isinstance(o.ret, tuple) and o.ret[0] in 'n' for o in l)):
            H.sum[self.fn.name] = None
        elif len(l) > 24:
            H.undecided.append('%s: %d heap outcomes' % (self.fn.name, len(l)))
            H.sum[self.fn.name] = None
        else:
            H.sum[self.fn.name] = l

    def outcome(self, st, ret):
        oc = Outcome()
        order = {}
        objs = []

        def name(o):
            if o[0] == 'A':
                if st.status.get(o) not in ('L', 'E', 'F'):
                    return None
                if o not in order:
                    order[o] = len(order)
                    objs.append(o)
                return ('N', order[o])
            if o[0] in ('P', 'D', 'G'):
                return o
            return None

        def val(v):
            if isinstance(v, tuple) and v and v[0] == 'o':
                if st.status.get(v[1]) == 'F':
                    return UNDEF if v[1][0] == 'A' else v
                n = name(v[1])
                return ('o', n, v[2]) if n else UNK
            return v
        oc.ret = val(ret) if isinstance(ret, tuple) else (ret if isinstance(ret, Poly) and self.pure(ret) else None)
        oc.stores = {}
        for (ob, off), v in sorted(st.cells.items(), key=repr):
            if ob[0] in ('P', 'D') and isinstance(off, int):
                if isinstance(v, tuple):
                    if v == self.initial((ob, off), v):
                        continue
                    oc.stores[(ob, off)] = val(v)
                elif isinstance(v, Poly) and v.is_const():
                    oc.stores[(ob, off)] = v.c0()
        oc.objs = []
        k = 0
        while k < len(objs):
            o = objs[k]
            cells = []
            for (ob, off), v in sorted(st.cells.items(), key=lambda x: repr(x[0])):
                if ob == o and isinstance(off, int):
                    if isinstance(v, tuple):
                        cells.append((off, val(v)))
                    elif isinstance(v, Poly) and v.is_const():
                        cells.append((off, v.c0()))
            oc.objs.append((o in st.zero, tuple(cells), self.filled(o, st.init.get(o, frozenset([('r', 0)])))))
            k += 1
        oc.frees = frozenset(o for o, s in st.status.items() if s == 'F' and o[0] in ('P', 'D'))
        oc.facts = {L: c for L, c in st.facts.items() if self.pure(L)}
        oc.nes = frozenset(q for q in st.nes if self.pure(q))
        return oc

    def pure(self, p):
        for m in p.t:
            for a in m:
                A = ATOMS[a]
                if A.kind not in ('hp', 'hc', 'hn', 'hf') or A.key[0] != self.fn.name:
                    return False
        return True


def _depth(o):
    d = 0
    while o[0] == 'D':
        d += 1
        o = o[1]
    return d


def _lookup(kind, key):
    from poly import _INTERN
    return _INTERN.get((kind, key))


if __name__ == '__main__':
    import irlib, time, sys
    sys.setrecursionlimit(20000)
    m = irlib.load()
    e = _eff.Effects(m)
    t = time.time()
    H = Heap(m, e)
    print('heap', round(time.time() - t, 1), 's', H.stats)
    print('undecided', H.undecided)
    for f in sorted(H.findings.values(), key=lambda f: (f.kind, f.fn.name)):
        print('%-16s %-22s %-24s %s | %s' % (f.kind, f.fn.name, f.what, m.loc(f.ins), f.detail))
