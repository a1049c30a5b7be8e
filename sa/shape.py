"""Abstract interpretation of the library at fixed model shapes.

Orders, lengths and counts are given constants; every data value is unknown.  The analysis is an ordinary forward dataflow
analysis over the IR: one abstract state (registers, memory) per block, pending blocks processed in loop-contiguous reverse
post-order, states joined where control-flow merges, widened at the headers of loops whose exit test is unknown.  Because
the shape is constant most loop tests are constants, so counted loops are followed element by element and array indices
and block sizes are exact.  No path conditions are kept, no solver is used, nothing of the library is executed.

Values
  int      Python int, or None (unknown)
  pointer  0 (null), (region, offset) with offset int or None, Fn, or None (unknown)
  double   float (constant), Pol (polynomial over symbols, exact coefficients), or None (unknown)
"""
import math
import sys
from fractions import Fraction

from cfg import Cfg

sys.setrecursionlimit(20000)


class Stop(Exception):
    """the analysis of this shape was given up (limit, unmodelled construct)"""


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


UNINIT = object()
MISS = object()
TOPCELL = object()


# ---------------------------------------------------------------- symbolic doubles
SYMS, SYMNAME, SYMKEY = {}, [], {}


def sym(key, name=None):
    i = SYMS.get(key)
    if i is None:
        i = SYMS[key] = len(SYMNAME)
        name = name or str(key)
        SYMNAME.append(name if len(name) < 200 or not LET[0] else name[:150] + '..')
        SYMKEY[i] = key
    return Pol({(i,): COEF[0](1)})


LIM = [300, 4000, 40, 40]      # terms of a polynomial, of a product, of a square, of a function argument
GENERIC = [False]          # take a polynomial in the data to differ from a given number


DIVLIM = [40]           # longest divisor kept as a symbol
LET = [False]           # give long polynomials a name instead of giving them up
COEF = [Fraction]       # or float: faster, with rounding


class Pol:
    """polynomial; t: monomial (sorted tuple of symbol numbers) -> Fraction"""
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = None

    def __eq__(self, o):
        return isinstance(o, Pol) and self.t == o.t

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            n = '*'.join(SYMNAME[i] for i in m)
            out.append(('%s*%s' % (c, n) if c not in (1, -1) else ('-' if c < 0 else '') + n) if n else str(c))
        return ' + '.join(out)


def pol(v):
    return v if isinstance(v, Pol) else Pol({(): COEF[0](v)} if v else {})


def norm(p):
    if COEF[0] is float:
        p.t = {m: c for m, c in p.t.items() if abs(c) > 1e-15}
    if not p.t:
        return 0.0
    if len(p.t) == 1 and () in p.t:
        return float(p.t[()])
    if len(p.t) > LIM[0]:
        return short(p) if LET[0] else None
    return p


def short(p):
    """a symbol that stands for a long polynomial"""
    return sym(('let', p), '(%d terms)' % len(p.t))


class _Sign:
    def __repr__(self):
        return '>=0'


NN = _Sign()        # an unknown double that is not negative (NaN aside)


def nn(v):
    return v is NN or type(v) is float and v >= 0


MARK = 'left from construction'


class Poison:
    """a double computed from memory that nothing has written"""
    __slots__ = ('text', 'ins')

    def __init__(self, text, ins):
        self.text, self.ins = text, ins

    def __repr__(self):
        return '<unwritten: %s>' % self.text


def mix(a, b):
    return a if type(a) is Poison else b if type(b) is Poison else None


def finite(x):
    return x == x and abs(x) != math.inf


def fadd(a, b):
    if a is None or b is None:
        return mix(a, b)
    if type(a) is Poison or type(b) is Poison:
        return mix(a, b)
    if a is NN or b is NN:
        return NN if nn(a) and nn(b) else None
    if type(a) is float and type(b) is float:
        return a + b
    if type(a) is float and not finite(a) or type(b) is float and not finite(b):
        return None
    if type(a) is float and a == 0.0:
        return b
    if type(b) is float and b == 0.0:
        return a
    t = dict(pol(a).t)
    for m, c in pol(b).t.items():
        v = t.get(m, 0) + c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return norm(Pol(t))


def fneg(a):
    if a is None or a is NN:
        return None
    if type(a) is float:
        return -a
    if type(a) is Poison:
        return a
    return Pol({m: -c for m, c in a.t.items()})


def fsub(a, b):
    return fadd(a, fneg(b))


def fmul(a, b, same=False):
    if type(a) is Poison:
        return a
    if same and (a is None or isinstance(a, Pol) and len(a.t) > LIM[2]):
        return NN
    if a is None or b is None:
        return mix(a, b)
    if type(a) is Poison or type(b) is Poison:
        return mix(a, b)
    if a is NN or b is NN:
        return NN if nn(a) and nn(b) else None
    if type(a) is float and type(b) is float:
        return a * b
    if type(a) is float and not finite(a) or type(b) is float and not finite(b):
        return None
    pa, pb = pol(a).t, pol(b).t
    if len(pa) * len(pb) > LIM[1]:
        if not LET[0]:
            return None
        a, b = pol(a), pol(b)
        return fmul(short(a), b) if len(pa) >= len(pb) else fmul(a, short(b))
    t = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = tuple(sorted(m + n))
            v = t.get(k, 0) + c * d
            if v:
                t[k] = v
            else:
                t.pop(k, None)
    return norm(Pol(t))


def fdiv(a, b):
    if a is None or b is None:
        return mix(a, b)
    if type(a) is Poison or type(b) is Poison:
        return mix(a, b)
    if a is NN or b is NN:
        return NN if nn(a) and nn(b) else None
    if type(b) is float:
        if b == 0.0 or not finite(b):
            return None
        if type(a) is float:
            return a / b
        return fmul(a, Pol({(): 1 / COEF[0](b)}))
    if a == b:
        return 1.0
    if type(a) is float and a == 0.0:
        return 0.0
    return fmul(a, sym(('inv', b), '1/(%r)' % (b,)) if len(b.t) < DIVLIM[0] else None)


def fun(name, *args):
    for a in args:
        if type(a) is Poison:
            return a
    if any(a is None or a is NN for a in args):
        return NN if name in ('fabs', 'sqrt', 'hypot', 'exp') else None
    if all(type(a) is float for a in args):
        try:
            return float({'sqrt': math.sqrt, 'log': math.log, 'exp': math.exp, 'fabs': abs, 'sin': math.sin, 'cos': math.cos, 'pow': math.pow,
                          'ceil': math.ceil, 'floor': math.floor, 'log10': math.log10, 'hypot': math.hypot, 'tanh': math.tanh,
                          'atanh': math.atanh, 'expm1': math.expm1, 'log1p': math.log1p}[name](*args))
        except (ValueError, OverflowError, KeyError):
            return None
    if name == 'pow' and args[1] == 2.0:
        return fmul(args[0], args[0])
    if name == 'hypot' or sum(len(a.t) for a in args if isinstance(a, Pol)) > LIM[3]:
        return None
    return sym((name,) + tuple(args), '%s(%s)' % (name, ', '.join(map(repr, args))))


def fcmp(pred, a, b):
    if type(a) is float and type(b) is float:
        un = a != a or b != b
        r = {'eq': a == b, 'ne': a != b and not un, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(pred[1:])
        if r is None:
            return None
        return int(r or (pred[0] == 'u' and un))
    if GENERIC[0] and isinstance(a, Pol) and type(b) is float:
        r = generic(pred, a, b)
        if r is not None:
            return r
    if a is NN and type(b) is float and b < 0 or b is NN and type(a) is float and a < 0 or \
            type(a) is float and a == 0 and b is NN or type(b) is float and b == 0 and a is NN:
        x, y = (0, 1) if (b is NN and (a < 0)) else (1, 0) if (a is NN and b < 0) else (None, None)
        if x is None:                       # 0 against something not negative
            if b is NN:
                return {'ole': 1, 'ule': 1, 'ogt': 0, 'ugt': 0}.get(pred)
            return {'oge': 1, 'uge': 1, 'olt': 0, 'ult': 0}.get(pred)
        return fcmp(pred, float(x), float(y))
    if isinstance(a, Pol) and a == b:
        r = {'oeq': 1, 'ueq': 1, 'one': 0, 'olt': 0, 'ogt': 0, 'oge': 1, 'ole': 1, 'une': 0, 'ult': 0, 'ugt': 0}.get(pred)
        return None if pred in ('une', 'oeq', 'ord', 'uno') else r
    return None


def generic(pred, a, b):
    if pred in ('oeq', 'ueq'):
        return 0
    if pred in ('one', 'une'):
        return 1
    if abs(b) > 1e300 and pred[1:] in ('lt', 'le', 'gt', 'ge'):     # values are of ordinary size
        return int((pred[1] == 'l') == (b > 0))
    if pred in ('ogt', 'ugt', 'oge', 'uge') and 0 <= b < 1e-3 and len(a.t) == 1:
        (m, c), = a.t.items()
        if len(m) == 1 and c > 0 and type(SYMKEY.get(m[0])) is tuple and SYMKEY[m[0]][0] == 'fabs':
            return 1
    return None


# ---------------------------------------------------------------- memory
class Region:
    __slots__ = ('name', 'size', 'kind', 'const', 'where')
    # kind: 'heap' (cells start unwritten) 'zero' (start zeroed) 'arg' (start filled) 'stack' 'global'

    def __init__(self, name, size, kind, where=None):
        self.name, self.size, self.kind, self.where = name, size, kind, where
        self.const = None

    def __repr__(self):
        return '<%s:%s>' % (self.name, self.size)


NOTOP = 1 << 60


class Cells:
    __slots__ = ('d', 'top', 'owner', 'freed')
    # d: offset -> (size, value); top: cells not in d at this offset or above are unknown (elsewhere: as the region's kind says)

    def __init__(self, owner):
        self.d, self.top, self.owner, self.freed = {}, NOTOP, owner, False

    def copy(self, owner):
        c = Cells(owner)
        c.d, c.top, c.freed = dict(self.d), self.top, self.freed
        return c


class Mem:
    __slots__ = ('m', 'own')

    def __init__(self):
        self.m = {}
        self.own = object()

    def clone(self):
        r = Mem()
        r.m = dict(self.m)
        self.own = object()
        return r

    def get(self, r):
        return self.m.get(r)

    def mut(self, r):
        c = self.m.get(r)
        if c is None:
            c = self.m[r] = Cells(self.own)
        elif c.owner is not self.own:
            c = self.m[r] = c.copy(self.own)
        return c


def join_val(a, b):
    if type(a) is Poison and type(b) is Poison:
        return a
    if a is b or (type(a) is type(b) and a == b):
        return a
    if type(a) is tuple and type(b) is tuple and a[0] is b[0]:
        x = a[1] if a[1] is not None else a[2] if len(a) > 2 else 0
        y = b[1] if b[1] is not None else b[2] if len(b) > 2 else 0
        if a[1] is None and x > y or b[1] is None and y > x:
            return (a[0], None)             # a bound that moves is not followed
        return (a[0], None, min(x, y))
    if a is NN or b is NN or type(a) is float and type(b) is float:
        if (a is NN or type(a) is float and a >= 0) and (b is NN or type(b) is float and b >= 0):
            return NN
    return None


def default(region, size):
    return TOPCELL if region.kind in ('arg', 'global') else UNINIT if region.kind in ('heap', 'stack') else 0


def join_cells(r, a, b, owner):
    """-> (cells, changed with respect to a)"""
    if a is b:
        return a, False
    c = Cells(owner)
    c.top = min(a.top, b.top)
    c.freed = a.freed and b.freed
    ch = c.top != a.top or c.freed != a.freed
    dflt = default(r, 8)
    for off in set(a.d) | set(b.d):
        x, y = a.d.get(off), b.d.get(off)
        if x is not None and y is not None:
            if x is y:
                c.d[off] = x
                continue
            if x[0] == y[0]:
                v = join_val(x[1], y[1])
                c.d[off] = x if v is x[1] else (x[0], v)
                if not (v is x[1] or v == x[1]):
                    ch = True
                continue
            c.d[off] = (max(x[0], y[0]), None)
            ch = ch or x[1] is not None
            continue
        have, other = (x, b) if x is not None else (y, a)
        # the other side still has the default there
        if off < other.top and dflt == 0 and _iszero(have[1]):
            c.d[off] = have
            ch = ch or x is None
        elif off < other.top and dflt is UNINIT:
            c.d[off] = (have[0], None)          # written on one side only: treated as written, value unknown
            ch = ch or x is None or x[1] is not None
        else:
            if off >= c.top:
                ch = ch or x is not None
                continue                        # unknown is what a missing cell means
            c.d[off] = (have[0], None)
            ch = ch or x is None or x[1] is not None
    return c, ch


def _iszero(v):
    return v == 0 and v is not None and not isinstance(v, (tuple, Pol, FnPtr))


class State:
    __slots__ = ('R', 'mem')

    def __init__(self, R, mem):
        self.R, self.mem = R, mem


def join_state(a, b):
    """-> (state, changed with respect to a)"""
    ch = False
    R = list(a.R)
    for k, (x, y) in enumerate(zip(a.R, b.R)):
        if x is y:
            continue
        if x is MISS or y is MISS:
            v = None if x is not MISS else MISS       # defined on one side only: dead there, or unknown
            v = MISS
        else:
            v = join_val(x, y)
        if not (v is x or (type(v) is type(x) and v == x)):
            R[k] = v
            ch = True
    mem = Mem()
    m = mem.m
    am, bm = a.mem.m, b.mem.m
    for r, ca in am.items():
        cb = bm.get(r)
        if cb is None or ca is cb:
            m[r] = ca
        else:
            m[r], c2 = join_cells(r, ca, cb, mem.own)
            ch = ch or c2
    for r, cb in bm.items():
        if r not in am:
            m[r] = cb
            ch = True
    a.mem.own = object()
    b.mem.own = object()
    return State(R, mem), ch


# ---------------------------------------------------------------- compilation of blocks
MATH = {'sqrt', 'log', 'exp', 'sin', 'cos', 'pow', 'log10', 'hypot', 'tanh', 'atanh', 'expm1', 'log1p'}
IGN = {'printf', 'puts', 'putchar', 'fflush'}


class Code:
    """one function, translated to a table of Python closures (one source text per block)"""

    def __init__(self, E, fn):
        self.E, self.fn = E, fn
        self.cfg = Cfg(fn)
        self.reg = {}
        for _, n in fn.params:
            self.reg[n] = len(self.reg)
        for i in fn.instrs():
            if i.res and i.res not in self.reg:
                self.reg[i.res] = len(self.reg)
        self.n = len(self.reg)
        self.consts = []
        self.loop = {}
        self.leaves = {}
        self.outs = {}
        self.threads = {}
        for b in self.cfg.order:
            ls = [l for l in self.cfg.loops if b in l.blocks]
            ls.sort(key=lambda l: len(l.blocks))
            self.loop[b] = ls
        self.hdr = {l.header: l for l in self.cfg.loops}
        self.prio = self._order()
        self.code = {}
        self.phis = {}
        self.live = self._live()

    def _live(self):
        """registers live at block entry (as sets of indices): dead ones are dropped before joins"""
        use, dfn = {}, {}
        outphi = {b: set() for b in self.cfg.order}
        for b in self.cfg.order:
            u, d = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    d.add(self.reg[i.res])
                    for o, nm in zip(i.ops, i.x):
                        pb = self.fn.bmap.get(nm)
                        if pb in outphi:
                            outphi[pb] |= self.uses(o)
                    continue
                for o in i.ops:
                    u |= self.uses(o) - d
                if i.op == 'call':
                    u |= self.uses(i.x[0]) - d
                if i.res:
                    d.add(self.reg[i.res])
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in self.cfg.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.cfg.order):
                out = set(outphi[b])
                for s in b.succ:
                    if s in live:
                        out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live

    def joins(self, b):
        """the register of the value that a block of nothing but joins and a test on one of them branches on"""
        r = self.threads.get(b, MISS)
        if r is MISS:
            r = None
            t = b.term
            ph = list(b.phis())
            if t.op == 'br' and t.ops and t.ops[0][0] == 'v' and len(b.ins) == len(ph) + 1 and any(i.res == t.ops[0][1] for i in ph):
                r = self.reg[t.ops[0][1]]
            self.threads[b] = r
        return r

    def exits(self, l):
        """the tests that can leave the loop"""
        r = self.outs.get(l)
        if r is None:
            r = self.outs[l] = {b for b in l.blocks if len(b.succ) > 1 and any(x not in l.blocks for x in b.succ)}
        return r

    def leaf(self, l):
        r = self.leaves.get(l)
        if r is None:
            r = self.leaves[l] = not any(i.op == 'call' and (i.x[0][0] != 'g' or (f := self.E.m.fns.get(i.x[0][1])) is not None and f.blocks)
                                         for b in l.blocks for i in b.ins)
        return r

    def uses(self, o):
        if o[0] == 'v':
            return {self.reg[o[1]]}
        if o[0] == 'gep':
            r = self.uses(o[2])
            for x in o[3]:
                r |= self.uses(x)
            return r
        return set()

    def _order(self):
        depth = {b: len(self.loop[b]) for b in self.cfg.order}
        seen, out = set(), []

        def succ(b):
            # blocks that leave more loops are visited first, hence finish first and come last
            s = [x for x in b.succ if x in depth]
            return iter(sorted(s, key=lambda x: sum(1 for l in self.loop[b] if x in l.blocks)))
        e = self.cfg.order[0]
        st = [(e, succ(e))]
        seen.add(e)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, succ(s)))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return {b: k for k, b in enumerate(out)}

    # -- operands as Python expressions
    def cst(self, v):
        self.consts.append(v)
        return 'C[%d]' % (len(self.consts) - 1)

    def op(self, o, ty=None):
        k = o[0]
        if k == 'v':
            return 'R[%d]' % self.reg[o[1]]
        if k == 'c':
            return repr(o[1])
        if k == 'f':
            return self.cst(o[1]) if not finite(o[1]) else repr(float(o[1]))
        if k == 'null':
            return '0'
        if k == 'undef':
            return 'None'
        if k == 'zero':
            return '0'
        if k == 'g':
            return self.cst(self.E.glob(o[1]))
        if k == 'gep':
            b = self.op(o[2])
            off = self.E.eff._gep_off(o[1], o[3])
            return 'gepc(%s, %d)' % (b, off) if isinstance(off, int) else 'None'
        raise Stop('operand %r' % (o,))

    def block(self, b):
        c = self.code.get(b)
        if c is None:
            c = self.code[b] = self.compile(b)
        return c

    def compile(self, b):
        L = []
        ns = {'C': self.consts, 'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv, 'fneg': fneg, 'fcmp': fcmp, 'fun': fun,
              'gepc': gepc, 'gepv': gepv, 'icmp': icmp, 'ibin': ibin, 'I': [], 'fptosi': fptosi, 'FnPtr': FnPtr, 'Poison': Poison}
        E = self.E
        for i in b.ins:
            o = i.op
            if o == 'phi' or o in ('br', 'ret', 'switch', 'unreachable'):
                continue
            r = 'R[%d] = ' % self.reg[i.res] if i.res else ''
            a = [self.op(x) for x in i.ops] if o not in ('call',) else None
            if o in ('add', 'sub', 'mul'):
                s = {'add': '+', 'sub': '-', 'mul': '*'}[o]
                if i.ops[1][0] == 'c':
                    L.append('x = %s; %sNone if x is None else x %s %s' % (a[0], r, s, a[1]) if not (o == 'mul' and i.ops[1][1] == 0) else r + '0')
                else:
                    L.append('x = %s; y = %s; %sNone if x is None or y is None else x %s y' % (a[0], a[1], r, s))
            elif o in ('sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
                L.append('%sibin(%r, %s, %s)' % (r, o, a[0], a[1]))
            elif o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                if o == 'fmul' and i.ops[0] == i.ops[1]:
                    L.append('%sfmul(%s, %s, True)' % (r, a[0], a[0]))
                else:
                    L.append('%s%s(%s, %s)' % (r, o, a[0], a[1]))
            elif o == 'fneg':
                L.append('%sfneg(%s)' % (r, a[0]))
            elif o == 'load':
                sz = E.m.size(i.ty)
                ns['I'].append(i)
                L.append('%sS.load(%s, %d, %r, I[%d])' % (r, a[0], sz, i.ty, len(ns['I']) - 1))
            elif o == 'store':
                sz = E.m.size(i.ty)
                ns['I'].append(i)
                L.append('S.store(%s, %d, %s, I[%d])' % (a[1], sz, a[0], len(ns['I']) - 1))
            elif o == 'gep':
                terms, const = self.gep(i)
                if not terms:
                    L.append('%sgepc(%s, %d)' % (r, a[0], const))
                elif len(terms) == 1:
                    L.append('%sgepv(%s, %s, %d, %d)' % (r, a[0], terms[0][0], terms[0][1], const))
                else:
                    L.append('x = gepc(%s, %d)' % (a[0], const))
                    for t, k in terms:
                        L.append('x = gepv(x, %s, %d, 0)' % (t, k))
                    L.append(r + 'x')
            elif o == 'icmp':
                s = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}.get(i.x)
                if s and i.ty != 'ptr':
                    L.append('x = %s; y = %s; %sNone if x is None or y is None else int(x %s y)' % (a[0], a[1], r, s))
                else:
                    L.append('%sicmp(%r, %s, %s)' % (r, i.x, a[0], a[1]))
            elif o == 'fcmp':
                k = len(ns['I'])
                ns['I'].append(i)
                L.append('x = %s; y = %s; %sfcmp(%r, x, y)' % (a[0], a[1], r, i.x))
                L.append('if type(x) is Poison or type(y) is Poison: S.used(x, y, I[%d])' % k)
            elif o in ('sext', 'bitcast', 'freeze', 'trunc'):
                L.append('%s%s' % (r, a[0]))
            elif o == 'zext':
                bits = int(i.x[1:]) if isinstance(i.x, str) and i.x[0] == 'i' else 32
                L.append('x = %s; %sNone if x is None else x & %d' % (a[0], r, (1 << bits) - 1))
            elif o in ('sitofp', 'uitofp'):
                L.append('x = %s; %sNone if x is None else float(x)' % (a[0], r))
            elif o in ('fptosi', 'fptoui'):
                L.append('%sfptosi(%s)' % (r, a[0]))
            elif o == 'select':
                L.append('x = %s; %s%s if x else (%s if x is not None else S.jv(%s, %s))' % (a[0], r, a[1], a[2], a[1], a[2]))
            elif o == 'alloca':
                ns['I'].append(i)
                L.append('%sS.alloca(I[%d])' % (r, len(ns['I']) - 1))
            elif o == 'call':
                args = [self.op(x) for x in i.ops]
                ns['I'].append(i)
                k = len(ns['I']) - 1
                cal = i.x[0]
                nm = cal[1].lstrip('@') if cal[0] == 'g' else None
                if nm in MATH:
                    L.append('%sfun(%r, %s)' % (r, nm, ', '.join(args)))
                elif nm and nm.startswith(('llvm.fabs', 'llvm.ceil', 'llvm.floor')):
                    L.append('%sfun(%r, %s)' % (r, nm.split('.')[1], args[0]))
                elif nm and (nm in IGN or nm.startswith(('llvm.dbg', 'llvm.lifetime'))):
                    if r:
                        L.append(r + 'None')
                else:
                    tgt = repr(nm) if nm and (nm in E.m.fns or nm not in E.m.globals) else self.op(cal)
                    L.append('v = S.call(%s, [%s], I[%d])' % (tgt, ', '.join(args), k))
                    L.append('if v is S.NORET: return True')
                    if r:
                        L.append(r + 'v')
            elif o in ('fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'extractvalue', 'insertvalue'):
                L.append(r + 'None')
            else:
                raise Stop('instruction ' + o)
        src = 'def run(R, S):\n' + ''.join('    %s\n' % x for x in L) + '    return False\n'
        exec(src, ns)
        return ns['run']

    def gep(self, i):
        ty = i.x
        idx = i.ops[1:]
        terms, const = [], 0
        m = self.E.m

        def add(o, k):
            nonlocal const
            if o[0] == 'c':
                const += o[1] * k
            else:
                terms.append((self.op(o), k))
        add(idx[0], m.size(ty))
        cur = ty
        for o in idx[1:]:
            t = m.structs[cur] if isinstance(cur, str) and cur.startswith('%') else cur
            if t[0] == 'struct':
                off, cur = m.field_off(t, o[1])
                const += off
            else:
                cur = t[2]
                add(o, m.size(cur))
        return terms, const


def gepc(p, off):
    if type(p) is tuple:
        if not off:
            return p
        if p[1] is None:
            return (p[0], None, max(p[2] + off, 0)) if len(p) > 2 else p
        return (p[0], p[1] + off)
    if p == 0 and off == 0:
        return 0
    return None


def gepv(p, i, k, off):
    if type(p) is tuple:
        if p[1] is None:
            return (p[0], None, max(p[2] + off + (min(i * k, 0) if i is not None else 0), 0)) if len(p) > 2 else p
        if i is None:
            return (p[0], None, p[1] if off >= 0 else max(p[1] + off, 0))
        return (p[0], p[1] + i * k + off)
    if p == 0 and p is not None and i == 0 and off == 0:
        return 0
    return None


def icmp(pred, a, b):
    if a is None or b is None:
        return None
    if type(a) is int and type(b) is int:
        if pred[0] == 'u':
            a &= (1 << 64) - 1
            b &= (1 << 64) - 1
            pred = 's' + pred[1:]
        return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
    if pred in ('eq', 'ne'):
        if type(a) is tuple and type(b) is tuple:
            if a[0] is b[0]:
                return None if a[1] is None or b[1] is None else int((a[1] == b[1]) == (pred == 'eq'))
            return int(pred == 'ne')
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return int((a.name == b.name) == (pred == 'eq'))
        return int(pred == 'ne')
    if type(a) is tuple and type(b) is tuple and a[0] is b[0] and a[1] is not None and b[1] is not None:
        return icmp('s' + pred[1:], a[1], b[1])
    return None


def ibin(o, a, b):
    if o == 'and' and (a == 0 and a is not None or b == 0 and b is not None):
        return 0
    if a is None or b is None or type(a) is not int or type(b) is not int:
        return None
    if o in ('sdiv', 'udiv'):
        return None if b == 0 else abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
    if o in ('srem', 'urem'):
        return None if b == 0 else abs(a) % abs(b) * (1 if a >= 0 else -1)
    if o == 'shl':
        return a << b if 0 <= b < 64 else None
    if o in ('ashr', 'lshr'):
        return a >> b if 0 <= b < 64 and (a >= 0 or o == 'ashr') else None
    return {'and': a & b, 'or': a | b, 'xor': a ^ b}[o]


def fptosi(a):
    if type(a) is float and finite(a) and abs(a) < 2 ** 31:
        return int(a)
    return None


# ---------------------------------------------------------------- the engine
class Engine:
    def __init__(self, m, eff, limit=4000000, poly=False):
        self.m, self.eff, self.limit, self.poly = m, eff, limit, poly
        self.codes, self.globs = {}, {}
        self.NORET = object()
        self.scalars = {}
        self.hooks = {}         # function name -> f(engine, args, ins) returning a value (MISS: analyse the body)
        self.reset()

    LEAF = 64

    def reset(self):
        self.mem = Mem()
        self.steps = 0
        self.stack = []
        self.events = {}        # (kind, instruction) -> text
        self.tent = {}
        self.accesses = 0
        self.checked = 0
        self.unknown = set()
        self.sites = set()
        self.uncertain = 0
        self.cnt = 0
        self.regs = {}
        self.fns = set()
        self.stops = 0

    # -- memory set-up
    def region(self, name, size, kind):
        r = Region(name, size, kind)
        self.mem.mut(r)
        return r

    def put(self, r, off, size, v):
        self.mem.mut(r).d[off] = (size, v)

    def doubles(self, name, n, key=None, kind='arg'):
        """an array of n doubles; with key: element i is the symbol (key, i)"""
        r = self.region(name, 8 * n, kind)
        if key is not None:
            for i in range(n):
                self.put(r, 8 * i, 8, sym((key, i), '%s[%d]' % (key, i)))
        return r

    def text(self, s):
        r = self.region('"%s"' % s, len(s) + 1, 'arg')
        for k, ch in enumerate(s.encode() + b'\0'):
            self.put(r, k, 1, ch)
        return (r, 0)

    def glob(self, name):
        if name.lstrip('@') in self.m.fns or name not in self.m.globals:
            return FnPtr(name.lstrip('@'))
        r = self.globs.get(name)
        if r is None:
            g = self.m.globals[name]
            r = self.globs[name] = Region(name, self.m.size(g.ty), 'global')
            r.const = {} if g.const else None
            if g.const and g.init is not None:
                self.fill(r.const, 0, g.ty, g.init)
        return (r, 0)

    def fill(self, d, off, ty, v):
        if isinstance(ty, str) and ty.startswith('%'):
            ty = self.m.structs[ty]
        if v[0] == 'zero':
            if isinstance(ty, str):
                d[off] = (self.m.size(ty), 0.0 if ty == 'double' else 0)
            elif ty[0] == 'arr':
                for k in range(ty[1]):
                    self.fill(d, off + k * self.m.size(ty[2]), ty[2], v)
            else:
                for k in range(len(ty[1])):
                    o, t = self.m.field_off(ty, k)
                    self.fill(d, off + o, t, v)
        elif v[0] == 'str':
            s = v[1]
            out, k = [], 0
            while k < len(s):
                if s[k] == '\\':
                    out.append(int(s[k + 1:k + 3], 16))
                    k += 3
                else:
                    out.append(ord(s[k]))
                    k += 1
            for k, ch in enumerate(out):
                d[off + k] = (1, ch)
        elif v[0] == 'agg':
            if ty[0] == 'arr':
                for k, x in enumerate(v[1]):
                    self.fill(d, off + k * self.m.size(ty[2]), ty[2], x)
            else:
                for k, x in enumerate(v[1]):
                    o, t = self.m.field_off(ty, k)
                    self.fill(d, off + o, t, x)
        elif v[0] == 'c':
            d[off] = (self.m.size(ty), v[1])
        elif v[0] == 'f':
            d[off] = (8, float(v[1]))
        elif v[0] == 'g':
            d[off] = (8, self.glob(v[1]))
        elif v[0] == 'null':
            d[off] = (8, 0)

    # -- events
    # scans that stop at a sentinel value: the index bound is a fact about data, not about the shape
    SENTINEL = {'svd': 'the scan for a negligible superdiagonal entry stops at e[0], which is 0'}

    def event(self, kind, ins, text):
        if kind == 'bounds' and 'offset -' in text and any(x[0] in self.SENTINEL for x in self.stack):
            return
        if self.uncertain:
            # inside a loop that has not settled yet: stands only if the last evaluation says the same
            self.tent[(kind, ins, tuple(x[1] for x in self.stack))] = (text, list(self.stack))
        else:
            self.events.setdefault((kind, ins), (text, list(self.stack)))

    def used(self, x, y, ins):
        v = mix(x, y)
        self.event('unwritten', ins, 'a test depends on %s, which nothing has written' % v.text)

    def settle(self):
        for (kind, ins, _), e in self.tent.items():
            if e is not None:
                self.events.setdefault((kind, ins), e)
        self.tent = {}

    def fine(self, kind, ins):
        if self.uncertain and self.tent:
            k = (kind, ins, tuple(x[1] for x in self.stack))
            if k in self.tent:
                self.tent[k] = None

    # -- accesses
    def inside(self, p, n, ins, what):
        self.accesses += 1
        r, off = p[0], p[1]
        if off is None or r.size is None:
            self.fine('bounds', ins)
            return True
        self.checked += 1
        self.sites.add(ins)
        if off < 0 or off + n > r.size:
            self.event('bounds', ins, '%s of %d bytes at offset %d of %s, which has %d bytes' % (what, n, off, r.name, r.size))
            return False
        self.fine('bounds', ins)
        return True

    def load(self, p, n, ty, ins):
        if self.uncertain:
            self.fine('unwritten', ins)
        if type(p) is not tuple:
            if p is None:
                self.fine('bounds', ins)
            return None
        if not self.inside(p, n, ins, 'read'):
            return None
        r, off = p[0], p[1]
        if off is None:
            return None
        if r.const is not None:
            c = r.const.get(off)
            return c[1] if c is not None and c[0] == n else None
        c = self.mem.m.get(r)
        if c is None:
            c = self.mem.mut(r)
        x = c.d.get(off)
        if x is not None and x[0] > n and x[1] == 0 and type(x[1]) in (int, float):
            x = (n, 0)
        if x is not None and x[0] == n:
            v = x[1]
            if v is UNINIT:
                return None
            if ty == 'double' and type(v) is int:
                return float(v) if v == 0 else None
            if ty != 'double' and type(v) is float:
                return 0 if v == 0.0 else None
            return v
        if x is not None or off >= c.top:
            return None
        for k in range(1, 8):
            y = c.d.get(off - k)
            if y is not None and y[0] > k:
                if y[0] >= k + n and y[1] == 0 and type(y[1]) in (int, float):
                    return 0.0 if ty == 'double' else 0
                return None
        if r.kind == 'zero':
            return 0.0 if ty == 'double' else 0
        if r.kind in ('heap', 'stack'):
            if r.size is not None:
                if ty == 'double':
                    return Poison('element %d of %s' % (off // 8, r.name), ins)
        return None

    def store(self, p, n, v, ins):
        if type(p) is not tuple:
            if p is None:
                self.fine('bounds', ins)
                self.havoc_all(ins)
            return
        if not self.inside(p, n, ins, 'write'):
            return
        r, off = p[0], p[1]
        if r.const is not None:
            return
        c = self.mem.mut(r)
        if off is None:
            self.forget(c, p, True)
            return
        for k in range(1, 8):
            y = c.d.get(off - k)
            if y is not None and y[0] > k:
                if y[0] == 8 and k == n == 4 and y[1] == 0 and type(y[1]) in (int, float):
                    c.d[off - k] = (4, 0)
                else:
                    c.d[off - k] = (y[0], None)
        if n == 4:
            y = c.d.get(off)
            if y is not None and y[0] == 8 and y[1] == 0 and type(y[1]) in (int, float):
                c.d[off + 4] = (4, 0)
        for k in range(1, n):
            if off + k in c.d:
                del c.d[off + k]
        c.d[off] = (n, v)

    def havoc_all(self, ins):
        self.unknown.add(('store', ins))
        for r in list(self.mem.m):
            if r.kind != 'global' or r.const is None:
                c = self.mem.mut(r)
                c.d.clear()
                c.top = 0

    @staticmethod
    def forget(c, p, one=False):
        """an element of the block at an unknown index of the array that p points into changed; one: a single one (what construction
        left elsewhere stays)"""
        lo = p[2] if len(p) > 2 else p[1] if p[1] is not None else 0
        lo = max(lo, 0)
        for k in [k for k, v in c.d.items() if k >= lo and not (one and type(v[1]) is Poison and v[1].text == MARK)]:
            del c.d[k]
        c.top = min(c.top, lo)

    def havoc(self, p):
        if type(p) is tuple and p[0].const is None:
            self.forget(self.mem.mut(p[0]), p)

    jv = staticmethod(join_val)

    # -- allocation
    def new(self, ins, size, kind):
        name = '%s:%s' % (ins.bb.fn.name, self.m.varname(ins.bb.fn, ins.res) if ins.res else '?')
        if size is not None and size < 0:
            self.event('size', ins, 'allocates %d bytes' % size)
            size = None
        if self.uncertain:
            key = (ins, tuple(self.stack), kind)
            r = self.regs.get(key)
            if r is not None:
                if r.size != size:
                    r.size = None
                c = Cells(self.mem.own)
                self.mem.m[r] = c
                return (r, 0)
            r = self.regs[key] = Region(name, size, kind, ins)
        else:
            r = Region(name, size, kind, ins)
        self.mem.m[r] = Cells(self.mem.own)
        return (r, 0)

    def alloca(self, ins):
        n = ins.ops[0]
        sz = self.m.size(ins.x) * (n[1] if n[0] == 'c' else 1)
        return self.new(ins, sz if n[0] == 'c' else None, 'stack')

    # -- calls
    def call(self, f, args, ins):
        if isinstance(f, FnPtr):
            f = f.name
        elif type(f) is not str:
            self.unknown.add(('call', ins))
            self.havoc_all(ins)
            return None
        h = self.hooks.get(f)
        if h is not None:
            r = h(self, args, ins)
            if r is not MISS:
                return r
        g = self.m.fns.get(f)
        if g is not None and g.blocks:
            if self.scalar_once and self.scalar(g):
                if f in self.fns:
                    return None             # analysed once: its result is not followed
                self.run(g, args, ins)
                return None
            return self.run(g, args, ins)
        return self.extern(f, args, ins)

    scalar_once = False

    def scalar(self, g):
        """computes a double from numbers alone, touching no memory of its caller"""
        r = self.scalars.get(g.name)
        if r is None:
            r = self.scalars[g.name] = bool(g.params) and g.ret == 'double' and all(t in ('double', 'i32') for t, _ in g.params) and \
                not any(i.op == 'store' and self.outer(i) for i in g.instrs())
        return r

    @staticmethod
    def outer(i):
        o = i.ops[1]
        return o[0] == 'g'

    def bytes_(self, p):
        if type(p) is not tuple or p[1] is None:
            return None
        r, off = p[0], p[1]
        out = []
        d = r.const if r.const is not None else None
        c = self.mem.m.get(r)
        while True:
            x = d.get(off) if d is not None else c.d.get(off) if c is not None else None
            if x is None or x[0] != 1 or type(x[1]) is not int:
                if x is None and d is None and c is not None and off < c.top and r.kind == 'zero':
                    return bytes(out)
                return None
            if x[1] == 0:
                return bytes(out)
            out.append(x[1] & 255)
            off += 1

    def extern(self, f, a, ins):
        if f == 'malloc':
            return self.new(ins, a[0], 'heap')
        if f == 'calloc':
            return self.new(ins, None if a[0] is None or a[1] is None else a[0] * a[1], 'zero')
        if f == 'free':
            if type(a[0]) is tuple and a[0][0].const is None:
                self.mem.m.pop(a[0][0], None)
            return None
        if f == 'realloc':
            p = self.new(ins, a[1], 'heap')
            self.mem.mut(p[0]).top = 0
            return p
        if f == 'exit' or f == 'abort':
            return self.NORET
        if f.startswith(('llvm.memcpy', 'llvm.memmove')) or f in ('memcpy', 'memmove'):
            return self.copy(a, ins)
        if f.startswith('llvm.memset') or f == 'memset':
            p, v, n = a[:3]
            if type(p) is tuple:
                if n is None:
                    self.havoc(p)
                elif n > 0 and self.inside(p, n, ins, 'memset'):
                    c = self.mem.mut(p[0])
                    if p[1] is None or v != 0:
                        self.forget(c, p)
                    else:
                        for k in [k for k in c.d if p[1] <= k < p[1] + n]:
                            del c.d[k]
                        w = 8 if n % 8 == 0 and p[1] % 8 == 0 else 4 if n % 4 == 0 else 1
                        for k in range(p[1], p[1] + n, w):
                            c.d[k] = (w, 0)
            return p
        if f == 'strcmp':
            x, y = self.bytes_(a[0]), self.bytes_(a[1])
            if x is None or y is None:
                return None
            return (x > y) - (x < y)
        if f == 'strlen':
            x = self.bytes_(a[0])
            return None if x is None else len(x)
        if f == 'strcpy':
            s = self.bytes_(a[1])
            if s is None:
                self.havoc(a[0])
            elif type(a[0]) is tuple:
                for k, ch in enumerate(s + b'\0'):
                    self.store((a[0][0], None if a[0][1] is None else a[0][1] + k), 1, ch, ins)
            return a[0]
        if f == 'strstr':
            x, y = self.bytes_(a[0]), self.bytes_(a[1])
            if x is None or y is None:
                return None
            k = x.find(y)
            return 0 if k < 0 else (a[0][0], a[0][1] + k)
        if f == 'atoi':
            x = self.bytes_(a[0])
            if x is None:
                return None
            k = 0
            while k < len(x) and chr(x[k]).isdigit():
                k += 1
            return int(x[:k] or b'0')
        if f == 'qsort':
            p, n, w = a[:3]
            if type(p) is tuple and n is not None and n > 0:
                self.inside(p, n * w, ins, 'sort')
            self.havoc(p)
            return None
        if f in ('rand', 'time', 'srand'):
            return None
        self.unknown.add(('extern ' + f, ins))
        for x in a:
            self.havoc(x)
        return None

    def copy(self, a, ins):
        d, s, n = a[:3]
        if n is None or n < 0:
            if n is not None:
                self.event('bounds', ins, 'copies %d bytes' % n)
            self.havoc(d)
            return d
        if n == 0:
            return d
        if type(s) is tuple:
            self.inside(s, n, ins, 'copy from')
        if type(d) is not tuple:
            if d is None:
                self.havoc_all(ins)
            return d
        if not self.inside(d, n, ins, 'copy to'):
            return d
        if d[1] is None or type(s) is not tuple or s[1] is None:
            self.havoc(d)
            return d
        r, o = s[0], s[1]
        src = r.const if r.const is not None else self.mem.mut(r).d
        top = r.const is None and self.mem.mut(r).top < o + n
        items = [(k - o, x) for k, x in src.items() if o <= k and k + x[0] <= o + n]
        dflt = None
        if r.const is None:
            dflt = TOPCELL if top or r.kind in ('arg', 'global') else 0 if r.kind == 'zero' else UNINIT
        c = self.mem.mut(d[0])
        for k in [k for k in c.d if d[1] <= k < d[1] + n]:
            del c.d[k]
        for k, x in items:
            c.d[d[1] + k] = x
        if dflt is not UNINIT and r.const is None:
            w = 8 if n % 8 == 0 and d[1] % 8 == 0 else 4 if n % 4 == 0 else 1
            have = {k for k, _ in items}
            cov = set()
            for k, x in items:
                cov.update(range(k, k + x[0]))
            for k in range(0, n, w):
                if k not in cov:
                    c.d[d[1] + k] = (w, None if dflt is TOPCELL else 0)
        elif dflt is UNINIT and d[0].kind not in ('heap', 'stack'):
            cov = set()
            for k, x in items:
                cov.update(range(k, k + x[0]))
            for k in range(0, n, 8):
                if k not in cov:
                    c.d[d[1] + k] = (8, None)
        return d

    # -- functions
    def run(self, fn, args, ins=None):
        if len(self.stack) > 60:
            raise Stop('call depth: ' + ' '.join(x[0] for x in self.stack[-6:]))
        if args and sum(x[0] == fn.name for x in self.stack[-3:]) > 1 and all(x is None for (t, _), x in zip(fn.params, args) if t == 'i32'):
            self.unknown.add(('recursion', ins))
            for x in args:
                self.havoc(x)
            return None
        code = self.codes.get(fn.name)
        if code is None:
            code = self.codes[fn.name] = Code(self, fn)
        self.fns.add(fn.name)
        self.stack.append((fn.name, ins))
        unc0 = self.uncertain
        try:
            return self.body(code, fn, args)
        finally:
            self.uncertain = unc0
            self.stack.pop()
            if not self.stack:
                self.settle()

    def body(self, code, fn, args):
        R = [MISS] * code.n
        for (t, n), a in zip(fn.params, args):
            R[code.reg[n]] = a
        entry = fn.blocks[0]
        pend = {entry: State(R, self.mem)}
        prio, hdr, loops = code.prio, code.hdr, code.loop
        left = {}
        undecided = {}
        since = {}
        decided = set()
        budget = 400
        unc = {}                # loop -> accumulated header state, once its exit test was unknown
        base = self.uncertain
        rets = None
        while pend:
            b = min(pend, key=prio.__getitem__) if len(pend) > 1 else next(iter(pend))
            st = pend.pop(b)
            self.steps += len(b.ins)
            if self.steps > self.limit:
                raise Stop('too many steps')
            # forget loops that were left: none of their blocks is pending
            if unc:
                for l in [l for l in unc if b not in l.blocks and not any(x in l.blocks for x in pend)]:
                    del unc[l]
                    left.pop(l, None)
                    undecided.pop(l, None)
            l = hdr.get(b)
            if l is not None and left.get(l) and self.steps - since[l] > 300000:
                left[l] = 0
            if l is not None and left.get(l):
                left[l] -= 1
                budget -= 1            # the early exits of a short loop are joined behind it; the loop itself is still followed
            elif l is not None and l in unc:
                acc = unc[l]
                if acc is None:
                    unc[l] = (st, 0)
                    st = State(list(st.R), st.mem.clone())
                else:
                    s2, ch = join_state(acc[0], st)
                    if not ch:
                        continue
                    if acc[1] > 40:
                        raise Stop('loop of %s does not settle' % fn.name)
                    unc[l] = (s2, acc[1] + 1)
                    st = State(list(s2.R), s2.mem.clone())
            self.mem = st.mem
            R = st.R
            self.uncertain = base + (1 if unc and any(not left.get(x) for x in unc) else 0)
            if code.block(b)(R, self):
                continue
            t = b.term
            if t.op == 'ret':
                v = self.value(code, R, t.ops[0]) if t.ops else None
                s = State([v], self.mem)
                rets = s if rets is None else join_state(rets, s)[0]
                continue
            if t.op == 'unreachable':
                continue
            if t.op == 'br':
                if not t.ops:
                    out = [b.succ[0]]
                else:
                    c = self.value(code, R, t.ops[0])
                    if c is None or c is MISS:
                        out = list(dict.fromkeys(b.succ))
                    else:
                        out = [fn.bmap[t.x[0] if c else t.x[1]]]
            else:
                c = self.value(code, R, t.ops[0])
                if c is None or c is MISS:
                    out = list(dict.fromkeys(b.succ))
                else:
                    out = [fn.bmap[dict(t.x[1]).get(c, t.x[0])]]
            # edges, past the blocks that only join a short-circuited test
            edges = []
            for s in out:
                ph = [(code.reg[i.res], self.value(code, R, i.ops[i.x.index(b.name)])) for i in s.phis()]
                via = None
                j = code.joins(s)
                if j is not None:
                    v = dict(ph).get(j)
                    if v is not None and v is not MISS:
                        via, s = s, fn.bmap[s.term.x[0] if v else s.term.x[1]]
                        d = dict(ph)
                        ph2 = []
                        for i in s.phis():
                            o = i.ops[i.x.index(via.name)]
                            ph2.append((code.reg[i.res], d[code.reg[o[1]]] if o[0] == 'v' and code.reg[o[1]] in d else self.value(code, R, o)))
                        ph = ph + ph2
                edges.append((s, ph, via))
            if not base:
                for x in {b} if len(out) == 1 and len(b.succ) > 1 else {v for _, _, v in edges if v is not None}:
                    for l in loops[x]:
                        if any(y not in l.blocks for y in x.succ):
                            decided.add(l)
            if len({s for s, _, _ in edges}) > 1:
                # an unknown test that can leave a loop makes that loop's iteration count unknown,
                # unless another test of the loop ends it: then the early exits are joined behind it
                for l in loops[b]:
                    if not any(s not in l.blocks for s, _, _ in edges):
                        continue
                    und = undecided.setdefault(l, set())
                    und.add(b)
                    hope = not base and budget > 0 and bool(code.exits(l) - und)
                    if l not in unc:
                        unc[l] = None
                        since[l] = self.steps
                        left[l] = (self.LEAF if code.leaf(l) else 12 if l in decided else 0 if any(left.get(x) for x in loops[b]) else 3) if hope else 0
                    elif not hope and unc[l] is None:
                        left[l] = 0
            for k, (s, ph, via) in enumerate(edges):
                R2 = list(R)
                m2 = self.mem if k == len(edges) - 1 else self.mem.clone()
                for x, v in ph:
                    R2[x] = v
                lv = code.live[s]
                own = {x for x, _ in ph}
                for x in range(code.n):
                    if x not in lv and R2[x] is not MISS and x not in own:
                        R2[x] = MISS
                ns = State(R2, m2)
                if s in pend:
                    pend[s] = join_state(pend[s], ns)[0]
                else:
                    pend[s] = ns
        self.uncertain = base
        if rets is None:
            return self.NORET
        self.mem = rets.mem
        return rets.R[0]

    def value(self, code, R, o):
        k = o[0]
        if k == 'v':
            v = R[code.reg[o[1]]]
            return None if v is MISS else v
        if k == 'c':
            return o[1]
        if k == 'f':
            return float(o[1])
        if k == 'null':
            return 0
        if k == 'g':
            return self.glob(o[1])
        if k == 'gep':
            b = self.value(code, R, o[2])
            off = self.eff._gep_off(o[1], o[3])
            return gepc(b, off) if isinstance(off, int) else None
        return None
