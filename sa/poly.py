"""Integer polynomials over interned atoms, and linear-arithmetic entailment over their monomials
(Farkas certificates; the polyhedral domain of the bounds analysis)."""
import numpy as np
from scipy.optimize import linprog

ATOMS = []          # id -> Atom
_INTERN = {}


class Atom:
    """kind:
       'p'    parameter (key = (fn, k))
       'fld'  value of a memory cell at function entry (key = (fn, path))
       'K'    loop counter
       'opq'  opaque value
       'div','rem'  args = (poly a, poly b)
       'phi'  merge: alts = [(poly, facts)], group = identity of the merge block instance
    """
    __slots__ = ('id', 'kind', 'key', 'args', 'facts', 'name', 'group', 'alts', 'lo')

    def __repr__(self):
        return self.name


def atom(kind, key, name=None, args=None):
    k = (kind, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.key, a.args, a.name = kind, key, args, name or '%s%s' % (kind, key)
        a.facts = []
        a.alts = None
        a.group = None
        a.lo = None
        ATOMS.append(a)
        _INTERN[k] = a
    return a


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def of(a):
        return Poly({(a.id,): 1})

    def __add__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({m: c * o for m, c in self.t.items()}) if o else Poly()
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def c0(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def deg(self):
        return max((len(m) for m in self.t), default=0)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def divides(self, n):
        return all(c % n == 0 for c in self.t.values())

    def quo(self, n):
        return Poly({m: c // n for m, c in self.t.items()})

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            nm = '*'.join(ATOMS[a].name for a in m)
            if not m:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + nm)
            elif c == -1:
                out.append('-' + nm)
            else:
                out.append('%+d*%s' % (c, nm))
        s = ' '.join(out)
        return s[1:] if s.startswith('+') else s

    def coef(self, aid):
        """self = A*atom + B with A free of higher powers; returns (A,B) or None when degree in atom > 1"""
        A, B = {}, {}
        for m, c in self.t.items():
            n = m.count(aid)
            if n == 0:
                B[m] = c
            elif n == 1:
                l = list(m)
                l.remove(aid)
                A[tuple(l)] = A.get(tuple(l), 0) + c
            else:
                return None
        return Poly(A), Poly(B)

    def subs1(self, aid, p):
        """substitute atom by poly (shallow)"""
        if aid not in self.atoms():
            return self
        r = Poly()
        for m, c in self.t.items():
            n = m.count(aid)
            if n == 0:
                r = r + Poly({m: c})
            else:
                q = Poly({tuple(x for x in m if x != aid): c})
                for _ in range(n):
                    q = q * p
                r = r + q
        return r


ZERO = Poly()
ONE = Poly.const(1)


def entails(facts, goal, depth=1):
    """goal >= 0 follows from facts (each >= 0) by a nonnegative combination (with products of
    facts up to degree 2 when the goal is non-linear)."""
    if goal.is_const():
        return goal.c0() >= 0
    if all(c >= 0 for c in goal.t.values()):
        # every monomial a product of atoms known >= 0 ?
        nn = {next(iter(f.t))[0] for f in facts if len(f.t) == 1 and () not in f.t and len(next(iter(f.t))) == 1 and next(iter(f.t.values())) > 0}
        if all(all(x in nn for x in m) for m in goal.t):
            return True
    for f in facts:
        d = goal - f
        if d.is_const() and d.c0() >= 0:
            return True
    # necessary condition: every monomial of the goal must be producible with its sign
    pos, neg = set(), set()
    for f in facts:
        for m, c in f.t.items():
            (pos if c > 0 else neg).add(m)
    for m, c in goal.t.items():
        if m and m not in (pos if c > 0 else neg):
            if len(m) == 1:
                return False
    # relevant facts: closure over shared atoms
    at = set(goal.atoms())
    rel, rest = [], list(dict.fromkeys(facts))
    ch = True
    while ch and rest:
        ch = False
        nr = []
        for f in rest:
            fa = f.atoms()
            if fa & at:
                rel.append(f)
                at |= fa
                ch = True
            else:
                nr.append(f)
        rest = nr
    if not rel:
        return False
    fs = rel[:60]
    if goal.deg() >= 2 or any(f.deg() >= 2 for f in fs):
        lin = [f for f in fs if f.deg() == 1][:24]
        prods = []
        for i, f in enumerate(lin):
            for g in lin[i:]:
                prods.append(f * g)
        fs = fs + prods[:320]
        if goal.deg() >= 3:
            quad = [f for f in rel if f.deg() == 2][:6]
            fs += [f * g for f in quad for g in lin[:10]]
    monos = {}
    for f in fs + [goal]:
        for m in f.t:
            if m not in monos and m:
                monos[m] = len(monos)
    n, k = len(fs), len(monos)
    A = np.zeros((k, n))
    b = np.zeros(k)
    for j, f in enumerate(fs):
        for m, c in f.t.items():
            if m:
                A[monos[m], j] = c
    for m, c in goal.t.items():
        if m:
            b[monos[m]] = c
    # constant: goal.c0 - sum l_i f_i.c0 >= 0
    Aub = np.array([[f.c0() for f in fs]], dtype=float)
    bub = np.array([goal.c0() + 1e-7], dtype=float)
    try:
        r = linprog(np.zeros(n), A_ub=Aub, b_ub=bub, A_eq=A, b_eq=b, bounds=(0, None), method='highs')
    except Exception:
        return False
    return r.status == 0
