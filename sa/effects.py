"""Interprocedural, context-sensitive (bottom-up summaries), field-sensitive points-to and
mod/ref effect analysis over the LLVM IR.

Abstract address  = (object, offset)
  object: ('P',k)      what parameter k points to
          ('D',addr)   what the pointer initially stored at addr points to
          ('G',name)   a global
          ('F',name)   a function
          ('A',id)     memory allocated (heap or stack) in this function or a callee
          ('U',)       unknown
  offset: int, or (int,'+') = that offset or anything above it
"""
from cfg import sccs

MAXD = 4


def oadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    x = a if isinstance(a, int) else a[0]
    y = b if isinstance(b, int) else b[0]
    return (max(0, x + y), '+')


def overlap(o1, o2):
    if isinstance(o1, int):
        if isinstance(o2, int):
            return o1 == o2
        return o1 >= o2[0]
    if isinstance(o2, int):
        return o2 >= o1[0]
    return True


def depth(obj):
    d = 0
    while obj[0] == 'D':
        d += 1
        obj = obj[1][0]
    return d


def root(obj):
    while obj[0] == 'D':
        obj = obj[1][0]
    return obj


def deref(addr):
    obj, off = addr
    if obj[0] == 'U' or obj[0] == 'F':
        return (('U',), (0, '+'))
    if depth(obj) >= MAXD:
        return (obj, (0, '+'))
    return (('D', addr), 0)


ALLOC = {'malloc', 'calloc', 'realloc', 'strdup'}
PURE_EXT = {'sqrt', 'log', 'expm1', 'exp', 'pow', 'sin', 'cos', 'log10', 'hypot', 'tanh', 'atanh', 'fabs', 'floor', 'ceil',
            'tan', 'atan', 'atan2', 'sinh', 'cosh', 'log1p', 'cbrt', 'fmod', 'round', 'fmax', 'fmin', 'lgamma', 'tgamma',
            'strcmp', 'strlen', 'strstr', 'strncmp', 'strchr', 'atoi', 'atof', 'abs', 'labs', 'isnan', 'isinf', 'memcmp',
            '__isnan', '__isinf', '__finite', 'erf', 'erfc', 'ldexp', 'frexp', 'trunc', 'lround', 'rint', 'nearbyint', 'exp2', 'log2', 'copysign', 'asin', 'acos'}


class Summary:
    def __init__(self):
        self.writes = {}     # external addr -> witness (ins, callee addr or None, callee name)
        self.reads = {}
        self.contents = {}   # addr -> set(addr)   pointer stores that survive the call
        self.ret = set()
        self.icalls = {}     # (target addr) -> list of arg pts (list of frozensets)
        self.ext = {}        # external function name -> witness (ins, callee or None)
        self.scalar_global = set()

    def key(self):
        return (len(self.writes), len(self.reads), sum(len(v) for v in self.contents.values()), len(self.contents),
                len(self.ret), sum(len(v) for v in self.icalls.values()), len(self.ext))


class Effects:
    def __init__(self, mod):
        self.m = mod
        self.sum = {}
        self.calls = {}     # fn -> set of possible direct+resolved callees
        self.pts_cache = {}
        self._refs = {}
        for f in mod.fns.values():
            self._refs[f.name] = self._references(f)
        for comp in sccs(sorted(mod.fns), lambda n: self._refs[n]):
            for n in comp:
                self.sum[n] = Summary()
            it = 0
            while True:
                it += 1
                before = [self.sum[n].key() for n in comp]
                for n in comp:
                    self._analyse(mod.fns[n])
                if len(comp) == 1 and comp[0] not in self._refs[comp[0]]:
                    break
                if [self.sum[n].key() for n in comp] == before or it > 12:
                    break

    def _references(self, f):
        out = set()

        def op(o):
            if o[0] == 'g' and o[1][1:] in self.m.fns:
                out.add(o[1][1:])
            elif o[0] == 'gep':
                op(o[2])
        for i in f.instrs():
            for o in i.ops:
                op(o)
            if i.op == 'call':
                op(i.x[0])
        return out

    # ---- one function
    def _gep_off(self, ty, idx, vals=None):
        """constant/unknown byte offset of a GEP index list"""
        off = 0
        var = False
        m = self.m
        cur = ty
        first = True
        for ix in idx:
            if first:
                sz = m.size(cur)
                if ix[0] == 'c':
                    off += ix[1] * sz
                else:
                    var = True
                first = False
                continue
            t = m.structs[cur] if isinstance(cur, str) and cur.startswith('%') else cur
            if t[0] == 'struct':
                o, cur = m.field_off(cur, ix[1])
                off += o
            else:
                cur = t[2]
                sz = m.size(cur)
                if ix[0] == 'c':
                    off += ix[1] * sz
                else:
                    var = True
        return (max(0, off), '+') if var else off

    def operand(self, fn, pts, o):
        k = o[0]
        if k == 'v':
            return pts.get(o[1], ())
        if k == 'g':
            n = o[1][1:]
            if n in self.m.fns or o[1] in self.m.decls:
                return {(('F', n), 0)}
            return {(('G', o[1]), 0)}
        if k == 'gep':
            off = self._gep_off(o[1], o[3])
            return {(ob, oadd(of, off)) for ob, of in self.operand(fn, pts, o[2])}
        return ()

    def load(self, con, a):
        """pointer values that may be stored at address a"""
        obj, off = a
        out = set()
        c = con.get(obj)
        if c:
            for o2, vs in c.items():
                if overlap(off, o2):
                    out |= vs
        r = root(obj)
        if r[0] in ('P', 'G', 'U') or (obj[0] == 'D'):
            if not (obj[0] == 'G' and self.const_fn_table(obj)):
                out.add(deref(a))
        return out

    def const_fn_table(self, obj):
        return False

    @staticmethod
    def put(con, a, vs):
        d = con.setdefault(a[0], {}).setdefault(a[1], set())
        n = len(d)
        d |= vs
        return len(d) != n

    def _analyse(self, fn):
        m = self.m
        S = self.sum[fn.name]
        pts = {}
        for k, (t, n) in enumerate(fn.params):
            if t == 'ptr':
                pts[n] = {(('P', k), 0)}
        con = {}
        for a, vs in S.contents.items():
            self.put(con, a, set(vs))
        callees = self.calls.setdefault(fn.name, set())
        ins_list = [i for i in fn.instrs()
                    if i.op in ('alloca', 'gep', 'phi', 'select', 'load', 'store', 'call', 'ret', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'extractvalue', 'insertvalue')]
        changed = True
        rounds = 0

        def addp(r, s):
            nonlocal changed
            if not s:
                return
            d = pts.setdefault(r, set())
            n = len(d)
            d |= set(s)
            if len(d) > 60:
                # widen offsets
                objs = {}
                for ob, of in d:
                    objs.setdefault(ob, []).append(of)
                nd = set()
                for ob, ofs in objs.items():
                    if len(ofs) > 3:
                        nd.add((ob, (min(x if isinstance(x, int) else x[0] for x in ofs), '+')))
                    else:
                        nd |= {(ob, x) for x in ofs}
                if nd != d:
                    pts[r] = nd
                    changed = len(nd) != n or changed
                    return
            if len(d) != n:
                changed = True
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for i in ins_list:
                op = i.op
                if op == 'alloca':
                    addp(i.res, {(('A', (fn.name, i.res)), 0)})
                elif op == 'gep':
                    base = self.operand(fn, pts, i.ops[0])
                    if base:
                        off = self._gep_off(i.x, i.ops[1:])
                        addp(i.res, {(ob, oadd(of, off)) for ob, of in base})
                elif op in ('phi', 'select'):
                    if i.ty == 'ptr':
                        for o in (i.ops if op == 'phi' else i.ops[1:]):
                            p = self.operand(fn, pts, o)
                            if op == 'phi' and o[0] == 'v' and o[1] in fn.defs:
                                p = set(p)
                            addp(i.res, p)
                        # pointer induction: widen offsets that keep growing
                        d = pts.get(i.res)
                        if d and rounds > 4 and op == 'phi':
                            objs = {}
                            for ob, of in d:
                                objs.setdefault(ob, []).append(of)
                            for ob, ofs in objs.items():
                                if len(ofs) > 2:
                                    lo = min(x if isinstance(x, int) else x[0] for x in ofs)
                                    for x in ofs:
                                        d.discard((ob, x))
                                    d.add((ob, (lo, '+')))
                elif op in ('bitcast', 'freeze', 'extractvalue', 'insertvalue', 'inttoptr', 'ptrtoint'):
                    addp(i.res, set(self.operand(fn, pts, i.ops[0])))
                elif op == 'load':
                    for a in list(self.operand(fn, pts, i.ops[0])):
                        if i.ty in ('ptr', 'i64'):
                            if i.ty == 'ptr':
                                addp(i.res, self.load(con, a))
                        if root(a[0])[0] in ('P', 'G'):
                            S.reads.setdefault(a, (i, None, None))
                elif op == 'store':
                    vs = self.operand(fn, pts, i.ops[0]) if i.ty == 'ptr' else ()
                    for a in list(self.operand(fn, pts, i.ops[1])):
                        if vs and self.put(con, a, set(vs)):
                            changed = True
                        if root(a[0])[0] in ('P', 'G', 'U'):
                            S.writes.setdefault(a, (i, None, None))
                elif op == 'call':
                    args = [set(self.operand(fn, pts, o)) for o in i.ops]
                    tgt, _ = i.x
                    if tgt[0] == 'g':
                        n = tgt[1][1:]
                        if n in m.fns:
                            callees.add(n)
                            if self._apply(fn, i, n, args, pts, con, S, addp):
                                changed = True
                        else:
                            if self._external(fn, i, n, args, pts, con, S, addp):
                                changed = True
                    else:
                        for a in list(self.operand(fn, pts, tgt)):
                            if a[0][0] == 'F':
                                n = a[0][1]
                                if n in m.fns:
                                    callees.add(n)
                                    if self._apply(fn, i, n, args, pts, con, S, addp):
                                        changed = True
                            elif root(a[0])[0] in ('P', 'G'):
                                l = S.icalls.setdefault(a, [])
                                fa = [frozenset(x) for x in args]
                                if fa not in l and len(l) < 8:
                                    l.append(fa)
                elif op == 'ret' and i.ops and i.ty == 'ptr':
                    S.ret |= set(self.operand(fn, pts, i.ops[0]))
        for ob, d in con.items():
            for of, vs in d.items():
                S.contents.setdefault((ob, of), set()).update(vs)
        # prune contents not reachable from outside
        keep = set()
        work = [o for o in ([a[0] for a in S.ret])]
        objs = {}
        for (ob, of) in S.contents:
            objs.setdefault(ob, []).append(of)
            if root(ob)[0] in ('P', 'G'):
                work.append(ob)
        while work:
            ob = work.pop()
            if ob in keep:
                continue
            keep.add(ob)
            for of in objs.get(ob, ()):
                for a in S.contents[(ob, of)]:
                    work.append(a[0])
        for k in [k for k in S.contents if k[0] not in keep]:
            del S.contents[k]
        self.pts_cache[fn.name] = (pts, con)

    def _external(self, fn, i, n, args, pts, con, S, addp):
        ch = False
        base = n.split('.')[0]
        if n.startswith('llvm.'):
            base = n.split('.')[1]
            if base in ('memcpy', 'memmove', 'memset'):
                pass
            else:
                return False
        if n not in S.ext and not n.startswith('llvm.'):
            S.ext[n] = (i, None)

        def wr(a):
            if root(a[0])[0] in ('P', 'G', 'U'):
                S.writes.setdefault(a, (i, None, None))

        def rd(a):
            if root(a[0])[0] in ('P', 'G'):
                S.reads.setdefault(a, (i, None, None))
        if base in ALLOC:
            addp(i.res, {(('A', (fn.name, i.res or i.idx)), 0)})
            if base == 'realloc':
                for a in args[0]:
                    for v in list(self.load(con, (a[0], (0, '+')))) if a[0][0] == 'A' else []:
                        ch |= self.put(con, (('A', (fn.name, i.res)), (0, '+')), {v})
                    wr((a[0], (0, '+')))
        elif base in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', '__memcpy_chk', '__strcpy_chk'):
            for a in args[0]:
                wr((a[0], oadd(a[1], (0, '+'))))
                if base in ('memcpy', 'memmove'):
                    for s in args[1]:
                        rd((s[0], oadd(s[1], (0, '+'))))
                        c = con.get(s[0])
                        if c:
                            for o2, vs in list(c.items()):
                                if vs:
                                    ch |= self.put(con, (a[0], oadd(a[1], (0, '+'))), set(vs))
            if base.startswith('str'):
                for s in args[1]:
                    rd((s[0], oadd(s[1], (0, '+'))))
                if i.res:
                    addp(i.res, args[0])
        elif base == 'qsort':
            for a in args[0]:
                wr((a[0], (0, '+')))
                rd((a[0], (0, '+')))
            for a in args[3]:
                if a[0][0] == 'F' and a[0][1] in self.m.fns:
                    self.calls[fn.name].add(a[0][1])
                    ch |= self._apply(fn, i, a[0][1], [args[0], args[0]], pts, con, S, addp)
        elif base == 'free':
            for a in args[0]:
                wr((a[0], ('free'))) if False else None
                if root(a[0])[0] in ('P', 'G'):
                    S.writes.setdefault((a[0], 'free'), (i, None, None))
        else:
            for x in args:
                for a in x:
                    rd(a)
            if i.res and i.ty == 'ptr':
                if base in ('strstr', 'strchr', 'strrchr'):
                    addp(i.res, {(o, oadd(f, (0, '+'))) for o, f in args[0]})
                else:
                    addp(i.res, {(('U',), (0, '+'))})
        return ch

    def _apply(self, fn, i, n, args, pts, con, S, addp, depthlim=0):
        """instantiate callee summary"""
        C = self.sum.get(n)
        if C is None:
            return False
        ch = False
        cache = {}

        def T(obj):
            r = cache.get(obj)
            if r is not None:
                return r
            if obj[0] == 'P':
                r = args[obj[1]] if obj[1] < len(args) else set()
            elif obj[0] == 'D':
                r = set()
                for a in TA(obj[1]):
                    r |= self.load(con, a)
            elif obj[0] == 'A':
                aid = obj[1]
                # clone per call site, bounded nesting
                if isinstance(aid, tuple) and len(aid) == 3 and aid[0] == 'c' and self._adepth(aid) >= 2:
                    r = {(('A', ('c', (fn.name, i.res or i.idx), aid[2])), 0)}
                else:
                    r = {(('A', ('c', (fn.name, i.res or (i.bb.name, i.idx)), aid)), 0)}
            else:
                r = {(obj, 0)}
            cache[obj] = r
            return r

        def TA(a):
            if a[1] == 'free':
                return {(ob, 'free') for ob, of in T(a[0])}
            return {(ob, oadd(of, a[1])) for ob, of in T(a[0])}
        for a, vs in list(C.contents.items()):
            tv = set()
            for v in vs:
                tv |= TA(v)
            for t in TA(a):
                if tv and self.put(con, t, tv):
                    ch = True
        cache.clear()
        for a in list(C.writes):
            for t in TA(a):
                if root(t[0])[0] in ('P', 'G', 'U') and t not in S.writes:
                    S.writes[t] = (i, n, a)
        for a in list(C.reads):
            for t in TA(a):
                if root(t[0])[0] in ('P', 'G') and t not in S.reads:
                    S.reads[t] = (i, n, a)
        for e in list(C.ext):
            if e not in S.ext:
                S.ext[e] = (i, n)
        if i.res and i.ty == 'ptr' and i.x[0] != ('g', '@qsort'):
            r = set()
            for v in C.ret:
                r |= TA(v)
            addp(i.res, r)
        for a, lists in list(C.icalls.items()):
            for t in TA(a):
                if t[0][0] == 'F':
                    if t[0][1] in self.m.fns and depthlim < 6:
                        self.calls[fn.name].add(t[0][1])
                        for l in list(lists):
                            na = []
                            for s in l:
                                x = set()
                                for v in s:
                                    x |= TA(v)
                                na.append(x)
                            ch |= self._apply(fn, i, t[0][1], na, pts, con, S, (lambda r, s: None), depthlim + 1)
                elif root(t[0])[0] in ('P', 'G'):
                    dst = S.icalls.setdefault(t, [])
                    for l in list(lists):
                        na = []
                        for s in l:
                            x = set()
                            for v in s:
                                x |= TA(v)
                            na.append(frozenset(x))
                        if na not in dst and len(dst) < 8:
                            dst.append(na)
        return ch

    def _adepth(self, aid):
        d = 0
        while isinstance(aid, tuple) and len(aid) == 3 and aid[0] == 'c':
            d += 1
            aid = aid[2]
        return d

    # ---- reporting
    def witness(self, fname, kind, addr, limit=12):
        """call path from fname to the instruction producing the effect"""
        path = []
        seen = set()
        while fname and (fname, addr) not in seen and len(path) < limit:
            seen.add((fname, addr))
            S = self.sum[fname]
            d = S.writes if kind == 'w' else S.reads
            w = d.get(addr)
            if w is None:
                break
            ins, callee, ca = w
            path.append('%s at %s' % (fname, self.m.loc(ins)))
            fname, addr = callee, ca
        return path

    def ext_witness(self, fname, ext, limit=15):
        path = []
        while fname and len(path) < limit:
            w = self.sum[fname].ext.get(ext)
            if not w:
                break
            path.append('%s at %s' % (fname, self.m.loc(w[0])))
            fname = w[1]
        return path

    def show(self, fn, addr):
        """human-readable form of an address in terms of fn's parameters"""
        obj, off = addr
        s = self._show_obj(fn, obj)
        return '%s[%s]' % (s, off if isinstance(off, int) else ('%s..' % off[0] if off != 'free' else 'freed'))

    def _show_obj(self, fn, obj):
        if obj[0] == 'P':
            return '*' + fn.params[obj[1]][1].lstrip('%')
        if obj[0] == 'D':
            return '*(%s)' % self.show(fn, obj[1])
        return str(obj[-1]) if len(obj) > 1 else 'unknown'


if __name__ == '__main__':
    import irlib, time, sys
    m = irlib.load()
    t = time.time()
    e = Effects(m)
    print('effects', round(time.time() - t, 1), 's')
    for n in sys.argv[1:]:
        f = m.fns[n]
        S = e.sum[n]
        print('==', n)
        print(' W', sorted(e.show(f, a) for a in S.writes))
        print(' ret', S.ret)
        print(' icalls', list(S.icalls))
        print(' ext', sorted(S.ext))
