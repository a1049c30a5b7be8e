"""Element-wise dataflow of table-building code.

Follows a function along the blocks that stay reachable under an assumed constant argument and evaluates, at analysis
time, which constant-table entry each output element is assigned and with which factor.  Loops are affine maps: every
header phi advances by a constant, the trip count follows from the exit comparison; index expressions, parity tests and
constant factors are folded per element.  Values are linear terms  factor * table[index]  or constants."""
from cfg import Cfg


class Undecided(Exception):
    pass


class Buf:
    def __init__(self, name, size=None, const=None):
        self.name, self.size, self.const, self.cells = name, size, const, {}

    def __repr__(self):
        return '<%s>' % self.name


LIMIT = 20000


class Elem:
    def __init__(self, mod, spec, eff):
        self.m, self.spec, self.eff = mod, spec, eff
        self.cfgs, self.globs = {}, {}
        self.steps, self.known = 0, {}
        self.log = []      # (callee, source buffers) for evidence
        self.oob = []      # (function, instruction, buffer, index)

    def cfg(self, f):
        if f.name not in self.cfgs:
            self.cfgs[f.name] = Cfg(f)
        return self.cfgs[f.name]

    def table(self, name):
        g = self.m.globals[name]
        b = self.globs.get(name)
        if b is None:
            n = self.m.size(g.ty)
            vals = self.flat(g.ty, g.init)
            if vals is None or n != 8 * len(vals):
                raise Undecided('global %s is not a table' % name)
            b = self.globs[name] = Buf(name, len(vals), vals)
        return b

    def flat(self, ty, init):
        """scalars of a constant initialiser of doubles"""
        if ty == 'double':
            return [float(init[1])] if init and init[0] in 'fc' else [0.0]
        if isinstance(ty, tuple) and ty[0] == 'arr':
            if not init or init[0] != 'agg':
                n = self.m.size(ty)
                return [0.0] * (n // 8) if ty[2] == 'double' else None
            parts = [(ty[2], x) for x in init[1]]
        elif init and init[0] == 'agg' and isinstance(ty, tuple):
            ts = [t for t in ty[1:] if isinstance(t, (list, tuple))]
            ts = ts[0] if len(ts) == 1 and not (ts[0] and ts[0][0] == 'arr') else ts
            parts = list(zip(ts, init[1]))
        else:
            return None
        out = []
        for t, x in parts:
            v = self.flat(t, x)
            if v is None:
                return None
            out += v
        return out

    def load(self, f, ins, p):
        if not (isinstance(p, tuple) and p[0] == 'b'):
            raise Undecided('load through %r in %s' % (p, f.name))
        b, i = p[1], p[2]
        if b.size is not None and not 0 <= i < b.size:
            self.oob.append((f, ins, b, i, 'read'))
            return ('f', 0.0)
        if b.const is not None:
            return ('t', b.name, i, 1.0)
        if i not in b.cells:
            raise Undecided('%s reads an element of %s nothing has assigned' % (f.name, b))
        return b.cells[i]

    def store(self, f, ins, p, v):
        if not (isinstance(p, tuple) and p[0] == 'b'):
            raise Undecided('store through %r in %s' % (p, f.name))
        b, i = p[1], p[2]
        if b.const is not None:
            raise Undecided('store to table')
        if b.size is not None and not 0 <= i < b.size:
            self.oob.append((f, ins, b, i, 'write'))
            return
        b.cells[i] = v

    def val(self, env, o):
        k = o[0]
        if k == 'v':
            if o[1] not in env:
                raise Undecided('unknown value %s' % o[1])
            return env[o[1]]
        if k == 'c':
            return o[1]
        if k == 'f':
            return ('f', o[1])
        if k == 'g':
            if o[1] in self.m.globals:
                return ('b', self.table(o[1]), 0)
            return ('fn', o[1])
        if k == 'gep':
            b = self.val(env, o[2])
            off = self.eff._gep_off(o[1], o[3])
            if isinstance(off, int) and off % 8 == 0 and b[0] == 'b':
                return ('b', b[1], b[2] + off // 8)
        if k == 'null':
            return ('null',)
        raise Undecided('operand %r' % (o,))

    def run(self, f, args, res=None):
        env = {n: a for (_, n), a in zip(f.params, args) if a is not None}
        self.steps = 0
        return self.walk(f, f.blocks[0], None, env, res, None)

    def entry(self, f, env, res):
        self.steps = 0
        return self.walk(f, f.blocks[0], None, env, res, None)

    def walk(self, f, b, prev, env, res, stop):
        """from block b until return (stop None) or until block `stop` is about to be entered"""
        c = self.cfg(f)
        while True:
            self.steps += 1
            if self.steps > LIMIT:
                raise Undecided('too many steps')
            l = c.loop_of(b)
            if l is not None and l.header is b and (stop is None or b is not stop[0]):
                prev, b = self.loop(f, l, prev, env, res)
                continue
            self.block(f, b, prev, env)
            t = b.term
            if t.op == 'ret':
                return self.val(env, t.ops[0]) if t.ops and t.ops[0][0] != 'undef' else None
            nxt = self.next(f, b, env, res)
            if stop is not None and (nxt is stop[0] or nxt not in stop[1]):
                return b, nxt
            prev, b = b, nxt

    def next(self, f, b, env, res):
        t = b.term
        if t.op != 'br':
            raise Undecided('%s terminator' % t.op)
        if not t.ops:
            return b.succ[0]
        if res is not None:
            s = [x for x in b.succ if (b, x) in res.edges]
            if len(s) == 1:
                return s[0]
        try:
            v = self.val(env, t.ops[0])
        except Undecided:
            raise Undecided('branch in %s' % f.name)
        if not isinstance(v, int):
            raise Undecided('branch on %r in %s' % (v, f.name))
        nm = t.x[0] if v else t.x[1]
        return f.bmap[nm] if nm in f.bmap else f.bmap[nm.lstrip('%')]

    def loop(self, f, l, prev, env, res):
        """affine loop: every phi of the header is start + step*k; iterates its map over the trip count"""
        h = l.header
        if len(l.latches) != 1:
            raise Undecided('loop with several latches in %s' % f.name)
        latch = l.latches[0]
        n = 0
        while True:
            n += 1
            if n > LIMIT:
                raise Undecided('trip count')
            self.block(f, h, prev, env)
            nxt = self.next(f, h, env, res if n == 1 and False else None) if len(h.succ) > 1 else h.succ[0]
            if nxt not in l.blocks:
                return h, nxt
            if nxt is h:
                prev = h
                continue
            r = self.walk(f, nxt, h, env, None, (h, l.blocks))
            if not isinstance(r, tuple) or r[1] is not h:
                if isinstance(r, tuple):
                    return r
                raise Undecided('return inside a loop of %s' % f.name)
            prev = r[0]

    def block(self, f, b, prev, env):
        phis = {}
        for i in b.ins:
            if i.op != 'phi':
                break
            for o, nm in zip(i.ops, i.x):
                pb = f.bmap[nm] if nm in f.bmap else f.bmap[nm.lstrip('%')]
                if pb is prev:
                    try:
                        phis[i.res] = self.val(env, o)
                    except Undecided:
                        phis[i.res] = None
        for k, v in phis.items():
            env.pop(k, None)
            if v is not None:
                env[k] = v
        for i in b.ins:
            if i.op in ('phi', 'br', 'ret', 'switch', 'unreachable'):
                continue
            if i.op == 'store':
                self.store(f, i, self.val(env, i.ops[1]), self.val(env, i.ops[0]))
                continue
            if i.op == 'call':
                v = self.call(f, i, env)
            else:
                try:
                    v = self.ev(f, i, env)
                except Undecided:
                    v = None
                    if i.op == 'load':
                        raise
            if i.res:
                if v is not None:
                    env[i.res] = v
                elif i.op != 'call' or i.res not in self.known:
                    env.pop(i.res, None)

    def ev(self, f, i, env):
        vs = [self.val(env, o) for o in i.ops]
        op = i.op
        if op == 'load':
            return self.load(f, i, vs[0])
        if op == 'gep':
            p = vs[0]
            if p[0] != 'b' or i.x != 'double' or len(vs) != 2:
                off = self.eff._gep_off(i.x, [('c', v) for v in vs[1:]])
                if p[0] == 'b' and isinstance(off, int) and off % 8 == 0:
                    return ('b', p[1], p[2] + off // 8)
                raise Undecided('address')
            return ('b', p[1], p[2] + vs[1])
        if op in ('sext', 'zext', 'freeze', 'bitcast'):
            return vs[0]
        if op == 'trunc':
            return vs[0]
        if op in ('add', 'sub', 'mul', 'and', 'srem', 'sdiv', 'shl', 'or', 'xor'):
            a, b = vs
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Undecided(op)
            if op == 'srem':
                return abs(a) % abs(b) * (1 if a >= 0 else -1)
            if op == 'sdiv':
                return abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << (b & 31)}[op]
        if op == 'icmp':
            a, b = vs
            if isinstance(a, int) and isinstance(b, int):
                return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[i.x])
            raise Undecided('icmp')
        if op == 'select':
            if isinstance(vs[0], int):
                return vs[1] if vs[0] else vs[2]
            raise Undecided('select')
        if op == 'fneg':
            return self.scale(vs[0], -1.0)
        if op == 'fmul':
            a, b = vs
            if a[0] == 'f':
                return self.scale(b, a[1])
            if b[0] == 'f':
                return self.scale(a, b[1])
        if op == 'fdiv' and vs[1][0] == 'f' and vs[1][1]:
            return self.scale(vs[0], 1.0 / vs[1][1])
        if op == 'fsub' and vs[0] in (('f', 0.0), ('f', -0.0)):
            return self.scale(vs[1], -1.0)
        if op == 'sitofp':
            return ('f', float(vs[0]))
        raise Undecided(op)

    @staticmethod
    def scale(v, c):
        if v[0] == 'f':
            return ('f', v[1] * c)
        if v[0] == 't':
            return ('t', v[1], v[2], v[3] * c)
        raise Undecided('product')

    def call(self, f, i, env):
        n = i.x[0][1].lstrip('@') if i.x[0][0] == 'g' else None
        if n is None:
            raise Undecided('indirect call in %s' % f.name)
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n in ('printf', 'puts', 'free', 'strcmp', 'strlen', 'strstr', 'atoi'):
            return None
        if n in ('malloc', 'calloc'):
            try:
                k = [self.val(env, o) for o in i.ops]
                sz = k[0] * (k[1] if n == 'calloc' else 1)
            except Undecided:
                sz = None
            b = Buf('%s:%s' % (f.name, i.res), sz // 8 if isinstance(sz, int) else None)
            if n == 'calloc':
                for j in range(b.size or 0):
                    b.cells[j] = ('f', 0.0)
            return ('b', b, 0)
        if n.startswith('llvm.memcpy') or n in ('memcpy', 'memmove') or n.startswith('llvm.memmove'):
            d, s, z = [self.val(env, o) for o in i.ops[:3]]
            for j in range(z // 8):
                self.store(f, i, ('b', d[1], d[2] + j), self.load(f, i, ('b', s[1], s[2] + j)))
            return d
        g = self.m.fns.get(n)
        if g is None or not g.blocks:
            raise Undecided('call to %s' % n)
        args = []
        for o in i.ops:
            try:
                args.append(self.val(env, o))
            except Undecided:
                args.append(None)
        self.log.append((n, [a[1].name for a in args if isinstance(a, tuple) and a[0] == 'b']))
        if not any(isinstance(a, tuple) and a[0] == 'b' for a in args):
            return env.get(('ret', i.res))
        sub = {nm: a for (_, nm), a in zip(g.params, args) if a is not None}
        return self.walk(g, g.blocks[0], None, sub, None, None)

    def number(self, v):
        if v[0] == 'f':
            return v[1]
        return self.globs[v[1]].const[v[2]] * v[3]
