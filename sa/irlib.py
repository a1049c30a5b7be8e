"""Front end of the static analyser: compile /repo's library sources to LLVM IR
(clang -O0, then only SSA construction and loop canonicalisation), and parse the
textual IR into Python objects.  Nothing from /repo is ever executed."""
import os, re, subprocess, sys, tempfile, shutil, struct
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('CTSA_REPO', '/repo')


class AnalysisError(Exception):
    """The analysis could not be carried out (build failure, vanished anchor)."""


def library_sources(repo=REPO):
    """The library's translation units, as its own build lists them."""
    cm = os.path.join(repo, 'src', 'CMakeLists.txt')
    try:
        txt = open(cm).read()
    except OSError as e:
        raise AnalysisError('cannot read %s: %s' % (cm, e))
    m = re.search(r'set\s*\(\s*SOURCE_FILES(.*?)\)', txt, re.S)
    if not m:
        raise AnalysisError('src/CMakeLists.txt: SOURCE_FILES not found')
    files = [os.path.join(repo, 'src', f) for f in m.group(1).split() if f.endswith('.c')]
    missing = [f for f in files if not os.path.exists(f)]
    if missing or not files:
        raise AnalysisError('library sources missing: %s' % missing)
    return files


def build_ir(repo=REPO, files=None, passes='function(sroa,loop-simplify)', extra=()):
    """-> text of one linked LLVM module holding the whole library."""
    files = files or library_sources(repo)
    tmp = tempfile.mkdtemp(prefix='ctsa-sa-')
    try:
        def one(f):
            out = os.path.join(tmp, os.path.basename(f) + '.ll')
            r = subprocess.run(
                ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w',
                 '-fno-discard-value-names', '-ffp-contract=off', '-I', os.path.join(repo, 'header' if f.endswith('client.c') else 'src'), '-S',
                 '-emit-llvm', *extra, '-o', out, f], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError('clang failed on %s:\n%s' % (f, r.stderr[:2000]))
            return out
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, files))
        allb = os.path.join(tmp, 'all.bc')
        r = subprocess.run(['llvm-link', '-o', allb] + outs, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('llvm-link failed:\n' + r.stderr[:2000])
        r = subprocess.run(['opt', '-S', '-passes=' + passes, allb, '-o', '-'],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('opt failed:\n' + r.stderr[:2000])
        return r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- data model
class Ins:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'bb', 'dbg', 'idx')
    # ty: result type (or stored / accessed type); x: op-specific extra

    def __init__(self, op, res, ty, ops, x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.bb = None
        self.dbg = None
        self.idx = -1

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn', 'i')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.ins, self.succ, self.pred = [], [], []
        self.i = -1

    @property
    def term(self):
        return self.ins[-1]

    def phis(self):
        for i in self.ins:
            if i.op != 'phi':
                break
            yield i


class Fn:
    def __init__(self, name, ret, params, internal, dbg):
        self.name, self.ret, self.params = name, ret, params   # params: [(type,name)]
        self.internal, self.dbg = internal, dbg
        self.blocks, self.bmap, self.defs = [], {}, {}
        self.file, self.line = '?', 0
        self.dbgconst = []                                   # (block, integer assigned to a variable there, variable)

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    @property
    def pnames(self):
        return [n for _, n in self.params]

    def __repr__(self):
        return '<fn %s>' % self.name


class Glob:
    def __init__(self, name, const, ty, init, internal):
        self.name, self.const, self.ty, self.init, self.internal = name, const, ty, init, internal


# operands: ('v','%x') ssa; ('g','@x') global; ('c',int); ('f',float); ('null',); ('undef',)
#           ('gep', basety, operand, [idx operands]) constant expression
TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|[%@](?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")|'''
                 r'''![0-9]+|![a-zA-Z][\w.]*|#[0-9]+|[-+]?0x[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+|[a-zA-Z_][\w.]*|\.\.\.|[()\[\]{}<>,=*:!]|\S''')


def hexdouble(t):
    return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]


class P:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise AnalysisError('IR parse: expected %r got %r in %s' % (x, self.peek(), ' '.join(self.t)[:300]))

    def type(self):
        t = self.next()
        if t == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            r = ('arr', n, e)
        elif t == '{':
            es = []
            while self.peek() != '}':
                es.append(self.type())
                self.eat(',')
            self.need('}')
            r = ('struct', tuple(es))
        elif t == '<':
            if self.peek() == '{':
                self.next()
                es = []
                while self.peek() != '}':
                    es.append(self.type())
                    self.eat(',')
                self.need('}')
                self.need('>')
                r = ('struct', tuple(es))
            else:
                n = int(self.next())
                self.need('x')
                e = self.type()
                self.need('>')
                r = ('vec', n, e)
        elif t.startswith('%'):
            r = t
        else:
            r = t
        if self.peek() == '(' and (r == 'void' or not isinstance(r, str) or True) and self._is_sig():
            # function type
            self.need('(')
            args = []
            while self.peek() != ')':
                if self.eat('...'):
                    args.append('...')
                else:
                    args.append(self.type())
                self.eat(',')
            self.need(')')
            r = ('fn', r, tuple(args))
        return r

    def _is_sig(self):
        # "(ptr, ...)" directly after a type, only in call instructions with explicit signatures
        j = self.i + 1
        depth = 1
        toks = []
        while j < len(self.t) and depth:
            if self.t[j] == '(':
                depth += 1
            elif self.t[j] == ')':
                depth -= 1
            if depth:
                toks.append(self.t[j])
            j += 1
        if j >= len(self.t) or self.t[j][0] not in '%@':
            return False
        return all(t in (',', '...') or t in ('ptr', 'void', 'float', 'double') or re.match(r'i\d+$', t) or t.startswith('%struct')
                   for t in toks)

    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('v', t)
        if c == '@':
            return ('g', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t.startswith('0x'):
            return ('f', hexdouble(t))
        if t.startswith('c"'):
            return ('str', t[2:-1])
        if t == 'c' and self.peek().startswith('"'):
            return ('str', self.next()[1:-1])
        if re.match(r'-?\d+$', t):
            return ('c', int(t)) if ty not in ('double', 'float') else ('f', float(t))
        if re.match(r'-?\d+\.', t):
            return ('f', float(t))
        if t == '[':
            es = []
            while self.peek() != ']':
                et = self.type()
                es.append(self.value(et))
                self.eat(',')
            self.need(']')
            return ('agg', es)
        if t == '{' or t == '<':
            close = {'{': '}', '<': '>'}[t]
            es = []
            if t == '<' and self.peek() == '{':
                self.next()
                v = self.value_struct_rest('}')
                self.need('>')
                return v
            return self.value_struct_rest(close)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            self.need('(')
            bt = self.type()
            self.need(',')
            self.type()
            base = self.value('ptr')
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append(self.value(it))
            self.need(')')
            return ('gep', bt, base, idx)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.need('(')
            it = self.type()
            v = self.value(it)
            self.need('to')
            self.type()
            self.need(')')
            return v
        raise AnalysisError('IR parse: value %r in %s' % (t, ' '.join(self.t)[:300]))

    def value_struct_rest(self, close):
        es = []
        while self.peek() != close:
            et = self.type()
            es.append(self.value(et))
            self.eat(',')
        self.need(close)
        return ('agg', es)

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)

    ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly',
            'readnone', 'returned', 'immarg', 'inreg', 'noreturn', 'nofpclass', 'dso_local', 'local_unnamed_addr'}

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTR:
                self.next()
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'byval', 'sret', 'captures', 'memory', 'range', 'nofpclass'):
                self.next()
                if self.eat('('):
                    d = 1
                    while d:
                        q = self.next()
                        d += (q == '(') - (q == ')')
                else:
                    self.next()
            else:
                return


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
        'ptrtoint', 'inttoptr'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'volatile', 'nneg', 'disjoint', 'samesign', 'nusw'}


def parse_ins(line):
    dbg = None
    m = re.search(r', !dbg (![0-9]+)', line)
    if m:
        dbg = m.group(1)
        line = line[:m.start()]
    # drop other metadata attachments
    line = re.sub(r', !(llvm\.loop|tbaa|prof|range|noundef|srcloc|nosanitize) ![0-9]+', '', line)
    p = P(line)
    res = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    flags = []
    while p.peek() in FLAGS:
        flags.append(p.next())
    if op in BIN:
        ty = p.type()
        a = p.value(ty)
        p.need(',')
        b = p.value(ty)
        r = Ins(op, res, ty, [a, b])
    elif op == 'load':
        ty = p.type()
        p.need(',')
        p.type()
        r = Ins(op, res, ty, [p.value('ptr')])
    elif op == 'store':
        ty = p.type()
        v = p.value(ty)
        p.need(',')
        p.type()
        r = Ins(op, None, ty, [v, p.value('ptr')])
    elif op == 'getelementptr':
        bt = p.type()
        p.need(',')
        p.type()
        base = p.value('ptr')
        idx = []
        while p.eat(','):
            it = p.type()
            idx.append(p.value(it))
        r = Ins('gep', res, 'ptr', [base] + idx, bt)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.need(',')
        r = Ins(op, res, ty, [a, p.value(ty)], pred)
    elif op in CAST:
        ty = p.type()
        v = p.value(ty)
        p.need('to')
        r = Ins(op, res, p.type(), [v], ty)
    elif op == 'fneg':
        ty = p.type()
        r = Ins(op, res, ty, [p.value(ty)])
    elif op == 'freeze':
        ty = p.type()
        r = Ins(op, res, ty, [p.value(ty)])
    elif op == 'select':
        p.type()
        c = p.value('i1')
        p.need(',')
        ty = p.type()
        a = p.value(ty)
        p.need(',')
        p.type()
        r = Ins(op, res, ty, [c, a, p.value(ty)])
    elif op == 'phi':
        ty = p.type()
        vs, bs = [], []
        while p.eat('['):
            vs.append(p.value(ty))
            p.need(',')
            bs.append(p.next())
            p.need(']')
            p.eat(',')
        r = Ins(op, res, ty, vs, bs)
    elif op == 'br':
        if p.eat('label'):
            r = Ins('br', None, None, [], [p.next()])
        else:
            p.type()
            c = p.value('i1')
            p.need(',')
            p.need('label')
            a = p.next()
            p.need(',')
            p.need('label')
            r = Ins('br', None, None, [c], [a, p.next()])
    elif op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.need(',')
        p.need('label')
        dflt = p.next()
        p.need('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type()
            c = p.value(t2)
            p.need(',')
            p.need('label')
            cases.append((c[1], p.next()))
        r = Ins('switch', None, ty, [v], (dflt, cases))
    elif op == 'ret':
        ty = p.type()
        r = Ins('ret', None, ty, [] if ty == 'void' else [p.value(ty)])
    elif op == 'unreachable':
        r = Ins('unreachable', None, None, [])
    elif op == 'alloca':
        ty = p.type()
        n = ('c', 1)
        while p.eat(','):
            if p.peek() in ('align',):
                p.next(); p.next()
            else:
                nt = p.type()
                n = p.value(nt)
        r = Ins('alloca', res, 'ptr', [n], ty)
    elif op == 'call':
        while p.peek() in ('ccc', 'fastcc') or p.peek() in P.ATTR or p.peek() in ('range',):
            p.next()
            if p.peek() == '(':
                while p.next() != ')':
                    pass
        rt = p.type()
        if isinstance(rt, tuple) and rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'metadata':
            raise AnalysisError('metadata call')
        callee = p.value('ptr')
        p.need('(')
        if callee[0] == 'g' and callee[1].startswith('@llvm.dbg'):
            return None
        args, tys = [], []
        while not p.eat(')'):
            t = p.type()
            p.attrs()
            args.append(p.value(t))
            tys.append(t)
            p.eat(',')
        r = Ins('call', res, rt, args, (callee, tys))
    elif op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        r = Ins(op, res, None, [v], idx)
    elif op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.need(',')
        t2 = p.type()
        v2 = p.value(t2)
        r = Ins(op, res, ty, [v, v2])
    else:
        raise AnalysisError('IR parse: unknown op %s in %s' % (op, line[:200]))
    r.dbg = dbg
    return r


class Module:
    def __init__(self, text, repo=REPO):
        self.structs, self.globals, self.fns, self.decls, self.meta = {}, {}, {}, {}, {}
        self.repo = repo
        self._parse(text)
        self._dbg()
        self._layout_cache = {}

    # -- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        cur = None
        blk = None
        names = []
        while i < n:
            l = lines[i]
            i += 1
            if cur is None:
                if not l or l[0] == ';':
                    continue
                if l[0] == '!':
                    k = l.find(' = ')
                    self.meta[l[:k]] = l[k + 3:]
                elif l.startswith('%'):
                    k = l.find(' = type ')
                    if 'opaque' in l:
                        self.structs[l[:k]] = ('struct', ())
                    else:
                        self.structs[l[:k]] = P(l[k + 8:]).type()
                elif l[0] == '@':
                    self._global(l)
                elif l.startswith('declare'):
                    m = re.search(r'declare (.*?)(@[\w.]+)\(', l)
                    self.decls[m.group(2)] = l
                elif l.startswith('define'):
                    cur = self._define(l)
                    blk = None
                continue
            if l == '}':
                self._finish(cur)
                cur = None
                continue
            if not l:
                continue
            if l[0] != ' ':
                m = re.match(r'([-\w$.]+|"[^"]*"):', l)
                if m:
                    nm = '%' + m.group(1)
                    blk = Block(nm, cur)
                    cur.blocks.append(blk)
                    cur.bmap[nm] = blk
                continue
            s = l.strip()
            if s.startswith('switch') or (' switch ' in s and '[' in s):
                while not s.rstrip().split(', !dbg')[0].rstrip().endswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            if '@llvm.dbg.' in s:
                self._dbgcall(cur, s, blk)
                continue
            ins = parse_ins(s)
            if ins is None:
                continue
            if blk is None:
                blk = Block('%0', cur)
                cur.blocks.append(blk)
                cur.bmap['%0'] = blk
            ins.bb = blk
            blk.ins.append(ins)
            if ins.res:
                cur.defs[ins.res] = ins

    def _dbgcall(self, fn, s, blk):
        m = re.search(r'metadata ([^!]*?), metadata (![0-9]+), metadata', s)
        if m:
            v = m.group(1).split()[-1]
            if blk is not None and m.group(1).startswith('i32 ') and v.lstrip('-').isdigit():
                fn.dbgconst.append((blk, int(v), m.group(2)))
            if v.startswith('%'):
                fn.dbgvars.setdefault(v, []).append(m.group(2))

    def _global(self, l):
        m = re.match(r'(@[^ ]+) = (.*)', l)
        name, rest = m.group(1), m.group(2)
        rest = re.sub(r', !dbg ![0-9]+', '', rest)
        toks = rest.split(' ')
        internal = 'internal' in toks[:6] or 'private' in toks[:6]
        k = 0
        while k < len(toks) and toks[k] not in ('global', 'constant'):
            k += 1
        if k == len(toks):
            return
        const = toks[k] == 'constant'
        p = P(' '.join(toks[k + 1:]))
        ty = p.type()
        init = None
        if 'external' not in toks[:k]:
            init = p.value(ty)
        self.globals[name] = Glob(name, const, ty, init, internal)

    def _define(self, l):
        m = re.match(r'define (.*?)(@[-\w$.]+|@"[^"]*")\((.*)$', l)
        pre, name, rest = m.groups()
        internal = 'internal' in pre.split()
        depth, k = 1, 0
        while depth:
            c = rest[k]
            depth += (c == '(') - (c == ')')
            k += 1
        plist = rest[:k - 1]
        dm = re.search(r'!dbg (![0-9]+)', rest[k:])
        p = P(plist)
        params = []
        while p.i < len(p.t):
            if p.eat('...'):
                params.append(('...', '...'))
                break
            t = p.type()
            p.attrs()
            nm = p.next() if p.peek().startswith('%') else '%arg%d' % len(params)
            params.append((t, nm))
            p.eat(',')
        pt = P(pre)
        pt.t = [t for t in pt.t if t not in ('dso_local', 'internal', 'noundef', 'zeroext', 'signext', 'hidden', 'noalias', 'linkonce_odr', 'weak', 'private')]
        ret = pt.type()
        f = Fn(name[1:], ret, params, internal, dm.group(1) if dm else None)
        f.dbgvars = {}
        self.fns[f.name] = f
        return f

    def _finish(self, f):
        for k, b in enumerate(f.blocks):
            b.i = k
            for j, ins in enumerate(b.ins):
                ins.idx = j
            t = b.term
            if t.op == 'br':
                b.succ = [f.bmap[x] for x in t.x]
            elif t.op == 'switch':
                b.succ = [f.bmap[t.x[0]]] + [f.bmap[x] for _, x in t.x[1]]
        for b in f.blocks:
            for s in b.succ:
                s.pred.append(b)

    # -- debug info
    def _field(self, md, key):
        m = re.search(r'[( ]' + key + r': ("(?:[^"\\]|\\.)*"|![0-9]+|[-\w|]+)', md)
        return m.group(1).strip('"') if m else None

    def _dbg(self):
        self._scopefile = {}
        for f in self.fns.values():
            if f.dbg and f.dbg in self.meta:
                md = self.meta[f.dbg]
                f.line = int(self._field(md, 'line') or 0)
                f.file = self._filename(self._field(md, 'file'))
        # struct field names / offsets (from debug info, keyed by C tag name)
        self.difields = {}
        for k, md in self.meta.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in md:
                name = self._field(md, 'name')
                els = self._field(md, 'elements')
                if not els or els not in self.meta:
                    continue
                fl = []
                for e in re.findall(r'![0-9]+', self.meta[els]):
                    em = self.meta.get(e, '')
                    if 'DW_TAG_member' in em:
                        fl.append((self._field(em, 'name'), int(self._field(em, 'offset') or 0) // 8,
                                   int(self._field(em, 'size') or 0) // 8))
                self.difields.setdefault(name or k, fl)

    def _filename(self, fid):
        md = self.meta.get(fid or '', '')
        fn = self._field(md, 'filename') or '?'
        d = self._field(md, 'directory') or ''
        if not fn.startswith('/'):
            fn = os.path.join(d, fn)
        if fn.startswith(self.repo + '/'):
            fn = fn[len(self.repo) + 1:]
        return fn

    def loc(self, ins_or_fn):
        """'src/x.c:123' for an instruction (or function)."""
        if isinstance(ins_or_fn, Fn):
            return '%s:%d' % (ins_or_fn.file, ins_or_fn.line)
        d = ins_or_fn.dbg
        fn = ins_or_fn.bb.fn if ins_or_fn.bb else None
        if not d:
            # nearest located instruction in the block
            if ins_or_fn.bb:
                for o in ins_or_fn.bb.ins:
                    if o.dbg and self._field(self.meta[o.dbg], 'line') not in (None, '0'):
                        d = o.dbg
                        break
            if not d:
                return fn.file if fn else '?'
        md = self.meta[d]
        return '%s:%s' % (self._scope_file(self._field(md, 'scope'), fn), self._field(md, 'line') or '0')

    def line(self, ins):
        return int(self.loc(ins).rsplit(':', 1)[-1]) if ':' in self.loc(ins) else 0

    def _scope_file(self, s, fn):
        if s in self._scopefile:
            return self._scopefile[s]
        md = self.meta.get(s, '')
        f = self._field(md, 'file')
        r = self._filename(f) if f else (fn.file if fn else '?')
        self._scopefile[s] = r
        return r

    def varname(self, fn, v):
        """source-level variable name of an SSA value, if debug info has one"""
        for md in fn.dbgvars.get(v, []):
            n = self._field(self.meta.get(md, ''), 'name')
            if n:
                return n
        return v.lstrip('%')

    # -- layout (x86-64)
    def size(self, ty):
        return self._sa(ty)[0]

    def align(self, ty):
        return self._sa(ty)[1]

    def _sa(self, ty):
        r = self._layout_cache.get(ty)
        if r:
            return r
        if isinstance(ty, str):
            if ty in ('ptr', 'double', 'i64'):
                r = (8, 8)
            elif ty in ('i32', 'float'):
                r = (4, 4)
            elif ty in ('i8', 'i1'):
                r = (1, 1)
            elif ty == 'i16':
                r = (2, 2)
            elif ty in ('x86_fp80', 'i128', 'fp128'):
                r = (16, 16)
            elif ty.startswith('%'):
                r = self._sa(self.structs[ty])
            elif re.match(r'i\d+$', ty):
                n = (int(ty[1:]) + 7) // 8
                r = (n, min(8, n))
            else:
                raise AnalysisError('size of ' + ty)
        elif ty[0] == 'arr':
            s, a = self._sa(ty[2])
            r = (s * ty[1], a)
        elif ty[0] == 'vec':
            s, a = self._sa(ty[2])
            r = (s * ty[1], s * ty[1])
        elif ty[0] == 'struct':
            off, al = 0, 1
            for e in ty[1]:
                s, a = self._sa(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise AnalysisError('size of %r' % (ty,))
        self._layout_cache[ty] = r
        return r

    def field_off(self, ty, k):
        if isinstance(ty, str) and ty.startswith('%'):
            ty = self.structs[ty]
        off = 0
        for j, e in enumerate(ty[1]):
            s, a = self._sa(e)
            off = (off + a - 1) // a * a
            if j == k:
                return off, e
            off += s
        raise AnalysisError('field')

    def field_name(self, sty, off):
        """C field name of the member of struct type '%struct.X' covering byte offset off"""
        tag = sty.replace('%struct.', '') if isinstance(sty, str) else None
        fl = self.difields.get(tag) or self.difields.get(re.sub(r'\.\d+$', '', tag or ''))
        if not fl:
            return '+%d' % off
        best = None
        for nm, o, sz in fl:
            if o <= off and (sz == 0 or off < o + sz or True):
                if best is None or o >= best[1]:
                    best = (nm, o)
        return best[0] if best else '+%d' % off


_cached = None


def load(repo=REPO):
    global _cached
    if _cached is None:
        _cached = Module(build_ir(repo), repo)
    return _cached


def load_with_clients(repo=REPO):
    """the library plus the client programs in client.c (public header only)"""
    c = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'client.c')
    return Module(build_ir(repo, library_sources(repo) + [c]), repo)


if __name__ == '__main__':
    import time
    t = time.time()
    m = load()
    print(len(m.fns), 'functions', sum(len(f.blocks) for f in m.fns.values()), 'blocks',
          sum(1 for f in m.fns.values() for _ in f.instrs()), 'instructions in', round(time.time() - t, 1), 's')
