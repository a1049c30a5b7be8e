"""Public header and library agree: prototypes, definitions, struct layouts (debug-info comparison)."""
import os
import re
import subprocess
import tempfile
import shutil
import contracts
import irlib
from irlib import AnalysisError

LEVEL = 'proof'


class DI:
    def __init__(self, m):
        self.m = m

    def type(self, md, depth=0):
        """canonical C type: typedefs and qualifiers resolved"""
        m = self.m
        if md is None or md == 'null':
            return 'void'
        t = m.meta.get(md, '')
        if depth > 12:
            return '...'
        base = m._field(t, 'baseType')
        base = base if base and base.startswith('!') else None
        if 'DIBasicType' in t:
            return '%s/%s' % (m._field(t, 'encoding'), m._field(t, 'size'))
        if 'DW_TAG_pointer_type' in t:
            return self.type(base, depth + 1) + '*'
        if re.search(r'DW_TAG_(typedef|const_type|volatile_type|restrict_type)', t):
            return self.type(base, depth + 1)
        if 'DW_TAG_array_type' in t:
            els = re.findall(r'![0-9]+', m.meta.get(m._field(t, 'elements') or '', ''))
            cnt = [m._field(m.meta[e], 'count') for e in els if e in m.meta]
            return self.type(base, depth + 1) + ''.join('[%s]' % ('' if c in (None, '-1', '0') else c) for c in cnt)
        if 'DW_TAG_structure_type' in t:
            return 'struct ' + (m._field(t, 'name') or '?')
        if 'DISubroutineType' in t:
            l = m.meta.get(m._field(t, 'types') or '', '')
            l = re.findall(r'null|![0-9]+', l[l.index('{'):] if '{' in l else l)
            ts = [self.type(x, depth + 1) for x in l]
            return '%s(%s)' % (ts[0] if ts else 'void', ','.join(ts[1:]))
        if 'DW_TAG_enumeration_type' in t:
            return 'enum'
        return t[:40]

    def structs(self):
        """tag -> list of distinct layouts [(field, offset bits, size bits, type)]"""
        out = {}
        m = self.m
        for k, md in m.meta.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in md:
                name = m._field(md, 'name')
                els = m._field(md, 'elements')
                if not name or not els or els not in m.meta:
                    continue
                fl = []
                for e in re.findall(r'![0-9]+', m.meta[els]):
                    em = m.meta.get(e, '')
                    if 'DW_TAG_member' in em:
                        b = m._field(em, 'baseType')
                        fl.append((m._field(em, 'name'), int(m._field(em, 'offset') or 0), int(m._field(em, 'size') or 0),
                                   self.type(b)))
                lay = (int(m._field(md, 'size') or 0), tuple(fl))
                if lay not in out.setdefault(name, []):
                    out[name].append(lay)
        return out


def header_module(rep, hdr):
    r = subprocess.run(['clang', '-E', '-P', hdr], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('header does not preprocess: ' + r.stderr[:500])
    src = r.stdout
    fns = []
    for mm in re.finditer(r'(\w+)\s*\(([^;{}()]*)\)\s*;', src):
        if mm.group(1) not in fns:
            fns.append(mm.group(1))
    tags = sorted(set(re.findall(r'struct\s+(\w+)\s*\{', src)))
    tmp = tempfile.mkdtemp(prefix='ctsa-hdr-')
    try:
        c = os.path.join(tmp, 'h.c')
        with open(c, 'w') as f:
            f.write('#include "%s"\n' % hdr)
            for n in fns:
                f.write('__typeof__(&%s) vp_fn_%s = %s;\n' % (n, n, n))
            for t in tags:
                f.write('struct %s *vp_st_%s;\n' % (t, t))
        out = os.path.join(tmp, 'h.ll')
        r = subprocess.run(['clang', '-O0', '-g', '-w', '-S', '-emit-llvm', '-o', out, c], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('header does not compile on its own: ' + r.stderr[:800])
        # C++ users: the header promises extern "C" linkage
        cc = os.path.join(tmp, 'h.cpp')
        with open(cc, 'w') as f:
            f.write('#include "%s"\n' % hdr)
            for n in fns:
                f.write('__typeof__(&%s) vp_fn_%s = %s;\n' % (n, n, n))
        out2 = os.path.join(tmp, 'hpp.ll')
        r = subprocess.run(['clang++', '-O0', '-w', '-S', '-emit-llvm', '-o', out2, cc], capture_output=True, text=True)
        cpp = open(out2).read() if r.returncode == 0 else None
        return irlib.Module(open(out).read()), fns, tags, cpp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(ctx, rep):
    rep.rule('Every function declared in the public header has exactly one external definition in the library with the same '
             'resolved parameter and return types, and every struct the header exposes has, field by field, the offset, size '
             'and type the library was compiled with; the trailing array starts at the same offset.')
    hdr = os.path.join(irlib.REPO, 'header', 'ctsa.h')
    rep.need(os.path.exists(hdr), 'header/ctsa.h is missing')
    hm, fns, tags, cpp = header_module(rep, hdr)
    m = ctx.m
    hd, ld = DI(hm), DI(m)
    rep.need(len(fns) >= 50 and len(tags) >= 5, 'header lists %d functions and %d structs' % (len(fns), len(tags)))
    for n in contracts.API:
        rep.ob(n in fns, 'C10|undeclared|' + n, 'header/ctsa.h', 'declared', 'public function %s is no longer declared in the public header' % n)
    # declared function types
    htypes = {}
    for k, md in hm.meta.items():
        if 'DIGlobalVariable(' in md:
            nm = hm._field(md, 'name') or ''
            if nm.startswith('vp_fn_'):
                htypes[nm[6:]] = hd.type(hm._field(md, 'type'))
    for n in fns:
        rep.count('declared_functions')
        f = m.fns.get(n)
        if not rep.ob(f is not None and not f.internal, 'C10|undefined|' + n, 'header/ctsa.h', 'defined',
                      '%s is declared in the public header but the library does not define it' % n):
            continue
        lt = ld.type(m._field(m.meta[f.dbg], 'type')) if f.dbg else None
        rep.need(lt and n in htypes, 'no debug type for ' + n)
        rep.ob(htypes[n] == lt + '*', 'C10|prototype|' + n, m.loc(f), 'prototype',
               '%s: header says %s, library defines %s' % (n, htypes[n].rstrip('*'), lt))
    if cpp is not None:
        for n in fns:
            rep.ob(re.search(r'@%s\b' % n, cpp) is not None, 'C10|cxx|' + n, 'header/ctsa.h', 'c-linkage',
                   '%s does not have C linkage when the header is used from C++' % n)
    else:
        rep.bad('C10|cxx', 'header/ctsa.h', 'c-linkage', 'the header does not compile as C++')
    hs, ls = hd.structs(), ld.structs()
    for t in tags:
        rep.count('header_structs')
        rep.need(t in ls, 'library has no struct ' + t)
        rep.ob(len(ls[t]) == 1, 'C10|struct-conflict|' + t, 'header/ctsa.h', 'one-layout',
               'the library itself compiles struct %s with %d different layouts' % (t, len(ls[t])))
        hl = hs[t][0]
        lib = {x[0]: x for x in ls[t][0][1]}
        for fld in hl[1]:
            rep.count('header_fields')
            l = lib.get(fld[0])
            ok = l is not None and l[1] == fld[1] and l[3] == fld[3] and (l[2] == fld[2] or fld[3].endswith('[]'))
            rep.ob(ok, 'C10|field|%s.%s' % (t, fld[0]), 'header/ctsa.h', 'layout',
                   'struct %s field %s: header offset %d type %s, library %s' % (
                       t, fld[0], fld[1] // 8, fld[3], 'has no such field' if l is None else 'offset %d type %s' % (l[1] // 8, l[3])))
        # all library fields must fit before the header-visible trailing array
        tail = [x for x in hl[1] if x[3].endswith('[]')]
        if tail:
            ltail = lib.get(tail[0][0])
            rep.ob(ltail is not None and all(x[1] + x[2] <= ltail[1] for x in lib.values() if x[0] != tail[0][0]),
                   'C10|tail|%s' % t, 'header/ctsa.h', 'layout', 'struct %s: a library field overlaps the trailing array' % t)
    # internal consistency: one layout per tag, matching prototypes between library units
    for t, lays in sorted(ls.items()):
        rep.count('library_structs')
        rep.ob(len(lays) == 1, 'C10|struct-conflict|' + t, 'src', 'one-layout',
               'struct %s has %d different layouts in different library units: %s' % (t, len(lays), [l[0] for l in lays]))
    # call sites inside the library agree with the definitions they bind to
    for f in m.fns.values():
        for i in f.instrs():
            if i.op != 'call':
                continue
            c, ats = i.x[0], i.x[1]
            if c[0] == 'g' and c[1][1:] in m.fns:
                g = m.fns[c[1][1:]]
                rep.count('call_sites')
                want = [t for t, _ in g.params]
                got = list(ats)
                rep.ob(want == got and i.ty == g.ret, 'C10|call|%s|%s' % (f.name, g.name), m.loc(i), 'call-matches-definition',
                       '%s calls %s with argument types %s but it is defined with %s' % (f.name, g.name, got, want))
    rep.need(rep.counts.get('call_sites', 0) > 1000, 'too few call sites resolved')
