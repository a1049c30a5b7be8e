"""Results depend only on arguments and the object: no mutable static state, no environment."""
import contracts
import effects
from checks.c01 import api
from irlib import AnalysisError

LEVEL = 'proof'
ALLOWED = effects.PURE_EXT | {'malloc', 'calloc', 'realloc', 'free', 'printf', 'puts', 'putchar', 'fprintf', 'exit', 'abort',
                              'qsort', 'strcpy', 'strcat', 'strncpy', 'strncat', 'memcpy', 'memset', 'memmove', 'snprintf',
                              'sprintf', 'calloc', 'fflush', 'fputs', 'fputc', 'vprintf', 'vfprintf', 'bsearch',
                              'strdup', 'strtod', 'strtol', 'modf', 'nan', 'signbit', 'isfinite', 'fma', 'scalbn', 'logb',
                              'remainder', 'sincos', 'nearbyint', 'fdim', 'acosh', 'asinh', 'erf', '__assert_fail', '__errno_location'}


def run(ctx, rep):
    rep.rule('Who-may-write over the whole library: no function writes (directly, through a pointer, or through a callee) a '
             'global or function-static object; and the external functions transitively reachable from a public function are '
             'confined to pure mathematics, memory management, string copying, formatted output and process exit (no random '
             'numbers, clock, environment, files, locale, signals or threads).')
    m, eff = ctx.m, ctx.eff
    mut = sorted(n for n, g in m.globals.items() if not g.const)
    rep.count('mutable_globals_declared', len(mut))
    rep.count('globals', len(m.globals))
    pos_ext = 0
    for n in sorted(eff.sum):
        S = eff.sum[n]
        f = m.fns[n]
        rep.count('functions')
        bad = [a for a in S.writes if effects.root(a[0])[0] == 'G']
        direct = [a for a in bad if S.writes[a][1] is None]
        for a in direct:
            g = effects.root(a[0])[1]
            rep.bad('C03|global-write|%s|%s' % (n, g), m.loc(S.writes[a][0]), 'no-global-write',
                    '%s writes the static/global object %s' % (n, g), eff.witness(n, 'w', a))
        rep.ob(True, 'C03|global-write|%s' % n, m.loc(f), 'no-global-write', '')
        stored = [a for a in S.contents if effects.root(a[0])[0] == 'G']
        for a in stored:
            rep.bad('C03|global-pointer|%s|%s' % (n, effects.root(a[0])[1]), m.loc(f), 'no-global-write',
                    '%s stores a pointer in the static/global object %s' % (n, effects.root(a[0])[1]))
        unk = [a for a in S.writes if effects.root(a[0])[0] == 'U']
        rep.need(not unk, '%s writes through a pointer the analysis cannot resolve' % n)
    for name, kind, roles, f, S in api(ctx, rep):
        rep.count('api_functions')
        for x in sorted(S.ext):
            pos_ext += x in ('malloc', 'calloc')
            rep.ob(x in ALLOWED or x.startswith('llvm.'), 'C03|external|%s|%s' % (name, x), m.loc(f), 'no-environment',
                   '%s can reach the external function %s' % (name, x), eff.ext_witness(name, x))
        for a in S.writes:
            if effects.root(a[0])[0] == 'G':
                g = effects.root(a[0])[1]
                rep.bad('C03|api-global|%s|%s' % (name, g), m.loc(f), 'no-global-write',
                        '%s may write the static/global object %s' % (name, g), eff.witness(name, 'w', a))
    rep.need(pos_ext >= 20, 'positive control failed: external reachability sees malloc in only %d API functions' % pos_ext)
    # positive control for the zero-count rules: the library does contain an environment-dependent helper
    env = [n for n, S in eff.sum.items() if {'rand', 'srand', 'time'} & set(S.ext)]
    rep.count('non_api_functions_using_rand_or_time', len(env))
