#!/usr/bin/env python3-vt
"""usage: check.py PROPERTY   (run by the commands in MANIFEST.json)"""
import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import common


def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        return selftest()
    mod = importlib.import_module('checks.' + prop.lower())
    sys.exit(common.main(prop, mod.run, getattr(mod, 'LEVEL', 'proof'), getattr(mod, 'TRUSTED', ())))


def selftest():
    import irlib
    import shutil
    for t in ('clang', 'clang++', 'llvm-link', 'opt'):
        if not shutil.which(t):
            raise SystemExit('missing tool ' + t)
    import scipy.optimize  # noqa: F401
    m = irlib.load()
    print('front end ok: %d functions' % len(m.fns))


main()
