#!/usr/bin/env python3
"""The engine agrees with Python on a catalogue of language and library features (used by refactorings of the package)."""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
CASES = {}


def case(name, src):
    CASES[name] = src


HEAD = '''
import re, os, copy, itertools, functools, collections, contextlib, operator, string, enum, dataclasses, typing, abc, types, bisect, textwrap, hashlib, json, pathlib
from typing import *
from pathlib import Path
'''
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'feature_cases.py')).read())


def py(src):
    g = {}
    try:
        exec(compile(HEAD + src, 'f', 'exec'), g)
        return repr(g['f']())
    except Exception as e:
        return 'raises ' + type(e).__name__


def show(I, v):
    from sa import dom
    from sa.interp import VList
    return I.call(I.builtins['repr'], [v])


def engine(src):
    from sa import interp, drive
    from sa.interp import AbsRaise
    from sa.dom import Imprecise
    d = tempfile.mkdtemp()
    os.makedirs(d + '/specfile')
    open(d + '/specfile/zz.py', 'w').write(HEAD + src)
    interp.REPO = d
    try:
        I = drive.fresh_interp(modules=['zz'])
        r = I.call(I.load_module('specfile.zz').attrs['f'], [])
        return show(I, r)
    except AbsRaise as e:
        return 'raises ' + e.exc.cls.name
    except Imprecise as e:
        return 'IMPRECISE %s' % (e,)
    except Exception as e:
        import traceback
        return 'CRASH ' + traceback.format_exc()[-300:]
    finally:
        os.unlink(d + '/specfile/zz.py')
        os.rmdir(d + '/specfile')
        os.rmdir(d)


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    bad = 0
    for n, s in CASES.items():
        if sys.argv[1:] and n not in sys.argv[1:]:
            continue
        a, b = py(s), engine(s)
        if a != b:
            bad += 1
            print('%-28s python %s\n%-28s engine %s' % (n, a, '', b))
    print('%d cases, %d differ' % (len(CASES), bad))
