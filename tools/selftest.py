#!/usr/bin/env python3-vt
"""Translator validation: the project's own test-suite, executed through the
instrumented loader (every operator redirected to the symbolic run-time, on
concrete values) must give the same verdicts as under the project's interpreter."""
import os, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symex import loader
import symex.stubs
from symex.engine import Engine
tmp = tempfile.mkdtemp(prefix='sxself')
shutil.copytree(REPO, tmp + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
loader.install(tmp + '/repo', V)
from symex import shadow
import builtins
def _open(p, mode='r', *a, **k):
    return builtins.open(p, mode.replace('U', ''), *a, **k)
shadow.BUILTINS['open'] = _open
shadow.IOModule.open = staticmethod(_open)
Engine().reset_path()
import pytest
os.chdir(tmp + '/repo')
rc = pytest.main(['-q', '-p', 'no:cacheprovider', '--disable-warnings', '--assert=plain',
                  '--import-mode=importlib', 'gerber/tests', '--ignore=gerber/tests/test_cairo_backend.py'] + [a for a in sys.argv[1:] if a != '-x'])
shutil.rmtree(tmp)
sys.exit(rc)
