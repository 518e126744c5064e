#!/usr/bin/env python3
"""Nothing to build: check that the code under test and the machinery import."""
import os, pathlib, sys
VENV = '/opt/venv/bin/python'
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get('VERIF_NOEXEC'):
    os.environ['VERIF_NOEXEC'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import harness
harness.setup_env()
import bartz
assert str(harness.REPO) in bartz.__file__, bartz.__file__
print('ok', bartz.__file__)
