#!/usr/bin/env python3
"""Entry point: checks/run.py PROPERTY [--thorough]"""
import os
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
VENV = '/opt/venv/bin/python'
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get('VERIF_NOEXEC'):
    os.environ['VERIF_NOEXEC'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / 'checks'))

if __name__ == '__main__':
    from mc import harness
    harness.setup_env()
    import registry
    prop = sys.argv[1]
    spec = registry.spec(prop)
    harness.run(prop, **spec)
