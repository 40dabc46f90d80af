#!/opt/venv/bin/python
"""run.py <property> [quick|thorough]: decides one property on /repo's current working tree"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')  # z3
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + prop.lower())
    core.run_check(prop, tier, getattr(mod, 'LEVEL', 'other'), lambda r: mod.run(r, tier))
