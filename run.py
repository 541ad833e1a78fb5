#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property (see DESIGN.md)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [here + '/lib', here + '/checks']
sys.dont_write_bytecode = True
if __name__ == '__main__':
    pid = sys.argv[1]; tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    os.environ['VERIF_TIER'] = tier
    sys.exit(importlib.import_module(pid.lower()).main(tier))
