#!/usr/bin/env python3
"""run.py Cxx [--thorough]: decides one property from the current source in /repo."""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    from sa.report import main
    main(prop, mod.check, mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', []))
