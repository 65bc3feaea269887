#!/usr/bin/env python3
"""setup: the checks are plain Python (standard library only); make sure that every module loads."""
import os, sys, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
for m in ('bdd', 'core', 'model', 'interp', 'rules', 'rx', 'r_sched', 'r_sched2', 'r_cli', 'r_acct'):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + '.py')):
        importlib.import_module('sa.' + m)
print('ok')
