"""Property id -> (title, analysis)."""
CHECKS = {}


def check(pid, title):
    def deco(fn):
        CHECKS[pid] = (title, fn)
        return fn
    return deco


import importlib
import os
for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))):
    if _f.endswith('.py') and _f != '__init__.py':
        importlib.import_module('sa.rules.' + _f[:-3])
