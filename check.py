#!/usr/bin/env python3
"""check.py <property id> [--thorough]   static analysis of one property of /repo"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
import warnings
warnings.simplefilter('ignore')
threading.stack_size(512 * 1024 * 1024)


def main():
    import importlib
    import json
    from fsa.chk import Check
    from checks import REGISTRY
    from checks.meta import EXPLANATIONS
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    worst = 0
    for pid in (args or sorted(REGISTRY)):
        mod, fname = REGISTRY[pid]
        c = Check(pid, tier)
        m = importlib.import_module('checks.' + mod)
        minimum = getattr(m, fname)(c)
        rc = c.finish(minimum or 1, EXPLANATIONS.get(pid, pid))
        worst = max(worst, rc) if worst != 1 and rc != 1 else 1
    return worst


if __name__ == '__main__':
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
