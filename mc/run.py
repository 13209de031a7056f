import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(1000)
import core  # noqa

if __name__ == '__main__':
    prop = sys.argv[1]
    core.import_target()
    mod = importlib.import_module('checks.' + prop.lower())
    sys.exit(core.main(prop, mod, sys.argv[2:]))
