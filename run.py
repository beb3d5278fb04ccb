#!/usr/bin/env python3
"""run.py setup | run.py check <property id>"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vm import build, check  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        for v in build.VARIANTS:
            build.build(v)
            print("built", v)
    elif len(sys.argv) == 3 and sys.argv[1] == "check":
        prop = sys.argv[2]
        mod = importlib.import_module("vm.checks." + prop.lower())
        check.main(mod.run, prop)
    else:
        sys.exit(__doc__)
