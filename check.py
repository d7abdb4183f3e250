#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from vlib import core, registry

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":
        for crate, binary in registry.HARNESSES:
            core.build(crate, binary)
        sys.exit(0)
    mod, fn, level = registry.CHECKS[pid]
    m = importlib.import_module("vlib." + mod)
    rc = core.main(pid, level, getattr(m, fn))
    sys.stdout.flush()
    os._exit(rc)
