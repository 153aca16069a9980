#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (see ../DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    try:
        c = vlib.Check(prop)
        mod = importlib.import_module("checks")
        getattr(mod, prop)(c)
        return c.finish()
    except vlib.ToolError as e:
        print(f"error: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    return 2


sys.exit(main())
