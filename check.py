#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import core
if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        core.build_driver()
        for c in core.CONFIGS:
            core.facts(c)
        sys.exit(0)
    pid = sys.argv[1]
    m = importlib.import_module("checks." + pid.lower())
    sys.exit(core.run(pid, m.TITLE, m.check, getattr(m, "FLOOR", 1)))
