#!/usr/bin/env python3
"""check.py <PROPERTY> — decide one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vp"))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import framework, registry

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(framework.run_check(pid, registry.RULES[pid], registry.META[pid]))
