#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT...: appends `fixed:` lines (idempotent) for fix commits to known_findings.txt."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.path.join(V, "known_findings.txt")
old = open(K).read() if os.path.exists(K) else ""
with open(K, "a") as f:
    for c in sys.argv[2:]:
        h, s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().split(" ", 1)
        assert s.startswith("fix: "), s
        if h not in old:
            f.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s[5:]))
