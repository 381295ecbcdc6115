#!/usr/bin/env python3
"""Append to known_findings.txt a line for each fix: commit of /repo that it does not yet name: fixed.py COMMIT PROPERTY."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known_findings.txt")
have = open(p).read() if os.path.exists(p) else ""
h, prop = sys.argv[1], sys.argv[2]
s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
h, msg = s.split(" ", 1)
if " %s " % h not in have:
    open(p, "a").write("fixed: property=%s %s %s\n" % (prop, h, msg.replace("fix: ", "", 1)))
