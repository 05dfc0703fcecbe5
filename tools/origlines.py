#!/usr/bin/env python3
"""Checks that every planted bug changes lines of the original repository."""
import glob, re, subprocess
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; n = 0
    for l in open(p):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", f], text=True).split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif f and l.startswith("-") and not l.startswith("---"):
            if not blame[n].startswith("^"): print(p.split("/")[-2], f, n + 1, "not original:", l.strip())
            n += 1
        elif l.startswith(" "): n += 1
