#!/usr/bin/env python3
"""Checks that what the checks need is installed. Every check builds its own monitor from /repo's working tree."""
import subprocess, sys
for c in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(p.stdout.decode().strip())
    if p.returncode != 0:
        sys.exit(1)
