#!/usr/bin/env python3
"""Checks that the tools the framework needs are there; each check builds what it needs."""
import shutil, sys
for t in ("gcc", "g++", "ar", "nm", "objcopy"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("ok")
