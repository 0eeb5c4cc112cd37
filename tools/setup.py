#!/usr/bin/env python3
"""Checks that the tools the checks use are there.  Nothing needs to be built ahead: every check builds what it
needs from /repo's working tree."""
import shutil, sys
missing = [t for t in ("g++", "protoc", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("setup ok")
