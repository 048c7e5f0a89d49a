#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds from /repo. This only confirms the tools are there."""
import shutil, sys
missing = [t for t in ("clang++", "clang", "cmake", "ninja", "git") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
