"""Checks that the tools the checks need are present; there is nothing to build ahead of time."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "make", "python3") if not shutil.which(t)]
if missing: sys.exit("missing tools: %s" % missing)
print("tools present")
