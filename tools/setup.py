"""setup_cmd: nothing is installed; only checks that the tools the checks need are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present"); sys.exit(bool(missing))
