"""Nothing to install: every check builds from /repo with the system compiler. Verify it is there."""
import shutil, sys
missing = [t for t in ("clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")
