"""Nothing to build ahead: every check builds what it needs from /repo's working tree. Checks the tools are there."""
import shutil, subprocess, sys
for t in ("gcc", "clang", "go", "node", "ar"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
subprocess.run([sys.executable, "-c", "import numpy, scipy, Crypto"], check=True)
print("ok")
