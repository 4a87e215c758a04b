#!/usr/bin/env python3
"""setup_cmd: nothing to install; verifies that the tools the checks need are present."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "make", "objcopy") if not shutil.which(t)]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
print("ok")
