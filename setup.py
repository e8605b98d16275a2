#!/usr/bin/env python3
"""Nothing to build ahead of time: every check compiles /repo itself. Verify the tools."""
import shutil, sys
miss = [t for t in ("cbmc", "goto-cc", "gcc") if not shutil.which(t)]
if miss:
    print("missing tools:", miss)
    sys.exit(1)
print("ok")
