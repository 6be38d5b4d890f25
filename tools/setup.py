#!/usr/bin/env python3
"""setup: the checks build everything themselves from /repo; here only the toolchain is probed."""
import subprocess, sys
for c in (["cargo", "--version"], ["rustc", "--version"]):
    sys.stdout.write(subprocess.run(c, capture_output=True, text=True, check=True).stdout)
