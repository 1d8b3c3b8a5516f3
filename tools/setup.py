#!/usr/bin/env python3
"""Checks that the installed tools the checks need are there; nothing is downloaded."""
import shutil, subprocess, sys
for tool in ("cargo", "cargo-kani"):
    if not shutil.which(tool):
        sys.exit(f"missing: {tool}")
print(subprocess.run(["cargo", "kani", "--version"], capture_output=True, text=True).stdout.strip())
