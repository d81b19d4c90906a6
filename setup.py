#!/usr/bin/env python3
"""Builds the extractor and the search program once (the checks rebuild them when needed)."""
import subprocess, sys
for n in ("lift", "search"):
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", f"/verif/{n}/Cargo.toml", "--target-dir", f"/verif/build/{n}"])
    if r.returncode:
        sys.exit(1)
