#!/usr/bin/env python3
"""Builds the verifier once, to fail early when it cannot be built (each check builds it again)."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
e["PATH"] = "/usr/local/bin:" + e["PATH"]
with tempfile.TemporaryDirectory() as d:
    sys.exit(subprocess.run(["go", "build", "-o", d + "/govc", "."], cwd=V + "/govc", env=e).returncode)
