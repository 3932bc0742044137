#!/usr/bin/env python3
"""Verifies that the tools the checks need are present and that every
specification module parses.  Checks do not depend on anything this leaves."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in ("java", "gcc", "make", "ar", "ld", "cpp"):
    if not shutil.which(tool):
        sys.exit("missing tool: " + tool)
jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for j in jars.split(":"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
    p = subprocess.run(["java", "-cp", jars, "-DTLA-Library=" + os.path.join(V, "spec"),
                        "tla2sany.SANY"] + mods, cwd=tmp, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or "*** Errors" in p.stdout or "Could not parse" in p.stdout:
        sys.stdout.write(p.stdout[-5000:])
        sys.exit("specification does not parse")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("setup ok: %d modules" % len(mods))
