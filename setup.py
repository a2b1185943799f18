#!/usr/bin/env python3
"""Nothing is built: the specifications are interpreted.  Parse them all, so that a broken
installation shows here and not in a check."""
import glob
import os
import subprocess
import sys

here = os.path.dirname(os.path.abspath(__file__))
jars = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
spec = os.path.join(here, "spec")
mods = sorted(f for f in os.listdir(spec) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", jars, "tla2sany.SANY"] + mods, cwd=spec, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or "*** Errors" in p.stdout or "Could not parse" in p.stdout:
    print(p.stdout[-3000:])
    sys.exit(1)
print("%d modules parse" % len(mods))
