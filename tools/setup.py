#!/usr/bin/env python3
"""setup: verifies that the tools are there and that every specification parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for d in (".build", ".work", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
bad = 0
for t in (["java", "-version"], ["g++", "--version"]):
    if subprocess.run(t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        print("missing", t[0]); bad = 1
specs = sorted(f for f in os.listdir(os.path.join(V, "spec")) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", J, "tla2sany.SANY"] + specs, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
if p.returncode or b"Fatal errors" in p.stdout or b"*** Errors" in p.stdout:
    print(p.stdout.decode()[-3000:]); bad = 1
print("setup: %d specifications parsed" % len(specs))
sys.exit(bad)
