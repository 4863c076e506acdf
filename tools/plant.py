#!/usr/bin/env python3
"""Make /verif/seeded/<id> from edits: plant.py ID PROPERTY SPEC.py
SPEC.py defines: edits = [(file, old, new)], demo (C++ text), sources (repo .cpp files), needs, breaks, flags.
The patch is made and the demonstration tried in a scratch worktree under /tmp."""
import json, os, shutil, subprocess, sys, tempfile
os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
ID, PROP, SPEC = sys.argv[1:4]
ns = {"sources": [], "flags": "", "pre": ""}
exec(open(SPEC).read(), ns)
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ID)
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="plant")
wt = tmp + "/repo"
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt], check=True)
try:
    open(d + "/demo.cpp", "w").write(ns["demo"].lstrip())
    srcs = " ".join(ns["sources"])
    for f in ns.get("files", []): shutil.copy(f, d)
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# run with cwd = repository root; exit 0 iff the property's behaviour is observed
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w {ns['flags']} -I. -I/usr/include/eigen3 "$here/demo.cpp" {srcs} -o "$tmp/demo" -lpthread || exit 2
timeout 120 "$tmp/demo"
""")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": PROP, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = subprocess.run([d + "/demo.sh"], cwd=wt)
    for f, old, new in ns["edits"]:
        p = wt + "/" + f
        t = open(p).read()
        assert t.count(old) == 1, (f, "old text occurs", t.count(old), "times")
        bl = subprocess.run(["git", "-C", wt, "blame", "-s", "-l", f], capture_output=True, text=True).stdout.splitlines()
        a = t[:t.index(old)].count("\n"); b = a + old.count("\n") + 1
        bad = [x for x in bl[a:b] if not x.startswith("^")]
        if bad: print("WARNING: touches lines of fix commits:", *[x[:110] for x in bad], sep="\n  ")
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    r1 = subprocess.run([d + "/demo.sh"], cwd=wt)
    print(f"{ID}: demo unchanged={r0.returncode} patched={r1.returncode}", "OK" if r0.returncode == 0 and r1.returncode not in (0, 2) else "BAD")
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    shutil.rmtree(tmp)
