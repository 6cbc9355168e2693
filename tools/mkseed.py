#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.cpp: writes seeded/ID from a textual change (run on a clean /repo)."""
import json, os, subprocess, sys
sid, prop, edits, needs, breaks, demo = sys.argv[1:7]
extra = sys.argv[7] if len(sys.argv) > 7 else ""
GEN = 'g++ -std=c++11 -O1 -march=native -w -Iinclude src/%s_gen.cpp -o "$t/gen" # %s\n( cd "$t" && ulimit -s unlimited; "$t/gen" "$t/tbl.cpp" ) # %s\n'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
w = "/tmp/seedwork/repo"
subprocess.check_call("rm -rf /tmp/seedwork/repo && git clone -q /repo /tmp/seedwork/repo", shell=True)
for e in json.loads(edits):
    p = os.path.join(w, e["file"])
    s = open(p).read()
    assert s.count(e["old"]) == e.get("count", 1), (e["file"], e["old"], s.count(e["old"]))
    open(p, "w").write(s.replace(e["old"], e["new"]))
diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.cpp"), "w").write(open(demo).read())
with open(os.path.join(d, "demo.sh"), "w") as f:
    f.write('''#!/bin/bash
# exit 0 when the program beside this file is satisfied with the library in the current directory
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
%sg++ -std=c++11 -O1 -march=native -w -Iinclude "$here/demo.cpp" %s -o "$t/demo"
"$t/demo"
''' % {"": ("", ""), "@gen": (GEN % (("binary8",) * 3), '"$t/tbl.cpp" src/binary8.cpp'), "@simd": (GEN % (("posit8",) * 3), '"$t/tbl.cpp" src/simdposit8.cpp'), "@p10": (GEN % (("posit10",) * 3), '"$t/tbl.cpp" src/posit10.cpp')}.get(extra, ("", extra)))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
# demo on clean and changed
for tree, want in (("/repo", True), (w, False)):
    r = subprocess.run(["timeout", "120", "bash", os.path.join(d, "demo.sh")], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = (r.returncode == 0) == want
    print(tree, r.returncode, "as wanted" if ok else "NOT AS WANTED", r.stdout[-300:])
subprocess.check_call("rm -rf /tmp/seedwork/repo", shell=True)
