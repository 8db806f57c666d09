import json, os, subprocess
R = os.environ.get("VERIF_REPO", "/repo")
DEMO = '''#!/bin/bash
# Compiles demo.cpp against the sources built in the current repository and runs it in a scratch directory.
set -eu
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
O=$(find "$R/_build/CMakeFiles/scaleupROMObj.dir" -name '*.o')
M=/usr/lib/x86_64-linux-gnu/openmpi
g++ -std=gnu++14 -O1 -w -I"$R/_build/gen/include" -I/usr/include/mfem -I/usr/include/hypre -I/usr/include/hdf5/serial -isystem $M/include -isystem $M/include/openmpi \\
  "$D/demo.cpp" $O -o "$T/demo" -lmfem -lHYPRE -lmetis -lyaml-cpp -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -llapack -lblas -L$M/lib -lmpi_cxx -lmpi
cd "$T"; timeout 120 ./demo
'''
def seed(id, prop, needs, breaks, edits, demo):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C %s status --porcelain" % R, shell=True, capture_output=True, text=True).stdout.strip()
    for f, a, b in edits:
        p = R + "/" + f; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
    diff = subprocess.run("git -C %s diff" % R, shell=True, capture_output=True, text=True).stdout
    subprocess.run("git -C %s checkout -- ." % R, shell=True)
    open(d + "/patch.diff", "w").write(diff); open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(DEMO)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
