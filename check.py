#!/usr/bin/env python3
"""Runs one property's generated-input checks against /repo's current working tree.

  check.py run PROP [--tier quick|thorough] [--seed N]    what MANIFEST.json registers
  check.py replay FILE                                    re-run a replay file
  check.py build [PROP ...]                               only build
  check.py list                                           tests per property

Everything is built from /repo's sources into /verif/build (ignored by git), with the stand-ins of
/verif/standin for libROM and MUMPS, with AddressSanitizer and NaN-filled allocations.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", V + "/build")
NPROC = os.cpu_count() or 4

# What needs the solver layer; harnesses that do not name "level: all" are built without it.
UPPER = re.compile(r"(_solver|rom_handler|rom_nonlinearform|rom_interfaceform|sample_generator|main_workflow)\.cpp$")


def sources():
    try:
        text = re.sub(r"#.*", "", open(REPO + "/CMakeLists.txt").read())
        body = re.search(r"set\(\s*scaleupROMObj_SOURCES(.*?)\)", text, re.S).group(1)
        src = [s for s in re.findall(r"\S+\.cpp", body) if os.path.exists(os.path.join(REPO, s))]
    except Exception:
        src = []
    if not src:
        src = ["src/" + os.path.basename(f) for f in sorted(glob.glob(REPO + "/src/*.cpp")) if "navier" not in f]
    return src


def harnesses():
    out = {}
    for f in sorted(glob.glob(V + "/harness/h_*.cpp")):
        t = open(f).read()
        out[os.path.basename(f)[:-4]] = {
            "file": f,
            "all": "level: all" in t,
            "wrap": re.findall(r"wrap: (\S+)", t),
            "utils": re.findall(r"util: (\S+)", t),
            "props": sorted(set(re.findall(r"^PROP\((\w+),", t, re.M))),
        }
    return out


def mpi(kind):
    try:
        return subprocess.run(["mpicxx", "--showme:" + kind], capture_output=True, text=True, check=True).stdout.strip()
    except Exception:
        return ""


def write_ninja(names):
    os.makedirs(B, exist_ok=True)
    san = "-fsanitize=address -fno-omit-frame-pointer"
    inc = "-I%s/standin -I%s/harness -I%s/include -I/usr/include/mfem -I/usr/include/hypre -I/usr/include/hdf5/serial %s" % (V, V, REPO, mpi("compile"))
    libs = "-lmfem -lHYPRE -lmetis -lyaml-cpp -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -llapack -lblas %s" % mpi("link")
    L = ["cxxflags = -std=c++14 -O1 -g1 -w %s %s" % (san, inc), "libs = %s" % libs,
         "rule cxx", "  command = g++ $cxxflags $opt -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ -fsanitize=address $in -o $out $wrap $libs",
         "rule plain", "  command = g++ -std=c++14 -O1 -w %s %s -MMD -MF $out.d $in -o $out $libs" % (san, inc), "  depfile = $out.d", "  deps = gcc"]
    # Code whose empty objects are never dereferenced only because the optimiser drops the access is built without it.
    PLAIN = {"src/hdf5_utils.cpp", "h_hdf5"}
    opt = lambda s: "\n  opt = -O0" if s in PLAIN else ""
    src = sources()
    for s in src:
        L.append("build obj/%s.o: cxx %s%s" % (s.replace("/", "_"), os.path.join(REPO, s), opt(s)))
    L.append("build obj/pbt_main.o: cxx %s/harness/pbt_main.cpp" % V)
    H = harnesses()
    targets, utils = [], set()
    for n, h in H.items():
        L.append("build obj/%s.o: cxx %s%s" % (n, h["file"], opt(n)))
        objs = ["obj/%s.o" % s.replace("/", "_") for s in src if h["all"] or not UPPER.search(s)]
        L.append("build %s: link obj/%s.o obj/pbt_main.o %s" % (n, n, " ".join(objs)))
        if h["wrap"]:
            L.append("  wrap = " + " ".join("-Wl,--wrap=" + w for w in h["wrap"]))
        if n in names:
            targets.append(n)
            for u in h["utils"]:
                utils.add(u)
                targets.append("util_" + u)
    for u in utils:
        L.append("build util_%s: plain %s/utils/%s.cpp" % (u, REPO, u))
    text = "\n".join(L) + "\n"
    path = B + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return targets


def build(names):
    t0 = time.time()
    targets = write_ninja(names)
    p = subprocess.run(["ninja", "-C", B, "-j", str(NPROC)] + targets, capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:] + p.stderr[-2000:])
        print("BUILD-FAILED: /repo's sources or the harness do not compile")
        sys.exit(2)
    return time.time() - t0


def env():
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=os.environ.get("HOME", "/root"),
             ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:detect_odr_violation=0:malloc_fill_byte=255:max_malloc_fill_size=268435456:allocator_may_return_null=1:print_summary=1:handle_abort=0",
             VERIF_UTILS=B, VERIF_REPO=REPO)
    return e


def findings():
    try:
        return json.load(open(V + "/known_findings.json"))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def listing(names):
    out = []
    for n in names:
        p = subprocess.run([B + "/" + n, "list"], capture_output=True, text=True, env=env())
        for line in p.stdout.splitlines():
            a = line.split()
            out.append({"bin": n, "property": a[0], "test": a[1], "quick": int(a[2]), "thorough": int(a[3])})
    return out


def run(a):
    t0 = time.time()
    H = harnesses()
    names = [n for n, h in H.items() if a.property in h["props"]]
    if not names:
        sys.exit("no harness has property " + a.property)
    bt = build(names)
    tests = [t for t in listing(names) if t["property"] == a.property]
    if a.test:
        tests = [t for t in tests if t["test"] == a.test]
    known = findings()["findings"]
    kf = {(k["property"], k["test"]): k for k in known}
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    deadline = t0 + (a.limit or (780 if a.tier == "quick" else 4 * 3600))
    results, violations, flaky, kfl = [], [], [], []
    for i, t in enumerate(tests):
        n = int(t[a.tier] * a.scale) or 1
        left = max(5.0, (deadline - time.time()) / max(1, len(tests) - i) * 2.0)
        left = min(left, max(5.0, deadline - time.time()))
        rp = "%s/replays/%s-%s.replay" % (V, t["property"], t["test"])
        if os.path.exists(rp):
            os.remove(rp)
        p = subprocess.run([B + "/" + t["bin"], "run", "--property", t["property"], "--test", t["test"], "--seed", str(a.seed), "--n", str(n),
                            "--workers", str(min(NPROC, max(1, n))), "--time", "%.1f" % left, "--replay", rp, "--shrink", str(a.shrink)],
                           capture_output=True, text=True, env=env())
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            sys.stderr.write(p.stdout[-2000:] + p.stderr[-2000:])
            print("HARNESS-ERROR: %s %s exit %d" % (t["property"], t["test"], p.returncode))
            sys.exit(3)
        results.append(r)
        f = r.get("failure")
        print("%s %-34s %6d cases, %6d distinct non-trivial, %5.1fs%s" % (t["property"], t["test"], r["evaluations"], r["distinct_nontrivial"], r["wall_s"], "  FAILED" if f else ""))
        sys.stdout.flush()
        if not f:
            continue
        q = subprocess.run([B + "/" + t["bin"], "replay", "--file", rp, "--times", "3"], capture_output=True, text=True, env=env())
        try:
            again = json.loads(q.stdout.strip().splitlines()[-1])["fails"]
        except Exception:
            again = 0
        f["reproduced"] = "%d of 3" % again
        k = kf.get((t["property"], t["test"]))
        if k and k.get("match", "") in f["message"]:
            kfl.append(k)
            print("KNOWN-FINDING: property=%s %s" % (t["property"], k["what"]))
            continue
        print("   input: %s\n   %s" % (f["note"], f["message"][:1500]))
        if again >= 2:
            violations.append({"test": t["test"], "replay": rp, "message": f["message"][:2000], "input": f["note"][:2000]})
            print("VIOLATION property=%s replay=%s" % (t["property"], rp))
            sys.stdout.flush()
            if not a.keep_going:
                break
        else:
            flaky.append(t["test"])
            print("   not reproducible (%d of 3): not reported" % again)
    ev = {
        "property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": " | ".join("%s: %s" % (r["test"], r["rule"]) for r in results),
            "samples": [{"test": r["test"], "case": s[:600]} for r in results for s in r["samples"][:2]],
            "tests": [{k: r[k] for k in ("test", "requested", "evaluations", "discarded", "distinct_nontrivial", "labels", "wall_s", "max_case_s")} for r in results],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["libROM and MUMPS are replaced by the stand-ins in /verif/standin", "MFEM 4.5.2 as installed", "build took %.1f s" % bt],
        "violations": violations,
    }
    if kfl:
        ev["coverage"]["known_findings"] = [k["what"] for k in kfl]
    if flaky:
        ev["coverage"]["not_reproducible"] = flaky
    json.dump(ev, open("%s/evidence/%s.json" % (V, a.property), "w"), indent=1)
    short = [r["test"] for r in results if r["evaluations"] + r["discarded"] < r["requested"] and not r.get("failure")]
    if short:
        print("time limit reached before all requested cases: " + ", ".join(short))
    if violations:
        sys.exit(1)
    print("property %s held on everything explored (%.0f s)" % (a.property, time.time() - t0))


def replay(a):
    head = dict(l.split(" ", 1) for l in open(a.file).read().splitlines() if " " in l)
    prop = head["property"].strip()
    names = [n for n, h in harnesses().items() if prop in h["props"]]
    build(names)
    for t in listing(names):
        if t["property"] == prop and t["test"] == head["test"].strip():
            p = subprocess.run([B + "/" + t["bin"], "replay", "--file", os.path.abspath(a.file)], env=env())
            if p.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.file)))
            sys.exit(p.returncode)
    sys.exit("test not found")


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("property")
    r.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    r.add_argument("--test")
    r.add_argument("--scale", type=float, default=1.0)
    r.add_argument("--limit", type=float)
    r.add_argument("--shrink", type=float, default=45)
    r.add_argument("--keep-going", action="store_true")
    p = sub.add_parser("replay")
    p.add_argument("file")
    b = sub.add_parser("build")
    b.add_argument("props", nargs="*")
    sub.add_parser("list")
    a = ap.parse_args()
    if a.cmd == "run":
        run(a)
    elif a.cmd == "replay":
        replay(a)
    elif a.cmd == "build":
        n = [n for n, h in harnesses().items() if not a.props or set(a.props) & set(h["props"])]
        print("built %s in %.1f s" % (" ".join(n), build(n)))
    else:
        for n, h in harnesses().items():
            print(n, " ".join(h["props"]))


main()
