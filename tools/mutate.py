#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--workers W] FILE...: plants small random changes in scratch clones of /repo and runs the checks of the properties
that the changed file belongs to; prints which changes no check noticed. Works in /tmp/mutate only; a development aid, no check needs it."""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue, json, time
V = "/verif"; T = "/tmp/mutate"
MAP = [(r"etc|input_parser|src/parameter\.cpp|include/parameter\.hpp|random_sample_gen", "P01 P02 P41"), ("hdf5_utils", "P03 P16"), ("linalg_utils", "P04 P05 P06 P03 P41 P40"), ("block_smoother", "P07"),
       ("component_topology", "P11 P12 P13 P14 P23"), ("topology_handler", "P10 P14 P15 P11 P12"), ("rom_element_collection", "P16"), ("interfaceinteg", "P20 P21 P25"), ("interface_form", "P20 P21 P23"),
       ("dg_bilinear|dg_mixed", "P27"), ("dg_linear", "P26"), ("nonlinear_integ|hyperreduction", "P24 P25"), ("parameterized_problem", "P37"), ("utils/", "P38"),
       ("rom_nonlinearform|rom_interfaceform", "P43"), ("rom_handler", "P40 P41 P42"), ("sample_generator", "P41 P40"), ("main_workflow", "P41 P40 P42"), ("poisson_solver|linelast|advdiff|stokes", "P30 P32 P40 P42 P44"),
       ("unsteady_ns", "P39 P40 P44"), ("steady_ns", "P31 P40 P42"), ("multiblock", "P30 P32 P39 P40 P42 P44")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|assert|mfem_error|MFEM_|printf|fprintf|timer|cout|std::cout|\}|\{|using|namespace|template|else$)|timer\.|errf|H5[A-Z]?close|_error\(|delete |PrintM|\bcout\b")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r" \* ", " / "),
       (r"\b0\.5\b", "1.0"), (r"\b2\.0\b", "1.0"), (r"-1\.0\b", "1.0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\b(\w+)1\b", r"\g<1>2"), (r"\b(\w+)2\b", r"\g<1>1"), (r"\bcontinue\b", "break"), (r"\(-", "("), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"if \((.*)\)$", r"if (!(\1))"), (r"\[i\]", "[0]"), (r"\bdi\b", "dj"), (r"\bi\b", "j"), (r"\bj\b", "i")]
def mutants(path, rnd):
    L = open("/repo/" + path).read().split("\n"); out = []
    depth = 0; com = False
    for n, l in enumerate(L):
        if "/*" in l: com = True
        if "*/" in l: com = False; continue
        if com or SKIP.search(l) or not l.startswith("   "): continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code: out.append((n, l, new))
        if re.match(r"^\s+[\w\->\.\[\]\(\)\*, :]+( [-+*]?= .*|\(.*\));\s*$", code) and not re.match(r"^\s+(const |int |double |bool |std::|Array|Vector |DenseMatrix |return|delete|auto |hid_t|FiniteElementSpace|Mesh|SparseMatrix|Sub)", code): out.append((n, l, re.match(r"^\s*", l).group(0) + ";"))
    rnd.shuffle(out); return out
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("files", nargs="+"); ap.add_argument("--n", type=int, default=20); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=4); ap.add_argument("--out", default="/tmp/mutate.log"); ap.add_argument("--props"); ap.add_argument("--scale", default="1")
    a = ap.parse_args(); rnd = random.Random(a.seed); Q = queue.Queue(); lock = threading.Lock(); jobs = []
    for f in a.files:
        ps = a.props or next((p for r, p in MAP if re.search(r, f)), None)
        for m in mutants(f, rnd)[:a.n]: jobs.append((f, ps, m))
    rnd.shuffle(jobs)
    for j in jobs: Q.put(j)
    log = open(a.out, "a"); stat = {}
    def say(s):
        with lock: log.write(s + "\n"); log.flush(); print(s[:300]); sys.stdout.flush()
    def work(k):
        d = "%s/%d" % (T, k); os.makedirs(d, exist_ok=True); R = d + "/repo"; W = d + "/verif"
        with lock:
            if not os.path.exists(R): sh("git clone -q /repo " + R)
            sh("git -C %s checkout -q -- . && git -C %s pull -q" % (R, R)); sh("mkdir -p %s && rsync -a --delete --exclude .git --exclude build --exclude seeded --exclude replays %s/ %s/" % (W, V, W) if shutil.which("rsync") else "mkdir -p %s && cd %s && tar cf - --exclude .git --exclude ./build --exclude ./seeded --exclude ./replays . | tar xf - -C %s" % (W, V, W))
        e = dict(os.environ, VERIF_REPO=R); e.pop("VERIF_BUILD", None)
        while True:
            try: f, ps, (n, old, new) = Q.get_nowait()
            except queue.Empty: return
            p = R + "/" + f; s = open(p).read(); L = s.split("\n"); L[n] = new; open(p, "w").write("\n".join(L)); t = time.time()
            try:
                res = None
                for prop in ps.split():
                    try: c = sh("python3 check.py run %s --shrink 2 --scale %s" % (prop, a.scale), cwd=W, env=e, timeout=900)
                    except subprocess.TimeoutExpired: res = "timeout:" + prop; break
                    if c.returncode == 2 and "BUILD-FAILED" in c.stdout: res = "nobuild"; break
                    if c.returncode: res = "killed:%s(%d)" % (prop, c.returncode); break
                res = res or "SURVIVED"
            finally: open(p, "w").write(s)
            with lock: stat[res.split(":")[0]] = stat.get(res.split(":")[0], 0) + 1
            say("%s %s:%d | %s | %s  [%.0f s]" % (res, f, n + 1, old.strip(), new.strip(), time.time() - t))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]; say("TOTAL " + json.dumps(stat))
main()
