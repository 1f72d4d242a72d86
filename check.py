#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by symbolic execution of the real code (see DESIGN.md):
  1. compiles the harness crate against /repo's working tree to LLVM IR and to a native program,
  2. runs the symbolic executor (engine/, Z3) on the property's harnesses,
  3. replays every counterexample against the native program and reports only what reproduces,
  4. replays sampled symbolic paths natively and compares what they observe (encoding validation),
  5. writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no verdict (error of the check).
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

REPO = "/repo"
B = os.path.join(V, "build")
FLAGS = ("-C save-temps -C panic=abort -C overflow-checks=yes -C debug-assertions=no -C opt-level=0 "
         "-C lto=fat -C embed-bitcode=yes -C codegen-units=1 -A warnings")
PASSES = "globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
THREADS = os.cpu_count() or 8


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def die(msg, log=""):
    print("ERROR: " + msg)
    if log:
        print(log[-4000:])
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    d = os.path.join(B, "engine")
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", d], cwd=os.path.join(V, "engine"), env=env())
    if r.returncode:
        die("the symbolic executor does not build", r.stdout)
    return os.path.join(d, "release", "rsym")


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(V, "harness")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(FLAGS.encode() + PASSES.encode())
    return h.hexdigest()[:16]


def build_ir():
    """Harness + /repo's working tree -> (IR file, native program).  Always from scratch, unless VERIF_CACHE=1 (development)."""
    cache = os.environ.get("VERIF_CACHE") == "1"
    d = os.path.join(B, "ir-" + (tree_hash() if cache else "p%d" % os.getpid()))
    ll, exe = os.path.join(d, "o.ll"), os.path.join(d, "vharness")
    if cache and os.path.exists(ll) and os.path.exists(exe):
        return d, ll, exe
    for o in glob.glob(os.path.join(B, "ir-*")):
        if cache or not os.path.exists("/proc/%s" % o.rsplit("-p", 1)[-1]):
            shutil.rmtree(o, ignore_errors=True)
    os.makedirs(d)
    # the crate is copied, so that cargo never touches the committed lock file
    shutil.copytree(os.path.join(V, "harness", "src"), os.path.join(d, "c", "src"))
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(V, "harness", f), os.path.join(d, "c", f))
    e = env()
    e["RUSTFLAGS"] = FLAGS
    t = os.path.join(d, "t")
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", t], cwd=os.path.join(d, "c"), env=e)
    if r.returncode:
        die("the harness does not build against /repo", r.stdout)
    bc = glob.glob(os.path.join(t, "release", "deps", "*.lto.after-restriction.bc"))
    if len(bc) != 1:
        die("no merged bitcode")
    sysroot = run(["rustc", "--print", "sysroot"], env=env()).stdout.strip()
    bind = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    for c in (["opt", "-passes=" + PASSES, bc[0], "-o", os.path.join(d, "o.bc")], ["llvm-dis", os.path.join(d, "o.bc"), "-o", ll]):
        r = run([os.path.join(bind, c[0])] + c[1:])
        if r.returncode:
            die("LLVM tool failed", r.stdout)
    shutil.copy(os.path.join(t, "release", "vharness"), exe)
    shutil.rmtree(t)
    return d, ll, exe


def native(exe, h, inp, timeout=20):
    """-> (kind, lines): ok / assert / panic / crash / hang / assume"""
    try:
        r = subprocess.run([exe, h, inp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", []
    ls = r.stdout.decode("utf-8", "replace").splitlines()
    if r.returncode == 0 and ls and ls[-1] == "END":
        return "ok", ls
    if any(l == "ASSUME-FALSE" for l in ls):
        return "assume", ls
    if any(l.startswith("ASSERT-FAILED") for l in ls):
        return "assert", ls
    if any(l.startswith("PANIC") for l in ls):
        return "panic", ls
    return "crash", ls + ["exit status %d" % r.returncode]


def native_try(exe, h, inp, timeout=20):
    # hash maps are seeded at random natively: a dependence on their order may need several runs
    k = ("ok", [])
    for i in range(12):
        k = native(exe, h, inp, timeout)
        if k[0] != "ok":
            return k
    return k


def demangle(names):
    for tool in ("llvm-cxxfilt-18", "c++filt", "llvm-cxxfilt"):
        p = shutil.which(tool)
        if p:
            r = subprocess.run([p, "-r"] if "llvm" in tool else [p], input="\n".join(names), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if r.returncode == 0:
                return r.stdout.splitlines()
    return names


def known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("known: "):
            # known: property=ID harness=H input=HEX msg=TEXT
            f = l[len("known: "):]
            msg = f.split(" msg=", 1)[1]
            kv = dict(x.split("=", 1) for x in f.split(" msg=", 1)[0].split())
            out.append((kv["property"], kv["harness"], kv["input"], msg))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe, fi = ex.submit(build_engine), ex.submit(build_ir)
        engine, (d, ll, exe) = fe.result(), fi.result()
    t_build = time.time() - t0
    try:
        verdict(pid, tier, P, seed, engine, d, ll, exe, t0, t_build)
    finally:
        if os.environ.get("VERIF_CACHE") != "1":
            shutil.rmtree(d, ignore_errors=True)


def verdict(pid, tier, P, seed, engine, d, ll, exe, t0, t_build):
    hs = list(P["quick"]) + (list(P["thorough"]) if tier == "thorough" else [])
    hs += list(P.get("findings", []))
    limit = float(os.environ.get("VERIF_TIME", "150" if tier == "quick" else "3000"))
    total = 420.0 if tier == "quick" else 10000.0
    out = os.path.join(d, "r-%s.json" % pid)
    if os.path.exists(out):
        os.remove(out)
    cmd = [engine, "--ll", ll, "--harness", ",".join(hs), "--threads", str(THREADS), "--time", str(limit), "--total", str(total),
           "--samples", "6" if tier == "quick" else "12", "--max-violations", "3", "--max-steps", "40000000", "--query-ms", "20000" if tier == "quick" else "300000",
           "--confirm", exe, "--findings", ",".join(P.get("findings", [])) or "-", "--out", out]
    r = run(cmd)
    if not os.path.exists(out):
        die("the symbolic executor stopped (exit %d)" % r.returncode, r.stdout)
    J = json.load(open(out))
    K = known()
    viol, unrepro, listed, incomplete = [], [], [], []
    rdir = os.path.join(B, "replay")
    os.makedirs(rdir, exist_ok=True)
    tot = {k: 0 for k in ("paths", "forks", "instructions", "assertions_checked", "assertions_by_solver", "queries", "sat", "unsat", "unknown", "solver_seconds")}
    validated, samples, funcs, per, covers_missing = 0, [], set(), [], []
    exhaustive = True
    for H in J["harnesses"]:
        h = H["name"]
        for k in tot:
            tot[k] += H[k]
        funcs.update(H["functions"])
        per.append({"harness": h, "paths": H["paths"], "instructions": H["instructions"], "queries": H["queries"], "sat": H["sat"], "unsat": H["unsat"],
                    "solver_seconds": H["solver_seconds"], "max_query_seconds": H["max_query_seconds"], "wall_seconds": H["wall_seconds"],
                    "assertions_checked": H["assertions_checked"], "covers": H["covers"], "complete": not H["errors"]})
        cand = [(v["kind"], v["msg"], v["input"], v["stack"]) for v in H["violations"]]
        # a path the executor could not finish (step limit, unsupported code): its input is still a candidate
        cand += [("unfinished", e["msg"], e["input"], []) for e in H["error_inputs"]]
        done = set()
        for kind, msg, inp, stack in cand:
            if kind != "unfinished" and (kind, msg) in done and len([x for x in viol if x["harness"] == h]) >= 3:
                continue
            k, ls = native_try(exe, h, inp, 30)
            if k in ("ok", "assume"):
                if kind != "unfinished":
                    unrepro.append("%s: %s %s input=%s natively %s" % (h, kind, msg, inp, k))
                continue
            done.add((kind, msg))
            what = next((l for l in ls if l.startswith(("ASSERT-FAILED", "PANIC"))), {"hang": "does not terminate", "crash": "crashes"}.get(k, k))
            m = what[len("ASSERT-FAILED "):] if what.startswith("ASSERT-FAILED ") else what
            if (pid, h, inp, m) in K:
                listed.append(m)
                continue
            f = os.path.join(rdir, "%s-%s-%d.json" % (pid, h, len(viol)))
            if not any(x["harness"] == h and x["what"] == m for x in viol):
                json.dump({"property": pid, "harness": h, "input": inp, "what": m, "kind": kind, "engine": msg, "stack": stack,
                           "replay": "python3 /verif/check.py --replay %s" % f}, open(f, "w"), indent=1)
                viol.append({"harness": h, "what": m, "file": f, "input": inp})
        if H["errors"]:
            exhaustive = False
            incomplete.append("%s: %s" % (h, H["errors"][0][:300]))
        # encoding validation: sampled paths natively
        for s in H["samples"]:
            if s["end"] not in ("Done", "ExpectedPanic"):
                continue
            for _ in range(12):  # natively hash maps are seeded at random
                k, ls = native(exe, h, s["input"])
                obs = [l[4:] for l in ls if l.startswith("OBS ")]
                if k == "ok" and obs == s["obs"]:
                    break
            if k == "ok" and obs == s["obs"]:
                validated += 1
                if len([x for x in samples if x["harness"] == h]) < 2:
                    samples.append({"harness": h, "input": s["input"], "observed": s["obs"][:12]})
            elif not viol and not H["violations"]:
                unrepro.append("%s: sampled path differs natively (%s) input=%s engine=%s native=%s" % (h, k, s["input"], s["obs"][:8], obs[:8]))
        for c in P.get("covers", {}).get(h, []):
            if not H["covers"].get(c) and not H["errors"] and not H["violations"]:
                covers_missing.append("%s: %s" % (h, c))
    names = demangle(sorted(funcs))
    own = sorted({n for n in names if n.lstrip("<&").startswith(("layered_",)) or "<layered_" in n or "layered_nlp::" in n})
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
              "samples": samples[:12],
              "exhaustive": exhaustive and not viol,
              "explanation": "states = symbolic paths executed to their end, transitions = solver-decided path splits; every assertion on every path was discharged by Z3 or by rewriting for all values of the symbolic inputs on that path",
              "instructions_executed": tot["instructions"], "assertions_checked": tot["assertions_checked"], "assertions_by_solver": tot["assertions_by_solver"],
              "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
              "solver_seconds": round(tot["solver_seconds"], 3), "build_seconds": round(t_build, 2),
              "bounds": P["bounds"], "outside": P["outside"],
              "harnesses": per, "incomplete": incomplete,
              "functions_encoded_of_repo": len(own), "functions_encoded_total": len(names), "functions": own[:150]},
          "assumptions": ASSUME + P.get("assume", []), "wall_s": round(wall, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    for m in sorted(set(listed)):
        print("KNOWN-FINDING: property=%s %s" % (pid, m))
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%d unsat, %.1f s solver), %d sampled paths confirmed natively, %.1f s" % (
        pid, tier, len(hs), tot["paths"], tot["assertions_checked"], tot["queries"], tot["unsat"], tot["solver_seconds"], validated, wall))
    for x in incomplete:
        print("NOT EXHAUSTED " + x)
    if viol:
        for x in viol:
            print("  %s: %s (input %s)" % (x["harness"], x["what"], x["input"]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0]["file"]))
        sys.exit(1)
    for x in unrepro[:5]:
        print("ENCODING MISMATCH " + x)
    for x in covers_missing:
        print("VACUOUS " + x)
    if unrepro or covers_missing:
        sys.exit(2)
    sys.exit(0)


ASSUME = [
    "rustc's translation to LLVM IR and the listed LLVM passes are trusted; the executor's own encoding is checked on every run by replaying sampled paths and every counterexample natively",
    "single-threaded execution; allocation never fails; hash maps use one fixed seed in the executor",
    "integer overflow counts as a failure (as in debug builds)",
]


def replay(f):
    J = json.load(open(f))
    os.makedirs(B, exist_ok=True)
    d, ll, exe = build_ir()
    k, ls = native_try(exe, J["harness"], J["input"], 60)
    print("\n".join(ls))
    print("natively: " + k)
    if os.environ.get("VERIF_CACHE") != "1":
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(0 if k == "ok" else 1)


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        os.makedirs(B, exist_ok=True)
        build_engine()
        sys.exit(0)
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    main()
