#!/usr/bin/env python3
"""Driver:  run.py <PROPERTY> [quick|thorough] [--only ENTRY] [--time S]

Builds the symbolic executor and the property's harness binary from /repo's current working tree (LLVM bitcode and
native executable from one rustc invocation), executes every harness entry symbolically, replays counterexamples on the
native executable, and writes /verif/evidence/<PROPERTY>.json.
exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed.
"""
import tempfile, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from spec import FEATURES, PROPS, KNOWN_FINDINGS_FILE  # noqa

BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fail(msg):
    print("ERROR:", msg)
    sys.exit(2)


def cargo_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN")}
    out = sh(["bash", "-c", ". /opt/vp/env.sh; env -0"], env=env).stdout
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env.pop("CARGO_INCREMENTAL", None)
    env.pop("PWD", None)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    return env


def build_symex():
    out = os.path.join(BUILD, "symex")
    os.makedirs(out, exist_ok=True)
    r = sh(["make", "-j4", "-C", os.path.join(ROOT, "symex"), "OUT=" + out])
    if r.returncode:
        fail("building the symbolic executor failed\n" + r.stdout[-4000:])
    # runtime used by the native replay executable
    a = os.path.join(BUILD, "libsymrt.a")
    src = os.path.join(ROOT, "symrt", "symrt.c")
    if not os.path.exists(a) or os.path.getmtime(a) < os.path.getmtime(src):
        o = os.path.join(BUILD, "symrt.o")
        r = sh(["gcc", "-O1", "-c", src, "-o", o])
        if r.returncode == 0:
            if os.path.exists(a):
                os.unlink(a)
            r = sh(["ar", "cr", a, o])
        if r.returncode:
            fail("building symrt failed\n" + r.stdout)
    return os.path.join(out, "symex")


def build_bin(b, feats):
    env = cargo_env()
    deps = os.path.join(BUILD, "target", "debug", "deps")
    cmd = ["cargo", "rustc", "--offline", "--locked", "--bin", b]
    if feats:
        cmd += ["--features", ",".join(feats)]
    cmd += ["--", "--emit=llvm-bc,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-L", BUILD, "-l", "static=symrt"]
    for f in glob.glob(os.path.join(deps, b + "-*.bc")):
        os.unlink(f)
    # cargo may consider the bin fresh although the .bc was removed: touch the source
    src = os.path.join(ROOT, "harness", "src", "bin", b + ".rs")
    for f in glob.glob(os.path.join(BUILD, "target", "debug", ".fingerprint", "harness-*", "bin-" + b)):
        try:
            os.unlink(f)
        except OSError:
            pass
    r = sh(cmd, cwd=os.path.join(ROOT, "harness"), env=env)
    if r.returncode:
        errs = "\n".join(re.findall(r"^error.*(?:\n .*)*", r.stdout, re.M)[:12])
        fail("building harness %s failed\n%s\n%s" % (b, errs, r.stdout[-1500:]))
    bcs = glob.glob(os.path.join(deps, b + "-*.bc"))
    if len(bcs) != 1:
        fail("no bitcode for " + b + ": " + str(bcs) + r.stdout[-1500:])
    return bcs[0], os.path.join(BUILD, "target", "debug", b)


def replay(exe, entry, f, timeout=60):
    """native replay; returns (reproduced, description)"""
    env = dict(os.environ, SYM_REPLAY=f, RUST_BACKTRACE="0")
    os.makedirs(BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix="scratch", dir=BUILD)
    try:
        r = sh([exe, entry], env=env, timeout=timeout, cwd=wd)
    except subprocess.TimeoutExpired:
        return True, "does not terminate within %d s" % timeout
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    tail = "\n".join(r.stdout.splitlines()[-12:])
    if r.returncode == 101:
        return True, "assertion violated natively: " + tail
    if r.returncode in (-6, -11, -4, -7, -8):
        return True, "native run ends with signal %d: %s" % (-r.returncode, tail)
    return False, "exit %d: %s" % (r.returncode, tail)


def replay_valgrind(exe, entry, f):
    if not shutil.which("valgrind"):
        return False, "no valgrind"
    env = dict(os.environ, SYM_REPLAY=f)
    wd = tempfile.mkdtemp(prefix="scratch", dir=BUILD)
    try:
        r = sh(["valgrind", "-q", "--error-exitcode=77", exe, entry], env=env, timeout=300, cwd=wd)
    except subprocess.TimeoutExpired:
        return False, "valgrind timeout"
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return r.returncode == 77, "valgrind exit %d: %s" % (r.returncode, "\n".join(r.stdout.splitlines()[-20:]))


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        build_symex()
        sys.exit(0)
    only = None
    tmul = None
    if "--only" in args:
        i = args.index("--only"); only = args[i + 1]; del args[i:i + 2]
    if "--time" in args:
        i = args.index("--time"); tmul = float(args[i + 1]); del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[prop]
    t0 = time.time()
    out = os.path.join(BUILD, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    symex = build_symex()
    t_build = time.time()
    bins = {}
    for e in P["entries"]:
        if e.get("tier") == "thorough" and tier == "quick":
            continue
        bins.setdefault(e["bin"], None)
    for b in bins:
        bins[b] = build_bin(b, FEATURES.get(b, []))
    t_build = time.time() - t0
    known = {}
    if os.path.exists(KNOWN_FINDINGS_FILE):
        for line in open(KNOWN_FINDINGS_FILE):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                k = json.loads(line)
                if k["property"] == prop:
                    known[k["entry"]] = k
    results, violations, errors, notes = [], [], [], []
    budget = P.get("budget", 600) if tier == "quick" else 3 * 3600
    nsamp = 0
    for e in P["entries"]:
        name = e["entry"]
        if only and name != only:
            continue
        if e.get("tier") == "thorough" and tier == "quick":
            continue
        limit = tmul or (e.get("time", 120) if tier == "quick" else e.get("ttime", max(1200, 5 * e.get("time", 120))))
        left = budget - (time.time() - t0 - t_build)
        if left < 5:
            notes.append("entry %s skipped: time budget used up" % name)
            results.append({"entry": name, "complete": False, "skipped": True})
            continue
        limit = min(limit, left)
        bc, exe = bins[e["bin"]]
        cmd = [symex, bc, "--entry", name, "--out", out, "--workers", str(WORKERS), "--time", str(limit), "--max-insts", str(e.get("max_insts", 300000000))] + e.get("args", [])
        r = sh(cmd)
        rf = os.path.join(out, "result-%s.json" % name)
        if not os.path.exists(rf):
            errors.append("%s: symbolic executor failed: %s" % (name, r.stdout[-1500:]))
            continue
        res = json.load(open(rf))
        res["bound"] = e.get("bound", "")
        results.append(res)
        print(r.stdout.strip()[:600])
        for v in res["violations"]:
            ok, desc = replay(exe, name, v["file"])
            if not ok and v["kind"] == "memory":
                ok, desc = replay_valgrind(exe, name, v["file"])
            if ok:
                k = known.get(name)
                if k and k["msg"] in v["msg"] + " " + desc:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                    notes.append("known finding: " + k["what"])
                    continue
                rp = os.path.join(out, "violation-%s.txt" % name)
                with open(rp, "w") as f:
                    f.write("# property %s entry %s\n# %s: %s\n" % (prop, name, v["kind"], v["msg"]))
                    f.write("# replay: SYM_REPLAY=%s %s %s\n" % (rp, exe, name))
                    for l in desc.splitlines():
                        f.write("# native: %s\n" % l)
                    f.write(open(v["file"]).read())
                violations.append((name, v, desc, rp))
            else:
                errors.append("%s: counterexample does not reproduce natively (%s: %s) %s" % (name, v["kind"], v["msg"], desc))
        if res["nerr"]:
            errors.append("%s: %s" % (name, res["error"]))
        # translator validation: sampled complete paths must also pass natively
        for i in range(res.get("nsamples", 0)):
            sf = os.path.join(out, "sample-%s-%d.txt" % (name, i))
            if not os.path.exists(sf):
                continue
            bad, desc = replay(exe, name, sf)
            if bad or not desc.startswith("exit 0"):
                errors.append("%s: symbolic path passes but native replay of its inputs does not (%s): %s" % (name, sf, desc))
            else:
                nsamp += 1
        # vacuity: every entry must complete at least one path, and reach its required tags
        if not res["violations"] and not res["nerr"] and not res["timed_out"]:
            for t in ["<end>"] + e.get("reach", []):
                if not res["tags"].get(t):
                    errors.append("%s: vacuous, tag %s never reached" % (name, t))
        if violations and not os.environ.get("VERIF_ALL"):
            break
    write_evidence(prop, P, tier, results, violations, notes, nsamp, time.time() - t0, t_build, out)
    for name, v, desc, rp in violations:
        print("  %s: %s: %s\n    %s" % (name, v["kind"], v["msg"], desc.replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for e in errors:
        print("ERROR:", e)
    print("%s %s: %d entries, %d paths, %d queries, %.1f s (build %.1f s)%s" % (prop, tier, len(results), sum(r.get("paths", 0) for r in results), sum(r.get("queries", 0) for r in results), time.time() - t0, t_build, "" if all(r["complete"] for r in results) else " [some entries incomplete]"))
    if violations:
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


def write_evidence(prop, P, tier, results, violations, notes, nsamp, wall, t_build, out):
    ran = [r for r in results if not r.get("skipped")]
    lines, fns = set(), set()
    for r in ran:
        lines.update(l for l in r["lines"])
        fns.update(f for f in r["functions"] if "rust_road_router" in f or "rayon" in f)
    files = {}
    for l in lines:
        f = l.rsplit(":", 1)[0]
        f = f[f.find("/repo/") + 6:]
        files[f] = files.get(f, 0) + 1
    samples = []
    for r in ran[:6]:
        sf = os.path.join(out, "sample-%s-%d.txt" % (r["entry"], max(0, r.get("nsamples", 1) - 1)))
        if os.path.exists(sf):
            samples.append({"entry": r["entry"], "inputs": " ".join(open(sf).read().split()[:80])})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "wall_s": round(wall, 1),
        "coverage": {
            "states": sum(r["paths"] + r["infeasible"] for r in ran),
            "transitions": sum(r["forks"] for r in ran),
            "traces_validated_against_impl": nsamp,
            "samples": samples,
            "exhaustive": all(r["complete"] for r in results) and not violations,
            "explanation": "states = symbolic path end states; transitions = solver-decided forks; traces validated = sampled paths replayed on the natively compiled code. " + P.get("bounds", ""),
            "entries": [{"entry": r["entry"], "bound": r.get("bound", ""), "complete": r["complete"], "paths": r["paths"], "infeasible": r["infeasible"], "assertions_decided": r["asserts"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "unknown": r["unknown"], "integer_queries": r["int_queries"], "bitvector_queries": r["bv_queries"], "solver_s": r["solver_s"], "max_query_s": r["max_query_s"], "instructions": r["insts"], "run_s": r["run_s"], "tags": r["tags"], "violations": [v["kind"] + ": " + v["msg"] for v in r["violations"]]} for r in ran],
            "queries_discharged": sum(r["queries"] for r in ran),
            "solver_s": round(sum(r["solver_s"] for r in ran), 2),
            "source_lines_encoded": files,
            "functions_encoded": sorted(fns)[:400],
            "notes": notes,
            "build_s": round(t_build, 1),
        },
        "assumptions": P.get("assumptions", []) + ["see DESIGN.md, 'Trusted base'"],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


main()
