#!/usr/bin/env python3
"""Driver: builds the harness from /repo's current tree, explores it symbolically, replays natively, writes evidence.

usage: check.py PROPERTY        (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py --setup
"""
import concurrent.futures as cf
import fcntl, glob, json, os, subprocess, sys, time, shutil, hashlib, random, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, CONFIGS  # noqa

BUILD = os.path.join(V, "build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="", CARGO_TERM_COLOR="never")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
    ENV.pop(k, None)
NCPU = int(os.environ.get("VERIF_NCPU", "0")) or max(1, min(8, os.cpu_count() or 8))
T0 = time.time()


class Fail(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if r.returncode != 0:
        raise Fail("command failed: %s\n%s" % (" ".join(map(str, cmd))[:300], r.stdout[-6000:]))
    return r.stdout


def sysroot():
    return sh(["rustc", "--print", "sysroot"]).strip()


def build_engine():
    env = dict(ENV, RUSTUP_TOOLCHAIN="stable")
    sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], cwd=os.path.join(V, "engine"), env=env)
    return os.path.join(BUILD, "engine", "release", "symex")


def tool(sr, name):
    return os.path.join(sr, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


def build_harness(cfg, feature):
    """returns (bitcode, runner, entry list)"""
    c = CONFIGS[cfg]
    src = os.path.join(V, c["dir"])
    tgt = os.path.join(BUILD, "t_" + cfg)
    outd = os.path.join(BUILD, "out", cfg + "_" + feature)
    os.makedirs(outd, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock_" + cfg), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        lockfile = os.path.join(src, "Cargo.lock")
        saved = open(lockfile).read() if os.path.exists(lockfile) else None
        for f in glob.glob(os.path.join(tgt, "release", "**", "*.lto.input.bc"), recursive=True):
            os.remove(f)
        # force the harness crate itself to be rebuilt so that the bitcode always exists
        for f in glob.glob(os.path.join(tgt, "release", ".fingerprint", "hs-*")):
            shutil.rmtree(f, ignore_errors=True)
        for f in glob.glob(os.path.join(tgt, "release", "build", "hs", "*", "fingerprint")):
            shutil.rmtree(f, ignore_errors=True)
        cmd = ["cargo", "rustc", "--release", "--offline", "--lib", "--features", feature, "--target-dir", tgt, "--",
               "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--cfg", "h_" + hashlib.sha1(str(time.time()).encode()).hexdigest()[:8]]
        sh(cmd, cwd=src, env=dict(ENV, RUSTFLAGS=c.get("rustflags", "")))
        if saved is not None and open(lockfile).read() != saved:
            open(lockfile, "w").write(saved)
        bcs = glob.glob(os.path.join(tgt, "release", "**", "hs*.lto.input.bc"), recursive=True)
        libs = glob.glob(os.path.join(tgt, "release", "libhs.a")) or glob.glob(os.path.join(tgt, "release", "**", "libhs*.a"), recursive=True)
        if len(bcs) != 1 or not libs:
            raise Fail("bitcode not found: %s %s" % (bcs, libs))
        sr = sysroot()
        bc0 = os.path.join(outd, "in.bc")
        shutil.copy(bcs[0], bc0)
        lib = max(libs, key=os.path.getmtime)
        runner = os.path.join(outd, "runner")
        extra = [os.path.join(V, x) for x in c.get("rt_extra", [])]
        sh(["clang", "-O1", "-g", "-w", os.path.join(V, "rt/rt.c")] + extra + ["-o", runner, "-rdynamic", "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-ldl", "-lpthread", "-lm"])
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    nm = sh([tool(sr, "llvm-nm"), bc0])
    entries = sorted(set(re.findall(r" T (h_[a-zA-Z0-9_]+)", nm)))
    bc = os.path.join(outd, "prog.bc")
    # clean-up passes only: inlining/simplification inside LLVM, no vectorisation
    sh([tool(sr, "opt"), "-passes=internalize,globaldce,default<O1>,globaldce", "-internalize-public-api-list=" + ",".join(entries),
        "-vectorize-loops=false", bc0, "-o", bc])
    os.remove(bc0)
    for f in bcs:
        for g in glob.glob(os.path.join(os.path.dirname(f), "*.bc")):
            os.remove(g)
    return bc, runner, entries


def engine_paths():
    sr = sysroot()
    cands = [p for p in glob.glob(os.path.join(sr, "lib", "libLLVM*")) if os.path.getsize(p) > 1 << 20]
    if not cands:
        raise Fail("libLLVM not found under " + sr)
    llvm = max(cands, key=os.path.getsize)
    z3 = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so.4"]
    return llvm, ":".join(z for z in z3 if os.path.exists(z))


def case_line(entry, params, inputs, uf):
    t = ["case", entry, str(len(params))] + [str(p) for p in params] + [str(len(inputs))] + [str(i) for i in inputs] + [str(len(uf))]
    for f, a, r in uf:
        t += [str(f), str(len(a))] + [str(x) for x in a] + [str(r)]
    return " ".join(t) + "\n"


def native(runner, cases, outdir, name, extra_cmd=None, timeout=600):
    p = os.path.join(outdir, name)
    with open(p, "w") as f:
        f.writelines(cases)
    cmd = (extra_cmd or []) + [runner, p] + (["nofork"] if extra_cmd else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    res, cur = [], None
    for l in r.stdout.splitlines():
        if l.startswith("CASE "):
            cur = {"obs": [], "out": [], "code": None}
            res.append(cur)
        elif cur is None:
            continue
        elif l.startswith("OBS "):
            cur["obs"].append(int(l[4:]))
        elif l.startswith("END "):
            cur["code"] = int(l[4:])
        elif not l.startswith("REACH"):
            cur["out"].append(l)
    return res, r


def run_engine(engine, llvm, z3, bc, job, params, budget):
    t0 = time.time()
    entry, shard, nshard, depth, samples = job["entry"], job["shard"], job["nshard"], job["depth"], job["samples"]
    cmd = [engine, "--llvm", llvm, "--z3", z3, "--bc", bc, "--entry", entry, "--shard", str(shard), "--nshard", str(nshard), "--depth", str(depth),
           "--time", str(int(max(5, budget - (time.time() - T0)))), "--samples", str(samples), "--max-viol", "6", "--qtimeout", str(job.get("qtimeout", 60000)),
           "--params", ",".join(map(str, params))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if os.environ.get("SX_RACE"):
        print(r.stderr[-300000:])
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        d = {"status": "error", "error": "engine exit %s: %s" % (r.returncode, (r.stderr or r.stdout)[-1500:]), "entry": entry}
    d["job"] = job
    d["wall"] = time.time() - t0
    return d


def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                kv = dict(re.findall(r"(\w+)=(\"[^\"]*\"|\S+)", l))
                out.append({k: v.strip('"') for k, v in kv.items()})
    return out


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    budget = float(os.environ.get("VERIF_BUDGET", "840" if tier == "quick" else "7200"))
    params = [1 if tier == "thorough" else 0]
    engine = build_engine()
    tb0 = time.time()
    builds = {}
    groups = sorted(set((j.get("config", "row"), j.get("feature", prop.lower())) for j in spec["jobs"]))
    with cf.ThreadPoolExecutor(4) as ex:
        for g, b in zip(groups, ex.map(lambda g: build_harness(*g), groups)):
            builds[g] = b
    build_s = time.time() - T0
    llvm, z3 = engine_paths()
    jobs = []
    for j in spec["jobs"]:
        if tier == "quick" and j.get("thorough_only"):
            continue
        ns = j.get("shards", 1)
        if tier == "thorough":
            ns = j.get("tshards", ns)
        g = (j.get("config", "row"), j.get("feature", prop.lower()))
        if j["entry"] not in builds[g][2]:
            raise Fail("entry %s missing from the harness" % j["entry"])
        for s in range(ns):
            jobs.append(dict(entry=j["entry"], shard=s, nshard=ns, depth=j.get("depth", 1 if ns > 1 else 0), samples=6 if ns <= 4 else 2, group=g, weight=j.get("weight", 1), qtimeout=j.get("qtimeout", 60000)))
    jobs.sort(key=lambda j: -j["weight"])
    res = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for d in ex.map(lambda j: run_engine(engine, llvm, z3, builds[j["group"]][0], j, params, budget), jobs):
            res.append(d)
    outdir = os.path.join(BUILD, "run_" + prop)
    os.makedirs(outdir, exist_ok=True)
    errors, viols = [], []
    for d in res:
        for v in d.get("violations", []):
            viols.append((d, v))
        if d["status"] == "error" or d.get("error"):
            errors.append("%s shard %s: %s" % (d.get("entry"), d["job"]["shard"], d.get("error")))
    # ---- native replay of violations
    reported, unconfirmed, knowns = [], [], []
    kf = [k for k in known_findings() if k.get("property") == prop]
    seen = set()
    for d, v in viols:
        key = (d["entry"], v["kind"], v["msg"])
        if key in seen:
            continue
        seen.add(key)
        runner = builds[d["job"]["group"]][1]
        line = case_line(d["entry"], params, v["inputs"], v["uf"])
        ok, how = confirm(runner, line, v, outdir)
        item = dict(entry=d["entry"], config=d["job"]["group"][0], feature=d["job"]["group"][1], kind=v["kind"], msg=v["msg"], inputs=v["inputs"], uf=v["uf"], stack=v["stack"], native=how, params=params, case=line.strip())
        if not ok:
            unconfirmed.append(item)
            continue
        m = [k for k in kf if k.get("entry") == d["entry"] and k.get("msg") == v["msg"]]
        if m:
            knowns.append((m[0], item))
        else:
            reported.append(item)
    # ---- validation of the encoding: native execution of explored paths must agree
    validated, mism, samples_out = 0, [], []
    bygroup = {}
    for d in res:
        for s in d.get("samples", []):
            bygroup.setdefault(d["job"]["group"], []).append((d["entry"], s))
    for g, lst in bygroup.items():
        rnd = random.Random(seed)
        if len(lst) > 400:
            lst = rnd.sample(lst, 400)
        cases = [case_line(e, params, s["inputs"], s["uf"]) for e, s in lst]
        out, _ = native(builds[g][1], cases, outdir, "samples_%s_%s.txt" % g)
        if len(out) != len(lst):
            errors.append("native sample run incomplete (%d of %d)" % (len(out), len(lst)))
            continue
        for (e, s), o in zip(lst, out):
            want = 4 if s["panic"] else 0
            if o["code"] != want or o["obs"] != s["obs"]:
                mism.append((e, s, o))
            else:
                validated += 1
                if len(samples_out) < 6:
                    samples_out.append({"entry": e, "inputs": [str(x) for x in s["inputs"]], "observed": [str(x) for x in s["obs"][:16]]})
    if mism:
        errors.append("engine and native execution disagree on %d sampled paths, e.g. %s" % (len(mism), json.dumps(mism[0])[:1500]))
    lab = lambda e, c: e if c == "row" else c + ":" + e
    # ---- vacuity: every declared reachability witness must have been reached
    reached = {}
    for d in res:
        r = reached.setdefault(lab(d.get("entry"), d["job"]["group"][0]), {})
        for k, c in d.get("reached", {}).items():
            r[k] = r.get(k, 0) + c
    if not reported:
        for j in spec["jobs"]:
            if tier == "quick" and j.get("thorough_only"):
                continue
            for i in j.get("reach", [1]):
                if str(i) not in reached.get(lab(j["entry"], j.get("config", "row")), {}):
                    errors.append("vacuous: witness %s of %s not reached" % (i, j["entry"]))
    tot = lambda k: sum(d.get(k, 0) for d in res)
    fns = set()
    for d in res:
        fns.update(d.get("functions", []))
    repo_fns = sorted(f for f in fns if "rstsr" in f)
    per_entry = {}
    for d in res:
        e = per_entry.setdefault(lab(d.get("entry", "?"), d["job"]["group"][0]), {"paths": 0, "queries": 0, "solver_s": 0.0, "max_job_s": 0.0})
        e["paths"] += d.get("paths", 0)
        e["queries"] += d.get("queries", 0)
        e["solver_s"] = round(e["solver_s"] + d.get("solver_s", 0), 2)
        e["max_job_s"] = max(e["max_job_s"], round(d.get("wall", 0), 2))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("symbolic_branches") + tot("forks"),
            "traces_validated_against_impl": validated, "samples": samples_out,
            "paths_explored_to_completion": tot("paths"), "forks": tot("forks"), "instructions_executed": tot("steps"),
            "assertions_evaluated": tot("asserts"), "assertions_needing_solver_or_simplifier": tot("assert_syms"),
            "panic_paths": tot("panic_paths"), "race_checks": tot("race_checks"),
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2), "slowest_query_seconds": max([d.get("solver_max_s", 0) for d in res] or [0]),
            "solver": next((d["z3"] for d in res if "z3" in d), "?"),
            "functions_encoded": len(fns), "functions_encoded_of_repo": len(repo_fns), "functions_sample": repo_fns[:40],
            "entries": sorted(set(lab(d.get("entry", "?"), d["job"]["group"][0]) for d in res)), "jobs": len(res), "reach_witnesses": reached,
            "per_entry": per_entry,
            "bounds": spec["bounds"], "outside": spec.get("outside", ""), "build_seconds": round(build_s, 1),
            "exhaustive": not errors and not reported,
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, item in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", item["msg"])))
    if reported:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        for i, item in enumerate(reported):
            p = os.path.join(V, "replays", "%s_%d.json" % (prop, i))
            json.dump(item, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s: %s [%s] inputs=%s" % (item["entry"], item["msg"], item["native"], item["inputs"]))
        return 1
    for u in unconfirmed:
        errors.append("counterexample did not reproduce natively: %s %s %s inputs=%s (%s)\n   %s" % (u["entry"], u["kind"], u["msg"], u["inputs"], u["native"], "\n   ".join(u["stack"][:6])))
    if errors:
        for e in errors:
            print("ERROR %s: %s" % (prop, e))
        return 2
    print("OK %s: %d paths, %d queries (%.1f s solver), %d assertions, %d paths replayed natively, %.1f s" % (
        prop, tot("paths"), tot("queries"), tot("solver_s"), tot("asserts"), validated, time.time() - T0))
    return 0


COMMON_ASSUMPTIONS = [
    "LLVM IR of the real code (rustc nightly, opt-level 1, overflow checks on, panic=abort, fat LTO) is what is executed; the symbolic executor and z3 are trusted, cross-checked by native replay of sampled paths",
    "heap allocation never fails; addresses are 1 MiB aligned (alignment-dependent behaviour is not varied)",
    "formatting of error messages (core::fmt::write) is stubbed to succeed with empty output; environment variables read as unset",
    "a panic ends the path; unwinding and destructors run during unwinding are not modelled",
]


def confirm(runner, line, v, outdir):
    out, r = native(runner, [line], outdir, "viol.txt")
    if not out:
        return False, "no native output"
    o = out[0]
    k = v["kind"]
    txt = " ".join(o["out"])[:200]
    if k == "assert":
        if o["code"] == 1 and any(l.startswith("VIOL ") and l[5:] == v["msg"] for l in o["out"]):
            return True, "assertion failed natively"
        if o["code"] in (4, 5):
            return True, "native run crashed: " + txt
        return False, "native: code %s %s" % (o["code"], txt)
    if k == "panic":
        return o["code"] in (4, 5), "native: code %s %s" % (o["code"], txt)
    if o["code"] in (4, 5) or o["code"] == 1:
        return True, "native: code %s %s" % (o["code"], txt)
    if k in ("memory", "uninit"):
        try:
            out, r = native(runner, [line], outdir, "viol.txt", ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=" + ("yes" if k == "uninit" else "no")])
        except Exception as e:  # noqa
            return False, "valgrind: %s" % e
        if r.returncode == 99 or "Invalid read" in r.stderr or "Invalid write" in r.stderr or "uninitialised" in r.stderr:
            return True, "valgrind: " + r.stderr[:200].replace("\n", " ")
        return False, "native ok, valgrind silent"
    if k == "race":
        # two branches of a parallel join touch the same byte, at least one writing: the recorded footprint is the witness;
        # the branch order is a replay input, so the run itself must complete natively for these inputs
        return o["code"] == 0, "branches with overlapping footprints execute natively (order-dependent accesses)"
    return False, "native: code %s %s" % (o["code"], txt)


def setup():
    build_engine()
    for cfg in CONFIGS:
        feats = [(j.get("feature", p.lower())) for p, s in CHECKS.items() for j in s["jobs"] if j.get("config", "row") == cfg]
        if feats:
            build_harness(cfg, sorted(feats)[0])
    print("setup done in %.1f s" % (time.time() - T0))


def dev_run(args):
    """--run CONFIG FEATURE ENTRY[:shards[:depth]]...  (development helper)"""
    CHECKS["DEV"] = {"jobs": [dict(zip(("entry", "shards", "depth"), [a.split(":")[0]] + [int(x) for x in a.split(":")[1:]]), config=args[0], feature=args[1], reach=[]) for a in args[2:]], "bounds": "dev"}
    global COMMON_REACH
    rc = check("DEV")
    print(open(os.path.join(V, "evidence", "DEV.json")).read()[-3000:] if os.environ.get("SX_EV") else "", "rc", rc)
    ev = json.load(open(os.path.join(V, "evidence", "DEV.json")))
    print(json.dumps(ev["coverage"]["reach_witnesses"]), json.dumps(ev["coverage"]["per_entry"]))
    return rc


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--run":
            sys.exit(dev_run(sys.argv[2:]))
        if sys.argv[1] == "--setup":
            setup()
            sys.exit(0)
        sys.exit(check(sys.argv[1]))
    except Fail as e:
        print("ERROR:", e)
        sys.exit(2)
