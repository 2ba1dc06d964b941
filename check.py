#!/usr/bin/env python3
"""Decides one property: builds the executor and the harness from /repo's current tree, runs
the property's symbolic jobs, replays what they report against the native build.

usage: check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only FN] [--case N] [--keep-going]
"""
import concurrent.futures as cf, fcntl, glob, json, os, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
sys.path.insert(0, VERIF)
import registry

NCPU = os.cpu_count() or 4


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.96", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def llvm_bin():
    rc, out = sh(["rustc", "+stable", "--print", "sysroot"], env=env())
    d = os.path.join(out.strip().splitlines()[-1], "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    if not os.path.exists(d + "/llvm-dis"):
        raise SystemExit("error: llvm-dis not found in " + d)
    return d


def build_engine():
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/symex"], cwd=VERIF + "/symex", env=e)
    if rc != 0:
        print(out)
        raise SystemExit("error: building the executor failed")
    return BUILD + "/symex/release/symex"


def build_harness(binname):
    os.makedirs(BUILD, exist_ok=True)
    rt = BUILD + "/rt.o"
    rc, out = sh(["gcc", "-O1", "-c", VERIF + "/harness/src/rt.c", "-o", rt])
    if rc != 0:
        print(out)
        raise SystemExit("error: building the runtime failed")
    td = BUILD + "/harness"
    cmd = ["cargo", "rustc", "--release", "--offline", "--target-dir", td, "--bin", binname, *(["--features", registry.FEATURES[binname]] if binname in registry.FEATURES else []), "--",
           "-C", "relocation-model=static", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=" + rt]
    rc, out = sh(cmd, cwd=VERIF + "/harness", env=env())
    if rc != 0:
        print(out[-6000:])
        raise SystemExit("error: building the harness against /repo failed")
    bcs = [f for f in glob.glob(f"{td}/release/deps/{binname}-*.rcgu.bc") if ".lto." not in f and ".no-opt." not in f]
    bc = max(bcs, key=os.path.getmtime)
    ll = f"{BUILD}/{binname}.ll"
    lb = llvm_bin()
    rc, out = sh([lb + "/opt", "-passes=scalarizer", "-strip-debug", bc, "-o", ll + ".bc"])
    if rc == 0:
        rc, out = sh([lb + "/llvm-dis", ll + ".bc", "-o", ll])
    if rc != 0:
        print(out[-3000:])
        raise SystemExit("error: cannot extract the IR")
    return ll, f"{td}/release/{binname}"


def run_job(symex, ll, fn, case, secs, opts, seed):
    out = f"{BUILD}/out/{fn}.{case}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [symex, "--ir", ll, "--fn", fn, "--case", str(case), "--time", str(secs), "--out", out, "--seed", str(seed)]
    for k, v in opts.items():
        cmd += [f"--{k}", str(v)]
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 120, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return dict(fn=fn, case=case, failed="executor did not stop in time", incomplete={"executor did not stop in time": 1})
    if not os.path.exists(out):
        why = (r.stderr or "").strip().splitlines()[-1:] or ["exit %d" % r.returncode]
        return dict(fn=fn, case=case, failed=why[0], crashed=True)
    return json.load(open(out))


def replay(native, fn, case, inputs, tag, timeout=20):
    p = f"{BUILD}/out/{tag}.in"
    with open(p, "w") as f:
        for w, v in inputs:
            f.write(v + "\n")
    e = {k: v for k, v in os.environ.items() if k not in ("LINES", "COLUMNS")}
    e.update(HARNESS=fn, CASE=str(case), SYMEX_INPUT=p, RUST_BACKTRACE="0")
    try:
        r = subprocess.run([native], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace", text=True,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s" % timeout, []
    obs = [l[4:] for l in r.stdout.splitlines() if l.startswith("OBS ")]
    if r.returncode == 42:
        m = re.search(r"CHECK-FAIL (.*)", r.stdout)
        return "check", m.group(1) if m else "", obs
    if r.returncode == 77:
        return "assume", "", obs
    if r.returncode in (-6, -11, -4, -5, -7, 134, 139):
        return "crash", r.stderr.strip().replace("\n", " | ")[:400], obs
    if r.returncode == 0 and "DONE" in r.stdout:
        return "ok", "", obs
    return "other", "exit %d %s%s" % (r.returncode, r.stdout[-30:] if r.returncode == 5 else "", r.stderr[:200]), obs


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        return 0
    prop = a[0]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD + "/out", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    budget = spec.get("budget", {"quick": 420, "thorough": 3000})[tier]
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine)
        bins = {}
        for b in sorted({g["bin"] for g in spec["groups"]}):
            bins[b] = build_harness(b)
        symex = fe.result()
    t_build = time.time() - t0
    jobs = []
    for g in spec["groups"]:
        if opt("--only") and g["fn"] != opt("--only"):
            continue
        if tier == "quick" and g.get("tier") == "thorough":
            continue
        cases = g.get("cases", [0])
        if tier == "thorough" and "thorough_cases" in g:
            cases = g["thorough_cases"]
        for c in cases:
            if opt("--case") is not None and c != int(opt("--case")):
                continue
            secs = g.get("time", 60) if tier == "quick" else g.get("thorough_time", g.get("time", 60) * 8)
            jobs.append((g, c, secs))
    n = int(opt("--jobs", NCPU))
    results = []
    deadline = t0 + t_build + budget

    def one(j):
        g, c, secs = j
        left = deadline - time.time()
        if left < 2:
            return g, dict(fn=g["fn"], case=c, skipped=True, incomplete={"check budget exhausted before the job started": 1})
        ll, nat = bins[g["bin"]]
        o = dict(g.get("opts", {}))
        return g, run_job(symex, ll, g["fn"], c, min(secs, left), o, seed)

    with cf.ThreadPoolExecutor(n) as ex:
        for g, r in ex.map(one, jobs):
            results.append((g, r))
            if "-v" in a:
                print("  %s/%d paths=%s viol=%d inc=%s wall=%.1f insts=%s q=%s %s" % (r["fn"], r["case"], r.get("paths"), len(r.get("violations", [])), r.get("incomplete"), r.get("wall_s", 0), r.get("insts"), r.get("queries"), r.get("failed", "")), flush=True)

    # Replays
    known = [k for k in registry.known_findings() if k["property"] == prop and k["status"] == "known"]
    violations, noreplay, mismatches, knowns, errors = [], [], [], [], []
    validated = 0
    rep_jobs = []
    for g, r in results:
        if r.get("crashed"):
            errors.append(f"executor failed on {r['fn']}/{r['case']}: {r['failed']}")
        for i, v in enumerate(r.get("violations", [])):
            rep_jobs.append((g, r, v, None, f"{r['fn']}.{r['case']}.v{i}"))
        for i, s in enumerate(r.get("samples", [])):
            rep_jobs.append((g, r, None, s, f"{r['fn']}.{r['case']}.s{i}"))

    def rep(x):
        g, r, v, s, tag = x
        nat = bins[g["bin"]][1]
        return x, replay(nat, r["fn"], r["case"], (v or s)["inputs"], tag)

    with cf.ThreadPoolExecutor(n) as ex:
        for (g, r, v, s, tag), (kind, msg, obs) in ex.map(rep, rep_jobs):
            if v is not None:
                desc = f"{r['fn']}/{r['case']}: {v['kind']}: {v['msg']}"
                if v["label"]:
                    desc += f" [{v['label']}]"
                ok = kind in ("check", "crash", "hang")
                if not ok and v.get("loose"):
                    k = "counterexample only with the representative text of a double"
                    r.setdefault("incomplete", {})[k] = r["incomplete"].get(k, 0) + 1
                    continue
                if not ok:
                    noreplay.append(f"{desc}; native run says {kind} {msg}")
                    continue
                path = f"{VERIF}/evidence/replays/{prop}.{tag}.json"
                os.makedirs(os.path.dirname(path), exist_ok=True)
                json.dump(dict(property=prop, harness=r["fn"], case=r["case"], binary=g["bin"], kind=v["kind"], message=v["msg"], label=v["label"],
                               native=kind + ": " + msg, inputs=v["inputs"], observed=obs, stack=v["stack"],
                               how="HARNESS=%s CASE=%d SYMEX_INPUT=<file with one input value per line> build/harness/release/%s" % (r["fn"], r["case"], g["bin"])), open(path, "w"), indent=1)
                kf = [k for k in known if k["harness"] == r["fn"] and k["case"] == r["case"] and re.search(k["match"], v["msg"] + " " + v["label"] + " " + msg)]
                (knowns if kf else violations).append((desc + f" (native: {kind} {msg})", path, kf))
            else:
                want = [o for o in s["obs"]]
                if kind == "ok" and obs == want:
                    validated += 1
                else:
                    mismatches.append(f"{r['fn']}/{r['case']} sample {tag}: native {kind} {msg}; obs {obs[:6]} expected {want[:6]}")

    covers = {}
    for g, r in results:
        for k, v in r.get("covers", {}).items():
            covers[k] = covers.get(k, 0) + v
    missing = []
    if not violations and "--case" not in a and "--only" not in a:
        complete_groups = {}
        for g, r in results:
            complete_groups.setdefault(id(g), [g, True])
            if r.get("incomplete"):
                complete_groups[id(g)][1] = False
        for g, comp in complete_groups.values():
            for c in g.get("covers", []):
                if comp and not covers.get(c):
                    missing.append(c)
    tot = lambda k: sum(r.get(k, 0) for _, r in results)
    incomplete = {}
    for g, r in results:
        for k, v in r.get("incomplete", {}).items():
            incomplete.setdefault(k, []).append(f"{r['fn']}/{r['case']}x{v}")
    fnames = set()
    for g, r in results:
        fnames.update(x for x in r.get("repo_functions", []) if "endbasic" in x and not x.startswith("_ZN4core3ptr"))
    samples = []
    for g, r in results:
        if r.get("samples") and len(samples) < 12:
            s = r["samples"][0]
            samples.append(dict(harness=r["fn"], case=r["case"], inputs=[v for _, v in s["inputs"]][:40], observed=s["obs"][:12]))
    if not samples:
        samples = [dict(harness=r["fn"], case=r["case"], paths=r.get("paths")) for g, r in results][:5]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=registry.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
              coverage=dict(states=tot("paths"), transitions=tot("forks") + tot("paths"), traces_validated_against_impl=validated, samples=samples,
                            jobs=len(results), jobs_fully_explored=sum(1 for _, r in results if not r.get("incomplete") and not r.get("failed")),
                            instructions_executed=tot("insts"), assertions=tot("checks"), assertions_discharged_by_solver=tot("discharged"), assertions_reduced_to_constants=tot("checks_const"),
                            solver_queries=tot("queries"), solver_sat=tot("sat"), solver_unsat=tot("unsat"), solver_unknown=tot("unknown"),
                            byte_domain_decisions=tot("table"), branching_points=tot("decisions"), branching_points_shown_exhaustive_by_solver=tot("decisions_covered"), query_cache_hits=tot("cache_hits"), solver_seconds=round(tot("solver_s"), 2),
                            functions_encoded=len(fnames), functions_encoded_names=sorted(fnames)[:400], reached=covers,
                            infeasible_or_assumed_away=tot("assumed_away"), doubles_formatted_with_a_representative=tot("pinned"), bounds=spec["bounds"], incomplete=incomplete, exhaustive=not incomplete and not errors,
                            states_meaning="explored paths, each covering every input value satisfying its path condition"))
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for k in known:
        hit = any(kf and kf[0] is k for _, _, kf in knowns)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for k, v in sorted(incomplete.items()):
        print(f"INCOMPLETE: {k}: {', '.join(v[:8])}{' ...' if len(v) > 8 else ''}")
    print(f"{prop} [{tier}]: {len(results)} jobs, {tot('paths')} paths, {tot('checks')} assertions, {tot('queries')} solver queries ({tot('solver_s'):.1f}s), "
          f"{validated} replays agree, build {t_build:.0f}s, total {time.time()-t0:.0f}s")
    if violations:
        for d, path, _ in violations[:20]:
            print("  " + d)
        print(f"VIOLATION property={prop} replay={violations[0][1]}")
        return 1
    bad = errors + ["counterexample does not reproduce natively: " + x for x in noreplay] + ["encoding disagrees with native run: " + x for x in mismatches] + (["vacuous: never reached " + ", ".join(missing)] if missing else [])
    if bad:
        for x in bad[:20]:
            print("error: " + x)
        return 2
    return 0


sys.exit(main())
