"""The checks that need more than one build or more than one process."""
import concurrent.futures, glob, os, re, shutil, subprocess, time

TRIPLE = "x86_64-unknown-linux-gnu"
NIGHTLY = {"RUSTUP_TOOLCHAIN": "nightly"}
# crossbeam-deque reads slots that may be overwritten and validates afterwards
SUPPRESSIONS = "race_top:crossbeam_deque\nrace_top:crossbeam_epoch\n"
MIRI_KINDS = 9


def no_validation(d):
    return d.build(features=(), target=os.path.join(d.HARNESS, "target-nv"))


def forget(d, target):
    """as run_check.fresh, for targets of other toolchains"""
    mark, now = os.path.join(target, ".cvm-tree"), d.tree_hash()
    try:
        with open(mark) as f:
            if f.read() == now:
                return
    except OSError:
        pass
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for x in dirs:
                if re.match(r"corries-[0-9a-f]+$", x):
                    shutil.rmtree(os.path.join(root, x), ignore_errors=True)
            dirs[:] = []
    os.makedirs(target, exist_ok=True)
    with open(mark, "w") as f:
        f.write(now)


def sanitized(d, kind):
    target = os.path.join(d.HARNESS, "target-" + kind)
    forget(d, target)
    args = ["build", "--release", "--offline", "--locked", "--bin", "cvm", "--target", TRIPLE]
    if kind == "tsan":
        # the race detector has to see the synchronisation inside the standard library
        args.insert(1, "-Zbuild-std")
    env = dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=" + {"tsan": "thread", "asan": "address"}[kind])
    r = d.cargo(args, target, env)
    if r.returncode != 0:
        raise d.Inconclusive("the %s build failed:\n%s" % (kind, r.stderr[-3000:]))
    return os.path.join(target, TRIPLE, "release", "cvm")


def miri_env(d, kind, seed):
    flags = "-Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-seed=%d" % seed
    if seed % 2 == 0:
        flags += " -Zmiri-preemption-rate=0.1"
    if kind >= 7:
        # these use the error type of eyre 0.6.8, whose destructor violates the aliasing model
        flags += " -Zmiri-disable-stacked-borrows"
    return dict(NIGHTLY, MIRIFLAGS=flags)


def miri_build(d):
    target = os.path.join(d.HARNESS, "target-miri")
    forget(d, target)
    r = d.cargo(["miri", "run", "--offline", "--locked", "--bin", "ub"], target, miri_env(d, 0, 0))
    if r.returncode != 0:
        raise d.Inconclusive("the Miri build failed:\n" + r.stderr[-3000:])
    return target


def miri_run(d, target, kind, seed, timeout):
    """one interpreted execution; isolated: it has no access to files or processes"""
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(miri_env(d, kind, seed))
    t0 = time.time()
    p = subprocess.Popen(["cargo", "miri", "run", "--offline", "--locked", "--bin", "ub", "--", str(kind), str(seed)],
                         cwd=d.HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return kind, seed, None, "", "timeout", time.time() - t0
    end = re.search(r"^UB-END .*$", out, re.M)
    m = re.search(r"^error: (?!aborting)(?s:.*?)(?=^note: some details|\Z)", err, re.M)
    return kind, seed, p.returncode, end.group(0) if end else "", m.group(0)[:3000] if m else err[-1500:], time.time() - t0


def tool_run(d, sc, exe, kind, prop, seed, tier, scale, secs, timeout):
    """a workload of a property under a sanitizer: (what was observed, [reports])"""
    log = os.path.join(sc.work, "san-%s-%s" % (kind, prop))
    supp = os.path.join(sc.dir, "suppressions")
    with open(supp, "w") as f:
        f.write(SUPPRESSIONS)
    opts = "log_path=%s exitcode=0" % log
    env = {"CVM_SCALE": str(scale), "CVM_SECS": str(secs)}
    if kind == "tsan":
        env["TSAN_OPTIONS"] = opts + " suppressions=" + supp
    else:
        env["ASAN_OPTIONS"] = opts + " detect_leaks=0 allocator_may_return_null=1"
    out = os.path.join(sc.dir, "res-%s-%s.json" % (kind, prop))
    open(out, "w").close()
    os.chmod(out, 0o666)
    rc, _, err = d.run(sc, [sc.binary(exe), prop, "--seed", str(seed), "--tier", tier, "--scratch", sc.work, "--out", out],
                       timeout, env)
    reports = []
    for p in sorted(glob.glob(log + ".*")):
        with open(p, errors="replace") as f:
            reports += [x for x in re.split(r"(?=^=+$)", f.read(), flags=re.M) if "WARNING: " in x or "ERROR: " in x]
    if rc < 0 or "unsafe precondition" in err or rc == 134:
        reports.append("the process ended with %d\n%s" % (rc, err[-2500:]))
    res = None
    if os.path.getsize(out):
        import json
        with open(out) as f:
            res = json.load(f)
    elif not reports:
        raise d.Inconclusive("%s under %s ended with %d\n%s" % (prop, kind, rc, err[-2000:]))
    for p in glob.glob(log + ".*"):
        os.remove(p)
    return res, reports


def setup(d):
    d.build()
    no_validation(d)
    for k in ("tsan", "asan"):
        sanitized(d, k)
    miri_build(d)


def check_C22(d, sc, seed, tier, only):
    """the harness compares runs in its own process and in child processes of both builds"""
    alt = sc.binary(no_validation(d))
    return d.harness(sc, d.build(), "C22", seed, tier, only, extra=["--alt", alt],
                     timeout=800 if tier == "quick" else 6 * 3600)


ALL = ["C%02d" % i for i in range(1, 29)]


def check_C23(d, sc, seed, tier, only):
    """the type probes, and the workloads of all checks under ThreadSanitizer, AddressSanitizer and Miri"""
    thorough = tier == "thorough"
    tool, part = (only.split(":") + [None])[:2] if only else (None, None)
    if tool in ("types", "sharing"):
        return d.harness(sc, d.build(), "C23", seed, tier, only)
    jobs = {"tsan": lambda: sanitized(d, "tsan"), "asan": lambda: sanitized(d, "asan"), "miri": lambda: miri_build(d)}
    if tool:
        jobs = {tool: jobs[tool]}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        built = {k: ex.submit(f) for k, f in jobs.items()}
        built = {k: f.result() for k, f in built.items()}
    d0 = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "counters": {},
          "maxima": {}, "violations": [], "known": {}, "inconclusive": []}
    if not tool:
        d0 = d.harness(sc, d.build(), "C23", seed, tier, timeout=400)
    cnt = d0["counters"]
    # (property, scale of the number of cases, of the time)
    plan = {
        "tsan": [("C23", 0.1, 1.0), ("C15", 0.05, 1.0), ("C22", 0.03, 0.3)],
        "asan": [(p, {"C22": 0.01, "C18": 0.05, "C19": 0.05}.get(p, 0.08), 0.5) for p in ALL],
    }
    if thorough:
        plan = {"tsan": [(p, s * 2, 3.0) for p, s, _ in plan["tsan"]], "asan": [(p, s, 1.0) for p, s, _ in plan["asan"]]}
    for kind in ("tsan", "asan"):
        if kind not in built:
            continue
        for prop, scale, secs in plan[kind]:
            if part and part != prop:
                continue
            res, reports = tool_run(d, sc, built[kind], kind, prop, seed, tier, scale, secs, 400 if not thorough else 7200)
            for r in reports[:3]:
                d0["violations"].append({"case": "%s:%s" % (kind, prop), "what": "%s on the workload of %s: %s" % (kind, prop, r.strip()[:2500])})
            if res:
                d0["evaluations"] += res["evaluations"]
                d0["nontrivial"] += res["nontrivial"]
                d0["distinct_nontrivial"] += res["distinct_nontrivial"]
                cnt["%s_cases" % kind] = cnt.get("%s_cases" % kind, 0) + res["evaluations"]
                if kind == "tsan":
                    for k, v in res["counters"].items():
                        if re.search("simul|thread|moved|while", k):
                            cnt["tsan: " + k] = cnt.get("tsan: " + k, 0) + v
    if "miri" in built:
        seeds = [seed * 100 + k for k in range(40 if thorough else 3)]
        todo = [(k, s) for s in seeds for k in range(MIRI_KINDS)]
        if part:
            k, s = part.split("-")
            todo = [(int(k), int(s))]
        # the long ones first
        todo.sort(key=lambda x: (x[1], -[15, 18, 15, 20, 67, 24, 41, 37, 13][x[0]]))
        t0 = time.time()
        limit = 200 if not thorough else 3600
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            def one(x):
                if time.time() - t0 > limit:
                    return None
                return miri_run(d, built["miri"], x[0], x[1], 240)
            for r in ex.map(one, todo):
                if r is None:
                    cnt["miri_not_started"] = cnt.get("miri_not_started", 0) + 1
                    continue
                kind, s, rc, end, err, wall = r
                if rc == 0 and end:
                    d0["evaluations"] += 1
                    d0["nontrivial"] += 1
                    d0["distinct_nontrivial"] += 1
                    cnt["miri_executions"] = cnt.get("miri_executions", 0) + 1
                    for k, v in re.findall(r"(\w+)=(\d+)", end.split("Ok(true)")[-1]):
                        cnt["miri: " + k] = cnt.get("miri: " + k, 0) + int(v)
                    if len(d0["samples"]) < 30:
                        d0["samples"].append("miri " + end)
                elif rc is None or "unsupported operation" in err:
                    d0["inconclusive"].append("miri kind %d seed %d: %s" % (kind, s, err[:300]))
                else:
                    d0["violations"].append({"case": "miri:%d-%d" % (kind, s), "what": "Miri: " + err})
        if cnt.get("miri_executions", 0) == 0 and not d0["violations"]:
            raise d.Inconclusive("no interpreted execution was completed: %s" % d0["inconclusive"][:2])
    return d0
