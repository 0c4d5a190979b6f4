#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, runs it unprivileged in a scratch
directory, and turns what its monitors observed into a verdict and an evidence file.

  run_check.py C01                 VERIF_SEED (default 1) and VERIF_TIER (quick | thorough) are honoured
  run_check.py --setup             builds everything the checks use
  run_check.py --replay FILE       re-runs the case recorded in a replay file

Exit 0: held on everything observed. Exit 1 + VIOLATION line: broken. Anything else: the check could not decide.
"""
import fcntl, glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
NOBODY = 65534
sys.path.insert(0, VERIF)


class Inconclusive(Exception):
    pass


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def cargo(args, target, env=None, cwd=HARNESS, timeout=800):
    """cargo, offline, in its own target directory, one build at a time"""
    os.makedirs(target, exist_ok=True)
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    with open(os.path.join(target, ".cvm-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            return subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("cargo %s took longer than %d s" % (" ".join(args), timeout))


def tree_hash():
    h = hashlib.sha256()
    for top in ("/repo/src", "/repo/Cargo.toml"):
        for root, dirs, files in os.walk(top) if os.path.isdir(top) else [("/repo", [], ["Cargo.toml"])]:
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def fresh(target, env=None, extra=()):
    """cargo looks at modification times only: forget the build of the crate when its contents are different"""
    mark, now = os.path.join(target, ".cvm-tree"), tree_hash()
    try:
        with open(mark) as f:
            same = f.read() == now
    except OSError:
        same = False
    if not same:
        if os.path.exists(target):
            cargo(["clean", "-p", "corries", "--offline"] + list(extra), target, env)
        os.makedirs(target, exist_ok=True)
        with open(mark, "w") as f:
            f.write(now)


def build(features=None, target=TARGET):
    """the harness binary; features=None: with the validation feature"""
    fresh(target, extra=["--release"])
    args = ["build", "--release", "--offline", "--locked", "--bin", "cvm"]
    if features is not None:
        args += ["--no-default-features"]
    r = cargo(args, target)
    if r.returncode != 0:
        raise Inconclusive("the harness does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(target, "release", "cvm")


class Scratch:
    """a directory that only this check uses, owned by an unprivileged user, removed afterwards"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="cvm-")
        os.chmod(self.dir, 0o755)
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work, 0o755)
        if os.geteuid() == 0:
            os.chown(self.work, NOBODY, NOBODY)
        return self

    def __exit__(self, *a):
        # entries may have lost their permissions
        for root, dirs, _ in os.walk(self.dir):
            for d in dirs:
                p = os.path.join(root, d)
                if not os.path.islink(p):
                    os.chmod(p, 0o755)
        shutil.rmtree(self.dir, ignore_errors=True)

    def binary(self, path):
        dst = os.path.join(self.dir, os.path.basename(path) + "-" + hashlib.md5(path.encode()).hexdigest()[:6])
        if not os.path.exists(dst):
            shutil.copyfile(path, dst)
            os.chmod(dst, 0o755)
        return dst


def unprivileged():
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.umask(0o022)


def run(sc, argv, timeout, env=None, stdout=subprocess.DEVNULL):
    """runs a command of the harness unprivileged in the scratch directory; (returncode, stdout, stderr)"""
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": sc.work, "TMPDIR": sc.work, "RUST_BACKTRACE": "0",
         "LANG": "C.UTF-8"}
    e.update(env or {})
    p = subprocess.Popen(argv, cwd=sc.work, env=e, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE,
                         preexec_fn=unprivileged, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Inconclusive("%s did not finish within %d s" % (" ".join(argv[:3]), timeout))
    return p.returncode, out, err.decode(errors="replace")


def harness(sc, exe, prop, seed, tier, only=None, extra=(), timeout=840, env=None):
    # not in the work directory, so that code which deletes too much cannot remove the result
    out = os.path.join(sc.dir, "result-%d.json" % time.time_ns())
    open(out, "w").close()
    os.chmod(out, 0o666)
    argv = [sc.binary(exe), prop, "--seed", str(seed), "--tier", tier, "--scratch", sc.work, "--out", out]
    if only:
        argv += ["--only", only]
    rc, _, err = run(sc, argv + list(extra), timeout, env)
    if rc != 0 or os.path.getsize(out) == 0:
        raise Inconclusive("the harness ended with %s\n%s" % (rc, err[-3000:]))
    with open(out) as f:
        return json.load(f)


def merge(a, b, prefix=""):
    """adds the observations of a second run to those of the first"""
    a["evaluations"] += b["evaluations"]
    a["nontrivial"] += b["nontrivial"]
    a["distinct_nontrivial"] += b["distinct_nontrivial"]
    if b["rule"]:
        a["rule"] = a["rule"] + (" | " if a["rule"] else "") + b["rule"]
    a["samples"] += b["samples"]
    for k, v in b["counters"].items():
        a["counters"][prefix + k] = a["counters"].get(prefix + k, 0) + v
    for k, v in b["maxima"].items():
        a["maxima"][prefix + k] = v
    a["violations"] += b["violations"]
    a["known"].update(b["known"])
    a["inconclusive"] += b["inconclusive"]
    return a


def known_findings():
    """{(property, key): text} of the committed findings"""
    r = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for ln in f:
            if ln.startswith("KNOWN-FINDING:"):
                w = ln.split(None, 3)
                r[(w[1].split("=")[1], w[2].split("=")[1])] = w[3].strip()
    return r


def check(prop, seed, tier, only=None):
    import system_checks as sysc
    with Scratch() as sc:
        fn = getattr(sysc, "check_" + prop, None)
        if fn:
            return fn(sys.modules[__name__], sc, seed, tier, only)
        return harness(sc, build(), prop, seed, tier, only, timeout=840 if tier == "quick" else 6 * 3600)


def manifest_entry(prop):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c
    return {"level": "exploration"}


def main(prop, seed, tier, only=None, write=True):
    t0 = time.time()
    d = check(prop, seed, tier, only)
    listed = known_findings()
    viol = list(d["violations"])
    printed = []
    for key, what in sorted(d["known"].items()):
        if (prop, key) in listed:
            printed.append("KNOWN-FINDING: property=%s %s" % (prop, listed[(prop, key)]))
        else:
            viol.append({"case": key, "what": "finding that is not listed: " + what})
    cov = {
        "evaluations": d["evaluations"],
        "distinct_nontrivial": d["distinct_nontrivial"],
        "nontrivial_evaluations": d["nontrivial"],
        "rule": d["rule"],
        "samples": d["samples"][:40],
        "observed": d["counters"],
        "largest_margins": d["maxima"],
        "inconclusive_cases": len(d["inconclusive"]),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": manifest_entry(prop)["level"], "coverage": cov,
        "assumptions": d.get("assumptions", []) + ["held on the executions observed, not proved for others"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for ln in printed:
        print(ln)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" %
          (prop, tier, seed, d["evaluations"], d["distinct_nontrivial"], len(viol), time.time() - t0))
    for s in d["inconclusive"][:3]:
        log("inconclusive:", s)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = viol[0]
        rp = os.path.join(VERIF, "replays", "%s-%d-%s.json" % (prop, seed, v["case"].replace(":", "-").replace("/", "_")))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "case": v["case"], "what": v["what"],
                       "others": viol[1:10]}, f, indent=1)
        for x in viol[:5]:
            print("  %s: %s" % (x["case"], x["what"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        return 1
    if d["nontrivial"] == 0 and only is None:
        log("nothing was observed: no verdict")
        return 3
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            build()
            import system_checks as sysc
            sysc.setup(sys.modules[__name__])
            sys.exit(0)
        if sys.argv[1] == "--replay":
            with open(sys.argv[2]) as f:
                r = json.load(f)
            sys.exit(main(r["property"], r["seed"], r["tier"], r["case"], write=False))
        only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
        tier = os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(sys.argv[1], int(os.environ.get("VERIF_SEED", "1")), "thorough" if tier == "thorough" else "quick",
                      only, write=only is None))
    except Inconclusive as e:
        log("no verdict:", e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(4)
