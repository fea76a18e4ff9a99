#!/usr/bin/env python3
"""Runs the check of one property: check.py C09 [--replay FILE] [--keep]

Builds the generator and the harness from the current tree of the repository in a
scratch directory, runs the generated-input search in parallel workers, merges
their evidence and reports. Exit 0: held; 1: VIOLATION line; 2: error of the check.
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def goenv(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, PATH=GOROOT + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
             GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod -trimpath", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             LC_ALL="C", TZ="UTC")
    e.pop("GOEXPERIMENT", None)
    if extra:
        e.update(extra)
    return e


class HarnessError(Exception):
    pass


def run(cmd, cwd, env, what, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        raise HarnessError("%s failed (%d):\n%s" % (what, p.returncode, out[-6000:]))
    return out


def stage(tmp, spec):
    """Copies the harness and builds what the check runs."""
    h = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), h, ignore=shutil.ignore_patterns("testdata"))
    gm = os.path.join(h, "go.mod")
    s = open(gm).read().replace("gotsrpc/v2 => /repo", "gotsrpc/v2 => " + REPO)
    open(gm, "w").write(s)
    env = goenv()
    gen = os.path.join(tmp, "gotsrpc")
    run(["go", "build", "-o", gen, "github.com/foomo/gotsrpc/v2/cmd/gotsrpc"], h, env, "building the generator")
    if any(p["pkg"] == "rt" for p in parts(spec)):
        run([gen, "gotsrpc.yml"], os.path.join(h, "fx"), env, "generating the fixture", timeout=120)
    for part in parts(spec):
        args = ["go", "test", "-c", "-vet=off", "-o", os.path.join(tmp, part["pkg"] + ".test")]
        e2 = env
        if spec.get("race"):
            args.append("-race")
            e2 = goenv({"CGO_ENABLED": "1"})
        run(args + ["./" + part["pkg"]], h, e2, "building the harness", timeout=800)
    return h, gen


def parts(spec):
    """The packages of the harness a check runs."""
    return [spec] + spec.get("also", [])


def worker_seed(seed, prop, k):
    d = hashlib.sha256(("%d/%s/%d" % (seed, prop, k)).encode()).digest()
    return (int.from_bytes(d[:7], "big") | 1)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def limits(mem):
    def f():
        os.setpgrp()
        if mem:
            resource.setrlimit(resource.RLIMIT_DATA, (mem, mem))
    return f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--checks", type=int)
    ap.add_argument("--only")
    a = ap.parse_args()
    prop = a.property
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = check(prop, spec, seed, tier, tmp, a, t0)
    except HarnessError as e:
        print("HARNESS ERROR:", e)
    except subprocess.TimeoutExpired as e:
        print("HARNESS ERROR: timeout", e)
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(prop, spec, seed, tier, tmp, a, t0):
    h, gen = stage(tmp, spec)
    t_build = time.time() - t0
    workers = 0
    per_worker = {}
    procs = []
    for part in parts(spec):
        pkg, t = part["pkg"], part[tier]
        n = 1 if a.replay else a.workers or t.get("workers", 8)
        checks = per_worker[pkg] = a.checks or t["checks"]
        for k in range(workers, workers + n):
            out = os.path.join(tmp, "out%d" % k)
            scratch = os.path.join(tmp, "scratch%d" % k)
            os.makedirs(out)
            os.makedirs(scratch)
            env = goenv({"VERIF_OUT": out, "VERIF_SCRATCH": scratch, "VERIF_GEN": gen, "VERIF_HARNESS": h,
                         "VERIF_REPO": REPO, "VERIF_TIER": tier, "VERIF_BUDGET": "%ds" % t.get("budget", 300 if tier == "quick" else 3000),
                         "VERIF_TRACK": "1" if spec.get("track", True) else "", "TMPDIR": scratch, "GOMAXPROCS": str(spec.get("procs", 2)),
                         "GOTRACEBACK": "all"})
            if spec.get("race"):
                env["GORACE"] = "halt_on_error=1 exitcode=66"
                env["VERIF_REPLAY_RUNS"] = "300"
            if a.replay:
                env["VERIF_REPLAY"] = os.path.abspath(a.replay)
            if a.only:
                env["VERIF_ONLY"] = a.only
            cmd = [os.path.join(tmp, pkg + ".test"), "-test.run", "^Test%s($|[^0-9])" % prop, "-test.timeout", "%ds" % (840 if tier == "quick" else 7200),
                   "-rapid.seed", str(worker_seed(seed, prop, k)), "-rapid.checks", str(checks), "-rapid.nofailfile",
                   "-rapid.shrinktime", part.get("shrink", "45s")]
            log = open(os.path.join(out, "log"), "wb")
            procs.append((k, out, subprocess.Popen(cmd, cwd=os.path.join(h, pkg), env=env, stdout=log, stderr=subprocess.STDOUT,
                                                   preexec_fn=limits(None))))
        workers += n
    failures, errors, stats = [], [], {}
    for k, out, p in procs:
        try:
            code = p.wait(timeout=870 if tier == "quick" else 7300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            code = -1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        log = open(os.path.join(out, "log"), "rb").read().decode("utf-8", "replace")
        fails = sorted(f for f in os.listdir(out) if f.startswith("fail."))
        for f in fails:
            r = json.load(open(os.path.join(out, f)))
            failures.append(r)
        if code != 0 and not fails:
            if re.search(r"panic: test timed out|HARNESS-ERROR|signal: killed", log) or code < 0 or code == 3:
                errors.append("worker %d ended with %d:\n%s" % (k, code, log[-4000:]))
            elif re.search(r"^(fatal error: |panic: |WARNING: DATA RACE|unexpected fault|SIG[A-Z]+: )", log, re.M) and "out of memory" not in log:
                # the process itself died: the case that was running is the reproduction
                running = sorted((os.path.getmtime(os.path.join(out, f)), f) for f in os.listdir(out) if f.startswith("running."))
                if running and re.search(r"github\.com/foomo/gotsrpc|_gen\.go|DATA RACE|concurrent map", log):
                    r = json.load(open(os.path.join(out, running[-1][1])))
                    m = re.search(r"^(fatal error: .*|panic: .*|WARNING: DATA RACE.*|unexpected fault.*|SIG.*)$", log, re.M)
                    r["category"] = "process died: " + m.group(1)[:200]
                    r["detail"] = log[-8000:]
                    failures.append(r)
                else:
                    errors.append("worker %d died outside the code under test:\n%s" % (k, log[-4000:]))
            else:
                errors.append("worker %d ended with %d:\n%s" % (k, code, log[-4000:]))
        if a.replay or os.environ.get("VERIF_VERBOSE"):
            sys.stdout.write(log)
        for f in os.listdir(out):
            if f.startswith("stats."):
                s = json.load(open(os.path.join(out, f)))
                stats.setdefault(s["name"], []).append(s)
    if a.replay:
        for r in failures:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        if errors:
            raise HarnessError(errors[0])
        return 0

    ev, nt, distinct, subs, samples, classes, skipped = 0, 0, 0, {}, [], {}, 0
    for name in sorted(stats):
        hs = set()
        e = n = c = 0
        for s in stats[name]:
            e += s["evals"]
            n += s["nontrivial"]
            c += s["cases"]
            skipped += s.get("skipped_after_budget", 0)
            hs.update(s["hashes"] or [])
            for kk, v in (s["classes"] or {}).items():
                classes[name + ":" + kk] = classes.get(name + ":" + kk, 0) + v
        take = 0
        for s in stats[name]:
            for x in (s["samples"] or [])[-2:]:
                if take < max(1, 4 // len(stats)) + 1:
                    samples.append({"check": name, "case": x})
                    take += 1
        subs[name] = {"cases": c, "evaluations": e, "nontrivial": n, "distinct_nontrivial": len(hs)}
        ev += e
        nt += n
        distinct += len(hs)

    # one violation per check and category, the smallest case of each
    best = {}
    for r in failures:
        key = (r["check"], r["category"])
        if key not in best or len(json.dumps(r["case"])) < len(json.dumps(best[key]["case"])):
            best[key] = r
    replays = []
    if best:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (key, r) in enumerate(sorted(best.items())):
            path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, tier, seed, i))
            r["how_to_replay"] = "./check.py %s --replay %s" % (prop, path)
            json.dump(r, open(path, "w"), indent=1, ensure_ascii=False)
            replays.append((path, r))

    if ev == 0 and not best:
        raise HarnessError("no case was evaluated\n" + "\n".join(errors)[-4000:])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": distinct, "rule": spec["rule"],
            "samples": samples[:12], "checks": subs, "classes": dict(sorted(classes.items())),
            "nontrivial_with_repeats": nt, "workers": workers, "rapid_checks_per_worker": per_worker,
            "cases_skipped_after_soft_budget": skipped, "build_s": round(t_build, 2),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(best),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)

    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s), seed %d, %s" % (prop, ev, distinct, time.time() - t0, t_build, seed, tier))
    if best:
        for path, r in replays:
            print("%s: %s: %s" % (r["check"], r["category"], r["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        raise HarnessError(errors[0])
    return 0


if __name__ == "__main__":
    main()
