#!/usr/bin/env python3
"""Verifies planted bugs: plant.py ID... [--check]   (patch applies, builds, tests pass, demo 0 / nonzero; --check: caught by its property's check)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
chk = "--check" in sys.argv
only = "--only-check" in sys.argv


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


GOE = {"VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="plant-")
    res = []
    try:
        w = tmp + "/repo"
        sh("cp -a /repo " + w, "/")
        rc, out = sh("git checkout -q -- . && git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), w)
        if rc:
            print(i, "PATCH DOES NOT APPLY", out[-500:])
            continue
        if not only:
            # demonstrations name /repo themselves: they run in a mount namespace where it is the copy
            demo = tmp + "/demo"
            shutil.copytree(d, demo)
            for f in ("patch.diff", "meta.json"):
                os.remove(demo + "/" + f)
            rc, out = sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh'" % w, "/")
            res.append("build %d" % rc)
            if rc:
                print(out[-1500:])
            rc, out = sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh %s/t.json'" % (w, tmp), "/")
            try:
                t = json.load(open(tmp + "/t.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                res.append("tests %s/%s" % (len(t["passed"]), len(t["failed"])))
            except Exception as ex:
                res.append("tests ? %s" % ex)
            rc, out = sh("bash %s/demo.sh" % demo, "/repo", timeout=300)
            res.append("demo clean %d" % rc)
            if rc:
                print(out[-1500:])
            rc, out = sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && bash %s/demo.sh'" % (w, demo), "/", timeout=300)
            res.append("demo patched %d" % rc)
            if rc == 0:
                print(out[-1500:])
        if chk or only:
            rc, out = sh("python3 check.py %s" % meta["property"], V, {"VERIF_REPO": w, **GOE})
            hit = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            why = [l[:160] for l in out.splitlines() if l.startswith(meta["property"] + "/")]
            res.append("CHECK %s rc=%d %s %s" % (meta["property"], rc, "CAUGHT" if hit and rc == 1 else "MISSED", why[:1]))
            if rc not in (0, 1):
                print(out[-1500:])
        print(i, "|", "; ".join(res), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
