#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and runs checks against them.

  seedtest.py ID...            build, stable tests, demo on both trees, the property's own check
  seedtest.py --checks C01,C02 ID...   run these checks instead ("all": every check)
  seedtest.py --demo-only ID...
"""
import argparse, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def scratch(name):
    d = "/tmp/seedtest-" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(["git", "clone", "-q", "--shared", "/repo", d + "/repo"], check=True)
    shutil.copytree("/opt/vp", d + "/vp")
    for f in os.listdir(d + "/vp"):
        p = d + "/vp/" + f
        if os.path.isfile(p) and f.endswith((".sh", ".py")):
            t = open(p).read().replace("/repo", d + "/repo").replace("/opt/vp", d + "/vp")
            open(p, "w").write(t)
    return d


def build_test(d):
    r = sh(["bash", d + "/vp/build.sh"])
    if r.returncode:
        return "build failed\n" + r.stdout[-1500:]
    sh(["bash", d + "/vp/test.sh", d + "/o.json"])
    o = json.load(open(d + "/o.json"))
    miss = BASE - {x.replace(d + "/repo", "/repo") for x in o["passed"]}
    return "tests fail: %s" % sorted(miss) if miss else ""


def demo(d, id):
    t = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(os.path.join(VERIF, "seeded", id)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(VERIF, "seeded", id, f), t)
        return sh(["bash", t + "/demo.sh"], cwd=d + "/repo", timeout=300)
    finally:
        shutil.rmtree(t)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks")
    ap.add_argument("--demo-only", action="store_true")
    ap.add_argument("--no-demo", action="store_true")
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    bad = 0
    clean = None
    if not a.no_demo:
        clean = scratch("clean-%d" % os.getpid())
        e = build_test(clean)
        assert not e, e
    try:
        for id in ids:
            s = os.path.join(VERIF, "seeded", id)
            meta = json.load(open(s + "/meta.json"))
            d = scratch(id)
            try:
                r = sh(["git", "apply", s + "/patch.diff"], cwd=d + "/repo")
                if r.returncode:
                    print(id, "DOES NOT APPLY", r.stdout)
                    bad += 1
                    continue
                msg = []
                if not a.no_demo:
                    e = build_test(d)
                    if e:
                        print(id, "NOT VALID:", e)
                        bad += 1
                        continue
                    g, b = demo(clean, id), demo(d, id)
                    if g.returncode != 0 or b.returncode == 0:
                        print(id, "DEMO: clean %d, patched %d\n%s\n%s" % (g.returncode, b.returncode, g.stdout[-800:], b.stdout[-800:]))
                        bad += 1
                        continue
                    msg.append("demo: " + (b.stdout.strip().splitlines() or ["-"])[-1][:150])
                if not a.demo_only:
                    props = [meta["property"]]
                    if a.checks == "all":
                        props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
                    elif a.checks:
                        props = a.checks.split(",")
                    hit = []
                    for p in props:
                        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER=a.tier)
                        r = sh([sys.executable, VERIF + "/run.py", p], env=env)
                        v = "VIOLATION property=" + p in r.stdout
                        if r.returncode == 1 and v:
                            hit.append(p)
                        elif r.returncode != 0:
                            hit.append(p + "(exit %d)" % r.returncode)
                            print(r.stdout[-1500:])
                    msg.append("caught by: " + (",".join(hit) or "NONE"))
                    if meta["property"] in props and meta["property"] not in hit:
                        bad += 1
                        msg.append("*** MISSED ***")
                print(id, meta["property"], "|", " | ".join(msg), flush=True)
            finally:
                shutil.rmtree(d, ignore_errors=True)
    finally:
        if clean:
            shutil.rmtree(clean, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main())
