"""seed.py new|verify|all [ids]: writes /verif/seeded/<id>/ from tools/seeds.py and confirms each planted bug."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


exec(open(os.path.join(V, "tools", "seeds.py")).read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def revert():
    sh("git -C /repo checkout -- .")


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    revert()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in ("kit.py", "circom.py"):
        shutil.copy(os.path.join(V, "tools", "kit", f), d)
    open(os.path.join(d, "demo.py"), "w").write("from kit import *\n" + s["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def verify(s, checks=True):
    d = write(s)
    assert sh("git -C /repo status --porcelain").stdout == ""
    try:
        print(s["id"], s["prop"], flush=True)
        r = sh(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stdout
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print("  DOES NOT BUILD", b.stdout[-1500:])
            return
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        o = json.load(open("/tmp/seedtest.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        print("  tests:", "pass" if base <= set(o["passed"]) else f"FAIL {sorted(base - set(o['passed']))[:3]}")
        r = sh(f"bash {d}/demo.sh", cwd=R)
        print("  demo with the patch:", r.returncode, r.stdout.strip().split("\n")[-1][:200])
        if checks:
            for c in ([s["prop"]] if checks is True else checks):
                t = time.time()
                r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {c}")
                hits = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                first = [l for l in r.stdout.split("\n") if l and not l.startswith(("[build]", "VIOL"))]
                print(f"  check {c}: exit {r.returncode}, {len(hits)} violations ({time.time() - t:.0f} s) {first[0][:220] if first else ''}", flush=True)
    finally:
        revert()


def clean(ids):
    sh("bash /opt/vp/build.sh")
    for s in ids:
        r = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=R)
        print(s["id"], "demo without the patch:", r.returncode, "" if r.returncode == 0 else r.stdout[-600:])


if __name__ == "__main__":
    sel = [s for s in SEEDS if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    if sys.argv[1] == "verify":
        for s in sel:
            verify(s)
        clean(sel)
    elif sys.argv[1] == "new":
        for s in sel:
            write(s)
