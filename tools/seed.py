#!/usr/bin/env python3
"""seed.py SPECFILE [ID...]: makes seeded bugs from specifications and confirms them in a scratch copy of /repo.

SPECFILE is Python: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text or demo_sh=text)].
"""
import json, os, subprocess, sys, shutil, time
SEED = "/verif/seeded"
CPP = '''#!/bin/bash
# Exits 0 if the behaviour is right. Run in the repository after a build.
set -e
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=gnu++17 -O2 -w %s -I src/main/cxx -I _build "$d/demo.cxx" src/main/cxx/core/*.cxx -llapack -lblas -pthread -o "$w/demo"
r=$PWD
cd "$w"
REPO="$r" timeout 200 ./demo
'''


def ns(W, cmd, **k):
    """Runs a command with the scratch copy mounted over /repo."""
    return subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && cd /repo && %s" % (W, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    env = {}
    exec(open(sys.argv[1]).read(), env)
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in env["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = "%s/%s" % (SEED, s["id"])
        W = "/tmp/m/s%d" % os.getpid()
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if "demo" in s:
            open(d + "/demo.cxx", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(CPP % s.get("flags", ""))
        else:
            open(d + "/demo.sh", "w").write(s["demo_sh"].lstrip("\n"))
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t.lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        msg = []
        r = ns(W, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % d)
        if r.returncode:
            msg.append("demo fails on unchanged tree: " + r.stdout[-600:])
        for f, old, new in s["edits"]:
            p = W + "/src/main/" + f
            t = open(p, encoding="utf8").read()
            if t.count(old) != 1:
                msg.append("%d matches in %s: %s" % (t.count(old), f, old[:60]))
                continue
            open(p, "w", encoding="utf8").write(t.replace(old, new))
        p = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True, encoding="utf8").stdout
        open(d + "/patch.diff", "w", encoding="utf8").write(p)
        if not msg:
            r = ns(W, "bash /opt/vp/build.sh")
            if r.returncode:
                msg.append("build fails: " + r.stdout[-1500:])
        if not msg:
            r = ns(W, "bash %s/demo.sh" % d)
            if r.returncode == 0:
                msg.append("demo passes with the patch")
            print("   demo:", r.stdout.strip()[-200:])
        if not msg:
            for attempt in range(2):
                r = ns(W, "bash /opt/vp/test.sh /tmp/m/t%d.json" % os.getpid())
                o = json.load(open("/tmp/m/t%d.json" % os.getpid()))
                lost = sorted(set(base) - set(o["passed"]))
                if not lost:
                    break
            if lost:
                msg.append("tests fail: %s" % lost[:5])
        print(s["id"], "OK" if not msg else "BAD " + "; ".join(msg), flush=True)
        if msg:
            shutil.rmtree(d)
        elif not os.environ.get("NOCHECK"):
            for c in [s["property"]] + s.get("also", []):
                t = time.time()
                r = subprocess.run(["/verif/bin/check", c], env=dict(os.environ, ESPECIA_REPO=W, VERIF_BUILD_DIR="/tmp/m/sb%d" % os.getpid()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                print("   %s rc=%d %.0fs %s" % (c, r.returncode, time.time() - t, r.stdout.strip().split("\n")[0][:250]), flush=True)
        subprocess.run(["rm", "-rf", W, "/tmp/m/sb%d" % os.getpid(), "/tmp/m/t%d.json" % os.getpid()])


main()
