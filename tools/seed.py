#!/usr/bin/env python3
"""Plant a bug in a scratch copy and keep it under /verif/seeded when it qualifies.
usage: seed.py NAME...   (definitions in tools/seeds.py; -k keep without running the stable tests)
A change is kept when it builds, the stable tests pass, and its demonstration passes without and fails with it."""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed_repo"; SUP = "/tmp/seed_vp"
def sh(c, t=1500): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
DEMO = '''#!/bin/bash
# exits 0 when the library behaves, nonzero otherwise; everything it writes stays in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -O1 -I"$R" "$D/demo.cc" $(ls "$R"/clpoly/*.cc | grep -v interval) -o "$T/demo" -lgmpxx -lgmp || exit 2
timeout 120 "$T/demo"
'''
def prep():
    if not os.path.isdir(S):
        r = sh("cp -a /repo %s && mkdir -p %s && cp -a /opt/vp/. %s/" % (S, SUP, SUP)); assert r.returncode == 0, r.stdout
        sh("grep -rlI '/repo\\|/opt/vp' %s | xargs sed -i 's#/repo#%s#g; s#/opt/vp#%s#g'" % (SUP, S, SUP))
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S, S))
def main():
    import fcntl; lk = open("/tmp/seed.lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    ns = {}; exec(open(V + "/tools/seeds.py").read(), ns)
    for name in sys.argv[1:]:
        d = ns["SEEDS"][name]; prep(); out = V + "/seeded/" + name
        tmp = "/tmp/seed_" + name; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write(DEMO); os.chmod(tmp + "/demo.sh", 0o755); open(tmp + "/demo.cc", "w").write(d["demo"])
        r = sh("cd %s && REPO=%s bash %s/demo.sh" % (S, S, tmp))
        if r.returncode: print(name, "REJECTED: demo fails on the unchanged tree", r.returncode, r.stdout[-1500:]); continue
        bad = False
        for f, a, b in d["edits"]:
            p = S + "/clpoly/" + f; s = open(p).read()
            if s.count(a) != 1: print(name, "REJECTED: anchor occurs", s.count(a), "times in", f, repr(a[:60])); bad = True; break
            open(p, "w").write(s.replace(a, b))
        if bad: continue
        r = sh("cd %s && REPO=%s bash %s/demo.sh" % (S, S, tmp))
        if r.returncode in (0, 2): print(name, "REJECTED: demo does not fail with the change", r.returncode, r.stdout[-1500:]); continue
        print(name, "demo with the change:", r.returncode, r.stdout.strip()[-300:])
        r = sh("bash %s/build.sh && bash %s/test.sh /tmp/seed_out.json" % (SUP, SUP))
        got = set(json.load(open("/tmp/seed_out.json"))["passed"]) if os.path.exists("/tmp/seed_out.json") else set()
        base = json.load(open("/opt/vp/BASELINE.json")); base = base["stable"]
        miss = [t for t in base if t not in got]
        if miss: print(name, "REJECTED: stable tests fail:", miss[:5], len(miss), r.stdout[-300:]); continue
        diff = sh("git -C %s diff" % S).stdout
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff); shutil.copy(tmp + "/demo.sh", out); shutil.copy(tmp + "/demo.cc", out)
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(tmp); print(name, "KEPT", flush=True)
main()
