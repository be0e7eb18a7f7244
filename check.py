#!/usr/bin/env python3
"""Driver: decides one property of /repo by symbolic execution of the real code (see DESIGN.md).

  check.py C01            run the check of property C01 (tier from VERIF_TIER, default quick)
  check.py --setup        build the engine
  check.py --replay FILE  re-run a reported violation on the real, uninstrumented code
"""
import sys, os, json, time, subprocess, hashlib, shutil, glob, re, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
ENG = os.path.join(V, "engine")
BLD = os.path.join(V, "build")
NJ = min(8, os.cpu_count() or 4)

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)

def must(cmd, timeout=None):
    r = sh(cmd, timeout)
    if r.returncode:
        errs = [l for l in r.stderr.split("\n") if "error" in l][:12] or r.stderr.split("\n")[-30:]
        raise RuntimeError("command failed: %s\n%s" % (cmd, "\n".join(errs)))
    return r

def setup():
    os.makedirs(BLD, exist_ok=True)
    with open(os.path.join(BLD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in sorted(os.listdir(ENG)):
            h.update(open(os.path.join(ENG, f), "rb").read())
        stamp = os.path.join(BLD, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return
        zi, zl = (Z3 + "/include", Z3 + "/lib") if os.path.exists(Z3 + "/lib/libz3.so") else ("/usr/include", "/usr/lib/x86_64-linux-gnu")
        cmds = [
            "clang++-18 -fPIC -shared -O1 -w $(llvm-config-18 --cxxflags) -fno-rtti -I%s %s/pass.cpp -o %s/libsxpass.so" % (ENG, ENG, BLD),
            "g++ -std=c++17 -O2 -w -fPIC -shared -fvisibility=hidden -I%s %s/rt.cpp -o %s/libsxrt.so -Wl,-Bsymbolic -L%s -lz3 -lgmpxx -lgmp -Wl,-rpath,%s" % (zi, ENG, BLD, zl, zl),
            "clang++-18 -O1 -w -c %s/main.cpp -o %s/main.o" % (ENG, BLD),
            "g++ -std=gnu++17 -O1 -w -c %s/replay.cpp -o %s/replay.o" % (ENG, BLD),
        ]
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(must, cmds))
        open(stamp, "w").write(h.hexdigest())

SXFLAGS = "-std=gnu++17 -O1 -fwrapv -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w -fdelayed-template-parsing -fpass-plugin=%s/libsxpass.so" % BLD

class Build:
    """instrumented and native builds of the current tree of the repository plus one harness file"""
    def __init__(self, work):
        self.work = work
        self.ov = os.path.join(work, "ov")
        shutil.copytree(os.path.join(REPO, "clpoly"), os.path.join(self.ov, "clpoly"))
        # clang rejects `constexpr` functions returning the non-literal class `variable` (gcc, which builds the
        # project, accepts them): drop the keyword there.  Nothing else of the source is changed.
        for f in glob.glob(self.ov + "/clpoly/**/*", recursive=True):
            if f.endswith((".hh", ".h", ".hpp", ".cc", ".cpp")):
                s = open(f, errors="surrogateescape").read()
                t = re.sub(r"\bconstexpr(\s+variable\b)", r"inline\1", s)
                if t != s:
                    open(f, "w", errors="surrogateescape").write(t)
        self.lib = sorted(x for x in glob.glob(self.ov + "/clpoly/*.cc") if os.path.basename(x) != "interval.cc")
    def reduce(self, harness):
        """the harness file without the top-level items that do not compile against the current tree (an internal function they
        call changed its interface); returns (path, names of the harnesses left out)"""
        src = os.path.join(V, "harness", harness + ".cpp")
        text = open(src).read().split("\n")
        items, depth, start = [], 0, None      # top-level items as line ranges
        for i, l in enumerate(text):
            t = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|//.*', "", l)
            if start is None and l.strip() and not l.startswith("#"): start = i
            depth += t.count("{") - t.count("}")
            if start is not None and depth <= 0 and (t.rstrip().endswith(("}", ";"))):
                items.append((start, i)); start = None
        names, drop = [], set()
        red = os.path.join(self.work, harness + ".cpp")
        for rnd in range(12):
            out = list(text)
            for k in drop:
                for i in range(items[k][0], items[k][1] + 1): out[i] = ""
            open(red, "w").write("\n".join(out))
            p = sh("clang++-18 -std=gnu++17 -w -fdelayed-template-parsing -ferror-limit=0 -fsyntax-only -fno-color-diagnostics -I%s -I%s -I%s %s" % (self.ov, ENG, os.path.dirname(src), red), 600)
            if p.returncode == 0:
                return red, names
            bad = set()
            for m in re.finditer(re.escape(red) + r":(\d+):", p.stderr):
                for k, (a, b) in enumerate(items):
                    if a <= int(m.group(1)) - 1 <= b and k not in drop: bad.add(k)
            if not bad: break
            for k in bad:
                drop.add(k)
                m = re.findall(r"SX_HARNESS\((\w+)\)", "\n".join(text[items[k][0]:items[k][1] + 1]))
                names += m
        raise RuntimeError("harness %s does not build against this tree: %s" % (harness, p.stderr[-400:]))
    def build(self, harness, libs=None, native_opt="-O1", src=None):
        src = src or os.path.join(V, "harness", harness + ".cpp")
        libs = [l for l in self.lib if libs is None or os.path.basename(l)[:-3] in libs]
        jobs, so, no = [], [], []
        for s in [src] + libs:
            b = os.path.basename(s).rsplit(".", 1)[0]
            o = "%s/%s.sx.o" % (self.work, b); so.append(o)
            jobs.append("clang++-18 %s -I%s -I%s -I%s/harness -c %s -o %s" % (SXFLAGS, self.ov, ENG, V, s, o))
            o = "%s/%s.nat.o" % (self.work, b); no.append(o)
            ns = s if s == src else os.path.join(REPO, "clpoly", os.path.basename(s))
            jobs.append("g++ -std=gnu++17 %s -w -I%s -I%s -I%s/harness -c %s -o %s" % (native_opt, REPO, ENG, V, ns, o))
        with ThreadPoolExecutor(NJ) as ex:
            list(ex.map(lambda c: must(c, 600), jobs))
        sx, nat = "%s/%s.sx" % (self.work, harness), "%s/%s.nat" % (self.work, harness)
        must("clang++-18 %s %s/main.o -o %s -L%s -lsxrt -lgmpxx -lgmp -Wl,-rpath,%s" % (" ".join(so), BLD, sx, BLD, BLD))
        must("g++ %s %s/replay.o -o %s -lgmpxx -lgmp" % (" ".join(no), BLD, nat))
        return sx, nat

def load_props():
    ns = {}
    exec(open(os.path.join(V, "checks.py")).read(), ns)
    return ns["CHECKS"]

def native(nat, harness, model, lim=25):
    try:
        r = subprocess.run([nat, "-h", harness, "-m", model, "-l", str(lim)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=lim + 10, errors="replace")
        return r.stdout.strip()
    except subprocess.TimeoutExpired:
        return "hang 0 0"

def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = load_props()[pid]
    setup()
    work = tempfile.mkdtemp(prefix="sx_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return run_in(pid, tier, seed, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run_in(pid, tier, seed, cfg, work, t0):
    B = Build(work)
    groups = {}
    only = os.environ.get("SX_ONLY")
    for h in cfg["harnesses"]:
        if only and not re.fullmatch(only, h["name"]): continue
        if h.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        groups.setdefault(h["file"], []).append(h)
    tot = dict(paths=0, branches=0, queries=0, sat=0, unsat=0, unknown=0, checks=0, check_queries=0, check_unsat=0, check_syntactic=0, check_unknown=0,
               concretizations=0, conc_truncated=0, stale=0, mismatch=0, gmp_unsupported=0, diverged=0, validate_fail=0, fd_queries=0, fd_confirmed=0, fd_confirm_queries=0, fd_refuted=0)
    fl = dict(solver_s=0.0, fd_s=0.0, fd_confirm_s=0.0)
    funcs, per, viols, samples, unconf = set(), [], [], [], []
    replayed = mismatched = 0
    ends = {}
    build_s = 0.0
    exes = {}
    def bld(f):
        return B.build(f, cfg.get("libs"))
    tb = time.time()
    # A harness file that no longer compiles against the current tree (an internal function it calls changed its
    # interface) decides nothing: it is left out and reported; the others still decide the property.
    left_out, berr = [], None
    for f in groups:
        try:
            exes[f] = bld(f)
        except RuntimeError as e:
            try:
                red, gone = B.reduce(f)
                if len(gone) and any(h["name"] not in gone for h in groups[f]):
                    exes[f] = B.build(f, cfg.get("libs"), src=red)
                    cut = [h["name"] for h in groups[f] if h["name"] in gone]
                    groups[f] = [h for h in groups[f] if h["name"] not in gone]
                    if cut: left_out.append(dict(file=f, harnesses=cut, reason=str(e)[-600:]))
                    continue
            except RuntimeError:
                pass
            berr = e; left_out.append(dict(file=f, harnesses=[h["name"] for h in groups[f]], reason=str(e)[-600:]))
    if not exes:
        raise berr or RuntimeError("no harness selected")
    for x in left_out:
        print("NOT-DECIDED: property=%s harness file %s does not build against this tree; left out: %s" % (pid, x["file"], " ".join(x["harnesses"])))
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid]
    match = lambda v: next((k for k in known if k["harness"] == v["harness"] and re.search(k["match"], v["msg"] + " " + v["native"]) and re.search(k.get("input", ""), v["model"])), None)
    build_s = time.time() - tb
    for f, hs in groups.items():
        if f not in exes: continue
        sx, nat = exes[f]
        for h in hs:
            name = h["name"]
            if tier != "thorough" and (time.time() - t0 > 800 or (time.time() - t0 > 45 and any(not match(v) for v in viols))):
                left_out.append(dict(file=f, harnesses=[name], reason="a violation had been found already" if viols else "time limit of the quick tier")); continue
            budget = h.get("thorough", h.get("quick", 20) * 8) if tier == "thorough" else h.get("quick", 20)
            out = os.path.join(work, name + ".json")
            env = dict(os.environ, SX_SEED=str(seed), SX_TIER=tier, SX_CONFIRM=str(h.get("confirm", 5 if tier == "thorough" else 25)))
            try:
                r = subprocess.run([sx, "-h", name, "-o", out, "-t", str(budget), "-j", str(NJ)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=budget + 90)
            except subprocess.TimeoutExpired:
                r = None
            if not os.path.exists(out):
                left_out.append(dict(file=f, harnesses=[name], reason="explorer hung" if r is None else "explorer failed: rc=%s %s" % (r.returncode, r.stderr[-500:])))
                print("NOT-DECIDED: property=%s harness %s: %s" % (pid, name, left_out[-1]["reason"][:300])); continue
            d = json.load(open(out))
            for k in tot: tot[k] += d.get(k, 0)
            for k in fl: fl[k] += d.get(k, 0)
            if d.get("fd_refuted", 0): raise RuntimeError("z3 refuted a finite-domain verdict in " + name)
            funcs.update(d["functions"])
            for k, v in d["ends"].items(): ends[k] = ends.get(k, 0) + v
            # replay the model of every explored path on the real code
            mf = os.path.join(work, name + ".models")
            ms = [m.split(" | ", 1) for m in d["models"]]
            cap = 20000 if tier == "thorough" else h.get("replay", 3000)
            ms = ms[:cap]
            open(mf, "w").write("".join(m[1] + "\n" for m in ms))
            nrep = nmis = 0
            misl = []
            if ms:
                k = (len(ms) + NJ - 1) // NJ
                chunks = [ms[i:i + k] for i in range(0, len(ms), k)]
                def rep(ix):
                    fn = "%s.%d" % (mf, ix)
                    open(fn, "w").write("".join(m[1] + "\n" for m in chunks[ix]))
                    try:
                        p = subprocess.run([nat, "-h", name, "-f", fn, "-l", "25"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=max(60, budget * 4))
                        return p.stdout.split("\n")
                    except subprocess.TimeoutExpired:
                        return []
                with ThreadPoolExecutor(NJ) as ex:
                    for ix, lines in enumerate(ex.map(rep, range(len(chunks)))):
                        for m, l in zip(chunks[ix], lines):
                            if not l: continue
                            nrep += 1
                            if l.startswith("ok ") or l.startswith("assume "):
                                if l.split()[1:] != m[0].split(): nmis += 1; misl.append((m[1], m[0], l))
                            else:
                                misl.append((m[1], m[0], l)); nmis += 1
                                # the real code violates the property on this input although the symbolic run did not
                                d["violations"].append({"kind": "native", "msg": l, "model": m[1]})
            replayed += nrep - nmis; mismatched += nmis
            if os.environ.get("SX_VERBOSE") and misl:
                print("replay mismatches", name, misl[:3])
            for v in d["violations"]:
                res = native(nat, name, v["model"])
                if res.startswith("ok ") or res.startswith("assume "):
                    unconf.append(dict(harness=name, msg=v["msg"], kind=v["kind"], model=v["model"]))
                else:
                    viols.append(dict(property=pid, harness=name, file=f, msg=v["msg"], kind=v["kind"], model=v["model"], native=res))
            for m in d["timeouts"][:4]:
                res = native(nat, name, m)
                if res and not (res.startswith("ok ") or res.startswith("assume ")):
                    viols.append(dict(property=pid, harness=name, file=f, msg="no result", kind="hang/crash", model=m, native=res))
            missing = [w for w in h.get("reach", []) if w not in d["reached"]]
            per.append(dict(harness=name, what=h.get("what", ""), bounds=h.get("bounds", ""), paths=d["paths"], complete=d["complete"] and not missing, pending=d["pending"], decisions=d["branches"],
                            smt_queries=d["queries"], finite_domain_queries=d["fd_queries"], unsat=d["unsat"], sat=d["sat"], unknown=d["unknown"], assertions=d["checks"], assertion_queries=d["check_queries"],
                            assertion_unsat=d["check_unsat"], assertion_by_normal_form_or_path=d["check_syntactic"], assertion_unknown=d["check_unknown"], concretizations=d["concretizations"], concretization_truncated=d["conc_truncated"],
                            concretized_at=d["conc_sites"], ends=d["ends"], reached=d["reached"], unreached=missing, solver_s=round(d["solver_s"], 3), max_query_s=round(d["max_query_s"], 3), wall_s=round(d["wall"], 2),
                            native_replays=nrep, native_replay_mismatch=nmis))
            for m in ms[:2]: samples.append(dict(harness=name, input=m[1].strip()))
            if os.environ.get("SX_VERBOSE"):
                x = per[-1]; print(json.dumps({k: x[k] for k in ("harness", "paths", "complete", "pending", "smt_queries", "finite_domain_queries", "unknown", "assertions", "assertion_queries", "assertion_unknown", "concretization_truncated", "ends", "unreached", "solver_s", "max_query_s", "wall_s", "native_replays", "native_replay_mismatch")}), "stale", d["stale"], "mism", d["mismatch"], "gmpuns", d["gmp_unsupported"], d["conc_sites"], flush=True)
    new, hit = [], []
    for v in viols:
        k = match(v)
        (hit if k else new).append((v, k))
    dem = sorted(x for x in (demangle(funcs)) if "clpoly" in x)
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "model_checking"), wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=cfg.get("assumptions", []) + COMMON_ASSUME,
              coverage=dict(states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=replayed, samples=samples[:12], exhaustive=bool(per) and not left_out and all(p["complete"] for p in per), left_out=left_out,
                            explanation="states = execution paths of the real code explored symbolically; transitions = symbolic branch decisions on them; traces = solver models of explored paths replayed on the uninstrumented build with the same outcome and observations",
                            build_s=round(build_s, 2), replay_mismatches=mismatched, unconfirmed_counterexamples=unconf[:5], path_ends=ends, totals={**tot, **{k: round(v, 3) for k, v in fl.items()}}, harnesses=per, functions_encoded=len(dem), functions=dem[:400]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ef = os.path.join(V, "evidence", pid + ".json")
    rc = 0
    for n, (v, k) in enumerate(hit):
        pass
    for k in {json.dumps(k, sort_keys=True) for _, k in hit}:
        print("KNOWN-FINDING: property=%s %s" % (pid, json.loads(k)["what"]))
    if new:
        rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for v, _ in new:
            key = (v["harness"], v["msg"])
            if key in seen: continue
            seen.add(key)
            p = os.path.join(rd, "%s_%d.json" % (pid, len(seen)))
            json.dump(v, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  harness %s: %s | input: %s | real code: %s" % (v["harness"], v["msg"], v["model"].strip(), v["native"]))
            if len(seen) >= 5: break
        rc = 1
    json.dump(ev, open(ef, "w"), indent=1)
    if not per and not new: raise RuntimeError("nothing could be decided: " + json.dumps(left_out)[:800])
    print("%s %s: paths=%d decisions=%d smt=%d fd=%d (sat %d unsat %d unknown %d) assertions=%d replays=%d(+%d mismatch) complete=%s build=%.1fs wall=%.1fs violations=%d" % (
        pid, tier, tot["paths"], tot["branches"], tot["queries"], tot["fd_queries"], tot["sat"], tot["unsat"], tot["unknown"], tot["checks"], replayed, mismatched, ev["coverage"]["exhaustive"], build_s, time.time() - t0, len(new)))
    return rc

COMMON_ASSUME = [
    "x86-64 Linux, clang -O1 -fwrapv lowering of the current source (asserts enabled); GMP and libstdc++ behave as documented (GMP integer functions are modelled exactly over mathematical integers)",
    "memory addresses and allocation success are concrete; std::random_device/rand as in a single deterministic run",
]

def demangle(fs):
    if not fs: return []
    r = subprocess.run(["c++filt"], input="\n".join(sorted(fs)), stdout=subprocess.PIPE, text=True)
    return [re.sub(r"\s+", " ", x)[:160] for x in r.stdout.split("\n") if x]

def replay(path):
    v = json.load(open(path)); setup()
    work = tempfile.mkdtemp(prefix="sx_replay_")
    try:
        B = Build(work); cfg = load_props()[v["property"]]
        sx, nat = B.build(v["file"], cfg.get("libs"))
        res = native(nat, v["harness"], v["model"]); print("input:", v["model"]); print("real code:", res)
        return 0 if res.startswith("ok ") or res.startswith("assume ") else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup": setup(); sys.exit(0)
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    try:
        sys.exit(run(a[0], os.environ.get("VERIF_TIER", "quick")))
    except RuntimeError as e:
        print("NO ANSWER: %s" % e); sys.exit(2)
