#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its current source.

usage: check.py Cxx        (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --setup    (builds the engine and the runtime bitcode)
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FRV_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import spec

NCPU = 8
BUILD = os.path.join(VERIF, "engine", "build")
COMMON = ["-DLISTEN_QUEUE_SIZE=64", "-DUSE_SSL", "-DNOMINMAX", "-Dhtonf", "-Dhtonll", "-Dntohll", "-Dhtond", "-Dntodh"]
BCFLAGS = ["-std=c++14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-finline-hint-functions",
           "-gline-tables-only", "-w", "-emit-llvm", "-c"]
NATIVE = ["-fno-pie", "-std=c++14", "-O1", "-g", "-w", "-c"]
T0 = time.time()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def need(r, what):
    if r.returncode != 0:
        die(what + " failed:\n" + (r.stderr + r.stdout)[-4000:])


def newer(target, deps):
    return os.path.exists(target) and all(os.path.getmtime(target) >= os.path.getmtime(d) for d in deps)


def setup():
    """engine binary and runtime bitcode: both independent of /repo"""
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(BUILD, "symex")
    if not newer(eng, glob.glob(VERIF + "/engine/*.h") + [VERIF + "/engine/symex.cpp"]):
        need(run(["make", "-s", "-C", os.path.join(VERIF, "engine")]), "engine build")
    inc = glob.glob(VERIF + "/runtime/include/*")
    jobs = []
    for n, extra in (("rt", ["-I" + VERIF + "/runtime/include"]), ("rt_str", [])):
        src, out = VERIF + "/runtime/" + n + ".cpp", os.path.join(BUILD, n + ".bc")
        if not newer(out, inc + [src]):
            jobs.append(["clang++", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
                         "-fno-builtin", "-w", "-I" + VERIF + "/runtime/sym"] + extra + ["-emit-llvm", "-c", src, "-o", out])
    par(jobs, "runtime build")


def par(cmds, what):
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(run, cmds):
            need(r, what)


def hflags(job):
    """flags of the harness only: the language standard of the including program"""
    return ["-std=" + job["std"]] if "std" in job else []


def defs(job):
    d = job.get("limits", {})
    return ["-DMAX_HTTP_HEADER_SIZE=" + str(d.get("header", "0xC800")), "-DMAX_HTTP_BODY_SIZE=" + str(d.get("body", "0xA00000"))]


class Prop:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = spec.PROPS[pid]
        self.jobs = [j for j in self.p["jobs"] if tier == "thorough" or not j.get("thorough_only")]
        self.dir = tempfile.mkdtemp(prefix="frv_%s_" % pid)
        self.inc = self.dir + "/inc"
        self.srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
        self.native = {}
        self.known = {}
        self.outdir = os.path.join(VERIF, "out", pid)

    def prepare_includes(self):
        """/repo/include, plus version.h if the build has not generated it"""
        os.makedirs(self.inc + "/frnetlib")
        for f in glob.glob(REPO + "/include/frnetlib/*"):
            shutil.copy(f, self.inc + "/frnetlib/")
        for d in glob.glob(REPO + "/include/*"):
            if os.path.isdir(d) and os.path.basename(d) != "frnetlib":
                shutil.copytree(d, self.inc + "/" + os.path.basename(d))
        if not os.path.exists(self.inc + "/frnetlib/version.h"):
            t = REPO + "/include/frnetlib/version.h.cmake.in"
            txt = re.sub(r"@[^@]*@", "0", open(t).read()) if os.path.exists(t) else ""
            open(self.inc + "/frnetlib/version.h", "w").write(txt)

    def compile_bc(self):
        cmds, self.sets = [], {}
        harn = {}
        for j in self.jobs:
            key = tuple(defs(j))
            if key not in self.sets:
                self.sets[key] = []
                for s in self.srcs:
                    o = "%s/s%d_%s.bc" % (self.dir, len(self.sets), os.path.basename(s)[:-4])
                    self.sets[key].append(o)
                    cmds.append(["clang++"] + BCFLAGS + COMMON + list(key) + ["-I" + VERIF + "/runtime/include", "-I" + self.inc, s, "-o", o])
            hk = (j["harness"], key, tuple(hflags(j)))
            if hk not in harn:
                o = "%s/h%d_%s.bc" % (self.dir, len(harn), j["harness"])
                harn[hk] = o
                cmds.append(["clang++"] + BCFLAGS + COMMON + list(key) + hflags(j) + ["-I" + VERIF + "/runtime/include", "-I" + VERIF + "/runtime/sym",
                            "-I" + VERIF + "/harness", "-I" + self.inc, VERIF + "/harness/" + j["harness"] + ".cpp", "-o", o])
        par(cmds, "compilation of /repo to bitcode")
        links = []
        self.bc = {}
        for (h, key, hf), o in harn.items():
            out = o[:-3] + "_all.bc"
            self.bc[(h, key, hf)] = out
            # the harness comes first, as a program does which is linked with the library: its globals are initialised first
            links.append(["llvm-link-18", o] + self.sets[key] + [BUILD + "/rt.bc", BUILD + "/rt_str.bc", "-o", out])
        par(links, "link")

    def run_job(self, i, j):
        out = "%s/out%d.json" % (self.dir, i)
        tv = j.get("thorough", {}) if self.tier == "thorough" else {}
        params = dict(j.get("params", {})); params.update(tv.get("params", {}))
        t = tv.get("time", j.get("time", 120) if self.tier == "quick" else 4 * j.get("time", 120))
        if self.tier == "quick":     # an answer is due within 900 s, whatever the tree does to the engine
            t = int(min(t, max(15, 720 - (time.time() - T0))))
        cmd = [BUILD + "/symex", self.bc[(j["harness"], tuple(defs(j)), tuple(hflags(j)))], "--out", out, "--time", str(t), "--jobs", str(j.get("jobs", NCPU)),
               "--steps", str(j.get("steps", 3000000)), "--samples", "4", "--seed", str(self.seed), "--max-viol", "6"]
        if "query_timeout" in j:
            cmd += ["--query-timeout", str(j["query_timeout"])]
        for k in self.known:
            cmd += ["--known", k]
        for k, v in params.items():
            cmd += ["-p", "%s=%d" % (k, v)]
        t0 = time.time()
        try:
            r = run(cmd, timeout=t + 60)
        except subprocess.TimeoutExpired:
            die("engine did not stop within its time limit (%s)" % j["harness"])
        if r.returncode != 0:
            die("engine failed on %s (status %d):\n%s" % (j["harness"], r.returncode, (r.stderr + r.stdout)[-3000:]))
        m = {}
        files = [out] + sorted(glob.glob(out + ".*"))
        for f in files:
            try:
                d = json.load(open(f))
            except Exception as e:
                m.setdefault("incomplete", {})["worker output missing (%s)" % e] = 1
                continue
            merge(m, d)
        m["wall"] = time.time() - t0
        m["params"] = params
        m["harness"] = j["harness"]
        m["title"] = j.get("title", j["harness"])
        if len(files) > 1 and len(files) != 1 + j.get("jobs", NCPU):
            m.setdefault("incomplete", {})["worker output missing"] = 1
        for f in files:
            os.unlink(f)
        return m

    # ---- native replay
    def native_build(self, j, san):
        """san: address, thread or nothing"""
        key = (j["harness"], tuple(defs(j)), tuple(hflags(j)), san)
        sf = ["-fsanitize=" + san] if san else []
        if key in self.native:
            return self.native[key]
        tag = "n%d" % len(self.native)
        d = self.dir + "/" + tag
        os.makedirs(d)
        fl = NATIVE + sf + (["-fno-omit-frame-pointer"] if san else []) + COMMON + defs(j) + ["-I" + VERIF + "/runtime/sym", "-I" + VERIF + "/harness", "-I" + self.inc]
        objs, cmds = [], []
        # sources do not depend on the harness: share the objects
        sk = ("src", tuple(defs(j)), san)
        if sk not in self.native:
            so = []
            for s in self.srcs:
                o = d + "/" + os.path.basename(s) + ".o"
                so.append(o)
                cmds.append(["g++"] + fl + [s, "-o", o])
            o = d + "/replay_rt.o"
            so.append(o)
            cmds.append(["g++"] + fl + [VERIF + "/runtime/replay_rt.cpp", "-o", o])
            self.native[sk] = so
        ho = d + "/harness.o"
        cmds.append(["g++"] + fl + hflags(j) + [VERIF + "/harness/" + j["harness"] + ".cpp", "-o", ho])
        par(cmds, "native build of the replay program")
        exe = d + "/replay"
        need(run(["g++"] + sf + [ho] + self.native[sk] + ["-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", exe]), "native link of the replay program")
        self.native[key] = exe
        return exe

    def replay(self, j, text, kind, timeout=20):
        """runs the real code on one concrete input; returns (status, stdout, stderr)"""
        uninit = kind == "uninit"
        race = kind == "race"
        exe = self.native_build(j, "" if uninit else "thread" if race else "address")
        f = self.dir + "/replay.txt"
        open(f, "w").write(text)
        env = dict(os.environ, FRV_REPLAY=f, ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0:symbolize=0")
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0:symbolize=0"
        cmd = ["setarch", "-R", exe] if race else [exe] if not uninit else ["valgrind", "-q", "--error-exitcode=77", "--track-origins=no", exe]
        sb = self.dir + "/cwd"
        os.makedirs(sb, exist_ok=True)
        try:
            for attempt in range(5):
                r = run(cmd, env=env, timeout=timeout, cwd=sb)
                if race and "ThreadSanitizer: data race" not in r.stderr:
                    if attempt == 2:
                        cmd = [exe]
                    continue
                rc = r.returncode
                # the sanitizer's own calls may end up in the kernel model while it reports
                if "ERROR: AddressSanitizer" in r.stderr:
                    rc = 77
                elif race:
                    rc = 66
                return rc, r.stdout, r.stderr
            return 98, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return "timeout", "", ""

    def confirmed(self, v, rc):
        if rc == "timeout":
            return v["kind"] == "nontermination" or v["kind"] == "alloc"
        return rc not in (0, 96, 97, 98)


def merge(m, d):
    for k, v in d.items():
        if k in ("z3_max", "time"):
            m[k] = max(m.get(k, 0), v)
        elif isinstance(v, bool):
            m[k] = m.get(k, False) or v
        elif isinstance(v, (int, float)):
            m[k] = m.get(k, 0) + v
        elif isinstance(v, dict):
            t = m.setdefault(k, {})
            for a, b in v.items():
                t[a] = t.get(a, 0) + b if isinstance(b, (int, float)) else b
        elif isinstance(v, list):
            m.setdefault(k, []).extend(v)


def load_known(pid):
    """known-findings.txt: 'known: property=C01 id=<id> <text>' and 'fixed: ...' (which suppress nothing)"""
    r = {}
    for l in open(VERIF + "/known-findings.txt"):
        mt = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", l)
        if mt and mt.group(1) == pid:
            r[mt.group(2)] = mt.group(3).strip()
    return r


def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    keep = "--keep" in sys.argv
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    setup()
    P = Prop(pid, tier, seed)
    try:
        P.known = load_known(pid)
        code = decide(P, verbose)
    finally:
        if not keep:
            shutil.rmtree(P.dir, ignore_errors=True)
    sys.exit(code)


def decide(P, verbose):
    P.prepare_includes()
    P.compile_bc()
    shutil.rmtree(P.outdir, ignore_errors=True)
    os.makedirs(P.outdir, exist_ok=True)
    res, confirmed, unconfirmed, known_seen = [], [], [], {}
    validated = mism = 0
    notes = []
    for i, j in enumerate(P.jobs):
        m = P.run_job(i, j)
        res.append((j, m))
        inc = m.get("incomplete", {})
        print("%s %-28s %s paths=%d obligations=%d queries=%d solver=%.1fs wall=%.1fs%s" % (P.pid, m["title"], ",".join("%s=%s" % kv for kv in m["params"].items()),
              m.get("paths", 0), m.get("obligations", 0), m.get("queries", 0), m.get("z3_time", 0), m["wall"], " INCOMPLETE " + json.dumps(inc) if inc else ""), flush=True)
        seen = set()
        for v in m.get("violations", []):
            if v.get("known"):
                if v["known_id"] not in known_seen:
                    rc, so, se = P.replay(j, v["replay"], v["kind"])
                    if P.confirmed(v, rc):
                        known_seen[v["known_id"]] = v
                continue
            sig = (v["kind"], v["msg"], v["where"])
            if sig in seen or len(confirmed) >= 5:
                continue
            seen.add(sig)
            rc, so, se = P.replay(j, v["replay"], v["kind"])
            if v["kind"] == "uninit" and not P.confirmed(v, rc):
                rc, so, se = P.replay(j, v["replay"], "check")
            rec = dict(v, harness=j["harness"], status=str(rc), stderr=se[-1500:], job=m["title"])
            if P.confirmed(v, rc):
                n = "%s/violation%d.replay" % (P.outdir, len(confirmed))
                open(n, "w").write("# %s in %s: %s (%s)\n# harness/%s.cpp, native status %s\n" % (v["kind"], v["where"], v["msg"], m["title"], j["harness"], rc) + v["replay"])
                confirmed.append(rec)
                print("  violation: [%s] %s at %s (replayed on the real code: status %s)" % (v["kind"], v["msg"], v["where"], rc))
                print("  input: " + v["replay"].replace("\n", "; ")[:1500])
                print("VIOLATION property=%s replay=%s" % (P.pid, n), flush=True)
            else:
                unconfirmed.append(rec)
                print("  UNCONFIRMED counterexample (not reported): [%s] %s at %s, native status %s" % (v["kind"], v["msg"], v["where"], rc))
                if verbose:
                    print(v["replay"], so, se)
        # the encoding against the real code: sampled path inputs must give the observations the engine predicts
        for s in m.get("samples", [])[:6 if P.tier == "quick" else 40]:
            rc, so, se = P.replay(j, s["replay"], "check")
            exp = s["expect"]
            if rc == 0 and so.strip() == exp.strip():
                validated += 1
            elif rc == 99 and any(v for v in m.get("violations", [])):
                pass
            else:
                mism += 1
                notes.append("trace mismatch in %s (status %s)" % (j["harness"], rc))
                print("  TRACE MISMATCH %s: status %s\n    engine: %s\n    native: %s %s" % (j["harness"], rc, exp[:800], so[:800], se[-300:]))
                if verbose:
                    print(s["replay"])
        miss = [t for t in j.get("reach", ["done"]) if t not in m.get("reach", {})]
        if miss and not confirmed and not inc and not m.get("violations") :
            notes.append("reachability witness missing: %s in %s" % (miss, j["harness"]))
        if len(confirmed) >= 1 and P.tier == "quick":
            break
    for k, text in P.known.items():
        if k in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (P.pid, text), flush=True)
            n = "%s/known_%s.replay" % (P.outdir, re.sub(r"\W", "_", k))
            open(n, "w").write(known_seen[k]["replay"])
    evidence(P, res, confirmed, unconfirmed, known_seen, validated, mism, notes)
    if confirmed:
        return 1
    hard = [n for n in notes if n.startswith("reach")]
    if hard:
        print("ERROR: " + "; ".join(hard))
        return 2
    return 0


def evidence(P, res, confirmed, unconfirmed, known_seen, validated, mism, notes):
    tot = {}
    fns = set()
    for j, m in res:
        for k in ("paths", "killed", "forks", "states", "instructions", "obligations", "obligations_symbolic", "obligations_unknown", "unknown", "left",
                  "queries", "check_queries", "fast", "cache_hits", "z3", "z3_sat", "z3_unsat", "z3_unknown", "z3_time"):
            tot[k] = tot.get(k, 0) + m.get(k, 0)
        fns.update(m.get("functions", []))
    dm = sorted(f for f in fns if not re.search(r"\blambda\b|^_GLOBAL__|^__cxx_global", f))
    complete = all(not m.get("incomplete") for _, m in res) and len(res) == len(P.jobs)
    jobs = []
    for j, m in res:
        jobs.append({"job": m["title"], "harness": "harness/%s.cpp" % m["harness"], "bounds": m["params"], "limits": j.get("limits", {}), "bound_text": j.get("bounds", ""),
                     "paths": m.get("paths", 0), "paths_cut_by_assumptions": m.get("killed", 0), "obligations": m.get("obligations", 0), "checks": m.get("checks", {}), "reach": m.get("reach", {}),
                     "queries": m.get("queries", 0), "solver_s": round(m.get("z3_time", 0), 2), "wall_s": round(m["wall"], 2),
                     "complete_within_bounds": not m.get("incomplete"), "incomplete": m.get("incomplete", {}), "states_left": m.get("left", 0)})
    samples = []
    for j, m in res:
        for s in m.get("samples", [])[:2]:
            samples.append({"job": m["title"], "input": s["replay"][:600], "observations": s["expect"][:400]})
    ev = {"property": P.pid, "tier": P.tier, "seed": P.seed, "level": "model_checking",
          "coverage": {
              "states": tot["states"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
              "samples": samples[:12], "exhaustive": complete and tot["unknown"] == 0,
              "paths": tot["paths"], "paths_cut_by_assumptions": tot["killed"], "obligations": tot["obligations"], "obligations_over_symbolic_values": tot["obligations_symbolic"],
              "obligations_undecided": tot["obligations_unknown"], "solver_queries": tot["queries"], "solver_queries_for_obligations": tot["check_queries"],
              "queries_answered_by_z3": tot["z3"], "z3_sat": tot["z3_sat"], "z3_unsat": tot["z3_unsat"], "z3_unknown": tot["z3_unknown"],
              "queries_answered_by_rewriting_or_domains": tot["fast"], "queries_answered_by_cache": tot["cache_hits"], "solver_time_s": round(tot["z3_time"], 3),
              "functions_encoded": dm, "jobs": jobs, "trace_mismatches": mism, "unconfirmed_counterexamples": unconfirmed[:5], "known_findings_seen": sorted(known_seen),
              "explanation": "states = symbolic states explored, transitions = LLVM instructions executed symbolically; every path condition and obligation is decided by z3 (bit-vectors) or by equivalence-preserving rewriting; a violation is reported only when its concrete input fails on a native build",
              "notes": notes},
          "assumptions": P.p.get("assumptions", []) + spec.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - T0, 2), "violations": len(confirmed)}
    if confirmed:
        ev["coverage"]["violations"] = confirmed
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, P.pid), "w"), indent=1)


if __name__ == "__main__":
    main()
