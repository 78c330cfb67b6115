#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources with the property's harnesses to LLVM
bitcode, explores them with the symbolic executor (engine/asym), replays every counterexample
on a native build of the same sources, and writes /verif/evidence/<id>.json.

usage: check.py PROPERTY [--tier quick|thorough] [--only JOB] [-v] [--keep]
exit 0: held on everything explored   exit 1: replay-confirmed violation
"""
import sys, os, json, time, subprocess, hashlib, shutil, tempfile, glob, re, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("APOLLO_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
import specs

CORES = os.cpu_count() or 8
BASEDEF = ["-DNDEBUG", "-std=c++14", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/connectors/kokkos/include", "-I" + HERE + "/engine", "-I" + HERE + "/harness"]
BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-access-control", "-w", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize"]
NATFLAGS = ["-O1", "-g1", "-w", "-fno-access-control", "-ffp-contract=off", "-c"]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class BuildError(Exception):
    pass

def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:300], r.stdout[-3000:]))
    return r

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def engine():
    src = [os.path.join(HERE, "engine", f) for f in ("asym.cpp", "handlers.inc", "expr.h", "smt.h", "order.h", "real.h", "build.sh")]
    d = os.path.join(HERE, "build", "engine-" + file_hash(src))
    exe = os.path.join(d, "asym")
    if not os.path.exists(exe):
        must(["bash", os.path.join(HERE, "engine", "build.sh"), d])
    return exe

def lib_sources(job):
    """All sources of the library in the job's configuration, found by globbing the current tree."""
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    defs = job.get("defines", [])
    res = []
    for s in src:
        b = os.path.basename(s)
        if b == "RegressionTree.cpp" or b in job.get("without", []): continue
        if "Cuda" in b and "-DENABLE_CUDA" not in defs: continue
        if "Hip" in b and "-DENABLE_HIP" not in defs: continue
        if "/connectors/" in s and not job.get("kokkos"): continue
        res.append(s)
    return res

def compile_all(job, tier, work, native):
    defs = BASEDEF + job.get("defines", []); hdefs = job.get("tdefs", []) if tier == "thorough" else job.get("qdefs", [])
    files = lib_sources(job) + [os.path.join(HERE, "harness", job["src"])]
    files.append(os.path.join(HERE, "engine", "replay.cpp" if native else "rt.cpp"))
    tag = {False: "bc", "plain": "o", "asan": "asan.o"}[native]
    outs, cmds = [], []
    objdir = os.path.join(os.path.dirname(work), "obj"); os.makedirs(objdir, exist_ok=True)
    for i, f in enumerate(files):
        extra = ["-include", os.path.join(HERE, "harness", job["include"])] if job.get("include") else []
        if native:
            fl = NATFLAGS + (["-fsanitize=address", "-fno-omit-frame-pointer"] if native == "asan" else ["-ftrivial-auto-var-init=pattern"])
        else:
            fl = BCFLAGS
        # the jobs of one run share objects compiled with the same options
        cmd = ["clang++"] + fl + defs + extra + (hdefs + ([] if native else ["-DSYM_ENGINE"]) if f.endswith(job["src"]) else []) + (["-DRT_STRINGS"] if job.get("strings") and f.endswith("/rt.cpp") else []) + [f]
        o = os.path.join(objdir, "%03d-%s-%s.%s" % (i, os.path.basename(f), hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:16], tag)); outs.append(o)
        if not os.path.exists(o): cmds.append(cmd + ["-o", o + ".tmp"])
    def comp(c):
        must(c); os.rename(c[-1], c[-1][:-4])
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(comp, cmds))
    if native:
        exe = os.path.join(work, "replay-" + native)
        must(["clang++"] + (["-fsanitize=address"] if native == "asan" else []) + outs + ["-o", exe, "-rdynamic", "-Wl,--wrap=__cxa_atexit"] + job.get("wrap", []) + ["-ldl", "-lpthread"])
        return exe
    bc = os.path.join(work, "all.bc"); opt = os.path.join(work, "opt.bc")
    must(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"] + outs + ["-o", bc])
    must([shutil.which("opt-18") or "/usr/lib/llvm-18/bin/opt", "-passes=function(sroa,early-cse,simplifycfg)", bc, "-o", opt])
    return opt

def replay_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("APOLLO_")}
    return e

def run_replay(exe, inputs, work, obs=None, asan=False):
    d = tempfile.mkdtemp(prefix="rp", dir=work)
    e = replay_env(); e["MALLOC_PERTURB_"] = "165"
    if asan: e["REPLAY_ASAN"] = "1"; e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:alloc_dealloc_mismatch=1:handle_abort=0:max_malloc_fill_size=1000000:malloc_fill_byte=165"
    try:
        r = subprocess.run([exe, os.path.abspath(inputs)] + ([obs] if obs else []), cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 14, "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def load_findings():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
            if m: res.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--jobs", type=int, default=CORES); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    t0 = time.time()
    spec = specs.PROPS[a.prop]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + "-", dir=os.path.join(HERE, "build"))
    rc = 0; viol_out = []; jobs_out = []; samples = []; notes = []
    tot = dict(states=0, transitions=0, validated=0, mism=0, queries=0, solver=0.0, asserts=0, insts=0)
    funcs = set(); incomplete = []; internal = []
    findings = [f for f in load_findings() if f[0] == a.prop]
    hit = set(); jit_before = set(glob.glob("/tmp/_jit_eval_*"))
    try:
        pool = ThreadPoolExecutor(4)
        eng = pool.submit(engine)
        todo = [j for j in spec["jobs"] if (not a.only or j["name"] == a.only) and (a.tier == "thorough" or not j.get("thorough_only"))]
        budget = 760.0 if a.tier == "quick" else 7200.0
        for j in todo:
            jt = time.time(); jw = os.path.join(work, j["name"]); os.makedirs(jw)
            try:
                bc = compile_all(j, a.tier, jw, False)
            except BuildError as e:
                internal.append("%s: %s" % (j["name"], e)); continue
            nat = pool.submit(compile_all, j, a.tier, jw, "plain")
            tl = j.get("timeout", 300) * (10 if a.tier == "thorough" else 1)
            tl = max(20, min(tl, budget - (time.time() - t0)))
            out = os.path.join(jw, "out")
            cmd = [eng.result(), bc, "--out", out, "--jobs", str(a.jobs), "--timeout", str(tl), "--max-inst", str(j.get("max_inst", 30000000)), "--solver-timeout", str(j.get("solver_timeout", 60 if a.tier == "quick" else 300)), "--enum", str(j.get("enum", 64)), "--keep-paths", "5"] + (["-v", "--dump-queries"] if a.v else [])
            env = {k: v for k, v in os.environ.items() if not k.startswith("APOLLO_")}
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if a.v: print(p.stdout)
            try: R = json.load(open(os.path.join(out, "result.json")))
            except Exception as e:
                internal.append("%s: engine failed: %s" % (j["name"], p.stdout[-1500:])); continue
            try: exe = nat.result()
            except BuildError as e:
                internal.append("%s: native build: %s" % (j["name"], e)); exe = None
            # vacuity: every expected situation must have been exercised
            miss = [l for l in j.get("reach", []) if l not in R["reached"]]
            inc = list(R["incomplete"])
            if R["error_paths"]: inc.append("%d engine errors" % R["error_paths"])
            if R["stopped_paths"] and not R["violations"]: inc.append("%d paths cut off by the time limit" % R["stopped_paths"])
            if R["budget_paths"] and not R["violations"]: inc.append("%d paths cut off by the instruction limit" % R["budget_paths"])
            if miss: inc.append("situations not exercised: " + ", ".join(miss))
            for l in p.stdout.splitlines():
                if l.startswith("ASYM-ERROR") and len(internal) < 20: internal.append(j["name"] + ": " + l[:400])
            confirmed = 0; asan = None
            for v in R["violations"]:
                if exe is None: break
                inp = os.path.join(out, v["inputs"])
                code, txt = run_replay(exe, inp, jw)
                how = "native"
                okc = code in (11, 12, 14) or code < 0
                if not okc and code != 13 and v["kind"] in ("memory", "stack-overflow", "unreachable", "arith", "assert", "abort"):
                    if asan is None:
                        try: asan = compile_all(j, a.tier, jw, "asan")
                        except BuildError as e: asan = False; internal.append("asan build: %s" % e)
                    if asan:
                        code, txt = run_replay(asan, inp, jw, asan=True); how = "address sanitizer"
                        okc = code in (11, 12, 14, 77) or code < 0
                rec = dict(job=j["name"], kind=v["kind"], msg=v["msg"], where=v["where"], replay_exit=code, replay_build=how, replay_output=txt[-600:])
                if not okc:
                    inc.append("solver counterexample not reproduced natively: %s (%s) replay exit %d" % (v["msg"], v["where"][:200], code)); rec["confirmed"] = False
                    if a.v: print("UNCONFIRMED", json.dumps(rec, indent=1))
                    continue
                rec["confirmed"] = True
                key = "%s: %s: %s at %s" % (j["name"], v["kind"], v["msg"], v["where"])
                known = [f for f in findings if f[1].search(key)]
                if known:
                    if known[0][2] not in hit: print("KNOWN-FINDING: property=%s %s" % (a.prop, known[0][2])); hit.add(known[0][2])
                    continue
                confirmed += 1
                d = os.path.join(HERE, "build", "replays", a.prop); os.makedirs(d, exist_ok=True)
                rp = os.path.join(d, "%s-%d.txt" % (j["name"], confirmed))
                with open(rp, "w") as f:
                    f.write("property %s, job %s\n%s: %s\nat %s\nreplayed on: %s build of the current tree, exit %d\n%s\ninputs (name size hex-bytes):\n%s" % (a.prop, j["name"], v["kind"], v["msg"], v["where"], how, code, txt[-2000:], open(inp).read()))
                rec["replay"] = rp; viol_out.append(rec)
            # sampled paths: the native run must behave as the engine says
            val = 0
            if exe:
                for f in sorted(glob.glob(out + "/path-*.inputs")):
                    ob = f.replace(".inputs", ".nobs"); code, txt = run_replay(exe, f, jw, obs=ob)
                    exp = open(f.replace(".inputs", ".obs")).read() if os.path.exists(f.replace(".inputs", ".obs")) else ""
                    got = open(ob).read() if os.path.exists(ob) else ""
                    if code == 0 and exp == got:
                        val += 1
                        if len(samples) < 3: samples.append(dict(job=j["name"], inputs=open(f).read().splitlines()[:12], observed=exp.splitlines()[:12]))
                    else:
                        tot["mism"] += 1
                        if a.v: print("PATH MISMATCH", f, code, txt[-500:], "exp", exp, "got", got)
                        if code in (11, 12, 14) or code < 0:
                            # the real code breaks the property on inputs the engine considered fine (e.g. uninitialised data)
                            d = os.path.join(HERE, "build", "replays", a.prop); os.makedirs(d, exist_ok=True); rp = os.path.join(d, "%s-path.txt" % j["name"])
                            open(rp, "w").write("property %s, job %s: native run of an explored path fails\n%s\n%s" % (a.prop, j["name"], txt[-1500:], open(f).read()))
                            inc.append("native run of an explored path fails: exit %d %s" % (code, txt[-200:]))
                            viol_out.append(dict(job=j["name"], kind="native", msg=txt[-200:], where="", replay_exit=code, replay_build="native", replay=rp, confirmed=True))
                        else: inc.append("native run of an explored path differs from the engine")
            tot["states"] += R["paths"]; tot["transitions"] += R["symbolic_branches"]; tot["validated"] += val; tot["queries"] += R["queries"] + R["model_cache_hits"]; tot["solver"] += R["solver_s"]; tot["asserts"] += R["assertions"]; tot["insts"] += R["instructions"]
            funcs.update(R["functions"]); incomplete += ["%s: %s" % (j["name"], x) for x in inc]
            jobs_out.append(dict(job=j["name"], what=j.get("what", ""), bounds=j.get("bounds", {}).get(a.tier, j.get("bounds", {}).get("quick", "")) if isinstance(j.get("bounds"), dict) else j.get("bounds", ""), paths=R["paths"], ok_paths=R["ok_paths"], symbolic_branches=R["symbolic_branches"], instructions=R["instructions"], queries=R["queries"], sat=R["queries_sat"], unsat=R["queries_unsat"], unknown=R["queries_unknown"], fp_queries=R["queries_fp"], answered_from_models=R["model_cache_hits"], decided_by_propagation=R["propagated"], solver_s=R["solver_s"], max_query_s=R["max_query_s"], by_solver=dict(z3=R["by_z3"], cvc5=R["by_cvc5"], z3_new=R["by_z3_new"]), assertions=R["assertions"], assertion_queries=R["assertion_queries"], reached=R["reached"], exhaustive=not inc, incomplete=inc, wall_s=round(time.time() - jt, 1)))
            if a.v or a.only: print(json.dumps(jobs_out[-1], indent=1)); [print(json.dumps(v, indent=1)) for v in viol_out]
            print("%s/%s: %d paths, %d assertions, %d queries (%.1fs solver), %d validated natively, %s, %.1fs" % (a.prop, j["name"], R["paths"], R["assertions"], R["queries"], R["solver_s"], val, "exhaustive within bounds" if not inc else "INCOMPLETE: " + "; ".join(inc)[:300], time.time() - jt), flush=True)
            if viol_out and a.tier == "quick": break
        if viol_out:
            rc = 1
            for v in viol_out[:5]:
                print("  %s: %s\n    at %s" % (v["kind"], v["msg"], v["where"][:400]))
            print("VIOLATION property=%s replay=%s" % (a.prop, viol_out[0]["replay"]))
        for s in internal: print("INTERNAL: " + s[:1500])
        ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
                  coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"], samples=samples,
                                technique="path-exhaustive symbolic execution of LLVM IR of the real sources; SMT (z3, cvc5) decides every branch and assertion for all input values within the bounds",
                                states_are="explored symbolic paths", transitions_are="symbolic branches decided by the solver", exhaustive_within_bounds=not incomplete and not internal,
                                functions_encoded=sorted(funcs), queries_discharged=tot["queries"], solver_time_s=round(tot["solver"], 2), assertions_decided=tot["asserts"], ir_instructions_executed=tot["insts"], jobs=jobs_out, incomplete=incomplete, internal_errors=internal, known_findings_reported=sorted(hit), outside_bounds=spec.get("outside", "")),
                  wall_s=round(time.time() - t0, 2), assumptions=specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []), violations=len(viol_out))
        if not a.no_evidence: json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
        if rc == 0 and not jobs_out: rc = 2; print("%s: no job could be run" % a.prop)
        if rc == 0: print("%s: held on everything explored (%d paths, %d assertions, %d queries, %.1fs)" % (a.prop, tot["states"], tot["asserts"], tot["queries"], time.time() - t0))
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        for f in set(glob.glob("/tmp/_jit_eval_*")) - jit_before:   # libraries the JIT under replay left behind
            try: os.remove(f)
            except OSError: pass
    return rc

if __name__ == "__main__":
    sys.exit(main())
