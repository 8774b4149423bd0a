#!/usr/bin/env python3
"""Decides one property: compiles its harnesses against /repo, runs the symbolic executor on
every entry point, replays counterexamples natively, applies the known-findings file and
writes evidence/<id>.json.

  check.py ID [--tier quick|thorough] [--record]     exit 0 held, 1 violated, 2 check error
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import checks
REPO = os.environ.get("SFL_REPO", "/repo")
LIB = os.path.join(REPO, "include") + "/"
BUILD = os.path.join(ROOT, "build")
HAR = os.path.join(ROOT, "harness")
CXX, OPT = "clang++-18", "opt-18"
CF = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-w",
      "-I" + HAR, "-I" + os.path.join(REPO, "include")]
PASSES = ("always-inline,function(sroa,early-cse,simplifycfg<bonus-inst-threshold=0>),cgscc(inline),"
          "function(sroa,early-cse,simplifycfg<bonus-inst-threshold=0>),globaldce")
CPUS = min(8, os.cpu_count() or 1)

def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-C", os.path.join(ROOT, "engine"), "-j%d" % max(4, CPUS), "OUT=" + BUILD], capture_output=True, text=True)
        if r.returncode:
            print("check error: cannot build the engine\n" + r.stderr[-3000:]); sys.exit(2)

class Unit:
    """one translation unit: source + macro definitions (+ extra compiler flags)"""
    def __init__(self, src, defs, flags):
        self.src, self.defs, self.flags = src, dict(defs), tuple(flags)
        self.key = src + "".join(" -D%s=%s" % kv for kv in sorted(self.defs.items())) + "".join(" " + f for f in self.flags)
        self.h = hashlib.sha1(self.key.encode()).hexdigest()[:12]
    def args(self):
        return ["-D%s=%s" % kv for kv in sorted(self.defs.items())] + list(self.flags)

def compile_unit(u, wd):
    bc, t = os.path.join(wd, u.h + ".bc"), os.path.join(wd, u.h + ".tmp.bc")
    t0 = time.time()
    cf_ = list(CF)
    r = subprocess.run([CXX] + cf_ + u.args() + ["-emit-llvm", "-c", os.path.join(HAR, u.src), "-o", t], capture_output=True, text=True)
    if r.returncode == 0:
        r = subprocess.run([OPT, "-passes=" + os.environ.get("SX_PASSES", PASSES), "-two-entry-phi-node-folding-threshold=0", "-phi-node-folding-threshold=0", t, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        return None, time.time() - t0, r.stderr
    os.unlink(t)
    return bc, time.time() - t0, ""

def native(u, wd, san):
    exe = os.path.join(wd, u.h + "." + san)
    if os.path.exists(exe): return exe, ""
    fl = {"asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "plain": ["-O0"]}[san]
    r = subprocess.run([CXX, "-std=c++20", "-g", "-w", "-rdynamic", "-I" + HAR, "-I" + os.path.join(REPO, "include")] + fl + u.args() +
                       [os.path.join(HAR, u.src), os.path.join(HAR, "sx_native.cpp"), "-o", exe], capture_output=True, text=True)
    return (exe if r.returncode == 0 else None), r.stderr

NENV = dict(os.environ, ASAN_OPTIONS="exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=66", LSAN_OPTIONS="exitcode=66")
def run_native(exe, entry, inp, pre=(), env=None, timeout=60):
    try:
        r = subprocess.run(list(pre) + [exe, entry, inp], capture_output=True, text=True, errors="replace", timeout=timeout, env=dict(NENV, **(env or {})))
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        return -999, "timeout"

def confirm(u, entry, v, wd, repdir, idx):
    """replays a counterexample on the natively compiled code"""
    inp = os.path.join(repdir, "%d.inputs" % idx)
    with open(inp, "w") as f:
        f.write("# %s %s\n# %s: %s at %s (harness %s)\n" % (u.key, entry, v["kind"], v["msg"], v["where"], v["harness"]))
        for n, x in v["inputs"]: f.write("%d  # %s\n" % (x, n))
    clean = os.path.join(repdir, "%d.values" % idx)
    with open(clean, "w") as f:
        for n, x in v["inputs"]: f.write("%d\n" % x)
    sh = os.path.join(repdir, "%d.sh" % idx)
    flags = " ".join("'%s'" % a for a in u.args())
    with open(sh, "w") as f:
        f.write("#!/bin/sh\n# Replays the counterexample on the real code: %s: %s\n# exit 0: not reproduced\n" % (v["kind"], v["msg"]) +
                "D=$(mktemp -d) && trap 'rm -rf \"$D\"' EXIT\n"
                "%s -std=c++20 -g -w -O1 -rdynamic -fsanitize=address,undefined -fno-sanitize-recover=undefined -I%s -I%s/include %s %s/%s %s/sx_native.cpp -o $D/a && $D/a %s %s\n"
                % (CXX, HAR, REPO, flags, HAR, u.src, HAR, entry, clean))
    os.chmod(sh, 0o755)
    exe, err = native(u, wd, "asan")
    how = []
    if exe:
        rc, se = run_native(exe, entry, clean, timeout=30)
        how.append("asan/ubsan build: exit %d" % rc)
        if rc == -999: return (v["kind"] == "nontermination"), how, sh, se
        if rc not in (0, 11, 12, 20): return True, how, sh, se
    else:
        return None, ["native build failed: " + err[-800:]], sh, ""
    exe, err = native(u, wd, "plain")
    if exe and v["kind"] in ("memory", "uninit"):
        rc, se = run_native(exe, entry, clean, pre=["valgrind", "-q", "--error-exitcode=66", "--leak-check=full", "--errors-for-leak-kinds=definite"], timeout=120)
        how.append("valgrind: exit %d" % rc)
        if rc not in (0, 11, 12, 20, -999): return True, how, sh, se
    return False, how, sh, se

def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                # finding: property=ID match=<substring of entry|kind|msg|where> :: description
                m, d = l.split(" match=", 1)[1].split(" :: ", 1)
                out.append((m, d))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--record", action="store_true")
    ap.add_argument("--only", default=""); ap.add_argument("--cov", default=""); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ensure_engine()
    prop = checks.CHECKS[a.pid]
    tier = a.tier
    deadline = t0 + (760 if tier == "quick" else 6 * 3600)
    known = load_known(a.pid)
    wd = tempfile.mkdtemp(prefix="sflv.")
    repdir = os.path.join(BUILD, "replay", a.pid); shutil.rmtree(repdir, ignore_errors=True); os.makedirs(repdir)
    try:
        rc = run(a, prop, tier, seed, t0, deadline, known, wd, repdir)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def run(a, prop, tier, seed, t0, deadline, known, wd, repdir):
    jobs = []   # (unit, entry, shard flags, job)
    units = {}
    for job in prop["jobs"]:
        for u_src, defs, flags, entry, shard, budget in checks.expand(job, tier):
            u = Unit(u_src, defs, flags)
            u = units.setdefault(u.key, u)
            if a.only and a.only not in u.key + " " + entry: continue
            jobs.append((u, entry, shard, budget))
    used = {j[0].key for j in jobs}
    ex = cf.ThreadPoolExecutor(CPUS)
    comp = {k: ex.submit(compile_unit, units[k], wd) for k in units if k in used}
    def one(j, n):
        u, entry, shard, budget = j
        bc, ct, err = comp[u.key].result()
        if bc is None: return {"job": j, "compile_error": err}
        out = os.path.join(wd, "r%d.json" % n)
        cov = os.path.join(wd, "c%d" % n)
        b = max(5, min(budget, deadline - time.time()))
        cmd = [os.path.join(BUILD, "symx"), bc, "--entry", entry, "--out", out, "--cov", cov, "--budget", "%g" % b, "--tests", "3"]
        for s in shard: cmd += ["--shard", s]
        for m, d in known: cmd += ["--known", m]
        env = dict(os.environ)
        if tier == "thorough" and n % 16 == seed % 16: env["SX_XCHECK"] = "1"
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=b + 120)
        except subprocess.TimeoutExpired:
            return {"job": j, "engine_error": "engine did not stop in time"}
        if not os.path.exists(out): return {"job": j, "engine_error": "engine failed (%d): %s" % (r.returncode, r.stderr[-500:])}
        d = json.load(open(out)); d["job"] = j
        if d["error"]: d["engine_error"] = d["error"]
        d["cov"] = cov
        return d
    futs = [ex.submit(one, j, n) for n, j in enumerate(jobs)]
    res = [f.result() for f in futs]
    errors = []; ill = {}
    for d in res:
        j = d["job"]
        if "compile_error" in d and any(LIB in l and "error:" in l for l in d["compile_error"].split("\n")): ill.setdefault(j[0].key, (j[0], d["compile_error"]))
        elif "compile_error" in d: errors.append("harness does not compile: %s\n%s" % (j[0].key, "\n".join([l for l in d["compile_error"].split("\n") if "error:" in l][:6])))
        elif "engine_error" in d: errors.append("%s %s: %s" % (j[0].key, j[1], d["engine_error"]))
    good = [d for d in res if "paths" in d]
    # ---- vacuity: every label reached on the reference tree must be reached
    exp_f = os.path.join(ROOT, "expected", a.pid + ".json")
    reach = {}
    for d in good:
        k = d["job"][0].src + "|" + ",".join("%s=%s" % kv for kv in sorted(d["job"][0].defs.items()) if kv[0] in ("KK", "FK")) + "|" + d["job"][1]
        r = reach.setdefault(k, {})
        for l, c in d["reach"].items(): r[l] = r.get(l, 0) + c
        r["paths"] = r.get("paths", 0) + (1 if d["paths"] else 0)
    if a.record:
        os.makedirs(os.path.dirname(exp_f), exist_ok=True)
        json.dump({k: sorted(l for l, c in v.items() if c) for k, v in sorted(reach.items())}, open(exp_f, "w"), indent=0)
    viol = [(d, v) for d in good for v in d["violations"]]
    complete = all(not d["incomplete"] for d in good) and not errors
    missing = []
    if not a.only and os.path.exists(exp_f):
        for k, ls in json.load(open(exp_f)).items():
            for l in ls:
                if not reach.get(k, {}).get(l): missing.append(k + ": " + l)
    elif not a.only and not a.record: missing.append("no expected-reachability file")
    # ---- counterexamples
    nviol = 0; unconfirmed = []; confirmed = []; knownhit = {}
    todo = {}
    for d, v in viol:
        if v["known"]:
            full = "|".join([d["job"][1], v["kind"], v["msg"], v["where"]])
            for m, desc in known:
                if m in full: knownhit[m] = desc
            continue
        todo.setdefault((d["job"][0].key, d["job"][1], v["kind"], v["msg"], v["where"]), (d, v))
    for n, (u, err) in enumerate(ill.values()):   # nothing left to decide: the library is ill-formed for types that meet its requirements
        sh = os.path.join(repdir, "c%d.sh" % n)
        open(sh, "w").write("#!/bin/sh\n# exit 0: not reproduced\n%s -std=c++20 -fsyntax-only -w -I%s -I%s/include %s %s/%s\n" % (CXX, HAR, REPO, " ".join("'%s'" % x for x in u.args()), HAR, u.src))
        os.chmod(sh, 0o755); nviol += 1
        print("the library does not compile with the element, allocator or comparator types of %s: %s" % (u.key, next(l for l in err.split("\n") if LIB in l and "error:" in l)[:300]))
        print("VIOLATION property=%s replay=%s" % (a.pid, sh))
        if nviol >= 4: break
    items = list(todo.values())
    def score(x): return len(x[1]["inputs"])
    items.sort(key=score)
    for idx, (d, v) in enumerate(items[:24]):
        u, entry = d["job"][0], d["job"][1]
        c, how, sh, se = confirm(u, entry, v, wd, repdir, idx)
        if c or (c is False and v["kind"] in ("memory", "uninit")):
            nviol += 1
            confirmed.append((v, entry, u.key, how, sh))
            print("counterexample: %s: %s at %s [%s %s] inputs %s" % (v["kind"], v["msg"], v["where"], u.key, entry, " ".join("%s=%d" % (n, x) for n, x in v["inputs"][:40])))
            print("  native replay: %s%s" % ("; ".join(how), "" if c else " (not confirmed by a sanitizer; reported on the engine's memory model)"))
            print("VIOLATION property=%s replay=%s" % (a.pid, sh))
            if nviol >= 4 or time.time() > deadline: break
        else:
            unconfirmed.append("%s: %s at %s [%s %s] (%s)" % (v["kind"], v["msg"], v["where"], u.key, entry, "; ".join(how)))
    for m, desc in knownhit.items(): print("KNOWN-FINDING: property=%s %s" % (a.pid, desc))
    for x in unconfirmed: print("UNCONFIRMED (not reproduced natively, not reported): " + x)
    # ---- engine validation: some explored paths are replayed natively and their observations compared
    validated = mism = 0; val_notes = []
    if not todo and not errors:
        import random
        rnd = random.Random(seed)
        vu = [d for d in good if d["tests"]]
        rnd.shuffle(vu)
        seen = set()
        for d in vu:
            u = d["job"][0]
            if u.key not in seen:
                if len(seen) >= (1 if tier == "quick" else 8): continue
                seen.add(u.key)
            exe, err = native(u, wd, "plain" if tier == "quick" else "asan")
            if not exe: val_notes.append("native build failed: " + err[-300:]); continue
            for t in d["tests"]:
                inp = os.path.join(wd, "t.in"); open(inp, "w").write("".join("%d\n" % x[1] for x in t["inputs"]))
                ob = os.path.join(wd, "t.obs")
                rc, se = run_native(exe, d["job"][1], inp, env={"SX_OBS": ob})
                got = [int(x) for x in open(ob).read().split()] if os.path.exists(ob) else None
                if rc in (0, 20) and (rc == 20 or got == t["obs"]): validated += 1
                else: mism += 1; val_notes.append("%s %s: native exit %d, obs %s vs %s; inputs %s" % (u.key, d["job"][1], rc, got, t["obs"], t["inputs"]))
    if mism: errors.append("engine and native execution disagree: " + " / ".join(val_notes[:3]))
    # ---- evidence
    S = lambda k: sum(d[k] for d in good)
    fns, lines, tot = set(), set(), set()
    for d in good:
        for l in open(d["cov"]):
            l = l.rstrip("\n")
            if l.startswith("fn:"): fns.add(l[3:])
            else:
                f, n, h = l.rsplit(":", 2); tot.add((f, n))
                if h == "1": lines.add((f, n))
    if a.cov:
        with open(a.cov, "w") as f:
            for x in sorted(tot): f.write("%s:%s:%d\n" % (x[0], x[1], x in lines))
    unsup = {}
    for d in good:
        for k, c in d["unsupported"].items(): unsup[k] = unsup.get(k, 0) + c
    samples = []
    for d in good:
        for t in d["tests"][:1]:
            if len(samples) < 4: samples.append({"harness": d["job"][0].key, "entry": d["job"][1], "path_inputs": " ".join("%s=%d" % (n, x) for n, x in t["inputs"])})
    files = {}
    for f, n in lines: files[f] = files.get(f, 0) + 1
    ev = {"property": a.pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
          "coverage": {
              "states": S("paths") + S("pruned"), "transitions": S("forks") + S("paths"), "traces_validated_against_impl": validated,
              "samples": samples or [{"note": "no completed path"}],
              "explanation": "states: symbolic execution paths explored to their end (each a set of inputs described by a path condition) plus infeasible ones pruned; transitions: solver-decided forks plus path ends; the property is an assertion decided on every path for all values satisfying the path condition",
              "harnesses": len({d["job"][0].key for d in good}), "entries": len(good), "symbolic_paths": S("paths"), "pruned_paths": S("pruned"),
              "ir_steps": S("steps"), "solver_decided_forks": S("forks"), "assertions_evaluated": S("checks"), "assertions_symbolic": S("symbolic_checks"),
              "queries_discharged": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
              "decided_by_difference_logic": S("fast"), "cross_checked_with_z3": S("xchecked"), "solver_seconds": round(S("solver_s"), 3),
              "library_functions_encoded": len(fns), "library_functions": sorted(fns)[:400], "library_lines_executed": files, "library_lines_in_bitcode": len(tot), "library_lines_executed_total": len(lines),
              "exhaustive": bool(complete), "incomplete_entries": ["%s %s: %s (%d pending)" % (d["job"][0].key, d["job"][1], d["why"], d["pending"]) for d in good if d["incomplete"]][:50],
              "unsupported_paths": unsup, "bounds": prop["bounds"][tier] if isinstance(prop["bounds"], dict) else prop["bounds"],
              "reachability_witnesses": sum(len([1 for c in r.values() if c]) for r in reach.values()), "missing_witnesses": missing[:20], "unconfirmed": unconfirmed[:20],
              "known_findings_seen": list(knownhit.values()),
          },
          "assumptions": checks.ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w"), indent=1)
    print("%s %s: %d entries, %d paths, %d queries (%.1fs solver), %d assertions, %s, validated %d, %.1fs" %
          (a.pid, tier, len(good), S("paths"), S("queries"), S("solver_s"), S("checks"), "exhaustive within bounds" if complete else "NOT exhaustive", validated, time.time() - t0))
    if a.v:
        for d in sorted(good, key=lambda d: -d["wall_s"])[:12]: print("   %6.1fs %7d paths %s %s" % (d["wall_s"], d["paths"], d["job"][0].key, d["job"][1]), d["job"][2])
    for x in ev["coverage"]["incomplete_entries"][:10]: print("  incomplete: " + x)
    if nviol: return 1
    if errors:
        for e in list(dict.fromkeys(errors))[:4]: print("check error: " + e[:1500])
        return 2
    if missing and complete and not unconfirmed:
        print("check error: not reached: " + "; ".join(missing[:10])); return 2
    return 0

main()
