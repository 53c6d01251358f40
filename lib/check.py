#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree by symbolic execution + SMT.

Exit 0: held on everything explored.  Exit 1 (with a VIOLATION line): broken, and the counterexample
was reproduced on the real code.  Exit 2: the check itself could not run."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import specs
REPO = os.environ.get("COECS_REPO", "/repo")
TIER = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.environ.get("COSYM_BUILD", os.path.join(ROOT, "build"))
JOBS = int(os.environ.get("COSYM_JOBS", "8"))

def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=cwd, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); return 124, out or ""

def ensure_engine():
    exe = os.path.join(BUILD, "cosym"); src = sorted(f for f in glob.glob(os.path.join(ROOT, "engine", "*")) if os.path.isfile(f))
    h = hashlib.md5(b"".join(open(f, "rb").read() for f in src)).hexdigest(); stamp = os.path.join(BUILD, "stamp")
    if not os.path.exists(exe) or not os.path.exists(stamp) or open(stamp).read() != h:
        rc, out = sh([os.path.join(ROOT, "engine", "build.sh"), BUILD])
        if rc: print(out); print("check: cannot build the symbolic executor"); sys.exit(2)
    return exe

def compile_bc(work, src, flags):
    out = os.path.join(work, os.path.basename(src) + hashlib.md5(" ".join(flags).encode()).hexdigest()[:6] + ".bc")
    rc, log = sh([os.path.join(HERE, "compile.sh"), os.path.join(ROOT, "harness", src), out] + flags, env={**os.environ, "COECS_REPO": REPO})
    return rc, log, out

NATIVE = {}
def native(work, src, flags, san):
    key = (src, tuple(flags), san)
    if key in NATIVE: return NATIVE[key]
    out = os.path.join(work, "replay_%s_%s" % (os.path.basename(src), hashlib.md5(repr(key).encode()).hexdigest()[:8]))
    sanf = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "plain": []}[san]
    cc = ["clang++", "-std=c++20", "-O1", "-g", "-w", "-I", REPO + "/include", "-I", ROOT + "/harness"] + sanf + flags + [os.path.join(ROOT, "harness", src), os.path.join(ROOT, "harness", "replay.cpp"), "-o", out, "-rdynamic", "-ldl", "-pthread"]
    rc, log = sh(cc, timeout=300)
    if rc: print("check: native replay build failed for", src); print(log[-2000:])
    NATIVE[key] = out if rc == 0 else None
    return NATIVE[key]

def write_values(path, inputs, params, header=()):
    with open(path, "w") as f:
        for h in header: f.write("# " + h + "\n")
        for k, v in params.items(): f.write("%s=%d\n" % (k, v))
        for n, v in inputs: f.write("%d\n" % v)

def run_native(exe, entry, valfile, align, timeout):
    env = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=96", "CS_ALIGN": "1" if align else "0"}
    return sh([exe, entry, valfile], timeout=timeout, env=env)

def parse_jsons(prefix, jobs):
    res = []
    for p in sorted(glob.glob(prefix + ".*")):
        if p.rsplit(".", 1)[1] == "main" or p.rsplit(".", 1)[1].isdigit():
            try: res.append(json.load(open(p)))
            except Exception as e: res.append({"bad": str(e)})
    return res

SUMS = ["paths", "truncated", "forks", "instructions", "checks", "symbolic_checks", "memory_checks", "unsupported", "assume_killed", "violations_total", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "solver_ms", "time_up", "weak_instances", "weak_rounds", "weak_nodes", "weak_events", "weak_rf", "weak_constraints", "weak_complete"]

def run_entry(exe, work, e, cfgname, bc, prop):
    t = dict(e.get("common", {})); t.update(e.get(TIER, e.get("quick", {})))
    params = dict(t.get("params", {})); secs = t.get("secs", 60)
    prefix = os.path.join(work, "%s_%s_%s" % (e["entry"], cfgname, hashlib.md5(repr(sorted(params.items())).encode()).hexdigest()[:6]))
    jobs = t.get("jobs", JOBS)
    cmd = [exe, bc, "--entry", e["entry"], "--out", prefix, "--jobs", str(jobs), "--max-secs", str(secs), "--max-steps", str(t.get("steps", 3000000)), "--preempt", str(t.get("preempt", 0)), "--max-enum", str(t.get("enum", 64)), "--max-viol", "6"]
    for k, v in params.items(): cmd += ["--param", "%s=%d" % (k, v)]
    cmd += t.get("args", [])
    t0 = time.time(); rc, log = sh(cmd, timeout=secs + 120); dt = time.time() - t0
    js = parse_jsons(prefix, jobs)
    m = {k: sum(j.get(k, 0) for j in js) for k in SUMS}
    for k in ("reach", "unsup", "check_msgs"):
        m[k] = {}
        for j in js:
            for a, b in j.get(k, {}).items(): m[k][a] = m[k].get(a, 0) + b
    m["functions"] = sorted({f for j in js for f in j.get("functions", [])})
    m["samples"] = [s for j in js for s in j.get("samples", [])][:6]
    m["violations"] = [v for j in js for v in j.get("violations", [])]
    m.update(entry=e["entry"], config=cfgname, params=params, seconds=round(dt, 2), rc=rc, log=log[-1500:] if rc else "", preempt=t.get("preempt", 0), steps=t.get("steps", 3000000), src=e["src"], budget_s=secs)
    m["exhaustive"] = (rc == 0 and m["truncated"] == 0 and m["unsupported"] == 0 and m["unknown"] == 0 and m["time_up"] == 0 and bool(js))
    m["threads"] = bool(t.get("preempt", 0) or e.get("threads"))
    return m

def load_known():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding:\s+property=(\S+)\s+entry=(\S+)\s+match=/(.*?)/\s+(.*)", l)
                if m: out.append(dict(property=m.group(1), entry=m.group(2), match=m.group(3), text=m.group(4)))
    return out

def confirm(work, prop, e, m, v, flags, idx, exe, bc):
    """Replay a counterexample on the real code. Returns (confirmed, how, replay_path)."""
    outdir = os.path.join(ROOT, "out", prop); os.makedirs(outdir, exist_ok=True)
    vf = os.path.join(outdir, "%s_%s_%d.values" % (e["entry"], m["config"], idx))
    head = ["property=%s entry=%s source=harness/%s flags=%s" % (prop, e["entry"], e["src"], " ".join(flags)), "%s: %s at %s" % (v["kind"], v["msg"], v["where"])] + ["  " + s for s in v["stack"][:10]] + ["inputs: " + ", ".join("%s=%d" % (a, b) for a, b in v["inputs"])] + (["schedule: " + " ".join(map(str, v["schedule"]))] if v["schedule"] else [])
    write_values(vf, v["inputs"], m["params"], head)
    if e.get("replay") != "native" and (v.get("witness") or v["schedule"] or m["threads"]):
        import replay_sched
        ok, how, path = replay_sched.replay(work, ROOT, REPO, e, m, v, flags, vf)
        return ok, how, path
    for san, align in (("asan", 0), ("asan", 1), ("plain", 0)):
        x = native(work, e["src"], flags, san)
        if not x: continue
        rc, out = run_native(x, e["entry"], vf, align, 20)
        if rc == 98: continue
        if rc not in (0,):
            how = "hang" if rc == 124 else "exit %d" % rc
            if v["kind"] == "steps" and rc != 124: pass
            line = next((l.strip() for l in out.splitlines() if "REPLAY-VIOLATION" in l or "runtime error" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l or "terminate called" in l or "what()" in l), "")
            with open(vf, "a") as f: f.write("\n".join("# native: " + l for l in out.splitlines()[:25]) + "\n")
            return True, "native %s run: %s %s" % (san, how, line[:200]), vf
        if v["kind"] == "steps" and rc == 124: return True, "native run does not terminate", vf
    return False, "not reproduced natively", vf

def evidence(prop, spec, runs, t0, viols, validated, notes, extra=None):
    cov = {}
    tot = {k: sum(m[k] for m in runs) for k in SUMS}
    fns = sorted({f for m in runs for f in m["functions"]})
    cov["states"] = tot["paths"]; cov["transitions"] = tot["instructions"]; cov["traces_validated_against_impl"] = validated
    cov["samples"] = [{"entry": m["entry"], "config": m["config"], "inputs": s} for m in runs for s in m["samples"][:1]][:8] or [{"note": "no symbolic inputs"}]
    cov["explanation"] = "states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = LLVM IR instructions executed symbolically; traces_validated = solver models of explored paths replayed natively against the real library with the same outcome"
    cov["exhaustive"] = all(m["exhaustive"] for m in runs)
    cov["functions_encoded"] = fns; cov["functions_encoded_count"] = len(fns)
    cov["solver"] = {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "answered_from_cache": tot["cache_hits"], "answered_by_known_model": tot["model_hits"], "solver_seconds": round(tot["solver_ms"] / 1000, 2)}
    cov["assertions_decided"] = tot["checks"]; cov["assertions_needing_solver"] = tot["symbolic_checks"]; cov["memory_accesses_checked"] = tot["memory_checks"]
    cov["bounds"] = [{"entry": m["entry"], "config": m["config"], "params": m["params"], "max_steps_per_path": m["steps"], "preemption_bound": m["preempt"], "paths": m["paths"], "instructions": m["instructions"], "truncated": m["truncated"], "unsupported": m["unsup"], "assume_killed": m["assume_killed"], "complete_within_bounds": m["exhaustive"], "seconds": m["seconds"], "reached": m["reach"]} for m in runs]
    if tot["weak_instances"]: cov["memory_model"] = {"instances": tot["weak_instances"], "instances_with_a_complete_execution": tot["weak_complete"], "rounds_to_settle_values": tot["weak_rounds"], "event_tree_nodes": tot["weak_nodes"], "events": tot["weak_events"], "reads_from_pairs": tot["weak_rf"], "constraints": tot["weak_constraints"], "explanation": "from cs_go() on each thread is executed symbolically on its own (loads of shared locations are symbols); one solver query per instance covers every execution the C++20 memory model allows"}
    cov["outside_bounds"] = spec.get("outside", "")
    if notes: cov["notes"] = notes
    if extra: cov.update(extra)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": viols}, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)

def main():
    prop = sys.argv[1]; spec = specs.SPECS[prop]; t0 = time.time(); exe = ensure_engine()
    work = tempfile.mkdtemp(prefix="cosym_%s_" % prop, dir="/tmp")
    try: return go(prop, spec, t0, exe, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def go(prop, spec, t0, exe, work):
    notes = []; runs = []; known = [k for k in load_known() if k["property"] == prop]
    jobs = []
    for e in spec["entries"]:
        if TIER == "quick" and e.get("thorough_only"): continue
        for c in e.get("configs", ["std"]): jobs.append((e, c, specs.CONFIGS[c] + e.get("flags", [])))
    need = {}
    for e, c, fl in jobs: need[(e["src"], c, tuple(fl))] = fl
    bcs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = {k: ex.submit(compile_bc, work, k[0], v) for k, v in need.items()}
        pre = [ex.submit(native, work, k[0], v, "asan") for k, v in need.items() if not any(e.get("no_native") for e, _, _ in jobs if e["src"] == k[0])]
        for k, f in futs.items():
            rc, log, out = f.result()
            if rc: print(log[-3000:]); print("check: harness %s does not compile against the current tree" % k[0]); return 2
            bcs[k] = out
        bad = 0; validated = 0; diverged = 0; reported = 0; unconfirmed = []; seen = set(); suppressed = []
        def judge(e, m):
            """Counterexamples of one entry: replay each kind once on the real code and report what it shows."""
            nonlocal reported
            if m["violations"]:
                for f in pre: f.result()
            for v in m["violations"]:
                sig = (e["entry"], v["kind"], v["msg"], v["where"])
                if sig in seen or reported >= 3: continue
                seen.add(sig); desc = "%s: %s at %s" % (v["kind"], v["msg"], v["where"])
                k = next((k for k in known if k["entry"] == e["entry"] and re.search(k["match"], desc)), None)
                if k: suppressed.append(k["text"]); continue
                ok, how, path = confirm(work, prop, e, m, v, m["flags"], len(seen), exe, m["bc"])
                if ok:
                    reported += 1; print("  counterexample (%s): %s [%s]" % (e["entry"], desc, how)); print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                else: unconfirmed.append("%s: %s [%s]" % (e["entry"], desc, how))
        for e, c, fl in jobs:
            if "runner" in e: m = __import__(e["runner"]).run(exe, work, e, c, bcs[(e["src"], c, tuple(fl))], prop, TIER, JOBS)
            else: m = run_entry(exe, work, e, c, bcs[(e["src"], c, tuple(fl))], prop)
            m["flags"] = fl; m["bc"] = bcs[(e["src"], c, tuple(fl))]
            runs.append(m)
            if m["rc"] not in (0,): bad += 1; notes.append("entry %s: engine exit %s %s" % (e["entry"], m["rc"], m["log"]))
            missing = [r for r in e.get("reach", []) if r not in m["reach"]]
            if missing: notes.append("entry %s: not reached within the budget: %s" % (e["entry"], ", ".join(missing)))
            print("[%s] %s/%s: %d paths, %d instructions, %d queries (%.1f s solver), %d assertions, %s%s, %.1f s" % (prop, m["entry"], c, m["paths"], m["instructions"], m["queries"], m["solver_ms"] / 1000, m["checks"], "complete within bounds" if m["exhaustive"] else "partial (%d truncated, %d unsupported)" % (m["truncated"], m["unsupported"]), ", %d violation(s)" % m["violations_total"] if m["violations_total"] else "", m["seconds"]), flush=True)
            for u, n in m["unsup"].items(): print("    note: %s x%d" % (u, n))
            judge(e, m)
            if reported: notes.append("stopped after the first entry that showed a violation"); break
            if TIER == "quick" and time.time() - t0 > 780: notes.append("stopped before every entry had run: out of time"); break
        for f in pre: f.result()
    # validate the encoding: solver models of passing paths must replay cleanly on the real code
    for m in runs:
        if (m["threads"] and m.get("replay") != "native") or m["violations_total"] or m.get("no_native"): continue
        x = native(work, m["src"], m["flags"], "asan")
        if not x: continue
        for i, s in enumerate(m["samples"][:2]):
            vf = os.path.join(work, "sample"); write_values(vf, s, m["params"]); rc, out = run_native(x, m["entry"], vf, 0, 30)
            if rc == 0: validated += 1
            elif rc == 98: pass
            else: diverged += 1; notes.append("model of a passing path of %s fails natively (exit %d): %s" % (m["entry"], rc, out[-300:]))
    for t in sorted(set(suppressed)): print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for u in unconfirmed: print("  unconfirmed candidate, not reported: " + u)
    if unconfirmed: notes.append("candidates the replay did not reproduce (not reported): " + " | ".join(unconfirmed[:5]))
    for n in notes: print("  note: " + n[:600])
    evidence(prop, spec, runs, t0, reported, validated, notes)
    print("[%s] %s in %.1f s (%d sampled models replayed natively)" % (prop, "VIOLATED" if reported else "held", time.time() - t0, validated))
    if reported: return 1
    if runs and bad == len(runs): return 2
    return 0

if __name__ == "__main__": sys.exit(main())
