"""Replays of concurrent counterexamples on the compiled library: harness/rt.cpp takes the place of a thread sanitizer's runtime."""
import hashlib, os, subprocess
import rc11
_built = {}
def _sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env); return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t: return 124, (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
def build(work, ROOT, REPO, src, flags):
    key = (src, tuple(flags))
    if key in _built: return _built[key]
    o = os.path.join(work, "rt_" + hashlib.md5(repr(key).encode()).hexdigest()[:8]); env = {**os.environ, "COECS_REPO": REPO}; log = ""
    steps = [[os.path.join(ROOT, "lib", "compile.sh"), os.path.join(ROOT, "harness", src), o + ".bc", "-include", os.path.join(ROOT, "harness", "rt_shim.hpp")] + flags,
             ["opt", "-passes=forceattrs,tsan-module,function(tsan)", "-force-attribute=sanitize_thread", o + ".bc", "-o", o + ".i.bc"],
             ["clang++", "-w", "-c", "-O0", "-g", o + ".i.bc", "-o", o + ".o"],
             ["clang++", "-std=c++20", "-O1", "-g", "-w", "-I", os.path.join(ROOT, "harness"), os.path.join(ROOT, "harness", "rt.cpp"), os.path.join(ROOT, "harness", "replay.cpp"), o + ".o", "-o", o, "-rdynamic", "-ldl", "-pthread"]]
    for c in steps:
        rc, log = _sh(c, 300, env)
        if rc: print("check: replay build failed:", " ".join(c[:3]), log[-1500:]); _built[key] = None; return None
    _built[key] = o; return o
def replay(work, ROOT, REPO, e, m, v, flags, vf):
    exe = build(work, ROOT, REPO, e["src"], flags); w = v.get("witness"); script = vf + (".execution" if w else ".schedule")
    with open(script, "w") as f:
        if w:
            f.write("claim %s\n" % v["kind"])
            for i in w["events"]: f.write("event %d %s %d %d %d %d %d   # %s %s\n" % (i["th"], i["type"], i["loc"], i["rf"], i["mo"], i["local"], 1 if (i["ord"] and i["type"] in "RWUF") else 0, i["where"], "read %d wrote %d" % (i["rval"], i["wval"])))
        else: f.write("claim %s\n" % v["kind"] + "schedule " + " ".join(map(str, v["schedule"])) + "\n")
    if w:
        bad = rc11.check(w, v["kind"], w["threads"])
        if bad: return False, "the witness execution is not one the C++ memory model allows: " + bad, script
    if not exe: return False, "replay could not be built", script
    rc, out = _sh([exe, e["entry"], vf], 60, {**os.environ, "CS_SCRIPT": script})
    with open(script, "a") as f: f.write("".join("# native: " + l + "\n" for l in out.splitlines()[:25]))
    line = next((l.strip() for l in out.splitlines() if "REPLAY-" in l or "terminate called" in l), "")
    if rc in (0, 98, 99) or (not line and rc != 124): return False, "the compiled code did not show it under this %s (exit %d %s)" % ("execution" if w else "schedule", rc, line), script
    if rc == 124 and v["kind"] != "steps": return False, "the compiled code did not finish under this schedule", script
    return True, "compiled code under this %s%s: %s" % ("execution" if w else "schedule", ", which an independent check of the C++ memory model accepts" if w else "", line or ("exit %d" % rc)), script
