#!/usr/bin/env python3
"""Validates planted changes: seedtest.py [--nobuild] [--nocheck] ID...
In a scratch copy of /repo: patch applies, builds, stable tests pass, demo passes without and fails with it, then runs the check of its property against the copy."""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
def sh(c, cwd=None, env=None, t=1800):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    opts = [a for a in sys.argv[1:] if a.startswith("--")]; ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for i in ids:
        d = f"{V}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
        if os.path.exists(S): shutil.rmtree(S)
        sh(f"git clone -q /repo {S}")
        demo = f"/tmp/seeddemo"; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
        r0 = sh(f"timeout 300 bash {demo}/demo.sh", cwd=S)
        a = sh(f"git apply {d}/patch.diff", cwd=S)
        if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
        r1 = sh(f"timeout 300 bash {demo}/demo.sh", cwd=S)
        res = f"{i} [{prop}] demo clean={r0.returncode} patched={r1.returncode}"
        if r0.returncode or not r1.returncode: res += "  BAD DEMO\n" + r0.stdout[-1500:] + "\n--\n" + r1.stdout[-800:]
        if "--nobuild" not in opts:
            b = sh(f"git apply {d}/patch.diff && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; echo rc=$?; bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1; git checkout -- .", cwd="/repo")
            ok = "rc=0" in b.stdout; 
            try:
                t = json.load(open("/tmp/seedt.json")); base = json.load(open("/opt/vp/BASELINE.json"))
                res += f" build={'ok' if ok else 'FAIL'} failed_tests={[x for x in t['failed']]}"
            except Exception as e: res += f" tests? {e}"
        if "--nocheck" not in opts:
            t0 = time.time(); env = dict(os.environ, COECS_REPO=S)
            c = sh(f"timeout 900 python3 {V}/lib/check.py {prop}", cwd=V, env=env)
            res += f" check rc={c.returncode} {time.time()-t0:.0f}s " + " | ".join(l for l in c.stdout.splitlines() if "VIOLATION" in l)[:200]
        print(res, flush=True)
    shutil.rmtree(S, ignore_errors=True)
main()
