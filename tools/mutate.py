#!/usr/bin/env python3
"""Mutation runs: mutate.py SLOT PER_FILE FILE...   (FILE relative to include/co_ecs; results appended to /tmp/mutate.SLOT.log)
Deletes statements, swaps operators, drops negations, weakens memory orders in one header at a time of a scratch clone of /repo, and runs
the quick checks of the properties that depend on the file against the clone. `mutate.py --survivors LOG...` lists what no check noticed.
Nothing registered in MANIFEST.json uses this."""
import re,os,sys,subprocess,json,random,time,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES={"detail/handle.hpp":["C01","C09","C21"],"base_registry.hpp":["C02","C06","C07","C01","C03","C21","C22"],"registry.hpp":["C05","C02"],"entity_ref.hpp":["C02","C06","C07","C03"],"archetype.hpp":["C02","C04","C05","C06","C07"],"chunk.hpp":["C02","C03","C04","C05","C07"],"command.hpp":["C08"],"component.hpp":["C20"],"type_meta.hpp":["C20","C03"],"detail/dynamic_bitset.hpp":["C17"],"detail/hash_table.hpp":["C15"],"detail/sparse_table.hpp":["C16"],"detail/allocator/linear_allocator.hpp":["C18"],"detail/allocator/stack_allocator.hpp":["C19"],"detail/allocator/temp_allocator.hpp":["C14","C08"],"view.hpp":["C05","C21"],"detail/work_stealing_queue.hpp":["C12"],"thread_pool/task.hpp":["C13"],"thread_pool/thread_pool.hpp":["C13","C14"],"thread_pool/parallel_for.hpp":["C14"],"system/access.hpp":["C10"],"system/schedule.hpp":["C11"],"system/stage.hpp":["C11","C10"],"system/system.hpp":["C11","C10"]}
def mutants(f):
    L=open("/repo/include/co_ecs/"+f).read().split("\n"); out=[]
    for n,l in enumerate(L):
        s=l.strip()
        if not s or s.startswith(("//","#","*","/*","using","template","public","private","friend","namespace","static_assert","assert")): continue
        code=l.split("//")[0]; com=l[len(code):]
        def add(new,what):
            if new!=code: out.append((n,new+com,what))
        if code.rstrip().endswith(";") and not re.match(r"\s*(return|const|auto|constexpr|static|size_t|std::|struct|class|typename|[\w:<>]+[&*]? \w+(\{.*\})?;)",code) and code.count("(")==code.count(")") : add(re.match(r"\s*",code).group(0)+";","delete statement")
        for a,b in [(" < "," <= "),(" <= "," < "),(" > "," >= "),(" >= "," > "),(" == "," != "),(" != "," == "),(" && "," || "),(" || "," && "),(" + 1"," "),(" - 1"," "),(" + "," - "),(" - "," + "),("++","--"),("true","false"),("false","true"),("acquire","relaxed"),("release","relaxed"),("acq_rel","relaxed"),("seq_cst","relaxed"),("std::move(",  "("),(" & "," | "),(" | "," & "),(" ? "," ? !"),(" += "," -= "),(" -= "," += ")]:
            for m in re.finditer(re.escape(a),code): add(code[:m.start()]+b+code[m.end():],"%s -> %s"%(a,b))
        for m in re.finditer(r"!(?=[\w(])",code): add(code[:m.start()]+code[m.end():],"drop !")
        m=re.match(r"(\s*(?:\} else )?if )\((?!constexpr)(.*)\) \{\s*$",code)
        if m: add(m.group(1)+"(true) {","if true"); add(m.group(1)+"(false) {","if false")
    return L,out
def run(f,n,new,what,L,slot,log):
    R="/tmp/rm%d"%slot
    if not os.path.exists(R): subprocess.run("git clone -q /repo "+R,shell=True)
    subprocess.run("git checkout -q -- .",shell=True,cwd=R)
    M=list(L); M[n]=new; open(R+"/include/co_ecs/"+f,"w").write("\n".join(M))
    res={"file":f,"line":n+1,"what":what,"old":L[n].strip(),"new":new.strip(),"r":{}}
    # must compile with the repository's own tests' headers
    t="/tmp/rm%d.cpp"%slot; open(t,"w").write("#include <co_ecs/co_ecs.hpp>\n#include <co_ecs/command.hpp>\n#include <co_ecs/system/schedule.hpp>\n#include <co_ecs/detail/hash_map.hpp>\n#include <co_ecs/detail/sparse_map.hpp>\n#include <co_ecs/detail/allocator/temp_allocator.hpp>\n")
    p=subprocess.run("clang++ -std=c++20 -w -fsyntax-only -I %s/include %s"%(R,t),shell=True,capture_output=True)
    if p.returncode: return None
    for prop in FILES[f]:
        t0=time.time(); p=subprocess.run("timeout 900 python3 %s/lib/check.py %s"%(V,prop),shell=True,capture_output=True,text=True,env=dict(os.environ,COECS_REPO=R,COSYM_JOBS="4"))
        res["r"][prop]=(p.returncode,round(time.time()-t0))
        res.setdefault("note",[]).extend([x.strip()[:300] for x in p.stdout.splitlines() if "unconfirmed" in x or "does not compile" in x])
        if p.returncode!=0: break
    open(log,"a").write(json.dumps(res)+"\n"); return res
if __name__=="__main__":
    if sys.argv[1] == "--survivors":
        for l in (l for p in sys.argv[2:] for l in open(p)):
            d = json.loads(l)
            if not any(v[0] == 1 for v in d["r"].values()): print(d["file"], d["line"], d["what"], d["r"], "|", d["old"], "=>", d["new"])
        sys.exit(0)
    slot=int(sys.argv[1]); per=int(sys.argv[2]); fs=sys.argv[3:]
    random.seed(7)
    for f in fs:
        L,ms=mutants(f); random.shuffle(ms); done=0
        for n,new,what in ms:
            if done>=per: break
            if run(f,n,new,what,L,slot,"/tmp/mutate.%d.log"%slot): done+=1
