#!/usr/bin/env python3
"""variants.py [-j N] [NAME...]  run all checks on the refactorings (development tool)."""
import os, sys, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO="/repo"; BIN=os.environ.get("BTCCHECK","/verif/.build/btccheck")
def sh(c, cwd=None, t=600):
    return subprocess.run(["bash","-c",". /opt/vp/env.sh; "+c],cwd=cwd,capture_output=True,text=True,timeout=t)
def prepare(edits, dst):
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git"))
    for f,old,new in edits:
        p=os.path.join(dst,f); s=open(p).read()
        if old not in s: return "old text not in "+f+": "+old[:80]
        open(p,"w").write(s.replace(old,new,1))
    sh("goimports -w *.go",dst)
    for _ in range(1):
        r=sh("go vet . 2>&1 | grep -v '^#' | head -5; go build ./...",dst)
        if r.returncode: return "build: "+r.stderr[:500]
    r=sh("go test ./... 2>&1 | tail -15",dst)
    if "ok " not in r.stdout: return "tests: "+r.stdout[-500:]
    return None
def run(name, edits, props=()):
    d=tempfile.mkdtemp(prefix="var-"); dst=d+"/repo"
    try:
        e=prepare(edits,dst)
        if e: return name,"BROKEN "+e,""
        r=sh("GOMAXPROCS=2 %s -all -repo %s %s"%(BIN,dst,"") if not props else "GOMAXPROCS=2 %s -repo %s -all %s"%(BIN,dst," ".join(props)))
        v=re.findall(r"^(VIOLATED|undecided|ERROR)\s+(C\d+)",r.stdout,re.M)
        n=len(re.findall(r"^ok\s+C",r.stdout,re.M))
        return name," ".join("%s:%s"%(b,a[0]) for a,b in v)+(" ok=%d"%n),r.stdout
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=="__main__":
    from refactorings import REF
    import refactorings2
    for n in refactorings2.REF2: REF["2-"+n]=refactorings2.edits(n)
    import refactorings3
    for n in refactorings3.REF3: REF["3-"+n]=refactorings3.REF3[n]
    import refactorings4
    for n in refactorings4.REF4: REF["4-"+n]=refactorings4.REF4[n]
    a=sys.argv[1:]; j=2
    if a and a[0]=="-j": j=int(a[1]); a=a[2:]
    verbose="-v" in a; a=[x for x in a if x!="-v"]
    names=[n for n in REF if not a or any(n.startswith(x[1:]) if x[0]=="^" else x in n for x in a)]
    bad=0
    with ThreadPoolExecutor(j) as ex:
        for name,res,out in ex.map(lambda n:run(n,REF[n]),names):
            print("%-32s %s"%(name,res),flush=True)
            if res!=" ok=26": bad+=1
            if verbose: print("\n".join(l[:400] for l in out.split("\n") if not l.startswith("ok ")))
    print(len(names),"variants,",bad,"not quiet")
