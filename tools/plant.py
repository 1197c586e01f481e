import sys, os, json, subprocess, shutil, importlib.util
R="/tmp/zr"
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod")
base=json.load(open("/opt/vp/BASELINE.json"))
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
def reset(): sh("git checkout -q -- . && git clean -fdq && git reset -q --hard $(git -C /repo rev-parse HEAD)",R)
def plant(b, run=True):
    reset()
    for f,old,new in b["edits"]:
        p=os.path.join(R,f); s=open(p).read()
        assert s.count(old)==1,(b["id"],f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    sh("gofmt -l .",R)
    r=sh("go build ./... && go vet ./internal/... 2>/dev/null; go build ./...",R)
    if r.returncode: print(b["id"],"BUILD",r.stderr[-800:]); return
    r=sh("go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/zr.log",R)
    ok=set();bad=set()
    for l in open("/tmp/zr.log"):
        try:e=json.loads(l)
        except: continue
        if e.get("Test"):
            if e["Action"]=="fail": bad.add(e["Test"])
    if os.path.exists("/tmp/basefail"): known=set(open("/tmp/basefail").read().split())
    else: known=set()
    if bad-known: print(b["id"],"TESTS FAIL",bad-known); return
    d="/verif/seeded/"+b["id"]; os.makedirs(d,exist_ok=True)
    diff=sh("git diff",R).stdout
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.go","w").write(b["demo"])
    shutil.copy("/tmp/seedlib/lib.go",d); shutil.copy("/tmp/seedlib/demo.sh",d)
    if b.get("sh"): open(d+"/demo.sh","w").write(b["sh"])
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    c=sh("bash %s/demo.sh"%d,"/repo"); p=sh("bash %s/demo.sh"%d,R)
    print(b["id"],"clean",c.returncode,"patched",p.returncode,(p.stdout+p.stderr)[-200:].replace("\n"," | "))
    if c.returncode: print(c.stdout[-500:],c.stderr[-800:])
    if run and c.returncode==0 and p.returncode: 
        q=subprocess.run(["python3","/verif/check.py",b["property"]],env=dict(os.environ,VERIF_REPO=R),capture_output=True,text=True)
        print("   CHECK",q.returncode,(q.stdout+q.stderr).strip().split("\n")[-1][:160], "|", (q.stdout.strip().split("\n")[0])[:260])
if __name__=="__main__":
    spec=importlib.util.spec_from_file_location("b",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want=sys.argv[2:]
    for b in m.BUGS:
        if not want or b["id"] in want: plant(b)
    reset()
