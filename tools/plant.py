#!/usr/bin/env python3
"""plant.py ID [-t] [check ids...]: validates /verif/seeded/ID in a scratch copy of /repo and runs checks on it.
-t: also run the stable tests.  Development tool; no check uses it."""
import sys, os, subprocess, json, tempfile, shutil
args=sys.argv[1:]; tests='-t' in args; args=[a for a in args if a!='-t']
bid=args[0]; checks=args[1:]
d=f"/verif/seeded/{bid}"; w=f"/tmp/w/plant_{bid}"
shutil.rmtree(w,ignore_errors=True)
subprocess.check_call(["cp","-a","/repo",w])
env=dict(os.environ); env.update(HOME="/root",GOFLAGS=f"-mod=mod -modfile={w}.mod",GOPROXY="off",GOTOOLCHAIN="local",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
shutil.copy("/repo/go.mod",w+".mod"); shutil.copy("/opt/vp/fast-ksw.sum",w+".sum")
def demo():
    e=dict(env); e.pop("GOFLAGS")
    return subprocess.run(["bash",d+"/demo.sh"],cwd=w,env=e,capture_output=True,text=True,timeout=300)
r=demo(); print("demo clean:",r.returncode, (r.stdout+r.stderr)[-300:] if r.returncode else "")
subprocess.check_call(["git","-C",w,"apply",d+"/patch.diff"])
b=subprocess.run(["go","build","./..."],cwd=w,env=env,capture_output=True,text=True); print("build:",b.returncode,b.stderr[-500:])
r=demo(); print("demo bug:",r.returncode,(r.stdout+r.stderr)[-300:])
if tests:
    base=json.load(open("/opt/vp/BASELINE.json")); stable=base.get("stable") or base.get("passed") or base
    stable=set(stable)
    pk=[p for p in subprocess.check_output(["go","list","./..."],cwd=w,env=env,text=True).split() if not p.endswith("/fckks")]
    ps=[subprocess.Popen(c,cwd=w,env=env,stdout=open(f"{w}.t{i}","w"),stderr=subprocess.DEVNULL) for i,c in enumerate([["go","test","-json","-vet=off","-count=1","-timeout","10m"]+pk,["go","test","-json","-vet=off","-count=1","-timeout","10m","./ring","-args","-long"]])]
    for p in ps: p.wait()
    subprocess.run(["python3","/opt/vp/results.py",w+".json",f"gojson:{w}.t0",f"gojson:{w}.t1"])
    res=json.load(open(w+".json")); ok=set(res["passed"])
    miss=sorted(stable-ok); print("stable tests missing:",len(miss),miss[:5])
for c in checks:
    e=dict(os.environ); e["VERIF_REPO"]=w
    if not os.path.exists("/tmp/w/chk"): sys.exit("build /tmp/w/chk first")
    e["VERIF_DIR"]="/tmp/w/vd"; os.makedirs("/tmp/w/vd/evidence",exist_ok=True)
    for x in ("spec","checker","known-findings.txt"):
        t="/tmp/w/vd/"+x
        if not os.path.lexists(t): os.symlink("/verif/"+x,t)
    r=subprocess.run(["/tmp/w/chk","check",c],env=dict(e,GOGC="400",GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"]),capture_output=True,text=True)
    print("==",c,"rc",r.returncode); print("\n".join(r.stdout.splitlines()[-8:])[:1500], r.stderr[-400:])
shutil.rmtree(w,ignore_errors=True)
for x in (".mod",".sum",".t0",".t1",".json"):
    try: os.remove(w+x)
    except FileNotFoundError: pass
