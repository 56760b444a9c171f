#!/usr/bin/env python3
"""sgm.py PKG 'FN a b' 'FN a' ... : development aid, runs jobs and prints one line per job."""
import sys,os,json,tempfile,subprocess
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"bin"))
sys.argv,args=[sys.argv[0],"-","-"],sys.argv[1:]
import importlib.util
V="/verif"
env=dict(os.environ,HOME="/root",GOROOT="/opt/veriftools/go1.27.3",GOTOOLCHAIN="local",GOPATH="/root/go",GOFLAGS="-mod=mod",GOPROXY="off",GOWORK="off",GOSUMDB="off")
env["PATH"]="/opt/veriftools/go1.27.3/bin:"+env["PATH"]
pkg=args[0]; T=int(os.environ.get("T","120"))
jobs=[]
for a in args[1:]:
    w=a.split(); jobs.append(dict(pkg="verif/"+(w.pop(0) if pkg=="-" else pkg),fn=w.pop(0),args=[int(x) for x in w],timeout=T,samples=3,maxviol=int(os.environ.get("V","4"))))
d=tempfile.mkdtemp(); json.dump(jobs,open(d+"/j","w"))
r=subprocess.run([V+"/build/symgo","-dir",os.environ.get("DIR",V+"/harness"),"-jobs",d+"/j","-out",d+"/o","-deadline",str(T*len(jobs))]+os.environ.get("X","").split(),env=env,capture_output=True,text=True)
if not os.path.exists(d+"/o"): print(r.stderr[-3000:]); sys.exit(1)
for j in json.load(open(d+"/o"))["results"]:
    print((j["job"]["pkg"][6:]+" " if pkg=="-" else "")+"%-24s paths %d%s wall %.1f q %d aq %d sol %.1f %s %s %s %s"%(j["job"]["fn"]+" "+" ".join(map(str,j["job"]["args"])),j["paths"],"" if j["complete"] else " INCOMPLETE pend=%d"%j["pending"],j["wall_s"],j["queries"],j["assert_queries"],j["solver_s"],j["reach"] or "",j["unsupported"] or "",j["unknown"] or "",j["limits"] or ""))
    for v in j["violations"] or []:
        ins=v.get("inputs") or []
        print("     !!",v["kind"],v["label"],(v.get("msg") or "")[:120],bytes(x&255 for x in ins),ins[:8],(v.get("where") or "")[:200] if "W" in os.environ else "")
subprocess.run(["rm","-rf",d])
