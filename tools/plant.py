#!/usr/bin/env python3
"""plant.py ID [--new PROP 'needs' 'breaks'] : confirm a planted bug and run its property's check against it.
--new: take the current diff of /repo as the patch (and undo it)."""
import sys, os, subprocess, json
import os; R=os.environ.get("PR","/repo"); V=os.environ.get("PV","/verif"); VP=os.environ.get("PVP","/opt/vp"); i=sys.argv[1]; d=f"{V}/seeded/{i}"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if "--new" in sys.argv:
    k=sys.argv.index("--new"); p=sh(f"git -C {R} diff").stdout; assert p.strip(), "no diff in /repo"
    os.makedirs(d,exist_ok=True); open(d+"/patch.diff","w").write(p); json.dump({"property":sys.argv[k+1],"needs":sys.argv[k+2],"what_it_breaks":sys.argv[k+3]},open(d+"/meta.json","w"),indent=1)
    sh(f"git -C {R} checkout -- .")
assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "dirty /repo"
prop=json.load(open(d+"/meta.json"))["property"]; ok=True
def demo(): 
    import tempfile,shutil
    t=tempfile.mkdtemp(prefix="demo"); shutil.copytree(d,t+"/x"); [os.remove(t+"/x/"+f) for f in ("patch.diff","meta.json")]
    r=sh(f"timeout 300 bash {t}/x/demo.sh",cwd=R); shutil.rmtree(t); return r
sh(f"bash {VP}/build.sh"); r=demo(); print("demo clean:",r.returncode, (r.stdout+r.stderr).strip()[-300:]); ok&=r.returncode==0
try:
    a=sh(f"git -C {R} apply {d}/patch.diff"); assert a.returncode==0,a.stderr
    b=sh(f"bash {VP}/build.sh"); print("build:",b.returncode, b.stderr[-500:] if b.returncode else ""); ok&=b.returncode==0
    t=sh(f"bash {VP}/test.sh /tmp/plant.json"); print("tests:",t.stdout.strip().splitlines()[-1]); ok&="73 passed, 0 failed" in t.stdout
    r=demo(); print("demo bug:",r.returncode,(r.stdout+r.stderr).strip()[-300:]); ok&=r.returncode!=0
    if ok and "--nocheck" not in sys.argv:
        c=sh(f"VERIF_REPO={R} python3 {V}/run.py {prop}",cwd=V); print("check:",c.returncode); print("\n".join(l[:220] for l in c.stdout.splitlines()[:8]))
finally:
    sh(f"git -C {R} checkout -- ."); sh(f"bash {VP}/build.sh")
print(i, prop, "VALID" if ok else "NOT VALID")
