#!/usr/bin/env python3
"""mut.py WORKER SEED N JOBS [filefilter...]: random source mutants of a copy of /repo, run against the checks of the file"""
import sys,os,re,random,subprocess,json,time,shutil
w,seed,n,jobs=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]; filt=sys.argv[5:]
R=f"/tmp/mut/r{w}"; V=f"/tmp/mut/v{w}"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.exists(R): sh(f"git clone -q /tmp/rw {R}")
sh(f"git -C {R} fetch -q /tmp/rw HEAD && git -C {R} reset -q --hard FETCH_HEAD")
sh(f"mkdir -p {V} && rsync -a --delete --exclude build --exclude evidence --exclude .git --exclude seeded /tmp/vw/ {V}/ || (cp -r /verif/harness /verif/*.py /verif/tools /verif/known_findings.txt /verif/properties.jsonl {V}/)")
os.makedirs(V+"/evidence",exist_ok=True)
F="anifem++/fem/"
MAP=[(r"quadrature",["Q01"]),(r"tetdofmap",["D01","D02","D03","B01"]),(r"spaces/",["S01","S03","S04","S02"]),(r"fem/operators",["S01","A01","S02"]),
(r"fem_space",["S02","S04","S01","S03","A06"]),(r"operations/core",["A01","A04","A05","A06","A02","A03","S01"]),(r"int_tet",["A01","A04","A05","A06"]),(r"int_face",["A02","A04","A05","A06"]),
(r"int_edge",["A03","A04","A05","A06"]),(r"int_pnt",["A03","A04","A05","A06"]),(r"dyn_ops",["A01","A02","A03","A05","A06","M02"]),(r"operations/eval",["A07","A06"]),(r"interpolate",["S04"]),(r"dc_on_dof",["B02","B01"]),
(r"diff_tensor",["A04","G01","A01"]),(r"fem_memory.h",["M01","A05","A06"]),(r"fem_memory_parallel|mutex_type",["M02"]),(r"expr_interface",["S03"]),(r"geometry",["G02","A02","G01"]),
(r"physical_tensors",["T02"]),(r"cauchy",["T03","T01"]),(r"autodiff/autodiff",["T01"]),(r"interval/interval_map",["I01","I02"]),(r"interval/",["I03"])]
files=[f for f in sh(f"cd {R} && find anifem++/fem anifem++/autodiff anifem++/interval -name '*.h' -o -name '*.inl' -o -name '*.cpp' | grep -v 'fem/\\(fem\\|assembl\\)'").stdout.split()]
files=sorted(set(sh(f"cd {R} && find anifem++/fem anifem++/autodiff anifem++/interval -type f \\( -name '*.h' -o -name '*.inl' -o -name '*.cpp' \\)").stdout.split()))
OPS=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r"(?<=[\w\])]) \+ (?=[\w(])"," - "),(r"(?<=[\w\])]) - (?=[\w(])"," + "),(r"(?<=[\w\])])\+(?=[\w(])","-"),(r"(?<=[\w\])])-(?=[\w(])","+"),(r"\+= ","= "),(r"\+= ","-= "),(r"-= ","+= "),(r" && "," || "),(r" \|\| "," && "),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"(?<![\w.\[<])(\d)(?![\w.>])",None),(r"\[(\d)\]","IDX"),(r"(?<=[\w\])])\*(?=[\w(])","+"),(r"(?<=[\w\])]) \* (?=[\w(])"," + "),(r"(?<=[\w\])])/(?=[\w(])","*"),(r"\(i, ?j\)","(j, i)"),(r"\bnRow\b","nCol"),(r"\bnCol\b","nRow"),(r"std::min\b","std::max"),(r"std::max\b","std::min"),(r"\bbreak;","{}"),(r"\bcontinue;","{}"),(r"if \(","if (!("),(r"^(\s+)[\w>\[\].()+*/, -]+ [+\-*]?= [^;]*;\s*$","DEL"),(r"^(\s+)[\w.>:-]+\([^;]*\);\s*$","DEL"),(r"\+\+(?=\w)",""),(r"i \+ 1\b","i"),(r"lower_bound","upper_bound"),(r"upper_bound","lower_bound")]
rng=random.Random(seed)
def cands(f):
    out=[]
    incom=False; text=open(f"{R}/{f}").read().split("\n")
    for ln,l in enumerate(text):
        s=l.strip()
        if s.startswith("/*"): incom=True
        if incom:
            if "*/" in s: incom=False
            continue
        if s.startswith(("//","#","*","template","using","static_assert","assert","throw")) or not s: continue
        if "assert(" in s or "throw " in s or "runtime_error" in s: continue
        code=l.split("//")[0]
        for oi,(p,r) in enumerate(OPS):
            for m in re.finditer(p,code):
                out.append((ln,oi,m.start()))
    return text,out
def apply(text,c):
    ln,oi,st=c; p,r=OPS[oi]; l=text[ln]; m=re.compile(p).search(l,st) if not p.startswith("^") else re.match(p,l)
    if r is None: d=int(m.group(1)); new=str(d+1 if rng.random()<.6 or d==0 else d-1)
    elif r=="IDX": d=int(m.group(1)); new="[%d]"%(d+1 if rng.random()<.4 or d==0 else d-1)
    elif r=="DEL": return ln, m.group(1)+";"
    elif r=="if (!(":
        # negate the condition up to the matching parenthesis
        i=m.end()-1; dep=0
        for j in range(i,len(l)):
            dep+=(l[j]=="(")-(l[j]==")")
            if dep==0: break
        else: return None
        return ln, l[:i]+"(!"+l[i:j+1]+")"+l[j+1:]
    else: new=m.expand(r) if "\\" in r else r
    return ln, l[:m.start()]+new+l[m.end():]
pool=[]
for f in files:
    props=next((p for r,p in MAP if re.search(r,f)),None)
    if not props: continue
    if filt and not any(re.search(x,f) for x in filt): continue
    t,c=cands(f); rng.shuffle(c)
    pool.append((f,props,t,c))
log=open(f"/tmp/mut/log{w}.txt","a")
done=0
# files weighted by sqrt of size
weights=[len(p[3])**.6 for p in pool]
while done<n:
    f,props,t,c=rng.choices(pool,weights)[0]
    if not c: continue
    a=apply(t,c.pop())
    if not a or a[1]==t[a[0]] or "default" in a[1] or "= 0;" in t[a[0]] and "virtual" in t[a[0]] or "virtual" in t[a[0]] and t[a[0]].strip().endswith("= 0;"): continue
    tt=list(t); tt[a[0]]=a[1]; open(f"{R}/{f}","w").write("\n".join(tt))
    res="SURVIVED"; t0=time.time(); killer=""
    for p in props:
        r=sh(f"VERIF_JOBS={jobs} VERIF_REPO={R} timeout 900 python3 {V}/run.py {p}",cwd=V)
        if r.returncode==1 and "VIOLATION" in r.stdout: 
            res="killed"; killer=p+" "+next((l for l in r.stdout.splitlines() if "FAIL" in l or "VIOLATION" in l),"")[:100]; break
        if r.returncode!=0: res="nocompile" if "uild" in r.stdout+r.stderr or "error" in r.stdout+r.stderr else f"rc{r.returncode}"; break
    open(f"{R}/{f}","w").write("\n".join(t))
    if res=="nocompile": continue
    done+=1
    log.write(f"{res} {f}:{a[0]+1} {time.time()-t0:.0f}s {killer}\n    - {t[a[0]].strip()}\n    + {a[1].strip()}\n"); log.flush()
