#!/usr/bin/env python3
"""Build the explorer of one property from /repo's working tree, run it exhaustively
over its bounded space (sharded over processes), replay every violation alone, and
write evidence/<id>.json.   usage: check.py <property> [quick|thorough] [--only KEY]
exit 0: held on everything explored; exit 1: VIOLATION line; 2: error of the check."""
import os,sys,re,json,subprocess,time,glob,shutil,fcntl
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
sys.path.insert(0,os.path.join(V,"tools"))
from targets import HARNESS,PROPS,KNOWN
BUILD=os.environ.get("VERIF_BUILD",os.path.join(V,"build"))
CXX=os.environ.get("VERIF_CXX") or next(c for c in("g++-14","g++-13","g++") if shutil.which(c))
NPROC=os.cpu_count() or 4

def say(*a): print(*a,flush=True)
def die(msg):
    say("ERROR:",msg); sys.exit(2)

def has_main(p):
    with open(p,errors="replace") as f: return re.search(r"^\s*int\s+main\s*\(",f.read(),re.M) is not None

GROUPS={
 "core":["libhelfem/src"], "qc":["libhelfemqc/src"], "legendre":["src/legendre"],
 "general":["src/general"], "atomic":["src/atomic"], "sadatom":["src/sadatom"], "diatomic":["src/diatomic"],
}
def sources(groups):
    out=[]
    for g in groups:
        if "/" in g: out.append(os.path.join(REPO,g)); continue
        for d in GROUPS[g]:
            for p in sorted(glob.glob(os.path.join(REPO,d,"*.cpp"))):
                if os.path.basename(p)=="atomdb_data.cpp" or p.endswith("src/general/RadialPotential.cpp"): continue # generated / not part of the build
                if has_main(p): continue
                out.append(p)
        if g=="general": out.append(os.path.join(V,"shims/atomdb_data.cpp"))
    # files that a change adds beside the ones named one by one (linked only where needed)
    for d in sorted({os.path.dirname(g) for g in groups if "/" in g}):
        for p in sorted(glob.glob(os.path.join(REPO,d,"*.cpp"))):
            if os.path.relpath(p,REPO) not in KNOWN and p not in out and not has_main(p): out.append(p)
    return out

def ninja_for(h):
    spec=HARNESS[h]; variant=spec.get("variant","std")
    bd=os.path.join(BUILD,variant); os.makedirs(bd,exist_ok=True)
    inc=os.path.join(BUILD,"inc"); os.makedirs(inc,exist_ok=True)
    src=open(os.path.join(REPO,"libhelfem/include/helfem.source.h")).read().replace("${LIBHELFEM_VERSION}","verif")
    hp=os.path.join(inc,"helfem.h")
    if not os.path.exists(hp) or open(hp).read()!=src: open(hp,"w").write(src)
    base={"std":"-O1 -std=gnu++20 -fopenmp -include %s/harness/eigen_throw.h"%V,
          "quad":"-O1 -std=gnu++23 -DHELFEM_HAVE_FLOAT128 -fopenmp -include %s/harness/eigen_throw.h"%V,
          "race":"-O2 -std=gnu++20 -fopenmp -fsanitize=thread -g1 -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_PARALLELIZE -DNDEBUG"}[variant]
    incs="-I%s/harness -I%s/shims -I%s -I%s/libhelfem/include -I%s/libhelfemqc/include -I%s/libhelfem/src -I%s/src -I%s/src/general -I/usr/include/hdf5/serial -isystem /usr/include/eigen3"%(V,V,inc,REPO,REPO,REPO,REPO,REPO)
    n=["ninja_required_version = 1.3",
       "rule cxx\n  command = %s -w -fdiagnostics-color=never -MMD -MF $out.d %s %s $x -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in"%(CXX,base,incs),
       "rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out",
       "rule link\n  command = %s $ldpre -o $out $in $ld\n  description = LINK $out"%CXX]
    objs=[]
    for s in sources(spec["libs"]):
        o=os.path.join("obj",os.path.relpath(s,"/").replace("/","_")+".o"); objs.append(o)
        n.append("build %s: cxx %s"%(o,s))
    lib="lib_%s.a"%h
    n.append("build %s: ar %s"%(lib," ".join(objs)))
    hob="obj/harness_%s.o"%h
    n.append("build %s: cxx %s/harness/%s.cpp\n  x = %s"%(hob,V,spec.get("src",h),spec.get("hflags","").replace("@V@",V).replace("@R@",REPO).replace("@B@",BUILD).replace("@C@",CXX)))
    extra=[]
    for e in spec.get("extra",[]):
        eo="obj/extra_%s.o"%e; extra.append(eo); n.append("build %s: cxx %s/harness/%s.cpp\n  x = %s"%(eo,V,e,spec.get("extraflags","")))
    ld=spec.get("ld","-fopenmp -lquadmath")
    if any(g in("general","atomic","sadatom","diatomic") for g in spec["libs"]) or spec.get("hdf5"):
        ld="-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lxc "+ld
    n.append("build h_%s: link %s %s %s\n  ldpre = %s\n  ld = %s"%(h,hob," ".join(extra),lib,spec.get("ldpre","-fopenmp" if variant!="race" else ""),lib+" "+ld))
    # whole programs, unmodified, beside the explorer that runs them
    for t,src in sorted(spec.get("programs",{}).items()):
        po="obj/prog_%s.o"%t
        n.append("build %s: cxx %s/%s\n  x ="%(po,REPO,src))
        n.append("build t_%s: link %s %s\n  ldpre = -fopenmp\n  ld = %s"%(t,po,lib,lib+" "+ld))
    n.append("build all_%s: phony h_%s %s"%(h,h," ".join("t_"+t for t in sorted(spec.get("programs",{})))))
    f=os.path.join(bd,"build_%s.ninja"%h)
    txt="\n".join(n)+"\n"
    if not os.path.exists(f) or open(f).read()!=txt: open(f,"w").write(txt)
    return bd,f,"h_%s"%h,"all_%s"%h

def build(h):
    bd,f,t,every=ninja_for(h)
    with open(os.path.join(bd,".lock"),"w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        r=subprocess.run(["ninja","-C",bd,"-f",f,"-j",str(NPROC),every],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode:
        say(r.stdout[-4000:]); die("building harness %s failed"%h)
    return os.path.join(bd,t)

def env():
    e=dict(os.environ); e.update(OMP_NUM_THREADS="1",OPENBLAS_NUM_THREADS="1",LC_ALL="C"); return e

def run_shard(binary,prop,tier,i,nsh,tmp,left):
    out=os.path.join(tmp,"s%d.json"%i)
    if left<=0: return (out,"timeout")
    with open(out+".stdout","w") as so,open(out+".stderr","w") as se:
        p=subprocess.Popen([binary,"--prop",prop,"--tier",tier,"--shard",str(i),str(nsh),"--out",out],stdout=so,stderr=se,env=env(),cwd=tmp)
        try: rc=p.wait(left)
        except subprocess.TimeoutExpired:
            rc="timeout"
            p.kill(); p.wait()
    return (out,rc)

def run_shards(binary,prop,tier,nsh,tmp,tmo):
    t0=time.time()
    def one(i): return (i,)+run_shard(binary,prop,tier,i,nsh,tmp,tmo-(time.time()-t0))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(one,range(nsh)))

def run_one(binary,prop,tier,key,tmp,tmo):
    out=os.path.join(tmp,"replay.json")
    for s in("",".journal"):
        try: os.unlink(out+s)
        except FileNotFoundError: pass
    try: r=subprocess.run([binary,"--prop",prop,"--tier",tier,"--only",key,"--out",out],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,env=env(),cwd=tmp,timeout=tmo,text=True,errors="replace")
    except subprocess.TimeoutExpired: return "timeout",[]
    if r.returncode: return "crash rc=%d %s"%(r.returncode,r.stderr[-300:]),[]
    return "ok",json.load(open(out))["violations"]

def known(prop):
    fnd=[]
    p=os.path.join(V,"known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m=re.match(r"finding:\s+property=(\S+)\s+check=(\S+)\s+case=(\S+)\s+(.*)$",line.rstrip())
            if m and m.group(1)==prop: fnd.append((m.group(2),m.group(3),m.group(4)))
    return fnd

def main():
    t0=time.time()
    prop=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick"); only=None
    a=sys.argv[2:]
    while a:
        x=a.pop(0)
        if x in("quick","thorough"): tier=x
        elif x=="--only": only=a.pop(0)
        elif x=="--build-only": build(PROPS[prop]["harness"]); return 0
    P=PROPS[prop]; h=P["harness"]
    binary=build(h)
    tb=time.time()-t0
    tmp=os.path.join(BUILD,"run_%s_%d"%(prop,os.getpid())); shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    try: return body(prop,tier,P,binary,tmp,t0,tb,only)
    finally: shutil.rmtree(tmp,ignore_errors=True)

def body(prop,tier,P,binary,tmp,t0,tb,only):
    if only:
        s,v=run_one(binary,prop,tier,only,tmp,600); say(s); [say(json.dumps(x)) for x in v]; return 1 if v or s!="ok" else 0
    tmo=P.get("timeout",{}).get(tier, 780 if tier=="quick" else 7000)
    sh=P.get("shards",NPROC)
    if isinstance(sh,dict): sh=sh[tier]
    res=run_shards(binary,prop,tier,sh,tmp,tmo)
    viol=[];outc=set();agg=dict(cases=0,steps=0,checks=0,states=0);samples=[];ctr={};maxerr={};unfinished=0
    for i,out,rc in res:
        if rc==0:
            d=json.load(open(out))
            for k in agg: agg[k]+=d[k]
            outc|=set(d["outcomes"]); samples+=d["samples"][:3]
            for k,v in d["counters"].items(): ctr[k]=ctr.get(k,0)+v
            for k,v in d["maxerr"].items(): maxerr[k]=max(maxerr.get(k,0),v)
            for v in d["violations"]: v["shard"]=i
            viol+=d["violations"]
        else:
            key=""; age=0
            try: key=open(out+".journal").read().strip(); age=time.time()-os.path.getmtime(out+".journal")
            except OSError: pass
            # what it had found by then
            if os.path.exists(out+".viol"):
                for l in open(out+".viol",errors="replace"):
                    try: v=json.loads(l)
                    except ValueError: continue
                    v["shard"]=i; viol.append(v)
            # out of time: a hang only if one case alone took most of it
            if rc=="timeout" and age<min(240,tmo/3): unfinished+=1; continue
            err=open(out+".stderr",errors="replace").read()[-500:]
            if not key: say(err); die("shard %d ended with %s before its first case"%(i,rc))
            viol.append(dict(key=key,what="hang" if rc=="timeout" else "crash",msg="shard ended with %s: %s"%(rc,err),shard=i))
    kn=known(prop); new=[]; seenk={}
    for v in viol:
        m=[k for k in kn if k[0]==v["what"] and k[1]==v["key"]]
        if m: seenk[m[0]]=v
        else: new.append(v)
    for k in seenk: say("KNOWN-FINDING: property=%s check=%s case=%s %s"%(prop,k[0],k[1],k[2]))
    if new:
        byw={}
        for v in new: byw.setdefault(v["what"],[]).append(v)
        for w,l in byw.items(): say("  candidate check=%s cases=%d first=%s: %s"%(w,len(l),l[0]["key"],l[0]["msg"][:300]))
        # interleave kinds so that each is represented among the replayed ones
        it=[list(l) for l in byw.values()]; new2=[]
        while any(it):
            for l in it:
                if l: new2.append(l.pop(0))
        new=new2
    # replay before report
    conf=[];flaky=[]
    for v in new[:25]:
        if len(conf)>=5: break
        s,vv=run_one(binary,prop,tier,v["key"],tmp,100 if v["what"]=="hang" and tier=="quick" else 900 if v["what"]=="hang" else 300)
        hit=(s.startswith("crash") and v["what"]=="crash") or (s=="timeout" and v["what"]=="hang") or any(x["what"]==v["what"] for x in vv)
        if not hit and (s!="ok" or vv): hit=True; v["msg"]+=" [replay: %s %s]"%(s,json.dumps(vv)[:300])
        (conf if hit else flaky).append(v)
    # a case that fails only after the cases before it (state left behind, memory never initialised)
    # is confirmed by running its whole shard again, from the start, in a fresh process
    tried={}
    for v in list(flaky) if not conf else []:
        i=v["shard"]; left=830-(time.time()-t0) if tier=="quick" else 3000
        if i not in tried and (len(tried)>=4 or left<20): continue
        if i not in tried:
            d=os.path.join(tmp,"again%d"%i); os.makedirs(d,exist_ok=True); tried[i]=run_shard(binary,prop,tier,i,sh,d,left)
        out,rc=tried[i]
        if rc==0: again=[(x["what"],x["key"]) for x in json.load(open(out))["violations"]]
        else:
            try: again=[("crash" if rc not in("timeout",-9) else "",open(out+".journal").read().strip())]
            except OSError: again=[]
        if (v["what"],v["key"]) in again or v["what"]=="crash" and any(w=="crash" for w,_ in again):
            v["msg"]+=" [only after the cases before it: shard %d of %d]"%(i,sh); conf.append(v); flaky.remove(v)
    for v in flaky: say("NOT-REPRODUCED (not reported): %s %s %s"%(v["key"],v["what"],v["msg"]))
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    cov=dict(states=agg["states"],transitions=agg["steps"],traces_validated_against_impl=agg["cases"],samples=samples[:12],
             comparisons_with_reference=agg["checks"],distinct_outcomes=len(outc),exhaustive=not any(r[2]!=0 for r in res),
             shards=sh,shards_out_of_time=unfinished,bound=P["bound"][tier] if isinstance(P["bound"],dict) else P["bound"],counters=ctr,
             worst_error_over_tolerance=dict(sorted(maxerr.items(),key=lambda x:-x[1])[:12]),
             meaning="state = one enumerated configuration / operation prefix / schedule of the real code; transition = one operation executed on the real code in such a state; trace validated = one complete enumerated case executed on the implementation and compared step by step with the reference model",
             build_s=round(tb,1))
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get("VERIF_SEED","1")),level=P.get("level","model_checking"),coverage=cov,
            assumptions=P.get("assumptions",[]),wall_s=round(time.time()-t0,2),violations=len(new))
    json.dump(ev,open(os.path.join(V,"evidence",prop+".json"),"w"),indent=1)
    say("%s %s: cases=%d states=%d transitions=%d comparisons=%d outcomes=%d build=%.1fs wall=%.1fs"%(prop,tier,agg["cases"],agg["states"],agg["steps"],agg["checks"],len(outc),tb,time.time()-t0))
    if conf:
        rd=os.path.join(V,"evidence","replay"); os.makedirs(rd,exist_ok=True)
        rp=os.path.join(rd,prop+".txt")
        with open(rp,"w") as f:
            f.write("# replay one case with: python3 tools/check.py %s %s --only '<case>'\n"%(prop,tier))
            for v in conf: f.write("case=%s\ncheck=%s\nshard=%d of %d\n%s\n\n"%(v["key"],v["what"],v["shard"],sh,v["msg"]))
        for v in conf[:5]: say("  %s | %s | %s"%(v["key"],v["what"],v["msg"][:600]))
        say("VIOLATION property=%s replay=%s"%(prop,rp)); return 1
    if unfinished: say("OUT OF TIME: %d of %d shards did not finish, what they would have explored is not covered"%(unfinished,sh))
    if agg["cases"]==0: die("no case was explored")
    if new and not conf and not flaky: die("violations without replay")
    return 0
if __name__=="__main__": sys.exit(main())
