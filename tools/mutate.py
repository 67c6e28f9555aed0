#!/usr/bin/env python3
"""Development aid, used by no check: small random changes of the code in a scratch copy of /repo,
each run against the checks anchored in the changed file; reports those no check noticed.
usage: mutate.py COPY LOG N SEED FILE[,FILE...] [PROP,...]   (COPY is a copy of /repo outside /repo and /verif)"""
import os,sys,re,random,subprocess,json,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,"tools"))
from props import P
copy,log,n,seed=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4]); files=sys.argv[5].split(",")
force=sys.argv[6].split(",") if len(sys.argv)>6 else None
R=random.Random(seed)
def strip(l): return re.sub(r'"(\\.|[^"])*"','""',l.split("//")[0])
def muts(lines):
    out=[]; comment=False
    for i,l in enumerate(lines):
        c=l
        if "/*" in c: comment=True
        if comment:
            if "*/" in c: comment=False
            continue
        t=strip(l)
        if not t.strip() or t.strip().startswith("#") or "printf" in t or "throw" in t or "oss <<" in t or "cout" in t or "template" in t or "static_assert" in t: continue
        def sub(pat,rep):
            for m in re.finditer(pat,t):
                r=rep(m) if callable(rep) else m.expand(rep)
                new=t[:m.start()]+r+t[m.end():]
                if new!=t: out.append((i,new.rstrip()+"\n"))
        sub(r'(?<=[\w\)\]]) ?\+ ?(?=[\w\(])(?!\+)',lambda m:m.group(0).replace("+","-"))
        sub(r'(?<=[\w\)\]]) ?- ?(?=[\w\(])(?!>)',lambda m:m.group(0).replace("-","+"))
        sub(r'(?<=[\w\)\]]) ?\* ?(?=[\w\(])',lambda m:m.group(0).replace("*","/") if "*" in m.group(0) and not re.match(r'\s*(const\s+)?\w+\s*\*',t) else m.group(0))
        sub(r'(?<![<\w])<(?=[\w ]+[;&|\)])(?!<)',"<=")
        sub(r'<=',"<"); sub(r'>=',">"); sub(r'(?<![->])>(?= ?\d)',">=")
        sub(r'&&',"||"); sub(r'\|\|',"&&"); sub(r'==',"!=")
        sub(r'\+=',"-="); sub(r'-=',"+=")
        sub(r'(?<![\w.])(\d+)(?![\w.])',lambda m:str(int(m.group(1))+1)); sub(r'(?<![\w.])([1-9]\d*)(?![\w.])',lambda m:str(int(m.group(1))-1))
        sub(r'(?<![\w])(\d+\.\d+)(?![\w])',lambda m:repr(float(m.group(1))*1.5+(1 if float(m.group(1))==0 else 0)))
        sub(r'std::max',"std::min"); sub(r'std::min',"std::max"); sub(r'\btrue\b',"false"); sub(r'\bfalse\b',"true")
        sub(r'\.transpose\(\)',""); sub(r'\bi\b',"j"); sub(r'\bj\b',"i"); sub(r'\bl\b',"m"); sub(r'\bm\b',"l"); sub(r'(?<=\w)i\b',"j"); sub(r'(?<=\w)j\b',"i"); sub(r'\bfirst\b',"last"); sub(r'std::abs\(',"("); sub(r'\bPa\b',"Pb"); sub(r'\bPb\b',"Pa"); sub(r'\bsin\b',"cos"); sub(r'\bcos\b',"sin"); sub(r'\bk\b',"i")
        sub(r'\w*0(?=[_,)\]])',lambda m:m.group(0)[:-1]+"1"); sub(r'(?<=[a-zA-Z])1\b',"2"); sub(r'(?<=[a-zA-Z])2\b',"1")
        if re.match(r'^\s*[\w:.\->\[\]\(\), ]+(\(.*\)|[+\-*/]?= ?.*);\s*$',t) and not re.match(r'^\s*(const|auto|int|size_t|double|T|bool|helfem::|std::|Eigen::|return|using|break|continue)\b',t): out.append((i,"\n"))
        if re.match(r'^\s*(continue|break);\s*$',t): out.append((i,"\n"))
    return out
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
sh("git","-C",copy,"checkout","-q","--",".")
env=dict(os.environ,VERIF_REPO=copy,VERIF_BUILD=copy+".build",VH_STOP="1")
for f in files:
    lines=open(os.path.join(copy,f)).readlines(); ms=muts(lines); R.shuffle(ms)
    props=force or [p["id"] for p in P if f in p["files"]]
    done=0
    for i,new in ms:
        if done>=n: break
        L=list(lines); L[i]=new; open(os.path.join(copy,f),"w").writelines(L)
        res=None; t0=time.time()
        for p in props:
            r=sh("nice","python3",os.path.join(V,"tools/check.py"),p,"quick",env=env)
            if r.returncode==2 and "building" in r.stdout: res="nobuild"; break
            if r.returncode!=0: res="killed "+p; break
        if res!="nobuild": done+=1
        open(os.path.join(copy,f),"w").writelines(lines)
        if res=="nobuild": continue
        d=dict(file=f,line=i+1,old=lines[i].strip(),new=new.strip(),res=res or "SURVIVED",t=round(time.time()-t0))
        open(log,"a").write(json.dumps(d)+"\n")
