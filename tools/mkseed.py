#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants the bugs a spec file lists, in scratch copies, and keeps those that are confirmed.
A spec calls bug(id, prop, pkg, needs, breaks, edits=[(file, old, new)], demo=go test source)."""
import json, os, shutil, subprocess, sys, tempfile
REPO="/repo"; OUT="/verif/seeded"
ENV=dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" >"$o"
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go test -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestDemo' ./PKG
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
only=set(sys.argv[2:])
def bug(id, prop, pkg, needs, breaks, edits, demo):
    if only and id not in only: return
    w=tempfile.mkdtemp(prefix="seed"); r=w+"/repo"
    try:
        shutil.copytree(REPO, r, symlinks=True)
        d=w+"/demo"; os.mkdir(d)
        open(d+"/demo_test.go","w").write(demo)
        open(d+"/demo.sh","w").write(DEMO.replace("PKG",pkg).replace("-vet=off","-vet=off -race" if "// needs the race detector" in demo else "-vet=off"))
        p=sh(["bash",d+"/demo.sh"], r)
        if p.returncode!=0: print(id,"DEMO FAILS ON CLEAN TREE\n",p.stdout[-3000:]); return
        for f,a,b,*k in edits:
            s=open(r+"/"+f).read()
            n=s.count(a)
            if k:
                i=-1
                for _ in range(k[0]): i=s.index(a,i+1)
                s=s[:i]+b+s[i+len(a):]
            else:
                if n!=1: print(id,"edit matches",n,"times:",a[:80]); return
                s=s.replace(a,b)
            open(r+"/"+f,"w").write(s)
        p=sh(["gofmt","-l"]+[e[0] for e in edits], r)
        if p.stdout.strip(): print(id,"gofmt:",p.stdout)
        p=sh(["go","build","./..."], r)
        if p.returncode!=0: print(id,"DOES NOT BUILD\n",p.stdout[-2000:]); return
        p=sh(["bash",d+"/demo.sh"], r)
        if p.returncode==0: print(id,"DEMO PASSES WITH THE BUG\n",p.stdout[-2000:]); return
        if "build failed" in p.stdout: print(id,"demo does not build", p.stdout[-2000:]); return
        fail=p.stdout
        for i in range(2):
            p=sh(["go","test","-count=1","./..."], r, 600)
            if p.returncode==0: break
        if p.returncode!=0: print(id,"TESTS FAIL WITH THE BUG\n",p.stdout[-3000:]); return
        diff=sh(["git","diff"], r).stdout
        added=[c for c in sh(["git","log","--format=%H","a7c8471..HEAD"], r).stdout.split()]
        for f in set(e[0] for e in edits):
            bl=[l.split()[0].lstrip("^")[:7] for l in sh(["git","blame","-s","HEAD","--",f], r).stdout.splitlines()]
            orig=0
            ln=0
            for l in sh(["git","diff","-U0",f], r).stdout.splitlines():
                if l.startswith("@@"):
                    m=l.split()[1][1:].split(","); a=int(m[0]); n=int(m[1]) if len(m)>1 else 1
                    if n and any(bl[i-1]!="a7c8471" for i in range(a,a+n)): print(id,"NOTE: changes lines of own commits at",f,a)
                    if n: orig+=1
            if not orig: print(id,"NOTE: only insertions in",f)
        o=OUT+"/"+id
        os.makedirs(o, exist_ok=True)
        open(o+"/patch.diff","w").write(diff)
        shutil.copy(d+"/demo_test.go", o); shutil.copy(d+"/demo.sh", o)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(o+"/meta.json","w"), indent=1)
        # which lines does it change: all should be the original's
        print(id,"kept:", [l for l in fail.splitlines() if "demo" in l.lower() or "panic" in l][:3])
    finally:
        shutil.rmtree(w)
exec(open(sys.argv[1]).read())
