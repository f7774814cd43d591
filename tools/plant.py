#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: try planted bugs in scratch copies of /repo and keep the ones that count.

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ source, flags="", extra={name: text})].
For each: copy /repo to /tmp/plant/ID, apply, build and run the stable tests there, run the demo on both trees,
and when it is a bug the tests miss and the demo shows, write /verif/seeded/ID.  Then run the property's check on it.
"""
import sys, os, json, subprocess, importlib.util, shutil, tempfile
V="/verif"; BASE="/tmp/plant"
DEMO='''#!/bin/bash
# Run with cwd = the dsharlet/array tree: exit 0 if it behaves, non-zero if the planted bug is there.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
clang++ -std=c++14 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all %s-Iinclude -I. -Wno-everything "$D/demo.cpp" -o "$T/demo" && timeout 120 env ASAN_OPTIONS=detect_leaks=0 "$T/demo" > "$T/out" 2>&1
R=$?
cat "$T/out" 2>/dev/null | tail -20
rm -f "$T/demo" "$T/out"; rmdir "$T"
exit $R
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    sp=importlib.util.spec_from_file_location("s",sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only=sys.argv[2:]
    base=json.load(open("/opt/vp/BASELINE.json"))
    stable=set(base if isinstance(base,list) else base.get("passed") or base.get("stable") or base["tests"])
    for s in m.SEEDS:
        i=s["id"]
        if only and i not in only: continue
        r="%s/%s"%(BASE,i); os.makedirs(BASE,exist_ok=True)
        if os.path.exists(r): shutil.rmtree(r)
        sh("cp -a /repo %s"%r)
        ok=True
        for f,old,new in s["edits"]:
            t=open(r+"/"+f).read()
            if t.count(old)!=1: print(i,"EDIT: %d matches in %s: %r"%(t.count(old),f,old[:60])); ok=False; break
            open(r+"/"+f,"w").write(t.replace(old,new))
        if not ok: shutil.rmtree(r); continue
        diff=sh("git -C %s diff"%r).stdout
        d=tempfile.mkdtemp(); 
        open(d+"/demo.cpp","w").write(s["demo"].lstrip())
        open(d+"/demo.sh","w").write(DEMO%((s.get("flags","")+" ") if s.get("flags") else ""))
        for n,x in s.get("extra",{}).items():
            os.makedirs(os.path.dirname(d+"/"+n),exist_ok=True); open(d+"/"+n,"w").write(x)
        a=sh("bash %s/demo.sh"%d,cwd="/repo"); b=sh("bash %s/demo.sh"%d,cwd=r)
        if a.returncode!=0: print(i,"DEMO fails on clean:",a.stdout[-1500:]); ok=False
        if b.returncode==0: print(i,"DEMO passes with patch"); ok=False
        if ok:
            for n in ("build.sh","test.sh"): open(BASE+"/"+i+"."+n,"w").write(open("/opt/vp/"+n).read().replace("/repo",r).replace("/opt/vp/build.sh",BASE+"/"+i+".build.sh").replace("/opt/vp/ccache","/tmp/plant/ccache"))
            t=sh("bash %s/%s.test.sh %s/%s.json"%(BASE,i,BASE,i))
            try: passed=set(json.load(open("%s/%s.json"%(BASE,i)))["passed"])
            except Exception as e: passed=set(); print(t.stdout[-800:])
            miss=stable-passed
            if miss: print(i,"TESTS catch it:",sorted(miss)[:5],len(miss)); ok=False
        if ok:
            o=V+"/seeded/"+i; 
            if os.path.exists(o): shutil.rmtree(o)
            os.makedirs(V+"/seeded",exist_ok=True); shutil.copytree(d,o)
            open(o+"/patch.diff","w").write(diff)
            json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(o+"/meta.json","w"),indent=1)
            sh("git -C %s checkout -- . ; git -C %s apply %s/patch.diff"%(r,r,o))
            for p in s["property"].split()+s.get("also",[]):
                c=sh("timeout 850 python3 %s/check.py %s"%(V,p),env=dict(os.environ,VS_REPO=r,VS_NOEVIDENCE="1"))
                v=[l for l in c.stdout.splitlines() if l.startswith(("VIOLATION","ERROR","NOT DECIDED"))]
                print(i,p,"KEPT; check exit",c.returncode,v[:2],"CAUGHT" if c.returncode==1 else "*** MISSED")
        shutil.rmtree(r); shutil.rmtree(d); sh("rm -f %s/%s.*"%(BASE,i)); sys.stdout.flush()
main()
