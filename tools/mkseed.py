#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a spec (id, prop, pkg, edits, test, common, needs, breaks)
and confirm it in a scratch copy of /repo: builds, stable tests pass, the demonstration passes before and fails after."""
import sys,os,subprocess,json,shutil,tempfile,runpy
S=runpy.run_path(sys.argv[1])["SEEDS"]
only=sys.argv[2:]
def sh(c,cwd,t=300):
    try: return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout="timeout"
        return R
base=json.load(open('/opt/vp/BASELINE.json'))["stable"]
for s in S:
    if only and s["id"] not in only: continue
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    w=f"/tmp/seed_{s['id']}"; shutil.rmtree(w,ignore_errors=True)
    shutil.copytree("/repo",w,symlinks=True)
    sh("git checkout -- . && git clean -fdq",w)
    bad=False
    for f,old,new in s["edits"]:
        p=f"{w}/{f}"; t=open(p).read()
        if t.count(old)!=1:
            print(s["id"],"EDIT matches",t.count(old),"times:",repr(old[:60])); bad=True; continue
        open(p,"w").write(t.replace(old,new))
    if bad: shutil.rmtree(w); continue
    r=sh("gofmt -l "+" ".join({e[0] for e in s["edits"]}),w)
    if r.stdout.strip(): print(s["id"],"gofmt:",r.stdout)
    diff=sh("git diff",w).stdout
    open(f"{d}/patch.diff","w").write(diff)
    files=[("demo_test.go",s["test"])]
    for c in s.get("common",[]): files.append((os.path.basename(c),open(c).read()))
    for n,t in files: open(f"{d}/{n}","w").write(t)
    ov="".join(f',\\"$PWD/{s["pkg"]}/zz_{n}\\":\\"$d/{n}\\"' for n,_ in files)[1:]
    open(f"{d}/demo.sh","w").write(f'''#!/bin/bash
# run in the repository: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off
ov=$(mktemp)
echo "{{\\"Replace\\":{{{ov}}}}}" > "$ov"
timeout 200 go test -overlay "$ov" -vet=off -count=1 {s.get("flags","")} -timeout 150s -run '^TestDemo' "./{s["pkg"]}"
rc=$?
rm -f "$ov"
exit $rc
''')
    os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(f"{d}/meta.json","w"),indent=1)
    b=sh("go build ./...",w)
    if b.returncode: print(s["id"],"BUILD",b.stdout); shutil.rmtree(w); continue
    dm=sh(f"bash {d}/demo.sh",w)
    ok=[sh(f"bash {d}/demo.sh","/repo").returncode for _ in range(int(s.get("rep",2)))]
    msg=f"{s['id']}: demo with patch rc={dm.returncode} unchanged rc={ok}"
    if not os.environ.get("NOTEST"):
        # stable tests, in the copy
        t=sh(f"sed '/^cd .repo/d' /opt/vp/env.sh > /tmp/seedenv.sh; sed 's#/opt/vp/work#/tmp/seedwork#;s#/opt/vp/env.sh#/tmp/seedenv.sh#' /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json",w,600)
        try:
            j=json.load(open("/tmp/seedtest.json"))
            passed=set(j.get("passed",j.get("pass",[])))
            miss=[x for x in base if x not in passed]
            msg+=f" tests missing={miss}"
        except Exception as e: msg+=f" TESTS? {e} {t.stdout[-300:]}"
    if dm.returncode==0 or any(ok): msg="BAD "+msg+"\n"+dm.stdout[-1500:]
    print(msg,flush=True)
    shutil.rmtree(w)
