#!/usr/bin/env python3
"""refactor.py SPEC.py [names]: apply the behaviour-keeping edits of a spec to a scratch copy of /repo and verify every
unit there. Without names all edits at once; with --each one copy per edit. Prints the obligations that fail."""
import sys,os,subprocess,shutil,runpy,re
args=[a for a in sys.argv[1:] if not a.startswith('--')]
R=runpy.run_path(args[0])["REFACTORS"]
names=args[1:] or list(R)
def run(tag,ns):
    w=f"/tmp/refactor_{os.path.basename(args[0])[:-3]}_{tag}"; shutil.rmtree(w,ignore_errors=True)
    shutil.copytree("/repo",w,symlinks=True)
    for n in ns:
        for f,old,new in R[n]:
            p=f"{w}/{f}"; t=open(p).read()
            if t.count(old)!=1: print(n,"EDIT matches",t.count(old),"times:",repr(old[:70])); return
            open(p,"w").write(t.replace(old,new))
    r=subprocess.run("gofmt -w */*.go pkg/*/*.go; go vet ./application ./client ./server ./conn ./multiplexer ./packet ./pkg/... && go build ./...",shell=True,cwd=w,capture_output=True,text=True)
    if r.returncode or r.stdout.strip(): print(tag,"build:",r.stdout,r.stderr[-1500:])
    if '--test' in sys.argv:
        t=subprocess.run("go test -count=1 ./packet ./pkg/... ./conn ./multiplexer ./application ./client ./server ./options 2>&1 | grep -v 'no test files'",shell=True,cwd=w,capture_output=True,text=True); print(t.stdout[-3000:])
    o=subprocess.run(["/verif/bin/gv","unit","-repo",w]+(os.environ.get("PATTERNS",".").split()),capture_output=True,text=True,cwd="/verif")
    bad=[l for l in (o.stdout+o.stderr).split("\n") if re.search(r"failed  |undecided  |NOT |^error",l) and "app.stream.in.nodrop" not in l]
    open(f"/tmp/refactor_{tag}.txt","w").write(o.stdout+o.stderr)
    print(tag,"quiet" if not bad else "\n  "+"\n  ".join(bad),flush=True)
    if '--keep' not in sys.argv: shutil.rmtree(w)
if '--each' in sys.argv:
    for n in names: run(n,[n])
else: run("all",names)
