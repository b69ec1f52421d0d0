"""Makes planted changes: edits a scratch copy of /repo, checks that it still
builds and passes the tests, that the demonstration tells the two trees apart,
and what the check of the property says about it.

usage: python3 seedlib.py FILE.py [ID...]   (FILE.py calls seed(...))
"""
import os, subprocess, sys, json, shutil, re
OUT = "/verif/seeded"
SCR = os.environ.get("SEED_SCRATCH", "/tmp/w/seedscr")
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:", "--invert-grep", "-1"], capture_output=True, text=True).stdout.strip()
ENV = dict(os.environ, PATH="/opt/veriftools/go1.26.10/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the inputs of the demonstration
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
d=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export DEMO_TMP="$tmp"
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
only = sys.argv[2:]
report = []

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def demo(d, scr, script):
    # demos run with the scratch copy as working directory
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=scr)

def seed(id, prop, edits, pkg, test, needs, breaks, flags="", demosh=None, files=None):
    if only and id not in only and prop not in only:
        return
    d = os.path.join(OUT, id)
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree("/repo", SCR, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(f"{id}: edit of {f} matches {s.count(old)} times"); return
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh(["git", "diff"], cwd=SCR)
    if not diff:
        print(id, "no change"); return
    # lines removed have to be lines of the original repository
    added = orig = 0
    rc, names = sh(["git", "diff", "--name-only"], cwd=SCR)
    for f in names.split():
        rc, bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", f], cwd=SCR)
        lines = bl.split("\n")
        rc, dd = sh(["git", "diff", "-U0", f], cwd=SCR)
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for l in lines[a-1:a-1+n]:
                h = l.split(" ")[0].lstrip("^")
                isfix = sh(["git", "log", "-1", "--format=%s", h], cwd=SCR)[1].startswith("fix:")
                if isfix: added += 1
                else: orig += 1
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if demosh is None:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=pkg, flags=flags))
        open(os.path.join(d, "demo_test.go.txt"), "w").write(test)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(demosh)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), "w").write(c)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    notes = []
    if added: notes.append(f"TOUCHES {added} FIX LINES ({orig} original)")
    if not orig and not added: notes.append("only adds lines")
    rc, o = sh(["go", "build", "./..."], cwd=SCR)
    if rc: print(id, "DOES NOT BUILD", o[-800:]); return
    rc, o = sh(["go", "test", "-vet=off", "-count=1", "./..."], cwd=SCR)
    if rc: notes.append("TESTS FAIL " + o[-800:])
    rc, o = demo(d, SCR, demosh)
    if rc == 0: notes.append("DEMO PASSES WITH THE CHANGE")
    elif "build failed" in o or "setup failed" in o: notes.append("DEMO DOES NOT BUILD " + o[-600:])
    rc, o = demo(d, "/repo", demosh)
    if rc: notes.append("DEMO FAILS ON THE UNCHANGED TREE " + o[-1500:])
    env = dict(ENV, GOVC_REPO=SCR, VERIF_SEED="1", EVIDENCE_DIR="/tmp/w/seedev")
    rc, o = sh(["/verif/bin/check", prop, "quick"], env=env)
    v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
    ob = [l for l in o.split("\n") if l.startswith(("failed obligation", "undischarged"))]
    fi = [l for l in o.split("\n") if l.startswith("failing input")]
    if rc == 1 and v:
        caught = "caught: " + ("obligations " + str(len(ob)) if ob else "") + (" inputs " + str(len(fi)) if fi else " NFIF")
    else:
        caught = f"MISSED rc={rc} " + o[-300:]
    print(f"{id} [{prop}] {caught} {'; '.join(notes)}", flush=True)
    for l in ob[:3]: print("     ", l[:200])
    for l in fi[:1]: print("     ", l[:200])
    shutil.rmtree(SCR, ignore_errors=True)

exec(open(sys.argv[1]).read())
