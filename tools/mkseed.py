"""seed(id, prop, edits, demo, needs, breaks): plants a change in /repo, confirms it (builds, tests pass, demo
fails with it and passes without), and keeps it under seeded/<id>. Always restores /repo."""
import subprocess, os, json, shutil, sys
V = "/verif"
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
r=$PWD
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$r/parser.go": "", "$r/unparser.go": "", "$r/zzdemo/demo_test.go": "$here/demo_test.go"}}
EOF
go test -c -o "$tmp/demo" -vet=off -overlay "$tmp/overlay.json" ./zzdemo || { echo "build failed"; exit 3; }
cd "$tmp" && TMPDIR="$tmp" timeout 200 ./demo -test.timeout 120s
"""
DEMOP = """#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken; run with cwd /repo
# (the tokenizer module is not installed here: the folder "scanner" beside this file stands in for it)
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
r=$PWD
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
echo "replace github.com/boynton/scanner => $here/scanner" >> "$tmp/go.mod"
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$r/zzdemo/demo_test.go": "$here/demo_test.go"}}
EOF
go test -c -o "$tmp/demo" -vet=off -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" ./zzdemo || { echo "build failed"; exit 3; }
cd "$tmp" && TMPDIR="$tmp" timeout 200 ./demo -test.timeout 120s
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def seed(id, prop, edits, demo, needs, breaks, parser=False, check=True):
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo_test.go", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMOP.replace("cat > \"$tmp/overlay", "echo \"replace github.com/boynton/smithy => $here/smithy\" >> \"$tmp/go.mod\"\ncat > \"$tmp/overlay").replace("the tokenizer module is not installed here: the folder \"scanner\" beside this file stands", "the tokenizer and Smithy modules are not installed here: the folders beside this file stand") if parser == "smithy" else DEMOP if parser else DEMO)
    if parser == "cmd":
        t = DEMOP.replace("cat > \"$tmp/overlay", "echo \"replace github.com/boynton/smithy => $here/smithy\" >> \"$tmp/go.mod\"\ncat > \"$tmp/overlay").replace("the tokenizer module is not installed here: the folder \"scanner\" beside this file stands", "the tokenizer and Smithy modules are not installed here: the folders beside this file stand")
        t = t.replace("go test -c", "go build -o \"$tmp/sadl\" -modfile \"$tmp/go.mod\" ./cmd/sadl || { echo \"build failed\"; exit 3; }\ngo test -c").replace("TMPDIR=\"$tmp\"", "HOME=\"$tmp\" SADL=\"$tmp/sadl\" TMPDIR=\"$tmp\"")
        open(f"{d}/demo.sh", "w").write(t)
        parser = "smithy"
    os.chmod(f"{d}/demo.sh", 0o755)
    if parser:
        shutil.copytree(f"{V}/stubs/scanner", f"{d}/scanner", dirs_exist_ok=True)
    if parser == "smithy":
        shutil.copytree(f"{V}/stubs/smithy", f"{d}/smithy", dirs_exist_ok=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    ok = True
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-3000:], r.stderr[-2000:]); ok = False
    try:
        for f, old, new in edits:
            s = open(f"/repo/{f}").read()
            if s.count(old) != 1:
                print(id, f, "edit matches", s.count(old)); ok = False; break
            open(f"/repo/{f}", "w").write(s.replace(old, new))
        if ok:
            diff = sh("git -C /repo diff").stdout
            open(f"{d}/patch.diff", "w").write(diff)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print(id, "DOES NOT BUILD", r.stdout[-1500:], r.stderr[-1500:]); ok = False
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            res = json.load(open("/tmp/seedtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            r = sh(f"bash {d}/demo.sh", cwd="/repo")
            if r.returncode == 0: print(id, "DEMO PASSES WITH THE CHANGE"); ok = False
            elif "build failed" in r.stdout or "setup failed" in r.stdout: print(id, "DEMO DOES NOT BUILD", r.stdout[-1000:]); ok = False
            if ok and check:
                r = sh(f"./check.sh {prop} quick", cwd=V)
                print(id, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED rc=%d" % r.returncode)
                if r.returncode != 1: print(r.stdout[-600:])
            fails = res.get("failed") or []
            if fails: print(id, "TESTS FAIL", fails); ok = False
    finally:
        sh("git -C /repo checkout -- .")
    if not ok:
        shutil.rmtree(d)
    return ok
