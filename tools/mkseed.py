#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPEC.py : plant one bug and confirm it.

SPEC.py defines: edits = [(file, old, new), ...]; pkg; test (Go test source, TestDemo);
needs; breaks; optionally extra = {path under internal: source} compiled in for the
demonstration, and tags.  Confirms in a scratch copy that the change builds, keeps the stable tests,
and that the demonstration passes without it and fails with it; then writes /verif/seeded/ID.
"""
import json, os, shutil, subprocess, sys, tempfile
sid, pid, spec = sys.argv[1:4]
g = {}
exec(open(spec).read(), g)
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed_")
try:
    r = os.path.join(w, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    open(f"{d}/demo_test.go.txt", "w").write(g["test"])
    extra, tags = "", f" -tags {g['tags']}" if "tags" in g else ""
    for i, (f, src) in enumerate(g.get("extra", {}).items()):
        open(f"{d}/extra{i}.go.txt", "w").write(src)
        extra += f', \\"$repo/internal/{f}\\": \\"$here/extra{i}.go.txt\\"'
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Fails when the planted change is present.  Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
echo "{{\\"Replace\\": {{\\"$repo/internal/{g['pkg']}/zz_demo_test.go\\": \\"$tmp/demo_test.go\\"{extra}}}}}" > "$tmp/overlay.json"
GOFLAGS=-mod=mod GOPROXY=off go test{tags} -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestDemo' ./internal/{g['pkg']}
''')
    os.chmod(f"{d}/demo.sh", 0o755)

    def demo():
        return subprocess.run(["bash", f"{d}/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    a = demo()
    if a.returncode:
        sys.exit("demo fails on the unchanged tree:\n" + a.stdout[-1500:])
    for f, old, new in g["edits"]:
        p = os.path.join(r, "internal", f)
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
    # changed lines belong to the original repository
    for f, old, new in g["edits"]:
        bl = subprocess.run(["git", "blame", "-s", "HEAD", "--", f"internal/{f}"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        gone = [l for l in old.split("\n") if l not in new.split("\n")]
        for l in gone:
            m = [x for x in bl.split("\n") if x.endswith(") " + l)]
            if m and not any(x.startswith("^") for x in m):
                print("WARNING: line not original:", l.strip(), m[0][:9])
    b = subprocess.run("go build ./... && go vet ./internal/util >/dev/null 2>&1; go test -vet=off -short -count=1 ./...", shell=True, cwd=r,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        sys.exit("build or tests fail:\n" + b.stdout[-1500:])
    c = demo()
    if c.returncode == 0:
        sys.exit("demo passes with the change")
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": pid, "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("ok", sid, c.stdout[-300:])
finally:
    shutil.rmtree(w)
