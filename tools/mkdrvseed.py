#!/usr/bin/env python3
"""mkdrvseed.py ID PROPERTY SPEC.py : plant one bug, demonstrated by recorded cases of a driver.

mkdrvseed.py ID : record an existing one again, with the drivers as they are now.

SPEC.py defines: edits = [(file, old, new), ...]; drv; needs; breaks; optionally seed, n, keep.
The demonstration compiles the driver into the repository's module by overlay, runs recorded inputs
again and compares everything observed with the recording of the unchanged tree.
"""
import json, os, shutil, subprocess, sys, tempfile
sid = sys.argv[1]
V = "/verif"
g = {"seed": 7, "n": 400, "keep": 3}
patch = None
if len(sys.argv) > 2:
    pid, spec = sys.argv[2:4]
    exec(open(spec).read(), g)
else:
    m = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    patch = open(f"{V}/seeded/{sid}/patch.diff").read()
    pid = m["property"]
    g.update(needs=m["needs"], breaks=m["what_it_breaks"], edits=[])
    g["drv"] = [f[:-len("_main.go.txt")] for f in os.listdir(f"{V}/seeded/{sid}") if f.endswith("_main.go.txt")][0]
d = f"{V}/seeded/{sid}"
w = tempfile.mkdtemp(prefix="seed_")


def run(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


try:
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    r = os.path.join(w, "repo")
    run(["git", "clone", "-q", "/repo", r])
    drv = g["drv"]
    rep = []
    for base, pre in ((f"{V}/harness/drvlib", "verifdrv/drvlib"), (f"{V}/harness/{drv}", f"verifdrv/{drv}")):
        for f in sorted(os.listdir(base)):
            full = os.path.join(base, f)
            if os.path.isdir(full):
                for x in sorted(os.listdir(full)):
                    shutil.copy(os.path.join(full, x), f"{d}/{f}_{x}.txt")
                    rep.append((f"{f}/zz_{x}", f"{f}_{x}.txt"))
            elif f.endswith(".go"):
                t = pre.split("/")[1] + "_" + f + ".txt"
                shutil.copy(full, f"{d}/{t}")
                rep.append((f"{pre}/{f}", t))
    js = ",\n".join(f'"$repo/internal/{a}": "$tmp/{b[:-4]}"' for a, b in rep)
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Fails when the planted change is present.  Run in the repository.
# Runs recorded inputs through the repository's code again and compares what they give.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
for f in "$here"/*.go.txt; do cp "$f" "$tmp/$(basename "$f" .txt)"; done
cat > "$tmp/overlay.json" <<EOF
{{"Replace": {{
{js}
}}}}
EOF
cp go.mod "$tmp/g.mod"; cp go.sum "$tmp/g.sum"
GOFLAGS="-mod=mod -modfile=$tmp/g.mod" GOPROXY=off GOWORK=off go build -buildvcs=false -tags verif -overlay "$tmp/overlay.json" -o "$tmp/drv" ./internal/verifdrv/{drv} || exit 3
"$tmp/drv" -out "$tmp/now.json" -replay "$here/cases.json" || exit 2
cmp "$tmp/now.json" "$here/cases.json" || {{ echo "the outcome of a recorded case has changed"; exit 1; }}
''')
    os.chmod(f"{d}/demo.sh", 0o755)

    def demo():
        return run(["bash", f"{d}/demo.sh"], cwd=r)

    def build(exe):
        s = open(f"{d}/demo.sh").read().split('"$tmp/drv" -out')[0].replace('"$(dirname "$0")"', f'"{d}"').replace('"$tmp/drv"', exe)
        o = run(["bash", "-c", s], cwd=r)
        if o.returncode:
            sys.exit(o.stdout[-2000:])

    build(w + "/d0")
    for f, old, new in g["edits"]:
        p = os.path.join(r, "internal", f)
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    if patch:
        o = subprocess.run(["git", "apply"], cwd=r, input=patch, text=True, stderr=subprocess.PIPE)
        assert o.returncode == 0, o.stderr
    diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
    for f, old, new in g["edits"]:
        bl = run(["git", "blame", "-s", "HEAD", "--", f"internal/{f}"], cwd=r).stdout
        for l in [l for l in old.split("\n") if l not in new.split("\n")]:
            m = [x for x in bl.split("\n") if x.endswith(") " + l)]
            if not m or not any(x.startswith("^") for x in m):
                print("WARNING: line not original:", l.strip(), m)
    b = run("go build ./... ; go test -vet=off -short -count=1 ./...", cwd=r)
    if b.returncode:
        sys.exit("build or tests fail:\n" + b.stdout[-1500:])
    build(w + "/d1")
    a = ["-seed", str(g["seed"]), "-n", str(g["n"])]
    for k in "01":
        o = run([f"{w}/d{k}", "-out", f"{w}/o{k}"] + a, cwd=w)
        if o.returncode:
            sys.exit(f"driver {k}: " + o.stdout[-1500:])
    o0, o1 = open(f"{w}/o0").read().splitlines(), open(f"{w}/o1").read().splitlines()
    assert len(o0) == len(o1)
    bad = [x for x, y in zip(o0, o1) if x != y]
    print(f"{len(bad)} of {len(o0)} cases differ")
    if not bad:
        sys.exit("no case shows it")
    bad.sort(key=len)
    ok = sorted((x for x, y in zip(o0, o1) if x == y), key=len)
    keep = bad[:g["keep"]] + ok[:2]
    open(f"{d}/cases.json", "w").write("\n".join(keep) + "\n")
    c = demo()
    run(["git", "checkout", "-q", "--", "."], cwd=r)
    e = demo()
    if e.returncode or not c.returncode:
        sys.exit(f"demo: unchanged {e.returncode}, changed {c.returncode}\n{e.stdout[-800:]}\n{c.stdout[-800:]}")
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": pid, "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("ok", sid, run(f"du -sk {d}").stdout.split()[0], "KB; demo:", c.stdout.strip()[-200:])
finally:
    shutil.rmtree(w)
