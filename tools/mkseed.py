#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...] - build planted bugs from a specification file and confirm each one.

SPEC.py defines SEEDS: list of dicts {id, property, edits: [(file, old, new)...], needs, breaks,
demo: Go source of a program that exits 0 when the property holds (or demo_sh), files: {name: text}}.
A seed is kept only when: the patch builds, the stable tests pass, the demo exits 0 without and nonzero with it,
and every removed line is one of the original repository.
"""
import json, os, runpy, shutil, subprocess, sys
REPO, OUT, BASE = "/repo", "/verif/seeded", "c055a76"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the cases in demo.go; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go" "$tmp/main.go"
# the module table is not available offline: nothing the demo uses needs it
grep -v 'phil-mansfield/table ' go.mod > "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$repo" "$tmp" > "$tmp/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -modfile=$tmp/go.mod" DEMO_REPO="$repo" DEMO_TMP="$tmp"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
timeout 120 "$tmp/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV='GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -modfile=/opt/vp/mod/gotetra.mod" '
def main():
    spec = runpy.run_path(sys.argv[1]); want = set(sys.argv[2:])
    for s in spec["SEEDS"]:
        if want and s["id"] not in want: continue
        d = f"{OUT}/{s['id']}"
        scratch = "/tmp/mkseed_repo"
        shutil.rmtree(scratch, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, scratch], check=True)
        sh("git checkout -q -- . && git clean -fdq", scratch)
        ok = True
        for f, old, new in s["edits"]:
            t = open(f"{scratch}/{f}").read()
            if t.count(old) < 1: print(s["id"], "PATTERN NOT FOUND in", f, repr(old)); ok = False; break
            if t.count(old) > 1: print(s["id"], "pattern ambiguous", t.count(old), repr(old))
            open(f"{scratch}/{f}", "w").write(t.replace(old, new, 1))
        if not ok: continue
        patch = sh("git diff", scratch).stdout
        # removed lines must be original
        base_ok = False
        for f in {e[0] for e in s["edits"]}:
            orig = sh(f"git show {BASE}:{f}", scratch).stdout.splitlines()
            removed = []
            cur = None
            for l in patch.splitlines():
                if l.startswith("--- a/"): cur = l[6:]
                elif l.startswith("-") and cur == f: removed.append(l[1:])
            for r in removed:
                if r not in orig: print(s["id"], "note: removed line is not original:", r)
                elif r.strip(): base_ok = True
        if not base_ok: print(s["id"], "FAIL: changes no original line"); continue
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(patch)
        if "demo" in s: open(f"{d}/demo.go", "w").write(s["demo"])
        for n, t in s.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
        open(f"{d}/demo.sh", "w").write(s.get("demo_sh", DEMO_SH))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        b = sh("export "+ENV+"; go build $(go list -e ./... | grep -v -e render/halo -e render/scripts)", scratch)
        bb = sh("go vet ./render/io ./render/geom >/dev/null 2>&1; true", scratch)
        t = sh(ENV+"go test -count=1 ./math/interpolate ./math/sort -run 'TestPyplotSavGol|TestPyplotSpline|TestSavGolKernel|TestMedian|TestQuick|TestReverse|TestShell'", scratch)
        un = sh("git stash -q", scratch)
        r0 = sh(f"bash {d}/demo.sh", scratch)
        sh("git checkout -q -- . && git clean -fdq && git stash pop -q", scratch)
        r1 = sh(f"bash {d}/demo.sh", scratch)
        good = (b.returncode == 0 and "ok" in t.stdout and "FAIL" not in t.stdout and r0.returncode == 0 and r1.returncode != 0)
        known = [l for l in b.stdout.splitlines() if l.startswith("#") or ".go:" in l]
        print(f"{s['id']}: tests={'ok' if 'FAIL' not in t.stdout else 'FAIL'} demo0={r0.returncode} demo1={r1.returncode} {'KEPT' if good else 'BAD'}")
        if not good:
            print("build:", known[:6]); print("t:", t.stdout[-600:]); print("d0:", r0.stdout[-1500:]); print("d1:", r1.stdout[-800:])
        shutil.rmtree(scratch, ignore_errors=True)
main()
