#!/usr/bin/env python3
"""Developer tool: builds /verif/seeded/<id>/ from tools/seeds/*.py and
confirms each (applies, builds, stable tests pass, demo tells them apart).
No check uses it.

    tools/mkseeds.py [id...]
"""
import glob, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; 1: it does not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$repo/internal/zzdemo/main.go" "$here/demo.go.txt" > "$d/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -buildvcs=false -overlay "$d/overlay.json" -o "$d/demo" ./internal/zzdemo || exit 2
timeout 120 "$d/demo"
'''

GO = '''package main

import (
%s
)

func fail(format string, args ...any) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

%s
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out

def main():
    seeds = load()
    want = sys.argv[1:] or [s for s in seeds if not os.path.exists(f"{V}/seeded/{s}/patch.diff")]
    stable = None
    for sid in want:
        s = seeds[sid]
        wt = tempfile.mkdtemp(prefix="seed")
        shutil.rmtree(wt)
        sh(f"git -C {REPO} worktree add -f --detach {wt} HEAD")
        try:
            dst = tempfile.mkdtemp(prefix="seedout")
            imports = set(s.get("imports", [])) | {"fmt", "os"}
            body = s["demo"]
            for p in ["graphemes", "words", "phrases", "sentences", "internal/iterators", "internal/iterators/filter"]:
                if p.split("/")[-1] + "." in body:
                    imports.add("github.com/clipperhouse/uax29/v2/" + p)
            for p in ["strings", "bytes", "bufio", "reflect", "sync", "errors", "io", "unicode/utf8", "slices", "unicode"]:
                if p.split("/")[-1] + "." in body and p not in imports:
                    imports.add(p)
            open(dst + "/demo.go.txt", "w").write(GO % ("\n".join(f'\t"{i}"' for i in sorted(imports)), body))
            open(dst + "/demo.sh", "w").write(DEMO)
            os.chmod(dst + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            r0 = sh(f"bash {dst}/demo.sh", cwd=wt)
            for e in s["edits"]:
                f, old, new = e[0], e[1], e[2]
                n = e[3] if len(e) > 3 else 1
                p = os.path.join(wt, f)
                t = open(p).read()
                c = t.count(old)
                if n == "all":
                    assert c > 0, (sid, f, old)
                    t = t.replace(old, new)
                else:
                    assert c >= n and (c == 1 or len(e) > 3), (sid, f, old, c)
                    i = -1
                    for _ in range(n):
                        i = t.index(old, i + 1)
                    t = t[:i] + new + t[i + len(old):]
                open(p, "w").write(t)
            sh("gofmt -w $(git diff --name-only)", cwd=wt)
            open(dst + "/patch.diff", "w").write(sh("git diff", cwd=wt).stdout)
            b = sh("go vet ./graphemes ./words ./phrases ./sentences ./internal/iterators/... && go test -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'", cwd=wt)
            r1 = sh(f"bash {dst}/demo.sh", cwd=wt)
            tests_ok = "FAIL" not in b.stdout and "vet:" not in b.stdout
            ok = r0.returncode == 0 and r1.returncode == 1 and tests_ok
            print(("OK  " if ok else "BAD ") + sid, "clean", r0.returncode, "patched", r1.returncode, "tests", "pass" if tests_ok else "FAIL", "|", r1.stdout.strip()[:150])
            if not ok:
                if r0.returncode: print("   clean:", r0.stdout[:600])
                if not tests_ok: print("   tests:", b.stdout[:700])
            else:
                out = f"{V}/seeded/{sid}"
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(dst, out)
            shutil.rmtree(dst)
        finally:
            sh(f"git -C {REPO} worktree remove --force {wt}")
            sh(f"git -C {REPO} worktree prune")

main()
