#!/usr/bin/env python3
"""seed.py FILE.py: makes /verif/seeded/<id>/ from the planted bugs listed there.

Each bug is dict(id, property, edits=[(file, old, new)], needs, breaks, demo):
it is applied to a scratch copy of /repo, where the build, the tests and the
demonstration are confirmed. Then the check of its property is run on the copy.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

REPO, VERIF = "/repo", "/verif"
DEMO = '''#!/bin/bash
# Runs main.go, beside this file, within the repository (cwd).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
timeout 60 "$tmp/demo"
'''
HEAD = '''package main

import (
	"fmt"
	"os"
%s)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

var _ = panics

'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

base = sh("git log --format=%h --reverse | head -1", REPO).stdout.strip()
only = sys.argv[2:]
for bug in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and bug["id"] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="seed")
    copy = os.path.join(tmp, "repo")
    sh(f"cp -a {REPO} {copy}", "/")
    msg = []
    for f, old, new in bug["edits"]:
        path = os.path.join(copy, f)
        s = open(path).read()
        if s.count(old) != 1:
            msg.append(f"{f}: {s.count(old)} matches")
            continue
        open(path, "w").write(s.replace(old, new))
    if not msg:
        diff = sh("git diff", copy).stdout
        # Removed lines must be original ones.
        orig = False
        for f in sorted({e[0] for e in bug["edits"]}):
            bl = sh(f"git blame -s HEAD -- {f}", copy).stdout.splitlines()
            n = 0
            for l in sh(f"git diff -U0 -- {f}", copy).stdout.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(start, start + cnt):
                        if bl[k-1].startswith("^" + base[:5]) or bl[k-1].startswith(base[:6]):
                            orig = True
                        else:
                            n += 1
            if n:
                msg.append(f"note: {f}: {n} changed lines are not original")
        if not orig:
            msg.append("no original line changed")
        r = sh("go build ./... && go vet ./builder ./stmt && go test ./... 2>&1 | tail -15", copy)
        if r.returncode or "FAIL" in r.stdout:
            msg.append("build/tests: " + r.stdout[-1500:])
        d = os.path.join(VERIF, "seeded", bug["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        imports = "".join(f'\t{i if " " in i else chr(34) + i + chr(34)}\n' for i in bug.get("imports", []))
        body = bug["demo"]
        h = HEAD % ("\n" + imports if imports else "")
        open(os.path.join(d, "main.go"), "w").write(h + "func main() {\n" + body.strip("\n") + "\n}\n" + bug.get("extra", ""))
        sh("gofmt -w main.go", d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", REPO)
        b = sh(f"bash {d}/demo.sh", copy)
        if a.returncode != 0:
            msg.append("demo fails on the unchanged tree: " + a.stdout[-600:])
        if b.returncode in (0, 3):
            msg.append(f"demo exits {b.returncode} with the patch: " + b.stdout[-600:])
        c = sh(f"VT_REPO={copy} /tmp/vt -prop {bug['property']} -tier quick -verif /verif 2>&1 | tail -12", VERIF)
        caught = f"VIOLATION property={bug['property']}" in c.stdout
        print(bug["id"], bug["property"], "CAUGHT" if caught else "MISSED", "; ".join(msg))
        if not caught or "-v" in os.environ.get("SEEDV", ""):
            print("   ", c.stdout[-700:])
    else:
        print(bug["id"], "BROKEN", msg)
    shutil.rmtree(tmp)
