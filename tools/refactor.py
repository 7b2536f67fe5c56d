#!/usr/bin/env python3
"""refactor.py [-w FILE.py] [ID...]: applies behaviour-preserving edits to a scratch
copy of /repo, confirms build and tests, and runs all specifications and checks on it.
With -w the edits come from FILE.py (EDITS: id -> [(file, old, new)]) and are written
to /verif/refactorings/<id>.diff first."""
import os, re, shutil, subprocess, sys, tempfile, runpy, json
from concurrent.futures import ThreadPoolExecutor
REPO, VERIF, VT = "/repo", "/verif", os.environ.get("VT", "/tmp/vt")
_vt = tempfile.mkdtemp(prefix="vtbin") + "/vt"
shutil.copy(VT, _vt)
VT = _vt
SPEC = os.path.dirname(_vt) + "/spec"
shutil.copytree(VERIF + "/spec", SPEC)
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
args = sys.argv[1:]
RF = os.path.join(VERIF, "refactorings")
if args and args[0] == "-w":
    edits = runpy.run_path(args[1])["EDITS"]
    args = args[2:] or list(edits)
    for i in args:
        tmp = tempfile.mkdtemp(prefix="rf")
        copy = tmp + "/repo"
        sh(f"cp -a {REPO} {copy}", "/")
        good = True
        for f, old, new in edits[i]:
            s = open(f"{copy}/{f}").read()
            if s.count(old) != 1:
                print(i, f, s.count(old), "matches of", old[:60]); good = False
            open(f"{copy}/{f}", "w").write(s.replace(old, new))
        if good:
            sh("gofmt -w $(git diff --name-only)", copy)
            r = sh("go build ./... && go vet ./builder ./stmt ./types ./format && go test ./... 2>&1 | tail -30", copy)
            if r.returncode or "FAIL" in r.stdout:
                print(i, "BROKEN", r.stdout[-1500:])
            else:
                open(f"{RF}/{i}.diff", "w").write(sh("git diff", copy).stdout)
        shutil.rmtree(tmp)
ids = args or sorted(f[:-5] for f in os.listdir(RF) if f.endswith(".diff"))
def run(i):
    tmp = tempfile.mkdtemp(prefix="rf")
    copy = tmp + "/repo"
    sh(f"cp -a {REPO} {copy}", "/")
    out = ""
    r = sh(f"git apply {RF}/{i}.diff", copy)
    if r.returncode:
        out = "does not apply: " + r.stdout
    else:
        ev = tmp + "/verif"
        os.makedirs(ev)
        os.symlink(SPEC, ev + "/spec")
        shutil.copy(VERIF + "/known_findings.txt", ev)
        r = sh(f"{VT} -all -repo {copy} -verif {ev}", VERIF)
        if r.returncode:
            out = "".join("  " + l[:300] + "\n" for l in r.stdout.splitlines() if ": " not in l[:5])
    shutil.rmtree(tmp)
    return i, out
with ThreadPoolExecutor(7) as ex:
    for i, out in ex.map(run, ids):
        print(i, "quiet" if not out else "ALARM\n" + out, flush=True)
shutil.rmtree(os.path.dirname(VT))
