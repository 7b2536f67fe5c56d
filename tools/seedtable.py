#!/usr/bin/env python3
"""seedtable.py [ID...]: applies every planted bug to a scratch copy of /repo, runs
all checks on it and prints which of them report a violation."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO, VERIF, VT = "/repo", "/verif", os.environ.get("VT", "/tmp/vt")
BIN = tempfile.mkdtemp(prefix="vtbin")
shutil.copy(VT, BIN + "/vt")
shutil.copytree(VERIF + "/spec", BIN + "/spec")
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def run(i):
    tmp = tempfile.mkdtemp(prefix="rf")
    copy, ev = tmp + "/repo", tmp + "/verif"
    sh(f"cp -a {REPO} {copy}", "/")
    prop = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))["property"]
    r = sh(f"git apply {VERIF}/seeded/{i}/patch.diff", copy)
    by = ["does not apply"]
    if not r.returncode:
        os.makedirs(ev)
        os.symlink(BIN + "/spec", ev + "/spec")
        shutil.copy(VERIF + "/known_findings.txt", ev)
        r = sh(f"{BIN}/vt -all -repo {copy} -verif {ev}", VERIF)
        by = sorted({l.split()[0].rstrip(":") for l in r.stdout.splitlines() if l.strip().startswith("C") and ": " not in l.strip()[:5]})
    shutil.rmtree(tmp)
    return i, prop, by
ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
with ThreadPoolExecutor(7) as ex:
    for i, prop, by in ex.map(run, ids):
        print(f"| {i} | {prop} | {' '.join(by) or '-'} |", "" if prop in by else "MISSED", flush=True)
shutil.rmtree(BIN)
