#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/bugs.py and confirms the bugs:  plant.py [-n] [id...]

For each bug: the patch applies to the current /repo, the scratch copy compiles and passes
the unit tests of the daemon, the demonstration passes on /repo and fails on the copy.
With -n only the files are written.
"""
import inspect
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs  # noqa

VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VFA_REPO", "/repo")
COPY = "/tmp/plant/repo"

DEMO = '''#!/bin/bash
exec timeout -k 5 280 python3 "$(dirname "$0")/demo.py"
'''
DEMO_PY = '''import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from e2e import *  # noqa


%s

with Scratch() as s:
    ok = %s(s)
print("ok" if ok else "FAILS")
sys.exit(0 if ok else 1)
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def write(b):
    d = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    scratch = "/tmp/plant/diff"
    shutil.rmtree(scratch, ignore_errors=True)
    diff = ""
    files = {}
    for f, old, new in b["edits"]:
        text = files.get(f) or open(os.path.join(REPO, f)).read()
        assert text.count(old) == 1, (b["id"], f, text.count(old), old)
        files[f] = text.replace(old, new)
    for f, text in files.items():
        for side, t in (("a", open(os.path.join(REPO, f)).read()), ("b", text)):
            p = os.path.join(scratch, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(t)
        r = sh(["git", "diff", "--no-index", "--no-prefix", "--no-color", "a/" + f, "b/" + f], cwd=scratch)
        diff += r.stdout
    with open(os.path.join(d, "patch.diff"), "w") as fh:
        fh.write(diff)
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, fh, indent=1)
        fh.write("\n")
    p = os.path.join(d, "demo.sh")
    if b.get("files"):
        for name, text in b["files"].items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
    else:
        with open(p, "w") as fh:
            fh.write(DEMO)
        src = inspect.getsource(b["demo"])
        src = src[("\n" + src).index("\ndef "):]
        helpers = "".join(inspect.getsource(h) + "\n\n" for h in b["uses"])
        with open(os.path.join(d, "demo.py"), "w") as fh:
            fh.write(DEMO_PY % (helpers + src, b["demo"].__name__))
        shutil.copy(os.path.join(VERIF, "findings", "e2e.py"), d)
    os.chmod(p, 0o755)
    shutil.rmtree(scratch, ignore_errors=True)
    return d


def confirm(b, d):
    if not os.path.isdir(COPY):
        os.makedirs(os.path.dirname(COPY), exist_ok=True)
        sh(["cp", "-a", REPO, COPY])
    sh(["git", "checkout", "-q", "--", "."], cwd=COPY)
    head = sh(["git", "rev-parse", "HEAD"], cwd=REPO).stdout
    if sh(["git", "rev-parse", "HEAD"], cwd=COPY).stdout != head:
        sh(["git", "pull", "-q", "--ff-only", REPO, "main"], cwd=COPY)
        assert sh(["git", "rev-parse", "HEAD"], cwd=COPY).stdout == head
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=COPY)
    if r.returncode:
        return "does not apply: " + r.stdout
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    if any(f.startswith("daemon/") for f, _, _ in b["edits"]):
        r = sh(["cargo", "build", "--offline", "--locked", "-q"], cwd=COPY + "/daemon", env=env)
        if r.returncode:
            return "does not compile:\n" + r.stdout[-3000:]
        r = sh(["cargo", "test", "--offline", "--locked", "-q"], cwd=COPY + "/daemon", env=env)
        if r.returncode:
            return "tests fail:\n" + r.stdout[-2000:]
    demo = os.path.join(d, "demo.sh")
    r = sh([demo], cwd=REPO)
    if r.returncode:
        return "demonstration fails on the unchanged tree: " + r.stdout[-1500:]
    r = sh([demo], cwd=COPY)
    if not r.returncode:
        return "demonstration passes with the bug: " + r.stdout[-1500:]
    return "confirmed (%s)" % r.stdout.strip()[-60:]


if __name__ == "__main__":
    args = sys.argv[1:]
    dry = "-n" in args
    ids = [a for a in args if a != "-n"]
    for b in bugs.ALL:
        if ids and b["id"] not in ids:
            continue
        d = write(b)
        if not dry:
            print(b["id"], confirm(b, d), flush=True)
    if not dry:
        shutil.rmtree("/tmp/plant", ignore_errors=True)
