#!/usr/bin/env python3
"""Run checks against changed copies of /repo.

  run.py [-j N] [-p C01,C02] [name ...]

A case is a directory-less description in cases.py: which file, what to replace
and whether the change breaks a property ("bug") or none ("same").  Copies and
build output live in a scratch directory.
"""
import argparse
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from cases import CASES  # noqa: E402


def checks():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "vfa", "rules")) if f[0] == "c" and f[1:3].isdigit())


def apply(case, repo):
    for f, old, new in case["edits"]:
        p = os.path.join(repo, f)
        s = open(p, encoding="utf-8").read()
        if s.count(old) < 1:
            return "text to replace not found in " + f
        if s.count(old) > 1:
            return "text to replace found %d times in %s" % (s.count(old), f)
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    return None


def worker(n, scratch, todo, props, out):
    w = os.path.join(scratch, "w%d" % n)
    repo, build = os.path.join(w, "repo"), os.path.join(w, "build")
    os.makedirs(w)
    subprocess.run(["cp", "-al", os.path.join(ROOT, ".build"), build], check=True)
    for d in ("facts", "lock"):
        p = os.path.join(build, d)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.remove(p)
    while True:
        try:
            case = todo.get_nowait()
        except queue.Empty:
            return
        if os.path.isdir(repo):
            shutil.rmtree(repo)
        subprocess.run(
            ["rsync", "-a", "--exclude", "target", "--exclude", ".git", "--exclude", "node_modules", "/repo/", repo]
            if shutil.which("rsync")
            else ["cp", "-a", "/repo", repo],
            check=True,
        )
        err = apply(case, repo)
        if err:
            out.put((case, {}, err))
            continue
        env = dict(os.environ, VFA_REPO=repo, VFA_BUILD=build, VFA_EVIDENCE=os.path.join(w, "evidence"), VERIF_TIER="quick", VERIF_SEED="1")
        res = {}
        text = ""
        for p in props(case):
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
            res[p] = (r.returncode, time.time() - t)
            if r.returncode != 0:
                text += "\n".join("      " + l for l in r.stdout.splitlines()[:14]) + "\n"
            if r.returncode not in (0, 1):
                text += "\n".join("      " + l for l in r.stdout.splitlines()[-25:]) + "\n"
        out.put((case, res, text))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-p", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-a", action="store_true", help="all checks for every case")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    have = checks()
    only = a.p.split(",") if a.p else None

    def props(case):
        if only:
            return [p for p in only if p in have]
        if a.a or case["kind"] == "same":
            return have
        return [p for p in case["props"] if p in have]

    cases = [c for c in CASES if not a.names or any(c["name"].startswith(n) for n in a.names)]
    if only and not a.names:
        cases = [c for c in cases if c["kind"] == "same" or set(c["props"]) & set(only)]
    todo, out = queue.Queue(), queue.Queue()
    for c in cases:
        todo.put(c)
    scratch = tempfile.mkdtemp(prefix="vfa-cases-")
    ts = [threading.Thread(target=worker, args=(i, scratch, todo, props, out)) for i in range(min(a.j, len(cases)))]
    for t in ts:
        t.start()
    bad = 0
    n = 0
    while n < len(cases):
        try:
            case, res, text = out.get(timeout=1)
        except queue.Empty:
            if not any(t.is_alive() for t in ts):
                break
            continue
        n += 1
        hit = sorted(p for p, r in res.items() if r[0] == 1)
        err = sorted(p for p, r in res.items() if r[0] not in (0, 1))
        if not res:
            verdict = "BROKEN CASE " + text
        elif "Traceback" in text:
            verdict = "ERROR exception"
        elif err:
            verdict = "ERROR " + ",".join(err)
        elif case["kind"] == "bug":
            why = [l.strip() for l in text.splitlines() if l.startswith("        ") and not l.startswith("         ")]
            verdict = "caught by " + ",".join(hit) + ": " + (why[0][:150] if why else "") if hit else "MISSED"
        else:
            verdict = "FALSE ALARM " + ",".join(hit) if hit else "quiet"
        if verdict.split()[0] in ("BROKEN", "ERROR", "MISSED", "FALSE"):
            bad += 1
        print("%-44s %s" % (case["name"], verdict), flush=True)
        if res and (a.v or verdict.split()[0] in ("ERROR", "FALSE")):
            print(text)
    shutil.rmtree(scratch)
    print("%d cases, %d not as expected" % (n, bad))
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
