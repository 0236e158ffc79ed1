#!/usr/bin/env python3
"""Make small changes to /repo at random and list those that neither a check nor a unit test notices.

  mutate.py [-j N] [-n count] [-s seed] [-f file.rs,...] [-l]

For finding gaps in the rules: what is listed is either a change without effect or a gap.
"""
import argparse
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from run import checks  # noqa: E402

SRC = "daemon/src/"
FIRST = {
    "sandbox.rs": ["C01"],
    "daemon.rs": ["C03", "C04", "C06", "C20", "C24", "C25"],
    "document.rs": ["C31", "C25", "C06"],
    "editor.rs": ["C12", "C27"],
    "editor_connection.rs": ["C20", "C21", "C25"],
    "jsonrpc_forwarder.rs": ["C27"],
    "main.rs": ["C16", "C30", "C19"],
    "ot.rs": ["C41", "C20"],
    "path.rs": ["C08", "C24"],
    "peer.rs": ["C08", "C10", "C14", "C30"],
    "types.rs": ["C31", "C13"],
    "watcher.rs": ["C22", "C15"],
}
LOG = re.compile(r"^\s*(debug|info|warn|error|trace|println|eprintln)!\(")
SWAPS = [
    (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
    (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), ("true", "false"), ("false", "true"),
    ("if !", "if "), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"),
    ("..=", ".."), (".start", ".end"), (".end", ".start"), ("?;", ".ok();"), (".any(", ".all("), (".all(", ".any("),
    ("continue;", "break;"), ("break;", "continue;"), ("start_", "end_"),
]


def mutants(f, text):
    cut = text.rfind("#[cfg(test)]\nmod ")
    lines = (text if cut < 0 else text[:cut]).split("\n")
    rest = "" if cut < 0 else text[cut:]
    depth_log = False
    for i, l in enumerate(lines):
        s = l.strip()
        if depth_log:
            if s.endswith(");"):
                depth_log = False
            continue
        if LOG.match(l):
            depth_log = not s.endswith(");")
            continue
        if re.match(r"^(\d+, )+\d+,?$", s) or not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "fn ", "pub fn", "impl", "struct", "pub struct", "async fn", "type ")):
            continue

        def out(what, new):
            return "%s:%d %s" % (f, i + 1, what), "\n".join(lines[:i] + new + lines[i + 1 :]) + rest

        if s.endswith(";") and not s.startswith(("let ", "return", "}", ".", ")")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            yield out("delete `%s`" % s, [])
        for a, b in SWAPS:
            if a in l:
                yield out("`%s` %s -> %s" % (s, a.strip(), b.strip()), [l.replace(a, b, 1)])
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", l):
            yield out("`%s` %s+1" % (s, m.group(1)), [l[: m.start()] + str(int(m.group(1)) + 1) + l[m.end() :]])
        m = re.match(r"^(\s*)(\} else )?if (?!let )(.*) \{$", l)
        if m:
            yield out("never `%s`" % s, ["%s%sif false && (%s) {" % (m.group(1), m.group(2) or "", m.group(3))])
            yield out("always `%s`" % s, ["%s%sif true || (%s) {" % (m.group(1), m.group(2) or "", m.group(3))])
        m = re.match(r"^(\s*)return (.*);$", l)
        if m and "Err" not in l:
            yield out("no return `%s`" % s, [])


def tests(repo, w):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(w, "target"), XDG_RUNTIME_DIR=os.path.join(w, "run"), USER="root", CARGO_NET_OFFLINE="true")
    os.makedirs(os.path.join(w, "run"), mode=0o700, exist_ok=True)
    try:
        r = subprocess.run(["cargo", "test", "--offline", "--lib", "-q"], cwd=os.path.join(repo, "daemon"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def worker(n, scratch, todo, have, out):
    w = os.path.join(scratch, "w%d" % n)
    repo, build = os.path.join(w, "repo"), os.path.join(w, "build")
    os.makedirs(w)
    subprocess.run(["cp", "-al", os.path.join(ROOT, ".build"), build], check=True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for d in ("facts", "lock"):
        p = os.path.join(build, d)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.remove(p)
    while True:
        try:
            f, what, text = todo.get_nowait()
        except queue.Empty:
            return
        path = os.path.join(repo, SRC, f)
        old = open(path, encoding="utf-8").read()
        open(path, "w", encoding="utf-8").write(text)
        env = dict(os.environ, VFA_REPO=repo, VFA_BUILD=build, VFA_EVIDENCE=os.path.join(w, "evidence"), VERIF_TIER="quick", VERIF_SEED="1")
        verdict = None
        order = FIRST.get(f, []) + [x for x in have if x not in FIRST.get(f, [])]
        for p in order:
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
            if r.returncode == 1:
                verdict = "caught " + p
                if "could not compile" in r.stdout or "error[E" in r.stdout or "error: " in r.stdout:
                    verdict = "does not compile"
                break
            if r.returncode != 0:
                verdict = "does not compile" if "ensure" in r.stdout or "error" in r.stdout else "ERROR " + p + r.stdout[-400:]
                break
        if verdict is None:
            verdict = "SURVIVED" if tests(repo, w) else "caught by tests"
        open(path, "w", encoding="utf-8").write(old)
        out.put((f, what, verdict))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-n", type=int, default=100)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", default="")
    ap.add_argument("-l", action="store_true", help="only list them")
    a = ap.parse_args()
    all_ = []
    for f in sorted(os.listdir("/repo/" + SRC)):
        if f.endswith(".rs") and (not a.f or f in a.f.split(",")) and f not in ("lib.rs", "logging.rs"):
            all_ += [(f, w, t) for w, t in mutants(f, open("/repo/" + SRC + f, encoding="utf-8").read())]
    print("%d possible" % len(all_), flush=True)
    random.Random(a.s).shuffle(all_)
    pick = all_[: a.n] if a.n else all_
    if a.l:
        for f, w, t in pick:
            print(w)
        return
    todo, out = queue.Queue(), queue.Queue()
    for x in pick:
        todo.put(x)
    scratch = tempfile.mkdtemp(prefix="vfa-mut-")
    have = checks()
    ts = [threading.Thread(target=worker, args=(i, scratch, todo, have, out)) for i in range(a.j)]
    for t in ts:
        t.start()
    n = 0
    counts = {}
    while n < len(pick):
        try:
            f, what, verdict = out.get(timeout=1)
        except queue.Empty:
            if not any(t.is_alive() for t in ts):
                break
            continue
        n += 1
        counts[verdict] = counts.get(verdict, 0) + 1
        print("%-18s %s" % (verdict, what), flush=True)
    shutil.rmtree(scratch)
    print(counts)


if __name__ == "__main__":
    main()
