#!/usr/bin/env python3
"""Shows each finding against the built daemon:  demos.py [name...]   (cwd: /repo)

Prints 'ok' where the daemon behaves as the property says and 'FAILS' where not.
"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from e2e import *  # noqa


def pair(s, files=None, files_b=None):
    a = s.daemon(s.project("a", files))
    b = s.daemon(s.project("b", files_b), peer=a)
    assert b.connected()
    for f, c in (files or {}).items():
        assert wait(lambda: read(b.path(f)) == c), f
    return a, b


def c01_dangling_symlink(s):
    outside = os.path.join(s.dir, "outside")
    os.mkdir(outside)
    pb = s.project("b")
    os.symlink(os.path.join(outside, "target"), os.path.join(pb, "link"))
    a = s.daemon(s.project("a", {"link": "from the peer\n"}))
    b = s.daemon(pb, peer=a)
    wait(lambda: os.path.exists(os.path.join(outside, "target")), 4)
    return not os.path.exists(os.path.join(outside, "target"))


def c05_open_new_file(s):
    a, b = pair(s)
    e = b.editor()
    e.open("new.txt")
    return wait(lambda: read(a.path("new.txt")) is not None, 4)


def c24_editor_gone(s):
    """Lines of an editor that does not read any more are handled after a send to it failed."""
    a = s.daemon(s.project("a", {"f": "hello\n"}))
    e1, e2 = a.editor(), a.editor()
    e1.open("f")
    e2.open("f")
    e1.s.shutdown(socket.SHUT_RD)
    e2.edit("f", 0, (0, 0), (0, 0), "X")
    e1.send("close", uri=e1.uri("f"))
    time.sleep(1)
    return a.alive()


def c24_deleted_by_peer(s):
    a, b = pair(s, {"f": "hello\n"})
    e = b.editor()
    e.open("f")
    os.remove(a.path("f"))
    wait(lambda: not os.path.exists(b.path("f")), 4)
    e.send("edit", uri=e.uri("f"), revision=0, delta=[{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "X"}])
    time.sleep(1)
    return b.alive()


def c24_gone_while_answered(s):
    """An editor that does not read any more edits a text while changes sent to it are unconfirmed."""
    a = s.daemon(s.project("a", {"f": "hello\n"}))
    e1, e2 = a.editor(), a.editor()
    e1.open("f")
    e2.open("f")
    e2.edit("f", 0, (0, 0), (0, 0), "X")
    assert e1.of("edit")
    e1.s.shutdown(socket.SHUT_RD)
    e1.send("edit", uri=e1.uri("f"), revision=0, delta=[{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "Y"}])
    time.sleep(1)
    return a.alive()


def c03_disconnect(s):
    a = s.daemon(s.project("a", {"f": "hello\n"}))
    e = a.editor()
    e.open("f")
    e.edit("f", 0, (0, 0), (0, 0), "X")
    e.disconnect()
    return wait(lambda: read(a.path("f")) == "Xhello\n", 3)


def c03_send_failure(s):
    a = s.daemon(s.project("a", {"f": "hello\n"}))
    e, e2 = a.editor(), a.editor()
    e.open("f")
    e.edit("f", 0, (0, 0), (0, 0), "X")
    e.s.shutdown(socket.SHUT_RD)
    e2.cursor("f", (0, 0), (0, 0))
    time.sleep(0.5)
    e.disconnect()
    return wait(lambda: read(a.path("f")) == "Xhello\n", 3)


def c22_replaced(s):
    a, b = pair(s, {"f": "hello\n"})
    with open(a.path("f.tmp"), "w") as fh:
        fh.write("replaced\n")
    time.sleep(0.5)
    os.rename(a.path("f.tmp"), a.path("f"))
    return wait(lambda: read(b.path("f")) == "replaced\n", 4)


def c22_moved_in(s):
    a, b = pair(s, {"f": "hello\n"})
    out = os.path.join(s.dir, "x")
    with open(out, "w") as fh:
        fh.write("moved\n")
    os.rename(out, a.path("moved"))
    return wait(lambda: read(b.path("moved")) == "moved\n", 4)


def c22_moved_out(s):
    a, b = pair(s, {"f": "hello\n", "g": "g\n"})
    os.rename(a.path("f"), os.path.join(s.dir, "x"))
    return wait(lambda: not os.path.exists(b.path("f")), 4)


def c18_torn_full(s):
    """The daemon is killed (by a file size limit) while it writes the whole document."""
    import random
    import resource

    r = random.Random(1)
    p = s.project("a", {"f": "".join(chr(r.randrange(0x4E00, 0x9F00)) for _ in range(20000))})
    a = s.daemon(p)
    q = os.path.join(p, ".ethersync/doc")
    assert wait(lambda: os.path.exists(q) and os.path.getsize(q) > 20000, 30)
    time.sleep(1)
    a.kill()
    n = os.path.getsize(q)
    out = open(os.devnull, "wb")
    lim = n // 2
    x = subprocess.Popen(a.cmd, stdout=out, stderr=out, env=a.env, cwd=p,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim)))
    x.wait(30)
    try:
        a.start()
    except RuntimeError:
        return False
    return a.alive()


def c18_torn_append(s):
    p = s.project("a", {"f": "hello\n"})
    a = s.daemon(p)
    q = os.path.join(p, ".ethersync/doc")
    wait(lambda: os.path.exists(q))
    time.sleep(0.5)
    n = os.path.getsize(q)
    e = a.editor()
    e.open("f")
    e.edit("f", 0, (0, 0), (0, 0), "X" * 50)
    assert wait(lambda: os.path.getsize(q) > n)
    time.sleep(1.5)
    n = os.path.getsize(q)
    e.edit("f", 0, (0, 0), (0, 0), "Y" * 50)
    assert wait(lambda: os.path.getsize(q) > n)
    a.kill()
    # what was saved by the first append, as the file on disk is not written while an editor has it open
    with open(a.path("f"), "w") as fh:
        fh.write("X" * 50 + "hello\n")
    data = open(q, "rb").read()
    with open(q, "wb") as fh:
        fh.write(data[:-7])
    a.start()
    return a.alive() and "in CRDT with delta" not in a.logs()


def peer(s, a, *args, drip=0):
    """Runs the peer of findings/peer against a daemon."""
    crate = os.path.join(os.path.dirname(os.path.abspath(__file__)), "peer")
    exe = os.path.join(crate, "target", "debug", "peer")
    if not os.path.exists(exe):
        subprocess.run(["cargo", "build", "--offline", "-q"], cwd=crate, check=True)
    p = subprocess.Popen(
        [exe, "/ip4/127.0.0.1/tcp/%d" % a.port, "test-secret", str(drip), *args],
        stdout=open(os.path.join(s.dir, "peer.log"), "w"),
        stderr=subprocess.STDOUT,
    )
    s.procs.append(p)
    return p


def c08_slow_length(s):
    """The length of a message arrives in two parts, and the document changes in between."""
    a = s.daemon(s.project("a", {"f": "hello\n"}))
    p = peer(s, a, "g", "from the peer", drip=1000)
    for i in range(8):
        with open(a.path("f"), "a") as fh:
            fh.write("%d\n" % i)
        time.sleep(0.6)
    log = os.path.join(s.dir, "peer.log")
    return wait(lambda: read(a.path("g")) == "from the peer", 15) and "closed" not in read(log)


def c16_write(s):
    a = s.daemon(s.project("a", {"f": "hello\n", ".git/config": "mine\n"}))
    peer(s, a, ".git/config", "from the peer", ".git/hooks/x", "evil", "g", "ok", ".ethersync/config", "y")
    return (
        wait(lambda: read(a.path("g")) == "ok")
        and read(a.path(".git/config")) == "mine\n"
        and not os.path.exists(a.path(".git/hooks/x"))
        and "secret" in read(a.path(".ethersync/config"))
    )


def c16_remove(s):
    a = s.daemon(s.project("a", {"f": "hello\n", ".git/config": "mine\n"}))
    p = peer(s, a, ".git/config", "x", "g", "ok")
    assert wait(lambda: read(a.path("g")) == "ok")
    p.kill()
    with open(a.path(".git/config"), "w") as fh:
        fh.write("mine\n")
    peer(s, a, "-.git/config", "-g")
    return wait(lambda: read(a.path("g")) is None, 8) and a.alive() and read(a.path(".git/config")) == "mine\n"


ALL = [v for k, v in list(globals().items()) if k.startswith("c") and k[1:3].isdigit()]

if __name__ == "__main__":
    for f in ALL:
        if len(sys.argv) > 1 and f.__name__ not in sys.argv[1:]:
            continue
        with Scratch() as s:
            try:
                r = f(s)
            except Exception as ex:
                r = repr(ex)
            print("%-28s %s" % (f.__name__, "ok" if r is True else "FAILS" if r is False else r), flush=True)
