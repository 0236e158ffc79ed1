"""Drives the built daemon in a scratch directory."""
import json
import os
import select
import shutil
import socket
import subprocess
import tempfile
import time

BIN = os.environ.get("ETHERSYNC_BIN") or os.path.join(os.getcwd(), "daemon/target/debug/ethersync")


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def wait(cond, timeout=10, step=0.05):
    end = time.time() + timeout
    while time.time() < end:
        try:
            if cond():
                return True
        except (OSError, UnicodeDecodeError):
            pass
        time.sleep(step)
    return False


def read(p):
    try:
        with open(p, encoding="utf-8", newline="") as f:
            return f.read()
    except OSError:
        return None


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="es-")
        self.procs = []
        return self

    def __exit__(self, *a):
        for d in self.procs:
            d.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def project(self, name, files=None, ethersync=True):
        p = os.path.join(self.dir, name)
        os.makedirs(p)
        if ethersync:
            os.mkdir(os.path.join(p, ".ethersync"))
        for f, c in (files or {}).items():
            q = os.path.join(p, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb" if isinstance(c, bytes) else "w") as fh:
                fh.write(c)
        return p

    def daemon(self, project, **kw):
        d = Daemon(self, project, **kw)
        self.procs.append(d)
        return d


class Daemon:
    n = 0

    def __init__(self, scratch, project, peer=None, secret="test-secret", init=False, port=None, args=(), debug=False, start=True, env=None):
        Daemon.n += 1
        self.project = project
        self.port = port or free_port()
        self.sock = "ethersync-%d" % Daemon.n
        self.runtime = os.path.join(scratch.dir, "run%d" % Daemon.n)
        os.makedirs(self.runtime, mode=0o700, exist_ok=True)
        self.log = os.path.join(scratch.dir, "log%d" % Daemon.n)
        self.cmd = [BIN, "--socket-name", self.sock]
        if debug:
            self.cmd.append("--debug")
        self.cmd += ["daemon", project, "--port", str(self.port)]
        config = os.path.join(project, ".ethersync", "config")
        if secret is not None and os.path.isdir(os.path.dirname(config)) and not os.path.exists(config):
            with open(config, "w") as fh:
                fh.write("secret=%s\n" % secret)
        if peer:
            self.cmd += ["--peer", "/ip4/127.0.0.1/tcp/%d" % peer.port]
        if init:
            self.cmd.append("--init")
        self.cmd += list(args)
        self.env = dict(os.environ, XDG_RUNTIME_DIR=self.runtime)
        self.env.update(env or {})
        self.proc = None
        if start:
            self.start()

    def start(self, ready=True):
        self.out = open(self.log, "ab")
        self.proc = subprocess.Popen(self.cmd, stdout=self.out, stderr=self.out, stdin=subprocess.DEVNULL, env=self.env, cwd=self.project)
        if ready and not wait(lambda: self.proc.poll() is not None or "Listening on UNIX" in self.logs(), 15):
            raise RuntimeError("daemon did not start: " + self.logs())
        time.sleep(0.2)

    def logs(self):
        return read(self.log) or ""

    def alive(self):
        return self.proc.poll() is None

    def kill(self, sig=9):
        if self.proc and self.proc.poll() is None:
            self.proc.send_signal(sig)
            self.proc.wait()

    def path(self, f):
        return os.path.join(self.project, f)

    def connected(self, timeout=15):
        return wait(lambda: "Peer connected" in self.logs() or "Connected to peer" in self.logs(), timeout)

    def editor(self):
        return Editor(self)

    def socket_path(self):
        return os.path.join(self.runtime, self.sock)


class Editor:
    def __init__(self, daemon):
        self.d = daemon
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(daemon.socket_path())
        self.buf = b""
        self.id = 0
        self.got = []

    def raw(self, data):
        self.s.sendall(data)

    def send(self, method, **params):
        self.id += 1
        self.raw(json.dumps({"jsonrpc": "2.0", "id": self.id, "method": method, "params": params}).encode() + b"\n")
        return self.id

    def poll(self, timeout=0.2):
        end = time.time() + timeout
        while True:
            r, _, _ = select.select([self.s], [], [], max(0, end - time.time()))
            if not r:
                return self.got
            try:
                data = self.s.recv(65536)
            except OSError:
                return self.got
            if not data:
                return self.got
            self.buf += data
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                self.got.append(json.loads(line))

    def response(self, i, timeout=5):
        end = time.time() + timeout
        while time.time() < end:
            for m in self.poll(0.05):
                if m.get("id") == i and "method" not in m:
                    return m
        return None

    def uri(self, f):
        return "file://" + self.d.path(f)

    def request(self, method, **params):
        return self.response(self.send(method, **params))

    def open(self, f):
        return self.request("open", uri=self.uri(f))

    def close_file(self, f):
        return self.request("close", uri=self.uri(f))

    def edit(self, f, rev, start, end, text):
        return self.request(
            "edit", uri=self.uri(f), revision=rev,
            delta=[{"range": {"start": {"line": start[0], "character": start[1]}, "end": {"line": end[0], "character": end[1]}}, "replacement": text}],
        )

    def cursor(self, f, start, end):
        return self.request(
            "cursor", uri=self.uri(f),
            ranges=[{"start": {"line": start[0], "character": start[1]}, "end": {"line": end[0], "character": end[1]}}],
        )

    def of(self, method, timeout=0.5):
        self.poll(timeout)
        return [m for m in self.got if m.get("method") == method]

    def disconnect(self):
        self.s.close()
