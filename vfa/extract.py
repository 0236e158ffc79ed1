"""Obtaining the facts of the current source tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFA_REPO", "/repo")
BUILD = os.environ.get("VFA_BUILD", os.path.join(HERE, ".build"))
DRIVER_DIR = os.path.join(HERE, "driver")
TOOLCHAIN = "+nightly"


class ExtractError(Exception):
    pass


def _files(root, exts=None, skip=("target", ".git", "node_modules")):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                yield os.path.join(d, f)


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _run(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout


def driver():
    """Path of the driver, built if its sources changed."""
    src = list(_files(os.path.join(DRIVER_DIR, "src"))) + [os.path.join(DRIVER_DIR, "Cargo.toml")]
    stamp = _hash(src)
    exe = os.path.join(DRIVER_DIR, "target", "debug", "vfa-driver")
    mark = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == stamp:
        return exe, stamp
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(DRIVER_DIR, "target")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    _run(["cargo", TOOLCHAIN, "build", "--offline"], DRIVER_DIR, env, "building the fact extractor")
    with open(mark, "w") as fh:
        fh.write(stamp)
    return exe, stamp


def daemon_sources():
    d = os.path.join(REPO, "daemon")
    out = [p for p in _files(d, (".rs", ".toml", ".lock")) if "/tests/" not in p]
    return out


def ensure(log=None):
    """Facts files of the current tree, extracted unless this very tree was extracted before."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe, stamp = driver()
        srcs = daemon_sources()
        key = hashlib.sha256((_hash(srcs) + stamp).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "facts", key)
        names = ["ethersync-lib.json", "ethersync-bin.json"]
        files = [os.path.join(out, n) for n in names]
        mark = os.path.join(out, "complete")
        if not (os.path.exists(mark) and all(os.path.exists(f) for f in files)):
            if os.path.isdir(os.path.join(BUILD, "facts")):
                shutil.rmtree(os.path.join(BUILD, "facts"))
            os.makedirs(out)
            target = os.path.join(BUILD, "target")
            # make sure that the compiler runs on the crate itself
            for sub in ("debug/build/ethersync",):
                p = os.path.join(target, sub)
                if os.path.isdir(p):
                    shutil.rmtree(p)
            fp = os.path.join(target, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("ethersync"):
                        shutil.rmtree(os.path.join(fp, n))
            env = dict(os.environ)
            env["CARGO_TARGET_DIR"] = target
            env["CARGO_INCREMENTAL"] = "0"
            env["RUSTC_WORKSPACE_WRAPPER"] = exe
            env["VFA_OUT"] = out
            sysroot = _run(["rustc", TOOLCHAIN, "--print", "sysroot"], REPO, env | {"RUSTC_WORKSPACE_WRAPPER": ""}, "rustc").strip()
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            env.pop("RUSTFLAGS", None)
            _run(
                ["cargo", TOOLCHAIN, "check", "--offline", "--locked", "--lib", "--bins"],
                os.path.join(REPO, "daemon"),
                env,
                "compiling /repo/daemon",
            )
            for f in files:
                if not os.path.exists(f):
                    raise ExtractError("no facts were written: " + f)
            with open(mark, "w") as fh:
                fh.write(key)
        return files, key, len(srcs)


if __name__ == "__main__":
    print(*ensure())
