"""C16: peers cannot change version control or Ethersync internals."""
from ..rulelib import *
from .c01 import only_env
from .own import Owned, WRITES, REMOVES, writes, fixed

TECHNIQUE = "modular dataflow over MIR: facts about path components at every call that creates, writes or removes a file"
NOTE = (
    "Every reachable call that changes the file system under a name that is not a constant of the program. "
    "Symlinks inside the project that lead to these directories are not covered."
)

RESERVED = {".git", ".ethersync"}
CHANGES = tuple(set(WRITES) | set(REMOVES) | {"std::fs::create_dir", "std::fs::create_dir_all", "std::fs::DirBuilder::create"})
PARTS = ("std::path::Path::iter", "std::path::Path::components", "std::path::Components::*", "core::str::split", "core::str::*split*")

# types of values that come from peers, or from editors and the file system
PEER = ("::DocMessage", "automerge::", "::PatchEffect", "::FileTextDelta")
LOCAL = ("::EditorProtocolMessageFromEditor", "::ComponentMessage", "::WatcherEvent")


def excluded(n, p):
    """Names that no component of the path equals, on every way to this point."""
    best = set()
    for t, f in n.facts.items():
        if t.op != "forall":
            continue
        src, body = t.args
        if src.op != "call" or not src.args[0].endswith(("Path::iter", "Path::components", "::split", "::split_terminator")):
            continue
        # the file the components were taken from is the one the path names
        names = [x for x in src.sub if x.op in ("sym", "fld", "vfld", "call", "elem", "loop", "join")]
        if not any(x in p.sub for x in names if x.op != "call"):
            continue
        if body is BV and f == ("=", "empty") or body.op == "call" and body.args[0] == "is_utf8" and f == ("=", False):
            best |= RESERVED
        elif body is BV or (BV in body.occ and body.op in ("call", "fld", "vfld")):
            if f[0] == "!":
                best |= {x for x in f[1] if isinstance(x, str)}
            elif f == ("=", False) and body.op == "bin" and body.args[0] == "Eq":
                best |= {x.args[0] for x in body.args[1:] if x.op == "k"}
    return best


def cause(m, E, p):
    """Who chose the path: a peer, this user, or not known here."""
    if only_env(E, p):
        return "local"
    ts = m.arg_types(p)
    if any(x in t for t in ts for x in PEER):
        return "peer"
    if any(x in t for t in ts for x in LOCAL) or any(x.op in ("fld", "vfld") and x.args[-1] in m.conns for x in p.sub):
        return "local"
    if mentions(p, lambda x: x.op in ("call", "sym") and str(x.args[0]).endswith("::recv")):
        return "peer"
    return None if ts else "local"


def run(c):
    c.rule = (
        "At every reachable call that creates, writes, renames or removes a file or directory whose name is not constant and that a "
        "peer can cause, a completed search over all components of the path has found neither '.git' nor '.ethersync'."
    )
    c.assumptions += ["No symlink inside the project leads into a '.git' or '.ethersync' directory."]
    m = Modular(c, CHANGES + PARTS, hold_fact=lambda t: t.op == "forall")
    m.conns = Owned(c.facts).conns
    m.opts["helper"] = lambda h: any(x in n for n in m.callees[h][1] for x in ("path::Path::iter", "path::Path::components", "str::split"))

    def judge(E, n):
        i = REMOVES.get(n.data.name)
        ps = []
        if i is not None:
            ps.append(n.data.args[i])
        if n.data.name in WRITES:
            p = writes(n)
            if p is not None:
                ps.append(p)
        elif n.data.name.endswith(("create_dir", "create_dir_all")):
            ps.append(n.data.args[0])
        for p in ps:
            c.oblige(kind="changes", sample="%s in %s" % (short(n.data.name), E.roots[0][0]))
            if fixed(p) or RESERVED <= excluded(n, p):
                continue
            who = cause(m, E, p)
            if who == "local":
                continue
            if who == "peer":
                return ["no check of the components of the path"]
            return "no check of the components of the path"
        return None

    for E, n, w in m.climb(CHANGES, judge):
        b = E.roots[0][0]
        c.violate(
            ("change", norm(E.ctx_body(n.ctx).path), n.data.name, b),
            "%s, reached from %s, may change '.git' or '.ethersync' (%s)" % (short(n.data.name), b, w),
            c.at(E, n),
            c.trace(E, from_root(E, n.id)),
        )
    if not c.obligations:
        c.violate(("no-change",), "no call that changes a file found")


