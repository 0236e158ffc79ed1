"""Facts about which files the connected editors have open."""
from ..rulelib import *

MAPS = ("HashMap<", "BTreeMap<", "IndexMap<")
MAP_CALLS = ("std::collections::hash::map::*", "alloc::collections::btree::map::*")

WRITES = {
    "std::fs::write": 0,
    "std::fs::copy": 1,
    "std::fs::rename": 1,
    "std::fs::hard_link": 1,
    "std::os::unix::fs::symlink": 1,
    "std::fs::File::create": 0,
    "std::fs::File::create_new": 0,
    "std::fs::OpenOptions::open": 1,
    "tokio::fs::open_options::OpenOptions::open": 1,
    "tokio::fs::write::write": 0,
    "tokio::fs::rename::rename": 1,
    "tokio::fs::copy::copy": 1,
    "ini::Ini::write_to_file": 1,
}
REMOVES = {
    "std::fs::remove_file": 0,
    "std::fs::remove_dir": 0,
    "std::fs::remove_dir_all": 0,
    "std::fs::rename": 0,
    "tokio::fs::remove_file::remove_file": 0,
    "tokio::fs::remove_dir_all::remove_dir_all": 0,
    "tokio::fs::rename::rename": 0,
}


def writes(n):
    """Which path a call writes to, or None."""
    i = WRITES.get(n.data.name)
    if i is None or i >= len(n.data.args):
        return None
    if n.data.name.endswith("OpenOptions::open"):
        used = {x.args[0].rsplit("::", 1)[-1] for x in walk(n.data.args[0]) if x.op in ("call", "ver")}
        if used and not used & {"write", "append", "create", "create_new", "truncate"}:
            return None
    return n.data.args[i]


OPENS = ("std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open")
PUTS_IN = ("std::io::Write::write_all", "std::io::Write::write", "core::io::write::Write::write_all", "core::io::write::Write::write")


def written(n):
    """(path, content) of a call that writes a file, or None."""
    if n.data.name in ("std::fs::write", "tokio::fs::write::write"):
        return n.data.args[0], n.data.args[1]
    if n.data.name in PUTS_IN and n.data.name.endswith("_all") and len(n.data.args) > 1:
        for x in n.data.args[0].sub:
            if x.op == "call" and x.args[0] in OPENS:
                return x.args[1][WRITES[x.args[0]]], n.data.args[1]
    return None


def fixed(p):
    """A constant name below a directory; None if that cannot be told."""
    names = []
    for x in walk(p):
        if x.op == "call" and x.args[0].endswith("Path::join") and len(x.args[1]) > 1:
            names.append(x.args[1][1])
        elif x.op == "ver" and x.args[0].endswith("PathBuf::push") and len(x.args[3]) > 1:
            names.append(x.args[3][1])
    if not names:
        return None
    return all(x.op == "k" and x.args[0] for x in names)


class Owned:
    """Recognises that no connected editor has a file open."""

    def __init__(self, F):
        self.conns, self.servers = set(), set()
        for a in F.adts.values():
            if not a["p"].startswith("ethersync"):
                continue
            for v in a["variants"]:
                for f in v[1]:
                    s = F.types[f[1]]["s"]
                    if any(m in s for m in MAPS):
                        if "::OTServer" in s and "::EditorConnection" not in s:
                            self.servers.add(f[0])
                        elif "::EditorConnection" in s:
                            self.conns.add(f[0])

    def hold(self, t):
        """Facts to keep."""
        return t.op in ("forall", "mapget")

    def is_conns(self, t):
        return t.op in ("fld", "vfld") and t.args[-1] in self.conns or t.op in ("ver", "loop", "join", "mapval")

    def current(self, n, m):
        """The map is as it was when the fact was established."""
        if n.mem is None:
            return False
        chain = []
        t = m
        while t.op in ("fld", "vfld"):
            chain.append(t.args[-1])
            t = t.args[0]
        if t.op == "sym" and t.args[0] == "arg":
            v = n.mem.get(("arg:" + t.args[1],) + t.args[2:])
            if v is None:
                return True
            for k in reversed(chain):
                v = getf(v, k)
            return v is m
        return any(m in places(v) for v in n.mem.values())

    def unowned(self, E, n, about):
        """Is there a fact that no editor has open the file `about(key)` accepts?"""
        for t, f in n.facts.items():
            if t.op != "forall":
                continue
            src, body = t.args
            if not self.is_conns(src):
                continue
            if body is BV and f == ("=", "empty"):
                if self.current(n, src):
                    return True
            elif body.op == "mapget" and f == ("=", "None"):
                m, k = body.args[0], body.args[1]
                if m.op in ("fld", "vfld") and m.args[-1] in self.servers and BV in m.occ and about(k) and self.current(n, src):
                    return True
        return False


def places(v):
    """Values stored in the fields of a value."""
    out = set()
    work = [v]
    while work:
        t = work.pop()
        if t in out:
            continue
        out.add(t)
        if t.op == "agg":
            work.extend(t.args[4])
        elif t.op == "upd":
            work.extend(kids(t.args))
    return out


def file_of(k):
    """The file name itself, without newtypes and borrowed forms."""
    while k.op in ("fld", "vfld") and k.args[-1] == "0":
        k = k.args[0]
    return k


RESERVED = (("=", ".git"), ("=", ".ethersync"))


def part_of_path(t):
    """Is this about a component of a path?"""
    if t.op not in ("elem", "fld", "vfld"):
        return False
    return any(x.op == "elem" and any(y.op == "call" and y.args[0].endswith(("Path::iter", "Path::components")) for y in x.args[0].sub) for x in t.sub)


def reserved(t, f, *names):
    """The fact says that the file is one of those that are never shared."""
    return f in RESERVED and part_of_path(t) and any(k in t.sub for k in names)


def path_tests(F):
    """Functions that decide something about a path by its components."""
    E = Engine(F)
    use = ("std::path::Path::iter", "std::path::Path::components")
    return [b["p"] for h, b in F.bodies.items() if b["kind"] != "Closure" and F.types[b["locals"][0]]["s"] == "bool" and any(n in use for n in E.static_callees(h)[1])]
