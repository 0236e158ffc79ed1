"""C01: file access stays inside the shared directory."""
from ..rulelib import *

TECHNIQUE = "modular dataflow over MIR: path values with containment facts at every file system call, and provenance of the base directory"
NOTE = (
    "Every reachable call that reads, creates, changes or deletes a file, in every calling context needed to decide it. "
    "Replacing a checked path by a symlink between check and use is not covered."
)

# file system calls and which of their arguments are paths
SINKS = {
    "std::fs::read": (0,),
    "std::fs::read_to_string": (0,),
    "std::fs::read_dir": (0,),
    "std::fs::write": (0,),
    "std::fs::copy": (0, 1),
    "std::fs::rename": (0, 1),
    "std::fs::hard_link": (0, 1),
    "std::fs::soft_link": (1,),
    "std::os::unix::fs::symlink": (1,),
    "std::fs::remove_file": (0,),
    "std::fs::remove_dir": (0,),
    "std::fs::remove_dir_all": (0,),
    "std::fs::create_dir": (0,),
    "std::fs::create_dir_all": (0,),
    "std::fs::DirBuilder::create": (1,),
    "std::fs::set_permissions": (0,),
    "std::fs::File::open": (0,),
    "std::fs::File::create": (0,),
    "std::fs::File::create_new": (0,),
    "std::fs::File::options": (),
    "std::fs::OpenOptions::open": (1,),
    "tokio::fs::open_options::OpenOptions::open": (1,),
    "ini::Ini::load_from_file": (0,),
    "ini::Ini::write_to_file": (1,),
    "ignore::walk::WalkBuilder::new": (0,),
    "notify::Watcher::watch": (1,),
    "tokio::net::unix::listener::UnixListener::bind": (0,),
    "std::os::unix::net::listener::UnixListener::bind": (0,),
}
for n in ("read", "read_to_string", "write", "rename", "copy", "remove_file", "create_dir", "create_dir_all", "remove_dir_all", "remove_dir"):
    SINKS["tokio::fs::%s::%s" % (n, n)] = (0, 1) if n in ("rename", "copy") else (0,)
# calls that create a file through a symlink that points nowhere
CREATING = {"std::fs::write", "std::fs::File::create", "std::fs::copy", "tokio::fs::write::write"}
PATHS = ("std::path::Path::*", "std::path::PathBuf::*", "path_clean*", "std::path::absolute")
ENV = ("std::env::var", "std::env::var_os", "std::env::current_dir", "std::env::temp_dir")
KEEP = ("std::path::Path::canonicalize", "std::fs::canonicalize", "std::path::absolute", "path_clean::PathClean::clean", "std::path::PathBuf::new")


def peel(t):
    """Skip unwrapping, newtypes and clean-ups that do not change which file is meant."""
    while True:
        if t.op in ("vfld", "fld") and t.args[-1] == "0":
            t = t.args[0]
        elif t.op == "vfld":
            t = t.args[0]
        else:
            return t


def is_canon(t):
    t = peel(t)
    return t.op == "call" and t.args[0].endswith(("::canonicalize",))


class Judge:
    def __init__(self, c):
        self.c = c
        self.needs = set()     # (function, base term over its arguments)
        self.private = set()   # (function, path term) of paths that only depend on environment and options

    def plain_suffix(self, E, t, seen=None):
        """Only plain names: no '..', no root."""
        seen = set() if seen is None else seen
        if t in seen:
            return True
        seen.add(t)
        if t.op == "k":
            s = t.args[0]
            return isinstance(s, str) and not s.startswith("/") and ".." not in s.split("/")
        if t.op in ("loop", "join"):
            return all(self.plain_suffix(E, x, seen) for x in E.alts.get(t, ()))
        if t.op == "old" or t.op == "any":
            return self.plain_suffix(E, t.args[0], seen)
        if t.op == "call" and t.args[0] in ("std::path::Path::join", "std::path::Path::new", "std::path::Path::to_path_buf"):
            return all(self.plain_suffix(E, x, seen) for x in t.args[1])
        if t.op == "call" and t.args[0] == "std::path::PathBuf::new":
            return True
        if t.op == "ver" and t.args[0].endswith("PathBuf::push"):
            return all(self.plain_suffix(E, x, seen) for x in t.args[3])
        if t.op == "vfld" and t.args[1] == "Normal":
            return True
        if t.op == "call" and t.args[0] == "std::path::Path::file_name":
            return True
        if t.op == "vfld" and t.args[1] == "Some":
            return self.plain_suffix(E, t.args[0], seen)
        return False

    def canonical(self, E, t):
        """(is canonical, names something that may not exist yet)"""
        if is_canon(t):
            return True, False
        if t.op == "call" and t.args[0] == "std::path::Path::join":
            a, b = t.args[1]
            ca, new = self.canonical(E, a)
            if ca and b.op == "k" and b.args[0] == "":
                return True, new
            return ca and self.plain_suffix(E, b), True
        if t.op in ("loop", "join") and E.alts.get(t):
            rs = [self.canonical(E, x) for x in E.alts[t] if x is not t]
            return all(r[0] for r in rs), any(r[1] for r in rs)
        if t.op == "ver" and t.args[0].endswith("PathBuf::push"):
            ca, _ = self.canonical(E, t.args[3][0])
            return ca and self.plain_suffix(E, t.args[3][1]), True
        return False, False

    def base_of(self, E, t, seen=None):
        """Terms a canonical path was computed from."""
        seen = set() if seen is None else seen
        if t in seen:
            return set()
        seen.add(t)
        t = peel(t)
        if t.op in ("loop", "join") and E.alts.get(t):
            return set().union(*[self.base_of(E, x, seen) for x in E.alts[t]])
        if t.op == "call" and t.args[0] in ("std::path::Path::join",):
            return self.base_of(E, t.args[1][0], seen)
        if t.op == "call" and (t.args[0] in KEEP or t.args[0].endswith("::canonicalize")) and t.args[1]:
            return self.base_of(E, t.args[1][0], seen)
        if t.op == "ver" and t.args[0].endswith(("PathBuf::pop", "PathBuf::push")):
            return self.base_of(E, t.args[3][0], seen)
        return {t}

    def trusted(self, E, t, seen=None):
        """Base directory followed by constant names: the base terms, or None."""
        if t.op == "call" and t.args[0] == "std::path::Path::join":
            a, b = t.args[1]
            if b.op == "k" and b.args[0] and self.plain_suffix(E, b):
                r = self.trusted(E, a)
                return r if r is not None else {a}
            return None
        if t.op == "ver" and t.args[0].endswith("PathBuf::push"):
            b = t.args[3][1]
            if b.op == "k" and self.plain_suffix(E, b):
                r = self.trusted(E, t.args[3][0])
                return r if r is not None else {t.args[3][0]}
        return None

    def __call__(self, E, n):
        name = n.data.name
        fn = E.roots[0][0]
        for i in SINKS.get(name, ()):
            if i >= len(n.data.args):
                continue
            p = n.data.args[i]
            self.c.oblige(kind="file_accesses", sample="%s in %s" % (short(name), norm(E.ctx_body(n.ctx).path)))
            if name.endswith(("UnixListener::bind",)) or only_env(E, p):
                if not only_env(E, p):
                    return "the socket path depends on received data"
                self.private.add((fn, p))
                continue
            if name.endswith(("WalkBuilder::new", "Watcher::watch")):
                self.needs.add((fn, p, None, name, E))
                continue
            good = None
            canon, new = self.canonical(E, p)
            for t, f in n.facts.items():
                if f == ("=", True) and t.op == "call" and t.args[0].endswith("Path::starts_with") and t.args[1][0] is p:
                    good = t.args[1][1]
            tr = self.trusted(E, p)
            if good is None and tr is not None:
                for b in tr:
                    self.needs.add((fn, b, None, name, E))
                continue
            if good is None:
                return "the path is not checked to be inside the base directory"
            if not canon:
                return "the checked path is not canonical"
            if not self.canonical(E, good)[0]:
                return "the path is compared with a base directory that is not canonical"
            creates = name in CREATING or (name.endswith("OpenOptions::open") and opens_creating(n.data.args[0]))
            if creates and new and not (name == "std::fs::copy" and i == 0):
                link = [f for t, f in n.facts.items() if t.op == "call" and t.args[0].endswith("Path::is_symlink") and t.args[1][0] is p]
                if ("=", False) not in link:
                    return "a file is created although the path may be a dangling symlink"
            for b in self.base_of(E, good):
                self.needs.add((fn, b, frozenset(self.base_of(E, p)), name, E))
        return None


def opens_creating(t):
    return any(x.op == "call" and x.args[0].endswith(("OpenOptions::create", "OpenOptions::create_new")) and not (len(x.args[1]) > 1 and x.args[1][1] is FALSE) for x in walk(t))


def only_env(E, t, seen=None):
    """Built from constants, environment variables and command-line options only."""
    seen = set() if seen is None else seen
    found = False
    for x in t.leaf or ():
        if x in seen:
            continue
        seen.add(x)
        if x.op == "call" and (x.args[0] in ENV or "from_arg_matches" in x.args[0] or "clap" in x.args[0]):
            found = True
        elif x.op == "call" and x.args[1] and all(only_env(E, y, seen) or y.op == "k" for y in x.args[1]):
            found = True
        elif x.op == "ver" and all(only_env(E, y, seen) or y.op == "k" for y in x.args[3]):
            found = True
        elif x.op in ("loop", "join") and E.alts.get(x) and all(y in seen or only_env(E, y, seen) for y in E.alts[x]):
            found = True
        else:
            return False
    if not t.leaf:
        return mentions(t, lambda x: x.op == "call" and (x.args[0] in ENV or "from_arg_matches" in x.args[0]))
    return found


def run(c):
    c.rule = (
        "At every reachable file system call, the path is (a) a canonical path for which a component-wise prefix test against the "
        "canonical base directory succeeded on every path of the analysis, and no dangling symlink if the call can create a file, or "
        "(b) the base directory followed by constant plain names, or (c) built from environment and command line only (socket). "
        "Every base directory is traced to the project directory chosen at start-up; '/' is accepted only together with (c)."
    )
    c.assumptions += ["Nobody swaps a checked path for a symlink between the check and the use of it."]
    m = Modular(c, tuple(SINKS) + PATHS)

    def helper(h):
        # computes or checks a path for the caller
        b = c.facts.bodies[h]
        ret = c.facts.types[b["locals"][0]]["s"]
        ns = m.callees[h][1]
        return "PathBuf" in ret or (ret.endswith("String") and b["argc"] == 0) or any(n.endswith("Path::starts_with") for n in ns)

    m.opts["helper"] = helper
    j = Judge(c)
    for E, n, w in m.climb(SINKS, j):
        b = norm(E.ctx_body(n.ctx).path)
        c.violate(
            ("uncontained", b, n.data.name, w),
            "%s in %s: %s" % (short(n.data.name), b, w),
            c.at(E, n),
            c.trace(E, from_root(E, n.id)),
        )
    if not c.obligations:
        c.violate(("no-access",), "no file system access found")
    bases(c, m, j)


def bases(c, m, j):
    """Every base directory is the project directory, or '/' for the socket."""
    ids = {m.name(h): h for h in c.facts.bodies}

    def from_start(h, E, t):
        """The directory given at start-up, and nothing appended to it."""
        t = peel(t)
        if t.op == "call" and t.args[0] == "std::env::current_dir":
            return True
        if mentions(t, lambda x: x.op == "call" and "from_arg_matches" in x.args[0]) and not mentions(
            t, lambda x: x.op == "call" and x.args[0].startswith("std::path") and x.args[0] not in KEEP
        ):
            return True
        if t.op == "k":
            return False
        return None

    def project(h, E, t):
        r = from_start(h, E, t)
        if r is None:
            u = peel(t)
            if u.op == "call" and u.args[1] and (u.args[0] in KEEP or u.args[0].endswith("::canonicalize")):
                return not m.origins(h, u.args[1][0], project, E)
        return r

    def private(h, E, t):
        if t.op == "k" or only_env(E, t):
            return True
        return None

    seen = set()
    for fn, b, p, sink, E0 in sorted(j.needs, key=lambda x: (x[0], x[1].id, x[3])):
        h = ids[fn]
        if (h, b, p) in seen:
            continue
        seen.add((h, b, p))
        # '/' is looked at together with the path it is used for: one caller at a time
        levels = [(h, E0, b, p)]
        done = set()
        while levels:
            g, E, bt, pt = levels.pop()
            if (g, bt, pt) in done:
                continue
            done.add((g, bt, pt))
            if bt.op == "k" and bt.args[0] == "/" and pt is not None:
                c.oblige(kind="base_directories")
                bad = [x for q in pt for x in m.origins(g, q, private, E)]
                if bad:
                    c.violate(
                        ("root-base", fn, m.name(g)),
                        "%s is used by %s with '/' as base directory for a path that is not the socket: %s" % (fn, m.name(g), show(bad[0][1])[:120]),
                        {"function": m.name(g)},
                    )
                continue
            if bt.op == "sym" and bt.args[0] == "arg" and pt is not None:
                pair = tup(bt, *sorted(pt, key=lambda x: x.id))
                for g2, E2, t2 in m.up(g, pair):
                    levels.append((g2, E2, t2.args[4][0], frozenset(t2.args[4][1:])))
                continue
            c.oblige(kind="base_directories")
            for bh, bad in m.origins(g, bt, project, E):
                c.violate(
                    ("base", fn, m.name(bh), show(bad)[:60] if bad.op == "k" else "other"),
                    "%s is used by %s with a base directory that is not the project directory: %s" % (fn, m.name(bh), show(bad)[:160]),
                    {"function": m.name(bh)},
                )
