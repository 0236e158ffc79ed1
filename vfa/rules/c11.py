"""C11: editors connect through a socket that is private to the user."""
from ..rulelib import *
from . import perms
from .own import REMOVES, WRITES

TECHNIQUE = "value dataflow over MIR: what is known about the directory and the name of the socket when it is created, decided on all permission bits"
NOTE = (
    "All places where the daemon listens on a socket, removes files before that or makes up the path of the socket, on all paths. "
    "Changes made by other programs between check and use are not considered."
)
BIND = ("::UnixListener::bind", "::UnixListener::bind_addr", "::UnixDatagram::bind")
JOIN = ("std::path::Path::join", "std::path::PathBuf::push")
ENV = "std::env::var"


def run(c):
    c.rule = (
        "Where a socket is created, and where files are removed or created in the function that leads to this, the permissions of the directory it is in were found to exclude others, for all values that permissions can have. "
        "Where a name is added to the directory for sockets, it was found to be a single normal path component before the path is used."
    )
    m = Modular(c, BIND + perms.INTEREST, hold_fact=lambda t: True, pin_args=True)
    m.opts["helper"] = lambda h: any(x.endswith(perms.MODES) for x in m.callees[h][1])
    met = {"bind": 0, "name": 0}
    bind = matcher(BIND)
    changes = set(REMOVES) | set(WRITES) | {"std::fs::set_permissions"}

    def holds(p, d):
        """Is d the directory of p?"""
        if d.op == "vfld" and d.args[1] == "Some":
            x = d.args[0]
            if x.op == "call" and x.args[0].endswith("Path::parent") and (x.args[1][0] is p or x.args[1][0] in p.sub):
                return True
        return any(x.op == "call" and x.args[0] == JOIN[0] and x.args[1][0] is d for x in p.sub)

    def judge(E, n):
        met["bind"] += 1
        c.oblige(kind="sockets", sample=norm(E.ctx_body(n.ctx).path))
        p = n.data.args[0]
        if perms.private(n.facts, lambda d: holds(p, d)):
            return None
        return "others may have access to the directory of the socket"

    for E, n, w in m.climb(BIND, judge):
        c.violate(("bind", norm(E.ctx_body(n.ctx).path)), "%s: %s" % (norm(E.ctx_body(n.ctx).path), w), c.at(E, n), c.trace(E, from_root(E, n.id)))

    # nothing is removed before
    m2 = m.other(BIND + perms.INTEREST + tuple(changes), hold_fact=lambda t: True, pin_args=True)
    binds = Engine(c.facts).closure_over(lambda h: any(bind(x) for x in m.callees[h][1]))

    def before(E, n):
        p = n.data.args[0] if n.data.name != "std::fs::OpenOptions::open" else n.data.args[1]
        sockets = [x.data.args[0] for x in E.nodes if x.kind == "call" and bind(x.data.name)]
        if not any(s in p.sub for s in sockets):
            return None
        c.oblige(kind="changes_in_the_directory", sample=norm(E.ctx_body(n.ctx).path))
        if perms.private(n.facts, lambda d: any(holds(s, d) for s in sockets)):
            return None
        return "files are removed or created before it is checked who has access to the directory"

    both = {h for h in binds & m.live if not m.is_wrapper(h) and m.top(h) == h and closure_names(m, h) & changes}
    for h in sorted(both, key=m.name):
        if (below(m, h) & both) - {h}:
            continue
        E = m2.free(h)
        for n in E.nodes:
            if n.kind == "call" and n.data.name in changes:
                w = before(E, n)
                if w:
                    c.violate(("before", m.name(h)), "%s: %s" % (m.name(h), w), c.at(E, n), c.trace(E, from_root(E, n.id)))

    # the name
    tests = {h for h in m.live if any(x in ("std::path::Path::components", "std::path::Path::file_name") for x in m.callees[h][1]) and not any(x.startswith("std::fs::") for x in closure_names(m, h))}
    names = m.other((ENV,), hold_fact=lambda t: True, pin_args=True, always=tuple(c.facts.bodies[h]["p"] for h in tests))
    names.opts["helper"] = lambda h: h in tests
    env = Engine(c.facts).closure_over(lambda h: ENV in m.callees[h][1] and "XDG_RUNTIME_DIR" in str(c.facts.bodies[h]["blocks"]))
    env = {h for h in env if any(x in JOIN for x in m.callees[h][1])}
    env = {h for h in env if not (below(m, h) & env) - {h}}

    def runtime_dir(t):
        return any(x.op == "call" and x.args[0] == ENV and x.args[1][0].op == "k" and x.args[1][0].args[0] in ("XDG_RUNTIME_DIR", "USER") for x in t.sub)

    def plain(facts, name):
        def of(x, fn):
            return x.op == "call" and x.args[0].endswith(fn) and x.args[1][0] is name
        one = normal = False
        for t, f in facts.items():
            if t.op == "call" and t.args[0] == "count" and of(t.args[1][0], "Path::components") and f == ("=", 1):
                one = True
            if f == ("=", "Normal") and any(of(x, "Path::components") for x in t.sub):
                normal = True
            if t.op == "forall" and t.args[1] is BV and f == ("=", "empty") and of(t.args[0], "Path::components"):
                one = True
            if f == ("=", "None") and any(x.op == "ver" and any(of(y, "Path::components") for y in x.sub) for x in t.sub):
                one = True
            if f == ("=", True) and t.op in ("bin", "eq") and any(of(x, "Path::file_name") for x in t.sub) and any(x is name for x in t.args):
                one = normal = True
        return one and normal

    def joined(E, n):
        args = n.data.args
        if len(args) < 2 or not runtime_dir(args[0]):
            return None
        met["name"] += 1
        c.oblige(kind="socket_paths", sample=norm(E.ctx_body(n.ctx).path))
        for i in reach(E, [n.id]):
            x = E.nodes[i]
            if x.kind == "end" and not plain(x.facts, args[1]):
                return "a socket name may be used that is not a plain file name"
        return None

    for E, n, w in names.climb(JOIN, joined, only=env):
        c.violate(("name", norm(E.ctx_body(n.ctx).path)), "%s: %s" % (norm(E.ctx_body(n.ctx).path), w), c.at(E, n), c.trace(E, from_root(E, n.id)))
    for k, v in met.items():
        if not v:
            c.violate(("anchor", k), "no place found where a socket is %s" % {"bind": "created", "name": "named"}[k])


def below(m, h):
    seen, work = {h}, [h]
    while work:
        for y in m.callees[work.pop()][0]:
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def closure_names(m, h):
    return {n for x in below(m, h) for n in m.callees[x][1]}
