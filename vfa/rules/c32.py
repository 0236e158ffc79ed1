"""C32: only a directory that is marked for sharing is shared."""
from ..rulelib import *
from .c17 import Start
from .c23 import SPAWN

TECHNIQUE = "typestate analysis over MIR: what is known about the directory wherever sharing starts"
NOTE = (
    "All paths from the entry point to every call that sets up the shared document and to every task started from there. "
    "That the marker stays where it is while the daemon runs is not asked for."
)
IS_DIR = ("::is_dir",)


def resolved(t):
    """The directory without what only resolves links."""
    while True:
        b = base(t)
        if b is not t and b.op == "call" and b.args[0].endswith(("::canonicalize", "path::absolute")):
            t = b.args[1][0]
        else:
            return t


def marked(facts, d=None):
    """Is it known that the directory has a subdirectory of a fixed name?"""
    f = matcher(IS_DIR)
    for t, v in facts.items():
        if v != ("=", True) or t.op != "call" or not f(t.args[0]):
            continue
        for x in t.sub:
            if x.op == "call" and x.args[0].endswith("::join") and x.args[1][1].op == "k" and x.args[1][1].args[0] and (d is None or resolved(x.args[1][0]) is resolved(d)):
                return True
    return False


def run(c):
    c.rule = (
        "On every path from the entry point, at the call that sets up the shared document and at every start of a task that is given the document, "
        "it is known that a subdirectory of a fixed name exists in the very directory that is handed over."
    )
    m = Modular(c, ())
    starts = {m.name(h): h for h in Start(c, m).roots()}
    f = matcher(IS_DIR)

    def hold(t):
        return any(x.op == "call" and f(x.args[0]) for x in t.sub)

    mm = m.other(IS_DIR + SPAWN + tuple(starts), never=tuple(starts), hold_fact=hold, pin_args=True)
    roots = [h for h in m.live if m.name(h) == "ethersync::main"]
    if not roots:
        c.violate(("anchor", "main"), "the entry point was not found")
    for h in roots:
        E = mm.free(h)
        c.counts["states"] = len(E.nodes)
        seen = set()
        for n in E.nodes:
            # tasks that are started by tasks come later
            if n.kind == "call" and n.data.name in starts:
                name = n.data.name
                b = c.facts.bodies[starts[name]]
                dirs = [n.data.args[i] for i in range(b["argc"]) if c.facts.types[b["locals"][i + 1]]["s"].replace("&", "").strip() in ("std::path::PathBuf", "std::path::Path")]
                c.oblige(kind="ways_to_set_up_the_document", sample=name)
                if not dirs:
                    c.violate(("anchor", "directory", name), "%s is not given a directory" % name, c.at(E, n))
                ok = all(marked(n.facts, d) for d in dirs)
            elif n.kind == "spawn" and E.callpath(n.ctx)[0][0] == m.name(h) and any(x.op == "call" and x.args[0] in starts or x.op == "agg" and "Document" in str(x.args[1]) for a in n.data.args for x in a.sub):
                name = norm(E.ctx_body(n.ctx).path)
                c.oblige(kind="tasks_given_the_document", sample=name)
                ok = marked(n.facts)
            else:
                continue
            if not ok and name not in seen:
                seen.add(name)
                c.violate(("unmarked", name), "%s: a directory may be shared although it was not seen to be marked for it" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
        if not any(n.kind == "call" and n.data.name in starts for n in E.nodes):
            c.violate(("anchor", "start"), "no call found that sets up the shared document")
