"""C04: disk events of files open in an editor do not change the document."""
from ..rulelib import *
from .common import MUTATORS
from .own import *

TECHNIQUE = "modular dataflow over MIR: quantified map facts at every change of the document that a file event can cause"
NOTE = (
    "All paths of the handling of a file event, for every kind of event. "
    "The fact must hold for the file whose entry is changed and for the set of editors as it is at that point."
)


def handlers(m, what, reaches):
    """Functions that are given such a value, or else those that handle one, and that lead to certain calls."""
    probe = Engine(m.F)
    f = matcher(reaches)
    rel = probe.closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
    given, local = [], []
    for h in rel & m.live:
        if m.top(h) != h or m.is_wrapper(h):
            continue
        b = m.F.bodies[h]
        ty = m.F.types[b["locals"][1]] if b["argc"] else None
        if ty is not None and ty["k"] in ("closure", "coroutine"):
            args = [m.F.types[a]["s"] for a in ty["a"]]
        else:
            args = [m.F.types[b["locals"][i + 1]]["s"] for i in range(b["argc"])]
        if any(a.lstrip("&").endswith(what) for a in args):
            given.append(h)
        elif any(m.F.types[l]["s"].lstrip("&").endswith(what) for l in b["locals"]):
            local.append(h)
    return given or local


def run(c):
    c.rule = (
        "On every path of the handling of a file event, before the document is changed, a completed search over all connected editors "
        "has found that none has the changed file open, and the set of editors has not changed since."
    )
    o = Owned(c.facts)
    if not o.conns or not o.servers:
        c.violate(("anchor",), "no map of editor connections, or of open files per editor, found")
        return
    m = Modular(c, MUTATORS + MAP_CALLS, hold_fact=o.hold, pin_args=True, want_mem=[n.lstrip(":") for n in MUTATORS])
    mut = is_event(MUTATORS)
    for h in handlers(m, "::WatcherEvent", MUTATORS):
        E = m.free(h)
        for n in E.nodes:
            if not mut(n):
                continue
            c.oblige(kind="changes_of_the_document", sample="%s in %s" % (n.data.short, norm(E.ctx_body(n.ctx).path)))
            about = set()
            for a in n.data.args[1:]:
                about |= a.sub
            if not o.unowned(E, n, lambda k: k in about or file_of(k) in about):
                path = " > ".join(short(norm(p)) for p, _ in E.callpath(n.ctx)[-3:])
                c.violate(
                    ("unchecked", m.name(h), n.data.name, path),
                    "a file event changes the document (%s through %s) although an editor may have the file open" % (n.data.short, path),
                    c.at(E, n),
                    c.trace(E, from_root(E, n.id)),
                )
    if not c.obligations:
        c.violate(("anchor",), "no handling of file events that changes the document found")
