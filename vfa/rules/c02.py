"""C02: a file that an editor has open is not written by the daemon."""
from ..rulelib import *
from .own import *

TECHNIQUE = "modular dataflow over MIR: quantified map facts at every call that writes a file"
NOTE = (
    "Every reachable call that writes a file under a name that is not a constant of the program. "
    "The fact must hold for the very file written and for the set of editors as it is at that point."
)


def is_empty(v):
    return v.op == "k" and v.args[0] in ("", b"") or v.op == "agg" and v.args[0] == "array" and not v.args[4]


def creates_empty(E, n, p):
    """An empty file is created where there was none."""
    if n.data.name in OPENS:
        for i in reach(E, [n.id]):
            x = E.nodes[i]
            if x.kind == "call" and x.data.name in PUTS_IN and not (written(x) and is_empty(x.data.args[1])):
                return False
    elif not (written(n) and is_empty(n.data.args[1])):
        return False
    return any(
        f == ("=", False) and x.op == "call" and x.args[0].endswith(("exists",)) and any(y in p.sub for y in x.args[1][-1].sub if y.op == "call")
        for t, f in n.facts.items()
        for x in walk(t)
    )


def run(c):
    c.rule = (
        "At every reachable call that creates or writes a file whose name is not constant, a completed search over all connected editors "
        "has found that none of them has that file open, and the set of editors has not changed since. "
        "An editor gives up a file only when it closes that file: entries are removed from the set of open files nowhere else."
    )
    o = Owned(c.facts)
    if not o.conns or not o.servers:
        c.violate(("anchor",), "no map of editor connections, or of open files per editor, found")
        return

    def hold(t):
        while t.op in ("fld", "vfld"):
            t = t.args[0]
        return o.hold(t) or t.op == "call" and t.args[0].endswith("exists")

    m = Modular(c, tuple(WRITES) + PUTS_IN + MAP_CALLS, hold_fact=hold, pin_args=True, want_mem=tuple(WRITES))
    m.opts["helper"] = lambda h: any(x in n for n in m.callees[h][1] for x in ("HashMap::values", "HashMap::iter", "HashMap::contains_key", "HashMap::get"))

    def judge(E, n):
        p = writes(n)
        if p is None:
            return None
        c.oblige(kind="writes", sample="%s in %s" % (short(n.data.name), E.roots[0][0]))
        fx = fixed(p)
        if fx:
            c.counts["writes_under_a_constant_name"] = c.counts.get("writes_under_a_constant_name", 0) + 1
            return None
        if o.unowned(E, n, lambda k: k in p.sub or file_of(k) in p.sub):
            return None
        if creates_empty(E, n, p):
            c.counts["creations_of_empty_files"] = c.counts.get("creations_of_empty_files", 0) + 1
            return None
        return "no check that the file is not open in any editor" if fx is False else "unknown file"

    for E, n, w in m.climb(WRITES, judge):
        b = E.roots[0][0]
        c.violate(
            ("write", norm(E.ctx_body(n.ctx).path), n.data.name, b),
            "%s, reached from %s, writes a file that an editor may have open (%s)" % (short(n.data.name), b, w),
            c.at(E, n),
            c.trace(E, from_root(E, n.id)),
        )

    # giving up a file
    drops = tuple("std::collections::hash::map::HashMap::" + x for x in ("remove", "remove_entry", "clear", "retain", "drain", "extract_if"))

    def gives_up(E, n):
        t = n.data.args[0]
        if not any(x.op in ("fld", "vfld") and x.args[-1] in o.servers for x in t.sub) or t.op in ("fld", "vfld") and t.args[-1] in o.conns:
            return None
        c.oblige(kind="removals_from_open_files")
        for m_, f in n.facts.items():
            if f == ("=", "Close") and len(n.data.args) > 1 and m_ in n.data.args[1].sub:
                return None
        return "the file was not closed by the editor"

    for E, n, w in m.climb(drops, gives_up):
        c.violate(
            ("drop", norm(E.ctx_body(n.ctx).path), n.data.name),
            "%s takes a file from those an editor has open although the editor did not close it" % norm(E.ctx_body(n.ctx).path),
            c.at(E, n),
            c.trace(E, from_root(E, n.id)),
        )
    if not c.counts.get("writes"):
        c.violate(("no-write",), "no call that writes a file found")
