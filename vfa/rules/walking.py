"""What a walk over the directory leaves out."""
from ..rulelib import *


def left_out(facts, x):
    """Do the facts say that the entry is an internal directory or a backup copy?"""
    from .c15 import HIDDEN_NAMES

    for t, f in facts.items():
        if x not in t.sub or not any(y.op == "call" and y.args[0].endswith("::file_name") for y in t.sub):
            continue
        b = base(t)
        if b.op == "call" and b.args[0].endswith("::file_name") and (f in [("=", n) for n in HIDDEN_NAMES] or f == ("=", "None")):
            return True
        if t.op == "call" and f == ("=", True) and len(t.args[1]) == 2 and t.args[1][1].op == "k":
            what, k = t.args[0].rsplit("::", 1)[-1], t.args[1][1].args[0]
            if what in ("eq", "ends_with") and (k in HIDDEN_NAMES or k in ("~", ord("~"))):
                return True
        if t.op == "bin" and t.args[0] == "Eq" and f == ("=", True) and any(y.op == "k" and y.args[0] in HIDDEN_NAMES for y in t.args[1:]):
            return True
    return False


def complete(c, m, hs):
    """The walks in these functions find every file that may be shared."""
    from .c15 import BUILD, FILTER, filters, settings

    for h in sorted(hs, key=m.name):
        E = filters(c, m, h)
        for n in events(E, BUILD):
            c.oblige(kind="walks_over_the_directory", sample=m.name(h))
            hidden = True
            for name, v in settings(n.data.args[0])[0]:
                val = v.args[0] if v is not None and v.op == "k" else None
                if name in ("standard_filters", "hidden"):
                    hidden = val is not False
                elif name in ("max_depth", "max_filesize") and not (v is not None and v.op == "agg" and v.args[2] == "None"):
                    c.violate(("walk", m.name(h), name), "the walk in %s leaves out files (%s)" % (m.name(h), name), c.at(E, n))
            if hidden:
                c.violate(("walk", m.name(h), "hidden"), "the walk in %s leaves out files whose names start with a dot" % m.name(h), c.at(E, n))
        for n in E.nodes:
            if n.kind != "closure_ret" or n.data.name != FILTER:
                continue
            facts = assuming(E, n.facts, n.data.args[0], False)
            if facts is None:
                continue
            if any(f == ("=", False) and t.op == "call" and t.args[0] == "indirect" for t, f in facts.items()):
                # left to the callers
                continue
            c.oblige(kind="entries_left_out")
            cb = {x for t in facts for x in t.sub if x.op == "sym" and x.args[0] == "cb" and FILTER in x.args}
            if not any(left_out(facts, x) for x in cb):
                c.violate(("walk", m.name(h), "filter"), "the walk in %s leaves out files that may be shared" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))


def places(c, m):
    """Functions that walk over the directory."""
    from .c15 import BUILD

    return {m.top(h) for h in m.sites(BUILD)}
