"""C03: a file that no editor has open any more is written as it is in the document."""
from ..rulelib import *
from .editors import asking
from .own import *

TECHNIQUE = "modular dataflow over MIR with ghost facts: every way out of giving up a file passes a write of its text"
NOTE = (
    "All paths from the removal of a file from those an editor has open, or of an editor, to the end of the handling of that message. "
    "The write itself may fail; a process that is killed in between is not covered."
)
DROPS = tuple("std::collections::hash::map::HashMap::" + x for x in ("remove", "remove_entry"))
MANY = tuple("std::collections::hash::map::HashMap::" + x for x in ("clear", "retain", "drain", "extract_if"))

ITERS = tuple("std::collections::hash::map::HashMap::" + x for x in ("keys", "values", "iter", "into_keys", "into_iter", "contains_key"))


class Rule:
    def __init__(self, c):
        self.c = c
        self.o = Owned(c.facts)
        self.writers = {}  # functions that may write a file -> number of the argument with the file
        self.flush = {}  # the same, for those that write it unless there is a reason not to

    # -- ghosts ------------------------------------------------------------------
    def on_event(self, st, n):
        ev = n.data
        if n.kind != "call":
            return
        if written(n):
            p, text = written(n)
            if any(x.op == "call" and x.args[0].endswith("ReadDoc::text") for x in text.sub):
                happened(st, ghost("wrote", p, text))
        elif ev.name in self.flush:
            happened(st, ghost("done", ev.args[self.flush[ev.name]]))
        elif ev.name in DROPS and self.kind(ev.args[0]):
            m, k = ev.args[0], ev.args[1]
            if self.kind(m) == "file":
                fs = {t: f for t, f in st.facts.items() if not ((is_ghost(t, "wrote", "done") or t.op == "mapget") and k in t.sub)}
            else:
                v = mapval(m, k)
                fs = {t: f for t, f in st.facts.items() if not (t.op == "forall" and v in t.args[0].sub)}
            st.facts = fs
            happened(st, ghost("closed" if self.kind(m) == "file" else "gone", m, k))

    def kind(self, m):
        if m.op in ("fld", "vfld") and m.args[-1] in self.o.servers:
            return "file"
        if m.op in ("fld", "vfld") and m.args[-1] in self.o.conns:
            return "editor"
        for x in m.sub:
            if x.op in ("fld", "vfld") and x.args[-1] in self.o.servers:
                return "file"
        for x in m.sub:
            if x.op in ("fld", "vfld") and x.args[-1] in self.o.conns:
                return "editor"
        return None

    def hold(self, t):
        b = base(t)
        return (
            t.op in ("mapget", "forall")
            or b.op == "call" and (b.args[0].startswith("ghost::") or "ReadDoc::" in b.args[0])
            or part_of_path(t)
        )

    # -- what counts -------------------------------------------------------------
    def settled(self, facts, k, done=True):
        """The file k was written, or there is a reason not to."""
        f0 = file_of(k)
        for t, f in facts.items():
            if is_ghost(t, "wrote", "done") and (k in t.sub or f0 in t.sub):
                return True
            if t.op == "mapget" and f == ("=", "Some") and t.args[1] in (k, f0) and self.kind(t.args[0]) == "file" and any(x.op == "elem" for x in t.sub):
                return True  # still open elsewhere
            if reserved(t, f, k, f0):
                return True
            b = base(t)
            if b.op == "call" and "ReadDoc::" in b.args[0] and (f == ("=", "None") or f == ("=", "Err")) and (k in b.sub or f0 in b.sub or "files" in [x.args[0] for x in b.sub if x.op == "k"]):
                return True  # not in the document
            if b.op == "call" and "ReadDoc::" in b.args[0] and (f == ("=", "Scalar") or f[0] == "!") :
                return True  # not a text
        return False

    def all_settled(self, facts, v):
        """All files of the editor v were written."""
        for t, f in facts.items():
            if t.op != "forall":
                continue
            src, body = t.args
            if src.op == "coll" and src.args[0] == "all" and len(src.args[1]) == 1:
                it = next(iter(src.args[1]))
                src = it.args[0]
            if not (src.op in ("fld", "vfld") and src.args[-1] in self.o.servers and v in src.sub):
                continue
            if body is BV and f == ("=", "empty") or is_ghost(body, "wrote", "done") and BV in body.occ:
                return True
        return False

    def check(self, facts, m, k):
        if facts.get(mapget(m, k)) == ("=", "None"):
            return None
        if self.kind(m) == "file":
            return None if self.settled(facts, k) else "a file is given up without being written"
        return None if self.all_settled(facts, mapval(m, k)) else "the files of a removed editor are not all written"


def closing(c, r, m):
    """A message that closes a file makes the editor give it up."""
    asks = asking(m)

    def on_event(st, n):
        if n.kind == "call" and n.data.name in DROPS and r.kind(n.data.args[0]) == "file":
            happened(st, ghost("closed", n.data.args[0], n.data.args[1]))

    mm = m.other(DROPS, hold_fact=lambda t: True, pin_args=True, ghost=on_event)
    seen = 0
    for name, i in sorted(asks.items()):
        E = mm.free(m.ids[name])
        msg = mk("sym", "arg", name, i)
        for n in E.nodes:
            if n.kind != "end" or n.facts.get(msg) != ("=", "Close"):
                continue
            if n.ret is not None and n.ret.op == "agg" and n.ret.args[2] == "Err":
                continue
            seen += 1
            c.oblige(kind="ways_out_of_closing_a_file", sample=name)
            uri = vfld(msg, "Close", "uri")
            if any(f in (("=", False), ("=", "None")) and t.op == "mapget" and r.kind(t.args[0]) == "file" and uri in t.args[1].sub for t, f in n.facts.items()):
                # it is not open
                continue
            if not any(is_ghost(t, "closed") and uri in t.args[1][1].sub for t in n.facts):
                c.violate(("close", name), "%s: a file that an editor closes is still taken as open in it" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
    if not seen:
        c.violate(("anchor", "close"), "no handling of a message that closes a file found")


def flushers(c):
    """Functions that write a file if they should: {name: number of the argument with the file}."""
    r = Rule(c)
    m1 = Modular(
        c, tuple(WRITES) + PUTS_IN + MAP_CALLS + ("automerge::read::ReadDoc::*", "std::path::Path::iter"),
        hold_fact=r.hold, pin_args=True, ghost=r.on_event, always=path_tests(c.facts),
    )
    w = matcher(tuple(WRITES))
    probe = Engine(c.facts)
    rel = probe.closure_over(lambda h: any(w(n) for n in m1.callees[h][1]))
    flush = {}
    for h in sorted(rel & m1.live, key=m1.name):
        b = c.facts.bodies[h]
        if m1.top(h) != h or m1.is_wrapper(h) or b.get("coroutine"):
            continue
        args = [i for i in range(b["argc"]) if c.facts.types[b["locals"][i + 1]]["s"].endswith("::RelativePath")]
        if len(args) != 1:
            continue
        r.writers[m1.name(h)] = args[0]
        E = m1.free(h)
        k = mk("sym", "arg", m1.name(h), args[0])
        ends = [n for n in E.nodes if n.kind == "end"]
        if ends and all(r.settled(n.facts, k) for n in ends):
            flush[m1.name(h)] = args[0]
            c.oblige(len(ends), kind="ways_out_of_functions_that_write_a_file", sample=m1.name(h))
    r.flush = flush
    return r, m1, flush


def run(c):
    c.rule = (
        "After a file is removed from those an editor has open, every way to the end of the function that started this passes a write of the text "
        "that the document has for that very file, or a finding that another editor has the file open, that it is reserved or that it is not in the document. "
        "After an editor is removed, the same holds for each of the files it had open. A message that closes a file removes that very file from those its editor has open."
    )
    r, m1, flush = flushers(c)
    if not r.o.conns or not r.o.servers:
        c.violate(("anchor",), "no map of editor connections, or of open files per editor, found")
        return
    w = matcher(tuple(WRITES))
    probe = Engine(c.facts)
    c.counts["functions_that_write_a_file"] = len(flush)
    m2 = Modular(c, tuple(flush) + DROPS + MANY + ITERS + tuple(WRITES) + PUTS_IN, hold_fact=r.hold, pin_args=True, ghost=r.on_event, never=tuple(flush))
    its = matcher(ITERS)
    to_flush = probe.closure_over(lambda h: m2.name(h) in flush)
    m2.opts["helper"] = lambda h: h in to_flush or any(w(n) or its(n) for n in m2.callees[h][1])

    closing(c, r, m1)
    again = is_event(("::Receiver::recv",), ("call", "await"))  # the next message

    def judge(E, n):
        kind = r.kind(n.data.args[0])
        if kind is None:
            return None
        if matcher(MANY)(n.data.name):
            c.oblige(kind="removals")
            return ["files are given up without being written"]
        par = reach(E, [n.id])
        bad = None
        seen = 0
        for i in par:
            x = E.nodes[i]
            if not (x.kind == "end" or again(x)):
                continue
            seen += 1
            w = "unknown what is given up"
            for t in x.facts:
                if is_ghost(t, "closed", "gone"):
                    w = r.check(x.facts, *t.args[1])
                    if w:
                        break
            if w:
                bad = w
                judge.paths[n.id] = path_to(par, i)
                break
        c.oblige(max(seen, 1), kind="ways_out_after_a_removal", sample="%s in %s" % (n.data.short, norm(E.ctx_body(n.ctx).path)))
        return bad

    judge.paths = {}
    n_seen = 0
    for E, n, w_ in m2.climb(DROPS + MANY, judge):
        c.violate(
            ("drop", norm(E.ctx_body(n.ctx).path), r.kind(n.data.args[0]) or ""),
            "%s: %s" % (norm(E.ctx_body(n.ctx).path), w_),
            c.at(E, n),
            c.trace(E, judge.paths.get(n.id, [n.id])),
        )
    if not c.counts.get("ways_out_after_a_removal"):
        c.violate(("anchor",), "no place found where an editor gives up a file")
