"""C22: changes made by other programs are taken over."""
from ..rulelib import *
from . import actor, walking
from .c04 import handlers
from .c20 import READS
from .common import MUTATORS
from .docapi import DocApi, READ
from .own import *

TECHNIQUE = "modular dataflow over MIR with ghost facts: every file event leads to the change of the document that it stands for"
NOTE = (
    "All paths from the callback of the notification library to the change of the document, for the kinds of events the library reports for files. "
    "That the library reports every change is assumed."
)

SET = ("Created", "Changed")
ANY = SET + ("Removed",)
# what the notification library reports, and what must become of it: (which event, number of the path)
KINDS = [
    ("creation", (("", "Create"), ("Create", "File")), [(SET, 0)]),
    ("removal", (("", "Remove"), ("Remove", "File")), [(("Removed",), 0)]),
    ("change of the content", (("", "Modify"), ("Modify", "Data")), [(SET, 0)]),
    ("renaming", (("", "Modify"), ("Modify", "Name"), ("Name", "Both")), [(("Removed",), 0), (SET, 1)]),
    ("moving away", (("", "Modify"), ("Modify", "Name"), ("Name", "From")), [(("Removed",), 0)]),
    ("moving in", (("", "Modify"), ("Modify", "Name"), ("Name", "To")), [(SET, 0)]),
    ("moving in or away", (("", "Modify"), ("Modify", "Name"), ("Name", "Any")), [(ANY, 0)]),
]
QUEUE = ("alloc::collections::vec_deque::VecDeque::push_back", "alloc::collections::vec_deque::VecDeque::push_front", "alloc::vec::Vec::push")
POP = ("::VecDeque::pop_front", "::VecDeque::pop_back", "::Vec::pop")
SENDS = (
    "tokio::sync::mpsc::bounded::Sender::send",
    "tokio::sync::mpsc::bounded::Sender::blocking_send",
    "tokio::sync::mpsc::unbounded::UnboundedSender::send",
    "std::sync::mpsc::Sender::send",
    "std::sync::mpsc::SyncSender::send",
)
WALK = ("ignore::walk::WalkBuilder::build", "ignore::walk::WalkBuilder::build_parallel")
RECV = ("::Receiver::recv", "::UnboundedReceiver::recv")


def arg_type(m, h, what):
    """Arguments of this type: their symbols."""
    b = m.F.bodies[h]
    ty = m.F.types[b["locals"][1]] if b["argc"] else None
    if ty is not None and ty["k"] in ("closure", "coroutine"):
        own = [mk("sym", "arg", m.name(h), i) for i, a in enumerate(ty["a"]) if m.F.types[a]["s"].lstrip("&").endswith(what)]
        return own + [mk("sym", "arg", m.name(h), i) for i in range(1, b["argc"]) if m.F.types[b["locals"][i + 1]]["s"].lstrip("&").endswith(what)]
    return [mk("sym", "arg", m.name(h), i) for i in range(b["argc"]) if m.F.types[b["locals"][i + 1]]["s"].lstrip("&").endswith(what)]


def local_type(m, h, what):
    return any(m.F.types[l]["s"].lstrip("&").endswith(what) for l in m.F.bodies[h]["locals"])


def compatible(facts, term, value):
    f = facts.get(term)
    if f is None:
        return True
    return f[1] == value if f[0] == "=" else value not in f[1]


class Handler:
    """The part that changes the document."""

    def __init__(self, c, m, api):
        self.c, self.api = c, api
        self.o = Owned(c.facts)
        # functions that read a file or say why not
        f = matcher(READS)
        rel = Engine(c.facts).closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
        self.readers = set()
        for h in rel & m.live:
            ret = c.facts.types[c.facts.bodies[h]["locals"][0]]["s"]
            if m.top(h) == h and ret.startswith("core::result::Result<") and any(x in ret for x in ("Vec<u8>", "String")) and "(" not in ret:
                self.readers.add(m.name(h))

    def hold(self, t):
        b = base(t)
        return (
            self.api.hold(t)
            or self.o.hold(t)
            or b.op in ("sym", "call")
        )

    def owned(self, facts, path):
        for t, f in facts.items():
            if t.op == "mapget" and f == ("=", "Some") and any(x.op == "elem" for x in t.args[0].sub) and path in t.args[1].sub:
                for x in t.args[0].sub:
                    if x.op in ("fld", "vfld") and x.args[-1] in self.o.servers:
                        return True
        return False

    def excused(self, facts, path):
        """It could not be read, or is not text."""
        for t, f in facts.items():
            b = base(t)
            if f == ("=", "Err") and b.op == "call" and path in b.sub:
                if b.args[0].startswith(("std::fs::", "tokio::fs::", "std::path::Path::", "ethersync::")) or "from_utf8" in b.args[0]:
                    return True
            if f in (("=", "Err"), ("=", False)) and path in t.sub and any(x.op == "call" and ("from_utf8" in x.args[0] or x.args[0] == "is_utf8") for x in t.sub) and t.op == "call":
                return True
        return False

    def taken_over(self, facts, kind, path):
        if self.owned(facts, path):
            return True
        for t, f in facts.items():
            if kind == "Removed":
                if is_ghost(t, "remove") and path in t.sub or self.api.absent(t, f, path):
                    return True
                if f == ("=", True) and path in t.sub and t.op == "call" and t.args[0].endswith(("::exists", "::is_file", "::try_exists")):
                    return True  # it is back already, which is another event
            elif is_ghost(t, "set") and path in t.args[1][0].sub:
                text = t.args[1][1]
                if any(x.op == "call" and (x.args[0] in self.readers or x.args[0].endswith(("::read", "::read_to_string", "::read_to_end"))) and path in x.sub for x in text.sub):
                    return True
        return kind != "Removed" and self.excused(facts, path)

    def run(self, m):
        c, api = self.c, self.api
        names = tuple(api.effects) + tuple(self.readers)
        mm = m.other(
            MUTATORS + MAP_CALLS + READ + names + ("std::fs::*",),
            hold_fact=self.hold, pin_args=True, ghost=api.on_event, never=names,
        )
        hs = handlers(mm, "::WatcherEvent", MUTATORS)
        for h in hs:
            E = mm.free(h)
            seen = set()
            for n in E.nodes:
                if n.kind != "end":
                    continue
                for t, f in n.facts.items():
                    if f[0] == "=" and f[1] in ("Created", "Removed", "Changed"):
                        seen.add(f[1])
                        path = vfld(t, f[1], "file_path")
                        c.oblige(kind="ways_out_of_handling_a_file_event", sample="%s in %s" % (f[1], m.name(h)))
                        if not self.taken_over(n.facts, f[1], path):
                            c.violate(
                                ("handler", m.name(h), f[1]),
                                "%s can finish handling a '%s' event without updating the document accordingly" % (m.name(h), f[1]),
                                c.at(E, n),
                                c.trace(E, from_root(E, n.id)),
                            )
            for k in ("Created", "Removed", "Changed"):
                if k not in seen:
                    c.violate(("handler", m.name(h), k), "%s does not handle '%s' events" % (m.name(h), k))
        if not hs:
            c.violate(("anchor", "handler"), "no handling of file events that changes the document found")
        return hs


def dispatch(c, m, hs):
    """A message with an event leads to its handler."""
    names = {m.name(h).split("::{closure")[0]: h for h in hs}

    def on_event(st, n):
        if n.kind == "call" and n.data.name in names:
            for a in n.data.args:
                happened(st, ghost("handled", a))

    for h in hs:
        if not arg_type(m, h, "::WatcherEvent"):
            continue
        wrapper = m.F.bodies[h].get("parent") if m.F.bodies[h].get("coroutine") else h
        mm = m.other(tuple(names), hold_fact=lambda t: True, ghost=on_event, never=tuple(names))
        for g in sorted(m.callers(wrapper), key=m.name):
            E = mm.free(g)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                for t, f in n.facts.items():
                    if f == ("=", "FromWatcher"):
                        c.oblige(kind="ways_out_of_handling_a_message_with_a_file_event")
                        if not any(is_ghost(x, "handled") and t in x.sub for x in n.facts):
                            c.violate(("dispatch", m.name(g)), "%s can drop a message with a file event" % m.name(g), c.at(E, n), c.trace(E, from_root(E, n.id)))


def ignoring(c, m):
    """Functions that tell whether a file is ignored, by walking the directory."""
    f = matcher(WALK)
    rel = Engine(c.facts).closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
    out = set()
    for h in rel & m.live:
        ret = c.facts.types[c.facts.bodies[h]["locals"][0]]["s"]
        if m.top(h) == h and (ret == "bool" or ret.startswith("core::result::Result<bool")):
            out.add(h)
    low = set()
    for h in out:
        below, work = set(), [h]
        while work:
            for x in m.callees[work.pop()][0]:
                if x not in below:
                    below.add(x)
                    work.append(x)
        if not below & (out - {h}):
            low.add(h)
    return tuple(sorted(m.name(h) for h in low))


def fits(facts, count, k):
    """Can this number have this value?"""
    f = facts.get(count)
    if f is not None and not (f == ("=", k) or f[0] == "!" and k not in f[1]):
        return False
    for t, f in facts.items():
        if t.op == "bin" and t.args[0] in ("Lt", "Eq") and count in t.args[1:] and f[0] == "=":
            a, b = [k if x is count else x.args[0] if x.op == "k" else None for x in t.args[1:]]
            if isinstance(a, int) and isinstance(b, int) and (a < b if t.args[0] == "Lt" else a == b) != f[1]:
                return False
    return True


def watcher(c, m):
    """Translation of the library's events."""
    skip = ignoring(c, m)
    if not skip:
        c.violate(("anchor", "ignored"), "no function that tells whether a file is ignored found")

    def on_event(st, n):
        if n.kind == "call" and n.data.name in QUEUE and len(n.data.args) > 1:
            happened(st, ghost("queued", n.data.args[1]))

    # closures passed to the library are called by it
    mm = m.other(RECV + skip + QUEUE, hold_fact=lambda t: True, pin_args=True, ghost=on_event, never=skip, want_back=True)
    f = matcher(RECV)
    found = 0
    told = set()
    for h in sorted(m.live, key=m.name):
        b = c.facts.bodies[h]
        if not any(f(n) for n in m.callees[h][1]) or not local_type(m, h, "notify::event::Event") and not local_type(m, h, "::event::EventKind") and not any(
            "notify::" in c.facts.types[l]["s"] for l in b["locals"]
        ):
            continue
        E = mm.free(m.top(h))
        kinds = {t for n in E.nodes for t in (n.facts or ()) if t.op == "fld" and t.args[-1] == "kind"}
        pops = any(n.kind == "call" and matcher(POP)(n.data.name) for n in E.nodes)
        queued = any(n.kind == "call" and n.data.name in QUEUE for n in E.nodes)
        if queued:
            c.oblige(kind="queues_of_events")
            if not any(n.kind == "end" and n.ret is not None and any(x.op == "elem" and not any(y.op == "call" and f(y.args[0]) for y in x.sub) for x in n.ret.sub) for n in E.nodes):
                c.violate(("queue", m.name(h), "lost"), "%s never delivers the events that it queued" % m.name(h))
        for n in E.nodes:
            if queued and n.kind == "call" and f(n.data.name):
                c.oblige(kind="waits_for_the_next_event")
                if not any(t.op == "call" and matcher(POP + ("::is_empty",))(t.args[0]) or t.op == "elem" or fv == ("=", "empty") for t, fv in n.facts.items()) and not pops:
                    c.violate(("queue", m.name(h)), "%s waits for the next event although earlier ones may be queued" % m.name(h), c.at(E, n))
            if n.kind not in ("end", "back"):
                continue
            out = [t.args[1][0] for t in n.facts if is_ghost(t, "queued")]
            if n.kind == "end" and n.ret is not None:
                out.append(n.ret)
            evs = [x for o in out for x in o.sub if x.op == "agg" and x.args[1].endswith("::WatcherEvent")]
            for k in kinds:
                if n.facts.get(base(k)) != ("=", "Some") and n.facts.get(k) is None:
                    continue
                paths = mk("fld", k.args[0], "paths")
                for what, chain, needs in KINDS:
                    t = k
                    ok = True
                    for i, (_, v) in enumerate(chain):
                        if i:
                            t = vfld(t, chain[i - 1][1], "0")
                        ok = ok and compatible(n.facts, t, v)
                    if not ok:
                        continue
                    found += 1
                    if not fits(n.facts, mk("call", "len", (paths,), None), len(needs)):
                        # such an event does not have that many paths
                        continue
                    for variants, i in needs:
                        c.oblige(kind="translations_of_an_event", sample="%s in %s" % (what, m.name(h)))
                        p = mk("idx", paths, const(i))
                        good = any(x.args[2] in variants and (p in x.sub or paths in x.sub and not any(y.op == "idx" for y in x.sub)) for x in evs)
                        if good and variants == ANY:
                            # which of both depends on whether it is there
                            there = {fv == ("=", True) for t, fv in n.facts.items() if "exists" in (base(t).args[0] if base(t).op == "call" else "") and paths in t.sub and fv in (("=", True), ("=", False))}
                            good = there in ({True}, {False}) and all((x.args[2] in SET) == (there == {True}) for x in evs)
                        if not good and variants in (SET, ANY):
                            good = any(
                                t.op == "call" and t.args[0] in skip and paths in t.sub and fv == ("=", "Err")
                                or base(t).op == "call" and base(t).args[0] in skip and paths in t.sub and fv == ("=", True)
                                for t, fv in n.facts.items()
                            )
                        if any(x.args[2] in variants and p in x.sub for x in evs):
                            told.add((what, i))
                        if not good:
                            c.violate(
                                ("watcher", m.name(h), what, str(i)),
                                "%s can drop the report of the %s of a file (path %d)" % (m.name(h), what, i),
                                c.at(E, n),
                                c.trace(E, from_root(E, n.id)),
                            )
    if not found:
        c.violate(("anchor", "watcher"), "no translation of the library's file events found")
    for what, _, needs in KINDS:
        for _, i in needs:
            if (what, i) not in told:
                c.violate(("never", what, str(i)), "the %s of a file (path %d) is never reported" % (what, i))


def forwarding(c, m):
    """What the library or the watcher reports is sent on, waiting if the receiver is busy."""
    sends = matcher(SENDS)

    def on_event(st, n):
        if n.kind == "call" and sends(n.data.name) and len(n.data.args) > 1:
            happened(st, ghost("sent", n.data.args[1]))

    mm = m.other(SENDS, hold_fact=lambda t: is_ghost(t) or base(t).op in ("sym", "call"), pin_args=True, ghost=on_event, want_back=True)
    n_lib = n_own = 0
    for h in sorted(m.live, key=m.name):
        b = c.facts.bodies[h]
        if b["kind"] == "Closure" and not b.get("coroutine") and b["argc"] == 2:
            s = c.facts.types[b["locals"][2]]["s"]
            if "notify::" in s and "Event" in s:
                n_lib += 1
                ev = mk("sym", "arg", m.name(h), 1)
                E = mm.free(h)
                for n in E.nodes:
                    if n.kind == "end":
                        c.oblige(kind="reports_of_the_library")
                        if not any(is_ghost(t, "sent") and ev in t.sub for t in n.facts):
                            c.violate(("callback", m.name(h)), "%s can drop what the library reports" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
    # the loop that fetches events
    rets = {m.name(h).split("::{closure")[0] for h in m.live if c.facts.types[c.facts.bodies[h]["locals"][0]]["s"].endswith("Option<ethersync::watcher::WatcherEvent>") and c.facts.bodies[h].get("coroutine")}
    mm = m.other(SENDS + tuple(rets), hold_fact=lambda t: True, pin_args=True, ghost=on_event, want_back=True, never=tuple(rets))
    for h in sorted(m.live, key=m.name):
        if not any(m.name(x) in rets for x in m.callees[h][0]) or m.name(h).split("::{closure")[0] in rets or m.top(h) != h:
            continue
        E = mm.free(h)
        for n in E.nodes:
            if n.kind not in ("back", "end"):
                continue
            for t, f in n.facts.items():
                if f == ("=", "Some") and any(x.op == "call" and x.args[0] in rets for x in t.sub):
                    n_own += 1
                    c.oblige(kind="events_fetched_from_the_watcher")
                    ev = vfld(t, "Some", "0")
                    if not any(is_ghost(x, "sent") and ev in x.sub for x in n.facts):
                        c.violate(("fetch", m.name(h)), "%s can drop an event of the watcher" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
    if not n_lib:
        c.violate(("anchor", "callback"), "no callback of the notification library found")
    if not n_own:
        c.violate(("anchor", "fetch"), "no loop that fetches events of the watcher found")


def unknown(c, m, api):
    """Texts of files that the document does not know are taken over too."""
    mm = m.other(MUTATORS + READ + tuple(api.effects), hold_fact=api.hold, pin_args=True, never=tuple(x for x, e in api.effects.items() if e[0] != "set"))

    def known(facts, k):
        return any(f == ("=", "Some") and base(t).op == "call" and "ReadDoc::get" in base(t).args[0] and k in base(t).sub for t, f in facts.items())

    needy = []
    for name, e in sorted(api.effects.items()):
        if e[0] == "set":
            c.oblige(kind="functions_that_take_over_a_text", sample=name)
            ends = [n for n in mm.free(m.ids[name]).nodes if n.kind == "end"]
            if all(known(n.facts, mk("sym", "arg", name, e[1])) for n in ends):
                needy.append(name)
    if not needy:
        return
    ms = m.other(READ + tuple(needy), hold_fact=api.hold, pin_args=True, never=tuple(needy))

    def judge(E, n):
        c.oblige(kind="texts_taken_over_where_one_is_needed")
        k = n.data.args[api.effects[n.data.name][1]]
        return None if known(n.facts, k) or any(x.op == "elem" and any(y.op == "call" and "ReadDoc::" in y.args[0] for y in x.sub) for x in k.sub) else "a file that the document does not have yet makes it fail"

    for E, n, w in ms.climb(tuple(needy), judge):
        c.violate(("unknown", norm(E.ctx_body(n.ctx).path), n.data.short), "%s: %s" % (norm(E.ctx_body(n.ctx).path), w), c.at(E, n), c.trace(E, from_root(E, n.id)))


def watched(c, m):
    """The whole directory is watched."""
    w = ("notify::Watcher::watch",)
    mm = m.other(w + ("::Watcher::watch",))
    n_w = 0
    for h in mm.sites(w + ("::Watcher::watch",)):
        E = mm.free(m.top(h))
        for n in events(E, w + ("::Watcher::watch",)):
            n_w += 1
            c.oblige(kind="watched_directories")
            mode = n.data.args[-1]
            if not (mode.op == "agg" and mode.args[2] == "Recursive" or mode.op == "k" and "Recursive" in str(mode.args[0]) and "Non" not in str(mode.args[0])):
                c.violate(("mode", m.name(h)), "%s does not watch the subdirectories" % m.name(h), c.at(E, n))
    if not n_w:
        c.violate(("anchor", "watch"), "no place found where a directory is watched")


def run(c):
    c.rule = (
        "The callback of the notification library sends on every report, waiting if the receiver is busy; the watcher turns each report about a file into events "
        "for exactly that path unless the file is ignored, and no event is dropped on its way to the document. The handling of an event ends only after the "
        "text of that very file was put into (or removed from) the document, or after finding that an editor has it open, that it could not be read or that it is not UTF-8."
    )
    m = Modular(c, ())
    api = DocApi(c, m)
    hs = Handler(c, m, api).run(m)
    dispatch(c, m, hs)
    watcher(c, m)
    forwarding(c, m)
    watched(c, m)
    walking.complete(c, m, {h for h in walking.places(c, m) if m.name(h) in ignoring(c, m)})
    unknown(c, m, api)
    actor.loop(c, m, "FromWatcher")
