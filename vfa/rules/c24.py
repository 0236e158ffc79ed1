"""C24: a vanishing editor or a deleted file does not stop the daemon."""
from ..rulelib import *
from . import actor
from .common import MUTATORS
from .c13 import NEXT, PARSE, parsers
from .docapi import READ, DocApi
from .editors import *
from .own import *

TECHNIQUE = "reachability of failures over MIR dataflow: no failure whose cause is a missing connection, a failed send, a deleted file or an unreadable line, followed up through the callers"
NOTE = (
    "All places that can fail in functions that handle messages, with the facts known there; what callers make sure of is taken into account along all call chains. "
    "Failures with other causes (positions outside of the text, disk errors, library failures) are not covered by the property."
)

FAIL = (
    "::Option::expect", "::Option::unwrap", "::Result::expect", "::Result::unwrap", "::Option::unwrap_or_else", "::Result::unwrap_or_else", "::Option::expect_none", "core::panicking::*", "std::rt::*", "core::option::*", "core::result::*", "std::process::*",
    "::Index::index", "::IndexMut::index_mut",
)
REMOVING = ("remove", "remove_entry", "clear", "retain", "drain", "extract_if", "insert", "entry")


def about(t):
    """The call or look-up that a value is the outcome of."""
    b = base(t)
    while b.op == "call" and b.args[0] == "await":
        b = base(b.args[1][0])
    return b


class Rule:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.ed = Editors(c, m)
        self.messages = [v[0] for a in c.facts.adts.values() if a["p"].endswith("::DocMessage") for v in a["variants"]]
        # kinds of messages that the daemon itself never sends are for tests
        self.sent = {v for v in self.messages if any(self.builds(h, v) for h in m.live)}
        self.handling = self.reach_of_messages()
        wr, rem = matcher(WRITES), matcher(MAP_CALLS)
        probe = Engine(c.facts)
        quiet = probe.closure_over(lambda h: any(wr(x) for x in m.callees[h][1])) - probe.closure_over(lambda h: any(rem(x) and x.rsplit("::", 1)[-1] in REMOVING for x in m.callees[h][1]))
        # functions that write files and remove nothing from maps
        self.writers = tuple(m.name(h) for h in quiet if m.top(h) == h)

    def bad(self, key, msg, E, n):
        c = self.c
        c.violate(key, msg, c.at(E, n), c.trace(E, from_root(E, n.id)))

    def reach_of_messages(self):
        """Functions that run while messages are handled."""
        m, F = self.m, self.c.facts
        out = set()
        work = [h for h in m.live for t in [arg_types(F, F.bodies[h])] if any(ends(x, "::DocMessage") and not x.startswith("&") for x in t)]
        while work:
            h = work.pop()
            if h in out:
                continue
            out.add(h)
            work.extend(m.callees[h][0])
        return out

    # -- connections -------------------------------------------------------------------
    def connections(self):
        c, m, ed = self.c, self.m, self.ed
        seen = set()

        def pick(n):
            return n.kind == "panic"

        def judge(E, n):
            fs = n.facts
            self.look(n, "places_that_can_fail")
            direct = about(n.data.args[0]) if n.data.name == "unwrap" and n.data.args else None
            if direct is not None and direct.op in ("call", "ver"):
                return None
            gone = [t for t, f in fs.items() if t.op == "mapget" and f == ("=", "None") and self.all_editors(t.args[0])]
            if direct is not None and direct.op == "mapget":
                gone = [direct] if self.all_editors(direct.args[0]) else []
            gone = [t for t in gone if not self.visited_once(E, n, t)]
            here = (E.ctxs[n.ctx][3], n.bb)
            if gone and self.m.ids.get(E.roots[0][0]) == m.top(here[0]):
                seen.add(here)
            # what callers know is no other reason to fail
            if not gone or here not in seen:
                return None
            return self.final(E, n, "an editor that is gone makes it fail")

        never = ed.opaque
        looking = Engine(c.facts).closure_over(lambda h: any(self.mentions(h, f) for f in ed.o.conns))
        act = matcher(tuple(WRITES) + SINK + MUTATORS)
        acting = Engine(c.facts).closure_over(lambda h: any(act(x) for x in m.callees[h][1]))
        for h in sorted((h for h in m.sites(FAIL) if h in self.handling and m.top(h) in looking), key=m.name):
            top = m.name(m.top(h))
            outer = {top, m.name(h), top.rsplit("::{closure", 1)[0]}
            opts = dict(
                hold_fact=lambda t: t.op in ("mapget", "sym") or is_ghost(t), pin_args=True, always=(top + "::{closure",),
                ghost=ed.on_event, max_nodes=60000, max_climb=60000, helper=lambda x: x in looking and x not in acting and len(c.facts.bodies[x]["blocks"]) < 150,
            )
            for given in self.kinds(m.top(h)):
                aside = self.writers if given else ()
                mm = m.other(MAP_CALLS + SINK + never, never=tuple(x for x in never + aside if x not in outer), given=given, **opts)
                for E, n, w in mm.climb(FAIL, judge, only={h}, pick=pick):
                    self.bad(("gone", m.name(h)), "%s: %s" % (m.name(h), w), E, n)

    def final(self, E, n, what):
        """In a function that takes messages of all kinds, the kinds that are sent count, whoever calls it."""
        h = self.m.ids.get(E.roots[0][0])
        if self.kinds(h) == [None]:
            return what
        if any(f[0] == "=" and f[1] in self.messages and f[1] not in self.sent for f in n.facts.values()):
            return None
        return [what]

    def kinds(self, h):
        """One case per kind of message, for a function that takes messages of all kinds."""
        for i, t in enumerate(arg_types(self.c.facts, self.c.facts.bodies[h])):
            if ends(t, "::DocMessage"):
                return [{i: v} for v in self.messages if v in self.sent]
        return [None]

    def all_editors(self, t):
        return self.ed.is_conns(t) and not self.of_servers(t)

    def of_servers(self, t):
        return any(x.op in ("fld", "vfld") and x.args[-1] in self.ed.o.servers for x in t.sub)

    def look(self, n, kind):
        self.c.oblige(kind=kind)

    def mentions(self, h, field):
        b = self.c.facts.bodies[h]
        return field in str(b["blocks"])

    def visited_once(self, E, n, t):
        """A look-up of an element of the list of all editors, before anything was sent to it."""
        key = t.args[1]
        k = base(key)
        cur = next((x for x in key.sub if x.op == "elem" and self.ed.is_conns(x)), None)
        if cur is None:
            return False
        # what was done since the list was made can only have removed other elements of it
        for x in n.facts:
            if is_ghost(x, "send") and key in x.args[1][0].sub:
                return False
        for x in E.nodes:
            name, args = carried_out(self.m, x)
            if name in self.ed.send:
                who = args[self.ed.send[name][0]]
            elif name is not None and name.endswith(("::HashMap::remove", "::BTreeMap::remove", "::HashMap::remove_entry")) and self.ed.is_conns(args[0]):
                who = args[1]
            elif name is not None and name.endswith(("Map::clear", "Map::retain", "Map::drain")) and self.ed.is_conns(args[0]):
                return False
            elif name in self.ed.tell:
                return False
            else:
                continue
            if not any(y.op == "elem" and self.ed.is_conns(y) for y in who.sub):
                return False
        return True

    def removals(self):
        """Sending to an editor and closing it remove no other one."""
        c, m, ed = self.c, self.m, self.ed
        rem = matcher(("::HashMap::remove", "::BTreeMap::remove", "::HashMap::remove_entry", "::HashMap::clear", "::HashMap::retain", "::HashMap::drain", "core::mem::take", "core::mem::replace"))
        for name in sorted(ed.send):
            i, j = ed.send[name]
            h = m.ids[name]
            if m.is_wrapper(h):
                h = next(x for x in m.callees[h][0] if c.facts.bodies[x].get("coroutine"))
            E = m.other(MAP_CALLS + SINK, hold_fact=lambda t: t.op == "mapget", pin_args=True, never=self.writers).free(h)
            who = mk("sym", "arg", m.name(h), i)
            for n in E.nodes:
                if n.kind == "call" and type(n.data.name) is str and rem(n.data.name) and n.data.args and ed.is_conns(n.data.args[0]):
                    c.oblige(kind="removals_of_editors", sample=name)
                    if len(n.data.args) < 2 or n.data.args[1] is not who:
                        self.bad(("removed", name), "%s: another editor may be removed" % name, E, n)
        if not ed.send:
            c.violate(("anchor", "send"), "no function found that sends to an editor")

    # -- sending and parsing ------------------------------------------------------------------
    def inputs(self):
        """What editors send, and that they cannot be written to, is no reason to fail."""
        c, m, ed = self.c, self.m, self.ed
        sink, parse, nxt = matcher(SINK), matcher(PARSE), matcher(NEXT)
        ps = {m.name(h) for h in parsers(m)}
        tasks = {h for h in m.live if any(self.builds(h, k) for k in ("FromEditor", "CloseEditorConnection"))}
        roots = {m.top(h) for h in m.live if h in self.handling and any(sink(x) or parse(x) for x in m.callees[h][1])} | {m.top(h) for h in tasks}
        # and those who use them
        for _ in range(2):
            roots |= {g for h in list(roots) for g in m.callers(h) if g in self.handling and not self.has_loop(g)}
        never = ed.opaque
        done = 0
        for h in sorted(roots, key=m.name):
            name = m.name(h)
            outer = {name, name.rsplit("::{closure", 1)[0]}
            mm = m.other(SINK + PARSE + NEXT, hold_fact=lambda t: about(t).op == "call" or t.op == "sym", pin_args=True, never=tuple(x for x in never if x not in outer), max_nodes=120000)
            try:
                E = mm.free(h)
            except Limit:
                # seen from below
                continue
            done += 1
            for n in E.nodes:
                if n.kind not in ("panic", "exit"):
                    continue
                c.oblige(kind="failures_next_to_input_of_editors")
                if n.data.name == "unwrap" and n.data.args:
                    b = about(n.data.args[0])
                    if b.op in ("call", "ver"):
                        w = self.input(b, sink, parse, nxt)
                        if w:
                            self.bad(("input", name, w), "%s: %s makes it fail" % (name, w), E, n)
                        continue
                for t, f in n.facts.items():
                    if f not in (("=", "Err"), ("=", "None")):
                        continue
                    w = self.input(about(t), sink, parse, nxt)
                    if w and not (w == "the end of a connection" and n.data.name == "unwrap"):
                        self.bad(("input", name, w), "%s: %s makes it fail" % (name, w), E, n)
        if not done:
            c.violate(("anchor", "input"), "no function found that handles input of editors")

    def has_loop(self, h):
        return any(x.endswith("::Receiver::recv") for x in self.m.callees[h][1])

    def builds(self, h, variant):
        b = self.c.facts.bodies[h]
        return any(s[0] not in ("dead", "live", "setdisc") and s[1][0] == "agg" and s[1][1] == "adt" and s[1][3].endswith("::DocMessage") and variant in s[1] for blk in b["blocks"] for s in blk["s"])

    @staticmethod
    def input(b, sink, parse, nxt):
        if b.op not in ("call", "ver"):
            return None
        if sink(b.args[0]):
            return "an editor that cannot be written to"
        if parse(b.args[0]):
            return "a line that is not a valid request"
        if nxt(b.args[0]):
            return "the end of a connection"
        return None

    # -- files --------------------------------------------------------------------------------
    def files(self):
        c, m = self.c, self.m

        def pick(n):
            return n.kind == "panic"

        def absent(fs, direct):
            out = []
            for t, f in fs.items():
                b = base(t)
                if b.op != "call" or not b.args[0].endswith(("::ReadDoc::get", "::ReadDoc::get_all")) or len(b.args[1]) < 3:
                    continue
                k = b.args[1][2]
                if k.op == "k":
                    continue
                if f == ("=", "None") or f[0] == "!" and t is not b or f == ("=", "Scalar"):
                    out.append(k)
            return out

        def judge(E, n):
            self.look(n, "places_that_can_fail_for_files")
            direct = about(n.data.args[0]) if n.data.name == "unwrap" and n.data.args else None
            if direct is not None and direct.op == "ver":
                return None
            if direct is not None and direct.op == "call" and m.ids.get(direct.args[0]) in reads:
                return self.final(E, n, "a file that was deleted may make it fail")
            if direct is not None and direct.op == "call" and not direct.args[0].endswith(("::ReadDoc::get", "::ReadDoc::get_all")):
                return None
            return self.final(E, n, "a file that was deleted makes it fail") if absent(n.facts, direct) else None

        rd = matcher(READ)
        reads = Engine(c.facts).closure_over(lambda h: any(rd(x) for x in m.callees[h][1]))
        act = matcher(tuple(WRITES) + SINK + MUTATORS)
        acting = Engine(c.facts).closure_over(lambda h: any(act(x) for x in m.callees[h][1]))
        todo = [h for h in m.sites(FAIL) if h in self.handling and h in reads]
        for h in sorted(todo, key=m.name):
            top = m.name(m.top(h))
            outer = {top, m.name(h), top.rsplit("::{closure", 1)[0]}
            opts = dict(hold_fact=lambda t: t.op == "sym" or any(x.op == "call" and "ReadDoc::" in x.args[0] for x in t.sub), pin_args=True, always=(top + "::{closure",), max_nodes=60000, max_climb=60000, helper=lambda x: x in reads and x not in acting and len(c.facts.bodies[x]["blocks"]) < 150)
            for given in self.kinds(m.top(h)):
                aside = self.ed.opaque + (self.writers if given else ())
                mm = m.other(READ, never=tuple(x for x in aside if x not in outer), given=given, **opts)
                for E, n, w in mm.climb(FAIL, judge, only={h}, pick=pick, depth=4):
                    at = E.roots[0][0]
                    self.bad(("file", m.name(h), at), "%s, from %s: %s" % (m.name(h), at, w), E, n)
        c.counts["functions_that_look_up_files"] = len(todo)

    def exits(self):
        c, m = self.c, self.m
        f = matcher(("std::process::exit", "std::process::abort", "core::intrinsics::abort"))
        for h in sorted(self.handling & set(m.live), key=m.name):
            c.oblige(kind="functions_that_handle_messages")
            for x in sorted(m.callees[h][1]):
                if f(x):
                    c.violate(("exit", m.name(h)), "%s ends the daemon" % m.name(h), {"function": m.name(h)})

    def lookups(self):
        """What an editor says about a file it does not have open is no reason to fail."""
        c, m, ed = self.c, self.m, self.ed
        for name, i in sorted(list(ed.ask.items()) + list(ed.answer.items())):
            E = m.other(MAP_CALLS, hold_fact=lambda t: t.op in ("mapget", "sym"), pin_args=True).free(m.ids[name])
            for n in E.nodes:
                if n.kind != "panic":
                    continue
                c.oblige(kind="failures_for_messages_of_editors", sample=name)
                direct = about(n.data.args[0]) if n.data.name == "unwrap" and n.data.args else None
                if direct is not None and direct.op in ("call", "ver"):
                    continue
                if any(t.op == "mapget" and f == ("=", "None") and self.of_servers(t.args[0]) for t, f in n.facts.items()):
                    self.bad(("unopened", name), "%s: a message about a file that is not open makes it fail" % name, E, n)

    def uris(self):
        """A request with a bad address is no reason to fail."""
        c, m, ed = self.c, self.m, self.ed

        def bad(E, n):
            for t, f in n.facts.items():
                b = base(t)
                if b.op != "call" or not b.args[0].endswith("Path::is_absolute") or t is not b:
                    continue
                if f in (("=", False), ("=", 0)) and self.from_text(b) and not self.prefixed(b, n.facts):
                    return "an address that is not absolute makes it fail"
            return None

        names = ("std::path::Path::is_absolute", "core::str::str::starts_with", "core::str::str::strip_prefix")
        text = matcher(names)
        tells = {h for h in m.live if any(text(x) for x in m.callees[h][1])}
        helper = lambda h: h in tells and len(c.facts.bodies[h]["blocks"]) < 60
        mm = m.other(names, hold_fact=lambda t: t.op == "call" and text(t.args[0]), pin_args=True, max_nodes=60000, max_climb=60000, helper=helper)
        f = matcher(("std::path::Path::is_absolute",))
        near = {h for h in m.live if any(f(x) for x in m.callees[h][1])}
        near |= {g for h in near for g in m.callers(h)}
        near |= {h for h in m.live if h in near or m.callees[h][0] & near}
        for h in sorted((h for h in m.sites(FAIL) if h in near and h in self.handling), key=m.name):
            for E, n, w in mm.climb(FAIL, bad, only={h}, pick=lambda n: n.kind == "panic", depth=3):
                self.bad(("uri", m.name(h), E.roots[0][0]), "%s, from %s: %s" % (m.name(h), E.roots[0][0], w), E, n)

    @staticmethod
    def from_text(b):
        return not any(x.op == "call" and x.args[0].endswith(("Path::join", "path::absolute")) for x in b.sub)

    @staticmethod
    def prefixed(b, facts):
        """The text is known to start with a prefix whose end makes the rest absolute."""
        for x in b.sub:
            if x.op != "call" or x.args[0] != "slice":
                continue
            whole, part = x.args[1]
            start = getf(part, "start")
            for t, f in facts.items():
                if t.op == "call" and t.args[0].endswith("str::starts_with") and f in (("=", True), ("=", 1)) and start.op == "k":
                    of, what = t.args[1][0], t.args[1][1]
                    if of is whole and what.op == "k" and what.args[0][start.args[0]:].startswith("/"):
                        return True
        return False


def run(c):
    c.rule = (
        "While messages are handled, no failure (expect, unwrap, panic, exit) can be reached in a state where its cause is that a connection is not known any more, that sending to an editor failed, that a line cannot be parsed, "
        "that the connection ended, that an address in a request is not absolute, or that the document has no such file; a look-up that can fail has to be guarded in the function or by every caller, or go through the list of all editors once. "
        "Sending to an editor removes no other one. The loop that takes the messages goes on."
    )
    m = Modular(c, ())
    r = Rule(c, m)
    r.connections()
    r.removals()
    r.inputs()
    r.files()
    r.lookups()
    r.uris()
    r.exits()
    actor.loop(c, m, "FromEditor")
