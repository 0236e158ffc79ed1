"""C14: changes go to every other editor and never back to their author."""
from ..rulelib import *
from .c13 import PARSE
from .c22 import compatible
from .docapi import DocApi
from .editors import *
from .own import *

TECHNIQUE = "modular dataflow over MIR with ghost facts per iteration: an editor's change leads to the document and to each other editor"
NOTE = (
    "All paths from the message of an editor over the document to the messages for all editors, for any number of editors. "
    "What the operational transformation computes is left to its own property; the sockets are assumed to accept what is sent."
)
PUTS = ("alloc::vec::Vec::push", "collect::put", "std::collections::hash::set::HashSet::insert", "alloc::collections::vec_deque::VecDeque::push_back")


def agg_of(t, kind):
    return t.op == "agg" and t.args[2] == kind


class Rule:
    def __init__(self, c, m, ed):
        self.c, self.m, self.ed = c, m, ed

    def bad(self, key, msg, E, n):
        c = self.c
        c.violate(key, msg, c.at(E, n), c.trace(E, from_root(E, n.id)))

    def body(self, name):
        """What is run for a function: for async ones their inside."""
        h = self.m.ids[name]
        if self.m.is_wrapper(h):
            h = next(x for x in self.m.callees[h][0] if self.c.facts.bodies[x].get("coroutine"))
        return h

    # -- an editor's message ----------------------------------------------------------
    def reactions(self):
        """After a message was accepted, it is carried out, passed on, and answered to its author."""
        c, m, ed = self.c, self.m, self.ed
        mm = ed.other(PARSE)
        seen = set()
        hs = {m.top(h) for h in m.live if any(m.name(x) in ed.ask for x in m.callees[h][0])}
        for h in sorted(hs, key=m.name):
            name = m.name(h)
            E = mm.free(h)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                fs = n.facts
                for g in [t for t in fs if is_ghost(t, "ask")]:
                    ask, conn, msg = g.args[1]
                    if fs.get(ask) == ("=", "Err"):
                        continue
                    c.oblige(kind="ways_out_after_accepting_a_message", sample=name)
                    inside, replies = getf(vfld(ask, "Ok", "0"), "0"), getf(vfld(ask, "Ok", "0"), "1")
                    if not any(is_ghost(t, "apply") and t.args[1][0] is inside for t in fs):
                        self.bad(("apply", name), "%s: an accepted message may not reach the document" % name, E, n)
                    tells = [t for t in fs if is_ghost(t, "tell") and t.args[1][1] is inside]
                    if len(tells) != 1 or any(is_ghost(t, "again") and is_ghost(t.args[1][0], "tell", "apply") for t in fs):
                        self.bad(("tell", name), "%s: an accepted message may not be passed on to the editors exactly once" % name, E, n)
                        continue
                    left = tells[0].args[1][0]
                    if not (agg_of(left, "Some") and self.owner(conn, getf(left, "@Some.0"))):
                        self.bad(("author", name), "%s: a change may go back to its author" % name, E, n)
                        continue
                    who = getf(left, "@Some.0")
                    if not any(t.op == "forall" and t.args[0] is replies and t.args[1] is BV and f == ("=", "empty") for t, f in fs.items()):
                        full = fs.get(mk("forall", replies, TRUE)) is not None
                        if not full or not any(t.op == "forall" and t.args[0] is replies and self.is_request(t.args[1], who, BV) for t in fs):
                            self.bad(("replies", name), "%s: what the author has to be told may not be sent" % name, E, n)
                    for t in fs:
                        if is_ghost(t, "send") and agg_of(t.args[1][1], "Request"):
                            self.bad(("extra", name), "%s: something else may be sent to the author" % name, E, n)
        if not c.counts.get("ways_out_after_accepting_a_message"):
            c.violate(("anchor", "reaction"), "no place found where messages of editors are handled")

    def owner(self, conn, who):
        """Is this the connection of that editor?"""
        return any(x.op in ("mapval", "mapget") and x.args[1] is who and self.ed.is_conns(x) for x in conn.sub)

    def is_request(self, t, who, msg):
        if not is_ghost(t, "send") or who not in t.args[1][0].sub:
            return False
        x = t.args[1][1]
        return agg_of(x, "Request") and getf(x, "@Request.0") is msg

    def refused(self):
        """A message of an editor is refused only for a reason; an accepted one stands for what it said."""
        c, m, ed = self.c, self.m, self.ed
        ot = tuple(m.name(h) for h, b in m.F.bodies.items() if b["kind"] != "Closure" and any(ends(t, "::RevisionedEditorTextDelta") for t in arg_types(m.F, b)) and "::TextDelta" in m.F.types[b["locals"][0]]["s"] and "::RevisionedEditorTextDelta" in m.F.types[b["locals"][0]]["s"])
        if not ot:
            c.violate(("anchor", "ot"), "no function found that takes over an edit of an editor")
        news = tuple(m.name(h) for h, b in m.F.bodies.items() if m.F.types[b["locals"][0]]["s"].endswith("::OTServer"))
        for name, i in sorted(ed.ask.items()):
            mm = m.other(ot + MAP_CALLS, hold_fact=lambda t: True, pin_args=True, never=ot + news, want_back=True)
            E = mm.free(m.ids[name])
            msg = mk("sym", "arg", name, i)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                fs, r = n.facts, n.ret
                for kind in ("Edit", "Cursor"):
                    if not compatible(fs, msg, kind):
                        continue
                    c.oblige(kind="ways_out_of_taking_a_message", sample="%s in %s" % (kind, name))
                    uri = vfld(msg, kind, "uri")
                    if not agg_of(r, "Ok"):
                        reason = any(
                            f in (("=", "Err"), ("=", "None")) and uri in t.sub and (t.op == "mapget" or base(t).op == "call") and kind in ("Edit", "Cursor")
                            for t, f in fs.items()
                        )
                        if not reason:
                            self.bad(("refuse", name, kind), "%s: %s of an editor may be refused without a reason" % (name, "an edit" if kind == "Edit" else "a cursor"), E, n)
                        continue
                    inside, replies = getf(getf(r, "@Ok.0"), "0"), getf(getf(r, "@Ok.0"), "1")
                    good = agg_of(inside, kind) and uri in getf(inside, "@%s.file_path" % kind).sub
                    if good and kind == "Edit":
                        d = getf(inside, "@Edit.delta")
                        calls = [x for x in d.sub if x.op == "call" and x.args[0] in ot]
                        good = len(calls) == 1 and d is getf(calls[0], "0")
                        if good:
                            op = next((a for a in calls[0].args[1] if a.op == "agg"), None)
                            good = op is not None and getf(op, "delta") is vfld(msg, kind, "delta") and getf(op, "revision") is vfld(msg, kind, "revision")
                            good = good and any(x.op == "mapval" and uri in x.args[1].sub for x in calls[0].args[1][0].sub)
                        if good:
                            src = getf(calls[0], "1")
                            if not (fs.get(mk("forall", src, BV)) == ("=", "empty")):
                                good = fs.get(mk("forall", src, TRUE)) is not None and self.mapped(replies, src, uri)
                            if not good:
                                self.bad(("answer", name, kind), "%s: what the author has to be told may get lost" % name, E, n)
                                continue
                    elif good:
                        good = getf(inside, "@Cursor.ranges") is vfld(msg, kind, "ranges")
                    if not good:
                        self.bad(("inside", name, kind), "%s: %s of an editor is not passed on as such" % (name, "an edit" if kind == "Edit" else "a cursor"), E, n)

    def mapped(self, replies, src, uri):
        """A list with one edit message for each element of another list."""
        if replies.op != "coll" or replies.args[0] == "part":
            return False
        for it in replies.args[1]:
            if it.op == "item" and it.args[0] is src:
                b = it.args[1]
                if agg_of(b, "Edit") and getf(b, "@Edit.delta") is getf(BV, "delta") and getf(b, "@Edit.revision") is getf(BV, "revision") and uri in getf(b, "@Edit.uri").sub:
                    return True
        return False

    # -- telling all editors -------------------------------------------------------------
    def telling(self):
        c, m, ed = self.c, self.m, self.ed
        put = matcher(PUTS)

        def on_event(st, n):
            if n.kind == "call" and type(n.data.name) is str and put(n.data.name) and len(n.data.args) > 1:
                happened(st, ghost("put", n.data.args[1]))
            ed.on_event(st, n)

        for name, (i, j) in sorted(ed.tell.items()):
            h = self.body(name)
            others = tuple(x for x in ed.opaque if x != name)
            mm = m.other(others + SINK, hold_fact=lambda t: True, pin_args=True, never=others, want_back=True, ghost=on_event)
            E = mm.free(h)
            msg = mk("sym", "arg", m.name(h), i)
            left = mk("sym", "arg", m.name(h), j) if j is not None else None
            backs = 0
            later = chosen = False  # editors are put aside; all of those are to be told
            rounds = []
            for n in E.nodes:
                if n.kind != "back":
                    continue
                for src, cur in n.data:
                    if ed.is_conns(src) and cur.op == "elem" and ed.is_conns(cur.args[0]) and not (src.op == "call" and src.args[0] in ed.answer):
                        rounds.append((n, src, cur))
            aside = [(n, cur) for n, src, cur in rounds if src.op != "coll" and self.aside(n.facts, cur)]
            later = bool(aside)
            chosen = later and all(self.excluded(n.facts, getf(cur, "0"), left) is False for n, cur in aside)
            for n, src, cur in rounds:
                backs += 1
                c.oblige(kind="iterations_over_editors", sample=name)
                self.one(E, n, name, src, cur, msg, left, chosen)
            for n in E.nodes:
                fs = n.facts
                if n.kind != "end":
                    continue
                c.oblige(kind="ways_out_of_telling_all_editors")
                if any(is_ghost(t, "tell") and t.args[1][1] is msg and (t.args[1][0] is left or left is None) for t in fs):
                    continue  # leaves it to another one
                srcs = {t.args[0]: f for t, f in fs.items() if t.op == "forall" and (t.args[1] is TRUE or t.args[1] is BV and f == ("=", "empty"))}
                first = [s for s in srcs if ed.is_conns(s) and s.op in ("fld", "vfld", "sym", "ver", "loop")]
                if not first:
                    self.bad(("all", name), "%s: not all editors may be told" % name, E, n)
                elif later and not any(s.op in ("coll", "call") for s in srcs) and not all(srcs[s] == ("=", "empty") for s in first):
                    self.bad(("all", name, "aside"), "%s: not all editors may be told" % name, E, n)
            if not backs and not any(n.kind == "end" and any(is_ghost(t, "tell") for t in n.facts) for n in E.nodes):
                c.violate(("anchor", "editors", name), "%s does not go through the editors" % name)

    def excluded(self, fs, key, left):
        """True, False or None if unknown: is this editor the one left out?"""
        if left is None:
            return False
        if fs.get(left) == ("=", "None"):
            return False
        for t, f in fs.items():
            if left in t.sub and key in t.sub and f in (("=", True), ("=", False)):
                names = [a for a in t.args if type(a) is str]
                if "Eq" in names:
                    return f[1]
                if "Ne" in names:
                    return not f[1]
        return None

    @staticmethod
    def aside(fs, cur):
        """What is kept of an editor for later."""
        return [t.args[1][0] for t in fs if is_ghost(t, "put") and getf(cur, "0") in t.args[1][0].sub]

    def one(self, E, n, name, src, cur, msg, left, chosen):
        fs = n.facts
        ed = self.ed
        key = getf(cur, "0")
        aside = self.aside(fs, cur) if src.op != "coll" else []
        answers = {t.args[1][0]: t.args[1] for t in fs if is_ghost(t, "answer") and cur in t.args[1][1].sub}
        again = len(answers) > 1
        before = set()  # answers that were asked for earlier
        if src.op == "coll":
            for it in src.args[1]:
                for x in it.sub:
                    if x.op == "call" and x.args[0] in ed.answer:
                        x = subst(x, {BV: cur})
                        before.add(x)
                        answers[x] = (x, x.args[1][0], x.args[1][ed.answer[x.args[0]]])
        ex = self.excluded(fs, key, left)
        if answers:
            if ex is not False and not (src.op == "coll" and chosen):
                self.bad(("author", name), "%s: a change may go back to its author" % name, E, n)
            for a, conn, what in answers.values():
                if what is not msg:
                    self.bad(("other", name), "%s: something else may be passed on" % name, E, n)
                elif any(a in x.sub for x in aside):
                    pass
                elif fs.get(mk("forall", a, BV)) == ("=", "empty"):
                    pass
                elif fs.get(mk("forall", a, TRUE)) is None or not any(t.op == "forall" and t.args[0] is a and (self.is_request(t.args[1], key, BV) or self.is_request(t.args[1], cur, BV)) for t in fs):
                    self.bad(("sent", name), "%s: what an editor has to be told may not be sent" % name, E, n)
            if again or before and len(answers) > len(before) or any(is_ghost(t, "again") and cur in t.sub for t in fs):
                self.bad(("twice", name), "%s: an editor may be told twice" % name, E, n)
        elif aside:
            pass
        elif ex is not True and not ed.gone(fs, key):
            self.bad(("skip", name), "%s: an editor may be left out" % name, E, n)

    def answers(self):
        """What an editor is told stands for the change."""
        c, m, ed = self.c, self.m, self.ed
        ot = tuple(m.name(h) for h, b in m.F.bodies.items() if b["kind"] != "Closure" and any(ends(t, "::TextDelta") for t in arg_types(m.F, b)) and ends(m.F.types[b["locals"][0]]["s"], "::RevisionedEditorTextDelta"))
        if not ot:
            c.violate(("anchor", "ot"), "no function found that turns a change into an edit for an editor")
        for name, i in sorted(ed.answer.items()):
            mm = m.other(ot + MAP_CALLS, hold_fact=lambda t: True, pin_args=True, never=ot, want_back=True)
            E = mm.free(m.ids[name])
            msg = mk("sym", "arg", name, i)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                fs, r = n.facts, n.ret
                for kind in ("Edit", "Cursor"):
                    if not compatible(fs, msg, kind):
                        continue
                    c.oblige(kind="ways_out_of_telling_one_editor", sample="%s in %s" % (kind, name))
                    f = vfld(msg, kind, "file_path")
                    x = self.single(r)
                    if kind == "Edit":
                        if any(t.op == "mapget" and v == ("=", "None") and t.args[1] is f for t, v in fs.items()):
                            if not self.empty(r):
                                self.bad(("unopened", name), "%s: an editor may get edits of a file it does not have open" % name, E, n)
                            continue
                        good = x is not None and agg_of(x, "Edit") and f in getf(x, "@Edit.uri").sub
                        if good:
                            d, rev = getf(x, "@Edit.delta"), getf(x, "@Edit.revision")
                            calls = [y for y in d.sub if y.op == "call" and y.args[0] in ot]
                            good = len(calls) == 1 and d is getf(calls[0], "delta") and rev is getf(calls[0], "revision")
                            good = good and any(a is vfld(msg, kind, "delta") for a in calls[0].args[1]) and any(y.op == "mapval" and y.args[1] is f for y in calls[0].args[1][0].sub)
                    else:
                        good = (
                            x is not None and agg_of(x, "Cursor") and f in getf(x, "@Cursor.uri").sub and getf(x, "@Cursor.userid") is vfld(msg, kind, "cursor_id")
                            and getf(x, "@Cursor.name") is vfld(msg, kind, "name") and getf(x, "@Cursor.ranges") is vfld(msg, kind, "ranges")
                        )
                    if not good:
                        self.bad(("told", name, kind), "%s: an editor may not be told %s as it is" % (name, "an edit" if kind == "Edit" else "a cursor"), E, n)

    @staticmethod
    def single(r):
        if r is None or r.op != "coll" or r.args[0] == "part" or len(r.args[1]) != 1:
            return None
        x = next(iter(r.args[1]))
        if x.op == "item":
            return x.args[1] if x.args[0] is UNIT else None
        return x

    @staticmethod
    def empty(r):
        return r is not None and r.op == "coll" and not r.args[1]

    # -- the document ---------------------------------------------------------------------
    def applying(self):
        c, m, ed = self.c, self.m, self.ed
        api = DocApi(c, m)
        stores = {}
        f = matcher(MUTATORS)
        rel = Engine(c.facts).closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
        for h in rel & m.live:
            b = c.facts.bodies[h]
            if b["kind"] == "Closure" or b.get("coroutine") or m.is_wrapper(h):
                continue
            ts = arg_types(c.facts, b)
            rng = [i for i, t in enumerate(ts) if "::Range" in t and "Vec<" in t]
            if len(rng) == 1 and m.name(h) not in api.effects:
                stores[m.name(h)] = (rng[0], [i for i, t in enumerate(ts) if ends(t, "::RelativePath")], [i for i, t in enumerate(ts) if ends(t, "str") or ends(t, "::String")])

        def on_event(st, n):
            if n.kind == "call" and n.data.name in stores:
                i, p, s = stores[n.data.name]
                happened(st, ghost("store", n.data.args[i], *[n.data.args[k] for k in p + s]))
            api.on_event(st, n)

        if not stores:
            c.violate(("anchor", "store"), "no function found that stores a cursor")
        never = tuple(api.effects) + tuple(stores)
        for name, i in sorted(ed.apply.items()):
            h = self.body(name)
            mm = m.other(MUTATORS + ("automerge::read::ReadDoc::*",) + never, hold_fact=lambda t: True, pin_args=True, never=never, ghost=on_event)
            E = mm.free(h)
            msg = mk("sym", "arg", m.name(h), i)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                fs = n.facts
                for kind in ("Edit", "Cursor", "Open"):
                    if not compatible(fs, msg, kind):
                        continue
                    c.oblige(kind="ways_out_of_carrying_out_a_message", sample="%s in %s" % (kind, name))
                    file = vfld(msg, kind, "file_path")
                    if kind == "Edit":
                        d = vfld(msg, kind, "delta")
                        good = any(is_ghost(t, "apply") and file in t.args[1][0].sub and t.args[1][1] is d for t in fs) or any(api.absent(t, f, file) for t, f in fs.items())
                    elif kind == "Open":
                        # the document has the file now
                        good = any(is_ghost(t, "set") and file in t.args[1][0].sub for t in fs)
                        if not good and not any(api.absent(t, f, file) for t, f in fs.items()):
                            good = any(base(t).op == "call" and "ReadDoc::" in base(t).args[0] and file in base(t).sub and f[0] == "=" for t, f in fs.items())
                    else:
                        good = any(is_ghost(t, "store") and t.args[1][0] is vfld(msg, kind, "ranges") and file in t.args[1] and vfld(msg, kind, "cursor_id") in t.args[1] for t in fs)
                    if not good:
                        self.bad(("apply", name, kind), "%s: %s by an editor may not reach the document" % (name, {"Edit": "an edit", "Cursor": "a cursor", "Open": "a file opened"}[kind]), E, n)


def run(c):
    c.rule = (
        "Every accepted message of an editor is carried out on the document (an edit is applied, a cursor stored, a file that is opened is created if it is not there), told to all editors but exactly its author, and the author gets exactly the answers to it. "
        "Telling goes through all connected editors and leaves out only that one; each gets all that its connection says, which is for an edit of an open file and for a cursor exactly one message about it."
    )
    m = Modular(c, ())
    ed = Editors(c, m)
    r = Rule(c, m, ed)
    r.reactions()
    r.refused()
    r.telling()
    r.answers()
    r.applying()
    ed.check_senders()
