"""C26: cursors belong to one editor and disappear with it."""
from ..rulelib import *
from . import actor
from .c22 import compatible
from .docapi import READ
from .editors import *
from .own import MAP_CALLS, WRITES

TECHNIQUE = "origin analysis and typestate over MIR: where editor numbers and cursor identities come from, and what happens on all ways out of closing a connection"
NOTE = (
    "All paths of the accepting loop, of the task of a connection and of the handling of its first and last message. "
    "Assumes that the random identities automerge gives to documents differ between peers and that channels deliver what is sent."
)

ACCEPT = ("::UnixListener::accept", "::TcpListener::accept")
COUNT = ("::Atomic::fetch_add", "::AtomicUsize::fetch_add", "::AtomicU64::fetch_add", "::AtomicU32::fetch_add")
UNCOUNT = ("::Atomic::store", "::Atomic::swap", "::Atomic::fetch_sub", "::Atomic::compare_exchange", "::Atomic::fetch_and", "::Atomic::fetch_min", "::Atomic::fetch_update")
SEND = ("tokio::sync::mpsc::bounded::Sender::send", "tokio::sync::mpsc::unbounded::UnboundedSender::send")
NEW, FROM, CLOSE = "NewEditorConnection", "FromEditor", "CloseEditorConnection"
# do not lose anything of what they are given
FAITHFUL = ("add", "to_string", "to_hex_string", "format", "clone", "to_owned", "new_display", "new", "into", "concat", "join", "push_str", "as_str", "from", "new_debug", "as_ref", "to_bytes", "into:alloc::string::String")


def message(t):
    """The message to the document in a value."""
    return next((x for x in t.sub if x.op == "agg" and x.args[0] == "adt" and x.args[1].endswith("::DocMessage")), None)


class Rule:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.ed = Editors(c, m)
        self.counters = set()

    def bad(self, key, msg, E, n):
        c = self.c
        c.violate(key, msg, c.at(E, n), c.trace(E, from_root(E, n.id)))

    # -- editor numbers ------------------------------------------------------------------
    def distinct(self, E, t, depth=0):
        """None if each evaluation gives another number, or what is wrong."""
        if t.op == "call" and matcher(COUNT)(t.args[0]):
            by = t.args[1][1]
            if by.op != "k" or type(by.args[0]) is not int or by.args[0] <= 0:
                return "the counter may not be increased"
            src = t.args[1][0]
            if not any(x.op in ("fld", "vfld") or x.op == "call" and x.args[0] == "static" for x in src.sub):
                return "the counter may be a new one each time"
            self.counters |= {x.args[-1] for x in src.sub if x.op in ("fld", "vfld")}
            return None
        if t.op == "call" and any(x in t.args[0] for x in ("rand::", "uuid::")):
            return None
        if t.op == "cast" or t.op == "call" and t.args[0].startswith(("into:", "try_into:")):
            return self.distinct(E, t.args[1][0] if t.op == "call" else t.args[-1] if isinstance(t.args[-1], type(TRUE)) else t.args[0], depth)
        if t.op == "bin" and t.args[0].startswith("Add"):
            a, b = t.args[1:3]
            if b.op == "k":
                return self.distinct(E, a, depth)
            if a.op == "k":
                return self.distinct(E, b, depth)
        if t.op in ("fld", "vfld") and t.args[0].op == "bin":
            return self.distinct(E, t.args[0], depth)
        if t.op == "join" and E.alts.get(t) and depth < 4:
            more = [x for x in E.alts[t] if x.op != "k"]
            return next(filter(None, (self.distinct(E, x, depth + 1) for x in more)), None) if more else "it never changes"
        if t.op == "loop" and E.alts.get(t):
            steps = 0
            for x in E.alts[t]:
                if x.op == "k":
                    continue
                y = x.args[0] if x.op in ("fld", "vfld") else x
                if y.op == "bin" and y.args[0].startswith("Add") and t in y.args[1:3] and any(z.op == "k" and type(z.args[0]) is int and z.args[0] > 0 for z in y.args[1:3]):
                    steps += 1
                    continue
                return "it is %s" % str(x)[:60]
            return None if steps else "it never changes"
        return "it is %s" % str(t)[:60]

    def numbers(self):
        c, m = self.c, self.m
        acc, cnt = matcher(ACCEPT), matcher(COUNT)
        mm = m.other(ACCEPT + COUNT + SEND, hold_fact=lambda t: True, pin_args=True)
        found = 0
        for h in sorted({m.top(h) for h in m.sites(ACCEPT)}, key=m.name):
            name = m.name(h)
            E = mm.free(h)
            news = froms = closes = 0
            said = {}
            for n in E.nodes:
                if n.kind != "await" or n.data.args[0].op != "call" or n.data.args[0].args[0] not in SEND:
                    continue
                x = message(n.data.args[0])
                if x is not None:
                    said[n.id] = (x.args[2], x.args[4][0] if x.args[4] else None)
            for i, (k, who) in sorted(said.items()):
                if k not in (NEW, FROM, CLOSE):
                    continue
                n = E.nodes[i]
                found += 1
                c.oblige(kind="messages_of_connections", sample="%s in %s" % (k, norm(E.ctx_body(n.ctx).path)))
                r = self.distinct(E, who)
                if r:
                    self.bad(("number", k), "%s: two editors may get the same number: %s" % (norm(E.ctx_body(n.ctx).path), r), E, n)
                if k == NEW:
                    news += 1
                    # the number is a new one for each connection
                    sp = [x.id for x in E.nodes if x.kind == "spawn" and any(who in a.sub for a in x.data.args)]
                    for s in sp:
                        seen = reach(E, E.succ[s], stop=lambda x: x.kind == "call" and type(x.data.name) is str and cnt(x.data.name))
                        if any(E.nodes[j].kind == "spawn" and j in sp for j in seen) and who.op == "call":
                            self.bad(("number", "again"), "%s: two editors may get the same number" % name, E, E.nodes[s])
                    # each connection that is opened is closed in the end
                    seen = reach(E, E.succ[i], stop=lambda x: said.get(x.id) == (CLOSE, who))
                    for j in sorted(seen):
                        x = E.nodes[j]
                        if x.kind == "end" and not self.waits(E, x):
                            self.bad(("unclosed",), "%s: a connection may end without the document being told" % norm(E.ctx_body(n.ctx).path), E, x)
                            break
                        if j in said and said[j][0] == CLOSE and said[j][1] is not who:
                            self.bad(("other", CLOSE), "%s: the end of a connection may be told for another editor" % norm(E.ctx_body(n.ctx).path), E, x)
                            break
                elif k == CLOSE:
                    closes += 1
                    for j in sorted(reach(E, E.succ[i], stop=lambda x: said.get(x.id, (0,))[0] == NEW)):
                        if said.get(j, (0,))[0] == FROM:
                            self.bad(("late",), "%s: messages may come from a connection that was closed" % name, E, E.nodes[j])
                            break
                else:
                    froms += 1
            for label, root in E.roots:
                early = reach(E, [root], stop=lambda x: said.get(x.id, (0,))[0] == NEW)
                for j in sorted(early):
                    if said.get(j, (0,))[0] in (FROM, CLOSE):
                        self.bad(("early", said[j][0]), "%s: messages may come from a connection that was not opened" % name, E, E.nodes[j])
                        break
            if news and closes and froms:
                c.counts["accepting_loops"] = c.counts.get("accepting_loops", 0) + 1
        if not c.counts.get("accepting_loops"):
            c.violate(("anchor", "accept"), "no loop found that accepts editors, tells the document about them and closes them again")
        un = matcher(UNCOUNT)
        for h in sorted(m.sites(UNCOUNT), key=m.name):
            E = m.other(UNCOUNT, hold_fact=lambda t: False, pin_args=True).free(m.top(h))
            for n in E.nodes:
                if n.kind == "call" and type(n.data.name) is str and un(n.data.name) and any(x.op in ("fld", "vfld") and x.args[-1] in self.counters for x in n.data.args[0].sub):
                    self.bad(("number", "reset"), "%s: the counter for editors may be set back" % norm(E.ctx_body(n.ctx).path), E, n)

    @staticmethod
    def waits(E, n):
        return n.ret is None

    # -- cursor identities ------------------------------------------------------------------
    def identity(self):
        """The field of a connection that its cursors carry."""
        c, m, ed = self.c, self.m, self.ed
        fields = set()
        for name, i in sorted(ed.ask.items()):
            mm = m.other(MAP_CALLS, hold_fact=lambda t: True, pin_args=True, want_back=True)
            E = mm.free(m.ids[name])
            msg = mk("sym", "arg", name, i)
            for n in E.nodes:
                r = n.ret
                if n.kind != "end" or not compatible(n.facts, msg, "Cursor") or r is None or r.op != "agg" or r.args[2] != "Ok":
                    continue
                inside = getf(getf(r, "@Ok.0"), "0")
                if inside.op != "agg" or inside.args[2] != "Cursor":
                    continue
                c.oblige(kind="cursors_of_editors", sample=name)
                x = getf(inside, "@Cursor.cursor_id")
                if x.op == "fld" and x.args[0].op == "sym" and x.args[0].args[0] == "arg" and x.args[0].args[2] == 0:
                    fields.add(x.args[-1])
                else:
                    self.bad(("identity", name), "%s: the cursor of an editor does not carry the identity of its connection but %s" % (name, str(x)[:80]), E, n)
        if len(fields) != 1:
            c.violate(("anchor", "identity"), "the identity of a connection was not found")
            return None
        return fields.pop()

    def canon(self, t, who):
        if t is who:
            return "WHO"
        if t.op == "call" and t.args[0].endswith("::get_actor"):
            return "ACTOR"
        if t.op == "ver":
            return (t.args[0],) + tuple(self.canon(x, who) for x in t.args[3])
        if t.op == "call":
            return (t.args[0],) + tuple(self.canon(x, who) for x in t.args[1])
        if t.op in ("sym", "k"):
            return str(t)
        return (t.op,) + tuple(self.canon(x, who) if isinstance(x, type(TRUE)) else str(x) for x in t.args if not isinstance(x, (tuple, frozenset))) + tuple(self.canon(y, who) for x in t.args if isinstance(x, (tuple, frozenset)) for y in sorted((z for z in x if isinstance(z, type(TRUE))), key=str))

    def keeps(self, t, what):
        """Does the value contain all of another one?"""
        if what(t):
            return True
        if t.op in ("call", "ver"):
            n = t.args[0]
            if n.split("::")[-1] not in FAITHFUL and "format" not in n and "fmt" not in n and n not in FAITHFUL:
                return False
            return any(self.keeps(x, what) for x in (t.args[1] if t.op == "call" else t.args[3]))
        if t.op == "agg":
            return any(self.keeps(x, what) for x in t.args[4])
        if t.op in ("coll", "item", "cat", "fld", "vfld", "list"):
            return any(self.keeps(y, what) for y in kids(t.args))
        return False

    def good_id(self, t, who):
        """None, or what is wrong with it as an identity for this editor."""
        if not self.keeps(t, lambda x: x is who):
            return "does not tell editors apart"
        if not self.keeps(t, lambda x: x.op == "call" and x.args[0].endswith("::get_actor")):
            return "does not tell peers apart"
        return None

    # -- opening and closing --------------------------------------------------------------------
    def handling(self, field):
        c, m, ed = self.c, self.m, self.ed
        stores = self.stores()
        put, rem = matcher(("::HashMap::insert", "::BTreeMap::insert", "::Entry::or_insert", "::VacantEntry::insert")), matcher(("::HashMap::remove", "::BTreeMap::remove", "::HashMap::remove_entry"))

        def on_event(st, n):
            ed.on_event(st, n)
            if n.kind == "call" and n.data.name in stores:
                s, p, r = stores[n.data.name]
                happened(st, ghost("store", n.data.args[s], n.data.args[r]))

        names = tuple(stores)
        # functions that write files have no part in this
        wr = matcher(WRITES)
        probe = Engine(c.facts)
        both = probe.closure_over(lambda h: m.name(h) in names + ed.opaque or any(rem(n) or put(n) for n in m.callees[h][1]))
        writing = probe.closure_over(lambda h: any(wr(n) for n in m.callees[h][1])) - both
        aside = tuple(m.name(h) for h in writing & m.live if m.top(h) == h and not self.c.facts.bodies[h].get("coroutine"))
        calls = ed.opaque + SINK + names + READ + ("::HashMap::insert", "::HashMap::remove")
        ids = {}
        shut = 0
        for h in sorted(m.live, key=m.name):
            b = c.facts.bodies[h]
            if b["kind"] == "Closure" and not b.get("coroutine") or b.get("derived") or b.get("trait") or m.is_wrapper(h) or m.top(h) != h:
                continue
            i = [i for i, t in enumerate(arg_types(c.facts, b)) if ends(t, "::DocMessage") and not t.startswith("&")]
            if len(i) != 1 or any(n in SEND for n in m.callees[h][1]):
                continue
            name = m.name(h)
            msg = mk("sym", "arg", name, i[0])

            def given(kind):
                return m.other(calls, hold_fact=lambda t: t is msg or is_ghost(t) or t.op in ("mapget", "forall") or any(x.op in ("call", "ver") and "ReadDoc::" in x.args[0] for x in t.sub), pin_args=True, never=ed.opaque + names + aside, want_back=True, ghost=on_event, given={i[0]: kind}).free(h)

            E = given(NEW)
            for n in E.nodes:
                if n.kind == "call" and type(n.data.name) is str and put(n.data.name) and ed.is_conns(n.data.args[0]) and compatible(n.facts, msg, NEW):
                    who = vfld(msg, NEW, "0")
                    k, v = n.data.args[1], n.data.args[2] if len(n.data.args) > 2 else None
                    c.oblige(kind="connections_opened", sample=name)
                    if k is not who:
                        self.bad(("opened", name), "%s: a connection may be kept under another number" % name, E, n)
                        continue
                    conn = next((x for x in v.sub if x.op == "agg" and x.args[0] == "adt" and field in x.args[3]), None) if v is not None else None
                    if conn is None:
                        self.bad(("opened", name), "%s: the identity of a new connection is not known" % name, E, n)
                        continue
                    t = getf(conn, field)
                    r = self.good_id(t, who)
                    if r:
                        self.bad(("identity", name), "%s: the identity of a new connection %s: %s" % (name, r, str(t)[:120]), E, n)
                    ids[self.canon(t, who)] = t
            E = given(CLOSE)
            for n in E.nodes:
                if n.kind != "end" or n.facts.get(msg) != ("=", CLOSE):
                    continue
                fs = n.facts
                who = vfld(msg, CLOSE, "0")
                shut += 1
                c.oblige(kind="ways_out_of_closing_a_connection", sample=name)
                if not ed.gone(fs, who):
                    self.bad(("closed", name), "%s: a closed connection may be kept" % name, E, n)

                def mine(t):
                    return self.canon(t, who) in ids

                tells = [t for t in fs if is_ghost(t, "tell") and t.args[1][1].op == "agg" and t.args[1][1].args[2] == "Cursor"]
                ok = [t for t in tells if mine(getf(t.args[1][1], "@Cursor.cursor_id")) and self.nothing(getf(t.args[1][1], "@Cursor.ranges"), fs) and self.all(t.args[1][0], who)]
                if not ok:
                    self.bad(("told", name), "%s: the remaining editors may not be told that the cursor of a closed connection is gone" % name, E, n)
                st = [t for t in fs if is_ghost(t, "store") and mine(t.args[1][0]) and self.nothing(t.args[1][1], fs)]
                if not st and not self.no_files(fs):
                    self.bad(("cleared", name), "%s: the cursor of a closed connection may stay in the document" % name, E, n)
                for t in fs:
                    if is_ghost(t, "store") and not (mine(t.args[1][0]) and self.nothing(t.args[1][1], fs)):
                        self.bad(("stored", name), "%s: closing a connection may change another cursor" % name, E, n)
        if not ids:
            c.violate(("anchor", "opened"), "no place found where connections are opened")
        if not shut:
            c.violate(("anchor", "closed"), "no place found where connections are closed")

    @staticmethod
    def nothing(t, fs):
        return t is not None and (t.op == "coll" and not t.args[1] or fs.get(mk("forall", t, BV)) == ("=", "empty"))

    @staticmethod
    def all(left, who):
        return left is NONE or left.op == "agg" and (left.args[2] == "None" or left.args[2] == "Some" and getf(left, "@Some.0") is who)

    @staticmethod
    def no_files(fs):
        for t, f in fs.items():
            b = base(t)
            if not any(x.op == "k" and x.args[0] == "files" for x in t.sub):
                continue
            if f in (("=", "None"), ("=", "Err"), ("=", "empty")) and any(x.op in ("call", "ver") and "ReadDoc::" in x.args[0] for x in t.sub):
                return True
            if b.op == "call" and "ReadDoc::get" in b.args[0] and (f == ("=", "Scalar") or f[0] == "!" or f[0] == "=" and f[1] in ("List", "Text", "Table")):
                return True
        return False

    def stores(self):
        """Functions that store a cursor: {name: (identity, file, ranges)} as argument numbers; each does so faithfully."""
        c, m = self.c, self.m
        out = {}
        f = matcher(MUTATORS)
        rel = Engine(c.facts).closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
        for h in sorted(rel & m.live, key=m.name):
            b = c.facts.bodies[h]
            if b["kind"] == "Closure" or b.get("coroutine") or m.is_wrapper(h):
                continue
            ts = arg_types(c.facts, b)
            r = [i for i, t in enumerate(ts) if "::Range" in t and ("Vec<" in t or "[" in t)]
            s = [i for i, t in enumerate(ts) if ends(t, "str") or ends(t, "String") and "Option" not in t]
            p = [i for i, t in enumerate(ts) if ends(t, "::RelativePath")]
            if len(r) == len(s) == len(p) == 1:
                out[m.name(h)] = (s[0], p[0], r[0])
        if not out:
            c.violate(("anchor", "store"), "no function found that stores a cursor")
        for name, (s, p, r) in sorted(out.items()):
            E = m.other(MUTATORS + READ, hold_fact=lambda t: True, pin_args=True).free(m.ids[name])
            a = [mk("sym", "arg", name, k) for k in (s, p, r)]
            objs = set()
            puts = [n for n in E.nodes if n.kind == "call" and n.data.name.endswith("::Transactable::put_object")]
            writes = [n for n in E.nodes if n.kind == "call" and n.data.name.endswith(("::Transactable::splice_text", "::Transactable::update_text"))]
            done = set()
            for n in writes:
                c.oblige(kind="cursors_stored", sample=name)
                obj, text = n.data.args[1], n.data.args[-1]
                at = [x for x in obj.sub if x.op == "call" and x.args[0].endswith(("::Transactable::put_object", "::ReadDoc::get")) and any(y is a[0] for y in x.args[1])]
                st = [x for x in text.sub if x.op == "agg" and x.args[0] == "adt" and {"cursor_id", "ranges", "file_path"} <= set(x.args[3])]
                if not at or not any(x.op == "k" and x.args[0] == "states" for x in obj.sub):
                    self.bad(("store", name, "where"), "%s: a cursor may be stored under another identity" % name, E, n)
                elif not st or [getf(st[0], k) for k in ("cursor_id", "file_path", "ranges")] != a:
                    self.bad(("store", name, "what"), "%s: what is stored may not be the cursor" % name, E, n)
                done.add(n.id)
            seen = reach(E, [E.roots[0][1]], stop=lambda x: x.id in done)
            for j in sorted(seen):
                if E.nodes[j].kind == "end":
                    self.bad(("store", name), "%s: a cursor may not be stored" % name, E, E.nodes[j])
                    break
        return out


def run(c):
    c.rule = (
        "Each accepted editor gets the next value of one shared counter that is never set back; its task tells the document first that it came, then its messages, and on every way out that it left, all with that number. "
        "A new connection is kept under that number with an identity that contains all of the number and of the identity of the document, and its cursors carry it. "
        "On every way out of handling the end of a connection, the connection is gone, all other editors are told an empty cursor of that same identity, and an empty cursor is stored under it in the document unless the document has no files."
    )
    m = Modular(c, ())
    r = Rule(c, m)
    r.numbers()
    f = r.identity()
    if f:
        r.handling(f)
    actor.loop(c, m, CLOSE)
