"""C06: what a peer changed is carried out locally, all of it and in order."""
from ..rulelib import *
from . import actor
from .c03 import flushers
from .c22 import compatible, fits
from .editors import telling
from .own import *

TECHNIQUE = "modular dataflow over MIR with ghost facts per iteration: every change in a peer's message leads to its effects"
NOTE = (
    "All combinations of changes that the sync library reports for a message, through the conversion and all lists in between. "
    "That the library reports all changes, and that the sockets of the editors accept them, is assumed."
)
PATCHES = "make_patches"
PUTS = (
    "alloc::vec::Vec::push",
    "alloc::collections::vec_deque::VecDeque::push_back",
    "std::collections::hash::set::HashSet::insert",
    "alloc::collections::btree::set::BTreeSet::insert",
    "collect::put",
)
UNORDERED = tuple(
    "::" + x
    for x in (
        "Iterator::rev", "VecDeque::push_front", "Vec::insert", "Vec::retain", "Vec::retain_mut", "Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key",
        "Vec::truncate", "Vec::clear", "Vec::remove", "Vec::swap_remove", "Vec::pop", "Vec::drain", "Vec::split_off", "slice::reverse", "slice::sort",
        "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::swap",
        "slice::rotate_left", "slice::rotate_right", "slice::sort_by_cached_key",
    )
)
# calls that yield the same for different names
CHANGE_NAMES = (
    "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase", "file_name", "file_stem", "trim", "trim_start", "trim_end",
    "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen", "truncate", "with_extension", "set_extension", "parent", "split", "rsplit", "next", "last",
)
# what a change of the document stands for
ACTIONS = {"FileChange": ("write", "tell"), "CursorChange": ("tell",), "FileRemoval": ("remove",)}
TELL = {
    "FileChange": ("Edit", {"file_path": "file_path", "delta": "delta"}),
    "CursorChange": ("Cursor", {"cursor_id": "cursor_id", "name": "name", "file_path": "file_path", "ranges": "ranges"}),
}
SAY = {
    ("FileChange", "write"): "a changed file may be left unwritten",
    ("FileChange", "tell"): "a text change may be kept from the editors",
    ("CursorChange", "tell"): "a cursor change may be kept from the editors",
    ("FileRemoval", "remove"): "a removed file may stay",
}


def conversion(m):
    """Functions that turn one change of the document into its effect."""
    out = []
    for h, b in m.F.bodies.items():
        if h not in m.live or m.top(h) != h or b["kind"] == "Closure":
            continue
        ts = [m.F.types[b["locals"][i]]["s"] for i in range(b["argc"] + 1)]
        if "::PatchEffect" in ts[0] and "Vec<" not in ts[0] and any(t.lstrip("&").endswith("::Patch") for t in ts[1:]):
            out.append((h, next(i for i, t in enumerate(ts[1:]) if t.lstrip("&").endswith("::Patch")), ts[0].startswith("core::result::Result<")))
    return out


def option(x, name):
    return any(y.op in ("call", "ver") and y.args[0].endswith("OpenOptions::" + name) and (y.args[1] if y.op == "call" else y.args[3])[-1:] == (TRUE,) for y in x.sub)


# -- one change ------------------------------------------------------------------


def table(c, m):
    """Each kind of change becomes the right effect."""
    ops = ("::TextDelta::retain", "::TextDelta::insert", "::TextDelta::delete")
    op = matcher(ops)

    def on_event(st, n):
        if n.kind == "call" and op(n.data.name):
            k = sum(1 for t in st.facts if is_ghost(t, "op"))
            happened(st, ghost("op", const(k), const(n.data.name.rsplit("::", 1)[-1]), n.data.args[1]))

    found = conversion(m)
    if not found:
        c.violate(("anchor", "conversion"), "no function found that turns a change of the document into its effect")
    for h, i, fallible in found:
        inside = set()
        work = [h]
        while work:
            x = work.pop()
            if x not in inside:
                inside.add(x)
                work.extend(m.callees[x][0])
        names = {m.name(x) for x in inside if op(m.name(x))}
        mm = m.other(ops, hold_fact=lambda t: True, pin_args=True, never=tuple(names), ghost=on_event)
        E = Engine(c.facts, max_nodes=100000)
        E.hold_fact, E.pin_args, E.never, E.ghost = (lambda t: True), True, frozenset(names), on_event
        E.relevant = inside
        run_free(E, E.body(h), mm.name(h))
        c.engines.append(E)
        p = mk("sym", "arg", m.name(h), i)
        path, act = getf(p, "path"), getf(p, "action")
        n0 = mk("call", "len", (path,), None)
        empty = mk("call", "is_empty", (path,), None)
        first, second = getf(mk("idx", path, const(0)), "1"), getf(mk("idx", path, const(1)), "1")

        def v(name):
            return lambda k: mk("vfld", act, k, name)

        rows = [
            ("files", 1, "PutMap", "a created file", lambda r, fs: effect(r, "FileChange") and has(fld_(r, "file_path"), mk("vfld", act, "PutMap", "key")) and deltas(fs, ())),
            ("files", 1, "DeleteMap", "a removed file", lambda r, fs: effect(r, "FileRemoval") and has(r, mk("vfld", act, "DeleteMap", "key"))),
            (
                "files", 2, "SpliceText", "inserted text",
                lambda r, fs: effect(r, "FileChange") and has(fld_(r, "file_path"), second)
                and deltas(fs, (("retain", mk("vfld", act, "SpliceText", "index")), ("insert", mk("vfld", act, "SpliceText", "value")))),
            ),
            (
                "files", 2, "DeleteSeq", "deleted text",
                lambda r, fs: effect(r, "FileChange") and has(fld_(r, "file_path"), second)
                and deltas(fs, (("retain", mk("vfld", act, "DeleteSeq", "index")), ("delete", mk("vfld", act, "DeleteSeq", "length")))),
            ),
            ("states", 2, "SpliceText", "a cursor change", lambda r, fs: effect(r, "CursorChange") and has(r, mk("vfld", act, "SpliceText", "value"))),
            # what comes along with these
            ("states", 1, "PutMap", "a new cursor", lambda r, fs: effect(r, "NoEffect")),
            ("files", 1, "Conflict", "a file created on both sides", lambda r, fs: effect(r, "NoEffect") or effect(r, "FileChange") and deltas(fs, ())),
            ("files", 0, "PutMap", "the map of files", lambda r, fs: effect(r, "NoEffect")),
            ("states", 0, "PutMap", "the map of cursors", lambda r, fs: effect(r, "NoEffect")),
        ]

        def effect(r, kind):
            return r is not None and r.op == "agg" and r.args[2] == kind

        def fld_(r, name):
            return getf(getf(r, "@%s.0" % r.args[2]), name)

        def has(t, x):
            return x in t.sub

        def deltas(fs, want):
            got = sorted((t.args[1] for t in fs if is_ghost(t, "op")), key=lambda a: a[0].args[0])
            got = [(a[1].args[0], a[2]) for a in got]
            want = list(want)
            if want and want[0][0] == "retain" and fs.get(want[0][1]) == ("=", 0) and len(got) == len(want) - 1:
                want = want[1:]
            return len(got) == len(want) and all(g[0] == w[0] and (g[1] is w[1] or w[0] == "insert" and has(g[1], w[1])) for g, w in zip(got, want))

        seen = set()
        for n in E.nodes:
            if n.kind not in ("end", "panic", "exit"):
                continue
            fs = n.facts
            for key, k, kind, what, good in rows:
                if not compatible(fs, empty, k == 0) or not fits(fs, n0, k) or not compatible(fs, act, kind):
                    continue
                if k == 0:
                    if not compatible(fs, mk("vfld", act, kind, "key"), key):
                        continue
                elif not (compatible(fs, first, "Map") and compatible(fs, mk("vfld", first, "Map", "0"), key) and not (k > 1 and fs.get(second) == ("=", "Seq"))):
                    continue
                if kind == "Conflict" and not compatible(fs, mk("vfld", act, kind, "prop"), "Map"):
                    continue
                if key == "states" and k == 2 and (
                    not compatible(fs, mk("vfld", act, "SpliceText", "index"), 0)
                    or any(f == ("=", "Err") and t.op == "call" and mk("vfld", act, "SpliceText", "value") in t.sub for t, f in fs.items())
                ):
                    continue
                seen.add(what)
                c.oblige(kind="ways_out_of_the_conversion", sample="%s in %s" % (what, m.name(h)))
                r = n.ret if n.kind == "end" else None
                if r is not None and fallible:
                    r = getf(r, "@Ok.0") if r.op == "agg" and r.args[2] == "Ok" else None
                if r is None or not good(r, fs):
                    c.violate(("conversion", what, n.kind), "%s is not passed on as such" % what, c.at(E, n), c.trace(E, from_root(E, n.id)))
        for key, k, kind, what, good in rows:
            if what not in seen:
                c.violate(("conversion", what, "missing"), "the conversion never ends normally for %s" % what)


# -- all changes -----------------------------------------------------------------


class Effects:
    def __init__(self, c, m, writers, flush):
        self.c, self.m, self.flush, self.sure = c, m, writers, flush
        self.conv = {m.name(h): (i, fallible) for h, i, fallible in conversion(m)}
        self.tell = telling(c, m)
        self.put = matcher(PUTS)
        self.loose = matcher(UNORDERED)

    def on_event(self, st, n):
        ev = n.data
        if n.kind == "back":
            # no need to write what is never written
            for t, f in list(st.facts.items()):
                if f in RESERVED and part_of_path(t):
                    for x in t.sub:
                        if x.op in ("fld", "vfld") and x.args[-1] == "file_path":
                            happened(st, ghost("write", x))
            return
        name, args = carried_out(self.m, n)
        if name in self.tell:
            i, j = self.tell[name]
            left_out = args[j] if j is not None else NONE
            g = ghost("tell", left_out, args[i])
            if g in st.facts:
                happened(st, ghost("again", args[i]))
            happened(st, g)
            return
        if n.kind != "call" or type(ev.name) is not str:
            return
        if ev.name in self.flush:
            happened(st, ghost("write", ev.args[self.flush[ev.name]]))
        elif self.put(ev.name):
            g = ghost("put", ev.args[1])
            happened(st, g)
            at = const(str(ev.raw[0].args[:2])) if ev.raw and ev.raw[0].op == "ref" else ev.args[0]
            g = ghost("put_at", at, ev.args[1])
            if g in st.facts and not "Set::" in ev.name:
                happened(st, ghost("again", ev.args[1]))
            happened(st, g)
        elif ev.name in REMOVES and not "rename" in ev.name:
            happened(st, ghost("remove", ev.args[REMOVES[ev.name]]))

    def hold(self, t):
        if t.op == "forall":
            return True
        b = base(t)
        return is_ghost(t) or b.op in ("elem", "old") or b.op == "call" and any(self.is_conv(x) for x in b.sub)

    def is_conv(self, t):
        return t.op == "call" and t.args[0] in self.conv

    def source(self, t):
        """The list of all changes in t, if any."""
        for x in t.sub:
            if x.op == "call" and x.args[0].endswith("::" + PATCHES):
                return x
        return None

    def effect(self, cur):
        """The effect of an element of the list of changes: (conversion, effect)."""
        for name, (i, fallible) in self.conv.items():
            t = mk("call", name, (cur,), None)
            yield t, (mk("vfld", t, "Ok", "0") if fallible else t)

    # -- was it done -------------------------------------------------------------
    def done(self, t, action, kind, payload):
        """Is the ghost t this action for the payload of an effect?"""
        if not is_ghost(t, action):
            return False
        a = t.args[1]
        if action == "write":
            return getf(payload, "file_path") in a[0].sub
        if action == "remove":
            return payload in a[0].sub
        left_out, msg = a
        want, fields = TELL[kind]
        if left_out is not NONE or not (msg.op == "agg" and msg.args[2] == want):
            return False
        return all(getf(msg, "@%s.%s" % (want, k)) is getf(payload, v) for k, v in fields.items())

    def kinds_of(self, src):
        """Kinds of effects that a list is known to hold only."""
        ks = set()
        for x in src.sub:
            if x.op == "vfld" and x.args[1] in ACTIONS:
                ks.add(x.args[1])
        return ks

    def complete(self, facts, src, kind, up=0):
        """Everything of that kind is in the list; what is known of how it came there is checked per iteration."""
        if up > 6:
            return False
        if src.op == "call":
            return src.args[0].endswith("::" + PATCHES) and True
        if src.op != "coll" or src.args[0] == "part":
            return False
        for it in src.args[1]:
            if it.op == "item" and self.source(it) is not None and (kind in self.kinds_of(it) or not self.kinds_of(it)):
                s = it.args[0]
                if s.op == "call" or src.args[0] == "all" or not self.kinds_of(s):
                    if self.complete(facts, s, kind, up + 1):
                        return True
                elif any(t.op == "forall" and t.args[0] is s and is_ghost(t.args[1], "put") and BV in t.args[1].occ for t in facts):
                    if self.complete(facts, s, kind, up + 1):
                        return True
        return False

    def covered(self, facts, kind, action):
        """The action was done for all effects of that kind that were put aside."""
        for t, f in facts.items():
            if t.op != "forall" or kind not in self.kinds_of(t.args[0]) or self.source(t.args[0]) is None:
                continue
            src, body = t.args
            if body is BV and f == ("=", "empty"):
                return True
            for conv, e in self.effect(BV):
                if self.done(body, action, kind, mk("vfld", e, kind, "0")) and self.complete(facts, src, kind):
                    return True
        return False

    def convert_many(self):
        F = self.m.F
        return [b["p"] for b in F.bodies.values() if any("::PatchEffect" in F.types[b["locals"][i]]["s"] for i in range(b["argc"] + 1))]

    # -- the functions that have the changes ---------------------------------------
    def run(self):
        c, m = self.c, self.m
        have = [m.top(h) for h in m.sites(("::" + PATCHES,))]
        if not have:
            c.violate(("anchor", "changes"), "no place found where the changes of the document are asked for")
        names = tuple(self.flush) + tuple(self.tell) + tuple(self.conv) + tuple(k for k in REMOVES if "rename" not in k)
        mm = m.other(
            names + ("::" + PATCHES, "std::path::Path::iter"),
            hold_fact=self.hold, pin_args=True, never=tuple(self.flush) + tuple(self.tell) + tuple(self.conv), ghost=self.on_event, want_back=True,
            always=self.convert_many() + path_tests(c.facts),
        )
        seen = set()
        used = 0
        while have:
            h = have.pop()
            if h in seen:
                continue
            seen.add(h)
            E = mm.free(h)
            gives = False
            for n in E.nodes:
                if n.kind == "end" and n.ret is not None and self.source(n.ret) is not None:
                    gives = True
            if gives:
                up = m.callers(h)
                if not up:
                    c.violate(("unused", m.name(h)), "nobody uses the changes that %s returns" % m.name(h))
                have.extend(up)
                continue
            used += 1
            self.judge(E, m.name(h))
        c.counts["functions_with_the_changes"] = used

    def judge(self, E, name):
        c = self.c
        bad = {}

        def complain(key, msg, n):
            c.violate(("changes", name) + key, "%s: %s" % (name, msg), c.at(E, n), c.trace(E, from_root(E, n.id)))

        asked = []
        pending = []
        ends = [n for n in E.nodes if n.kind == "end"]
        for n in E.nodes:
            if n.kind == "call" and type(n.data.name) is str:
                if n.data.name.endswith("::" + PATCHES):
                    asked.append(n)
                elif n.data.name in self.flush and n.data.name not in self.sure:
                    complain(("writer", n.data.name), "%s may leave a changed file unwritten" % n.data.name, n)
                elif self.loose(n.data.name) and any(self.source(a) is not None for a in n.data.args):
                    complain(("order", n.data.short), "%s on the list of changes" % n.data.short, n)
            if n.kind != "back":
                continue
            for src, cur in n.data:
                s = self.source(cur)
                if s is None or cur.op != "elem" or cur.args[0] is not s and cur.args[0].op != "coll":
                    continue
                if any(is_ghost(t, "again") and cur in t.occ for t in n.facts):
                    complain(("again",), "a change is passed on twice", n)
                if self.kinds_of(src):
                    continue
                for conv, e in self.effect(cur):
                    if n.facts.get(conv) == ("=", "Err"):
                        c.oblige(kind="iterations")
                        complain(("failed",), "a change that cannot be converted is left out", n)
                        continue
                    for kind, actions in ACTIONS.items():
                        if not compatible(n.facts, e, kind):
                            continue
                        c.oblige(kind="iterations", sample="%s in %s" % (kind, name))
                        pl = mk("vfld", e, kind, "0")
                        puts = [t for t in n.facts if is_ghost(t, "put") and e in t.args[1][0].sub]
                        if any(t.args[1][0] is e for t in puts):
                            pending.append((n, kind, None, src))
                            continue
                        for a in actions:
                            if any(self.done(t, a, kind, pl) for t in n.facts):
                                continue
                            if a == "remove" and any(
                                reserved(t, f, pl)
                                or f == ("=", "Err") and base(t).op == "call" and pl in t.sub
                                for t, f in n.facts.items()
                            ):
                                continue
                            if not any(pl in t.args[1][0].sub for t in puts):
                                complain((kind, a), SAY[kind, a], n)
                            else:
                                pending.append((n, kind, a, src))
        for n in asked:
            par = reach(E, [n.id])
            t = n.data.ret
            for x in ends:
                if x.id not in par:
                    continue
                c.oblige(kind="ways_out_after_receiving_changes", sample=name)
                if not any(
                    f.op == "forall" and self.source(f.args[0]) is not None and (f.args[1] is TRUE or f.args[1] is BV and v == ("=", "empty"))
                    and f.args[0].op == "call"
                    for f, v in x.facts.items()
                ):
                    complain(("unread",), "the changes may not all be looked at", x)
        for n, kind, a, src in pending:
            if (kind, a) in bad:
                continue
            par = reach(E, [n.id])
            for x in ends:
                if x.id not in par:
                    continue
                c.oblige(kind="ways_out_after_putting_a_change_aside")
                if a is None:
                    good = any(
                        f.op == "forall" and f.args[0].op == "coll" and self.source(f.args[0]) is not None and not self.kinds_of(f.args[0])
                        and (f.args[1] is TRUE or f.args[1] is BV and v == ("=", "empty"))
                        for f, v in x.facts.items()
                    )
                    msg = "effects may not all be looked at"
                else:
                    good = self.covered(x.facts, kind, a)
                    msg = SAY[kind, a]
                if not good:
                    bad[kind, a] = True
                    complain((kind, a or "all"), msg, x)
                    break
        if not c.counts.get("iterations"):
            complain(("unread",), "the changes are not looked at", asked[0] if asked else E.nodes[0])


# -- where the changes come from --------------------------------------------------


def same_log(c, m):
    """The changes are asked for with the log that was kept while receiving."""
    for h in m.sites(("::" + PATCHES,)):
        E = m.other(("::" + PATCHES, "::receive_sync_message_log_patches"), pin_args=True).free(m.top(h))
        for n in events(E, ("::" + PATCHES,)):
            c.oblige(kind="logs", sample=m.name(h))
            log = n.data.args[-1]
            if not any(x.op == "ver" and x.args[0].endswith("log_patches") for x in log.sub):
                c.violate(("log", m.name(h)), "the changes are asked for with a log that was not kept while receiving", c.at(E, n))
            elif any(x.op == "call" and x.args[0].endswith("PatchLog::inactive") for x in log.sub):
                c.violate(("log", m.name(h), "inactive"), "the log of changes is not active", c.at(E, n))


MKDIR = ("std::fs::create_dir_all",)
PARENT = "::parent"


def parents(c, m, writers):
    """A file in a new directory can be written."""

    def on_event(st, n):
        if n.kind == "call" and n.data.name in MKDIR:
            happened(st, ghost("directory", n.data.args[0]))

    def above(t, k):
        return any(x.op == "call" and x.args[0].endswith(PARENT) and k in x.sub for x in t.sub)

    def there(t):
        b = base(t)
        return b.op == "call" and b.args[0].endswith(("exists", "::is_dir", PARENT))

    mm = m.other(tuple(WRITES) + MKDIR, hold_fact=lambda t: is_ghost(t) or there(t) and any(x.op == "call" and x.args[0].endswith(PARENT) for x in t.sub), pin_args=True, ghost=on_event)
    by = {m.name(h): h for h in m.live}
    seen = 0
    for name, i in sorted(writers.items()):
        k = mk("sym", "arg", name, i)
        E = mm.free(by[name])
        for n in E.nodes:
            if n.kind != "call" or not written(n) or k not in written(n)[0].sub:
                continue
            seen += 1
            c.oblige(kind="files_written", sample=name)
            opened = [x for x in n.data.args[0].sub if x.op == "call" and x.args[0].endswith("OpenOptions::open")] if n.data.name in PUTS_IN else []
            if opened and not any(option(x, y) for x in opened for y in ("truncate", "create_new")) and not any(x.op == "call" and x.args[0].endswith("::set_len") for x in n.facts):
                c.violate(("stale", name), "%s: the end of a longer text may stay in a file that is written" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
            if not any(is_ghost(t, "directory") and above(t.args[1][0], k) or f in (("=", True), ("=", "None")) and there(t) and above(t, k) for t, f in n.facts.items()):
                c.violate(("directory", name), "%s: a file may be written before the directory it belongs in exists" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
    if not seen:
        c.violate(("anchor", "parents"), "no function found that writes a file given by its path")


def names(c, m):
    """A file has the name in the document that it has on disk."""
    mm = m.other((), pin_args=True)
    seen = 0
    for h, b in sorted(m.F.bodies.items()):
        ts = [m.F.types[b["locals"][i]]["s"] for i in range(b["argc"] + 1)]
        if h not in m.live or m.top(h) != h or not ts[0].endswith("::Prop") or len(ts) < 2 or not ts[1].endswith("::RelativePath"):
            continue
        E = mm.free(h)
        k = mk("sym", "arg", m.name(h), 0)
        for n in E.nodes:
            if n.kind == "end" and n.ret is not None:
                seen += 1
                c.oblige(kind="names_of_files_in_the_document", sample=m.name(h))
                changed = [x.args[0] for x in n.ret.sub if x.op in ("call", "ver") and x.args[0].rsplit("::", 1)[-1] in CHANGE_NAMES]
                if changed or k not in n.ret.sub:
                    c.violate(("name", m.name(h)), "%s: files with different paths may share a name in the document" % m.name(h), c.at(E, n))
    return seen


def run(c):
    c.rule = (
        "The conversion returns for each kind of change the effect that it stands for. "
        "For each change in a message there is, on every way to the end of its handling, a call that writes the file if no editor has it open and one that tells all editors, "
        "or one that tells them the cursor, or one that removes the file; directly or by way of lists that are gone through completely and in order. "
        "The directory that a file belongs in is created, with those above it, before the file is written, and nothing of its former content stays. "
        "Files with different paths have different names in the document."
    )
    r, m, flush = flushers(c)
    c.obligations, c.counts, c.samples = 0, {k: v for k, v in c.counts.items() if k in ("source_files", "bodies_extracted", "facts_key")}, []
    if not r.writers:
        c.violate(("anchor", "write"), "no function found that writes a file if no editor has it open")
    table(c, m)
    same_log(c, m)
    e = Effects(c, m, r.writers, flush)
    c.counts["functions_that_tell_editors"] = len(e.tell)
    if not e.tell:
        c.violate(("anchor", "tell"), "no function found that passes a message to the editors")
    e.run()
    parents(c, m, r.writers)
    names(c, m)
    actor.loop(c, m, "ReceiveSyncMessage")
