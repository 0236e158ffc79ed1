"""C17: at start-up the files on disk are the source of truth."""
from ..rulelib import *
from . import walking
from .c15 import from_walk
from .c20 import READS
from .c22 import Handler, ignoring
from .docapi import DocApi, READ
from .own import *

TECHNIQUE = "decision table over all paths through the start-up code (dataflow over MIR with ghost facts, every round of its loops)"
NOTE = (
    "All paths through the function that sets up the document, for every combination of 'a saved document exists', 'fresh start requested' and 'hosting'. "
    "Which files are shareable is C15; that merging a text yields that text is C42."
)

LOAD = ("::AutoCommit::load", "::AutoCommit::load_incremental", "::AutoCommit::load_with_options", "::AutoCommit::load_unverified_heads")
WALK = ("ignore::walk::*",)
PUT = ("collect::put", "alloc::vec::Vec::push", "std::collections::hash::set::HashSet::insert")
EXISTS = ("std::path::Path::exists", "std::path::Path::try_exists", "std::path::Path::is_file", "std::path::Path::metadata", "std::fs::metadata", "std::fs::exists")


def existence(c, m):
    """Functions that tell whether a file exists."""
    f = matcher(EXISTS)
    out = []
    for h in m.live:
        ret = c.facts.types[c.facts.bodies[h]["locals"][0]]["s"]
        if m.top(h) == h and (ret == "bool" or ret.startswith("core::result::Result<bool")) and any(f(n) for n in m.callees[h][1]):
            out.append(m.name(h))
    return tuple(sorted(out))


class Start:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.api = DocApi(c, m)
        self.readers = Handler(c, m, self.api).readers
        self.exists = existence(c, m)
        self.replacing = self.api.replacing(m)
        c.counts["functions_that_replace_a_text"] = sorted(self.replacing)
        self.doc_fields = {
            f[0]
            for a in c.facts.adts.values()
            if a["p"].startswith("ethersync")
            for v in a["variants"]
            for f in v[1]
            if c.facts.types[f[1]]["s"].endswith("document::Document")
        }

    def on_event(self, st, n):
        self.api.on_event(st, n)
        if n.kind == "call" and matcher(LOAD)(n.data.name):
            happened(st, ghost("load", n.data.args[-1]))
        if n.kind == "call" and n.data.name in PUT and len(n.data.args) > 1:
            happened(st, ghost("put", n.data.args[1]))
        if n.kind == "call" and n.data.name in self.replacing:
            k = n.data.args[self.api.effects[n.data.name][1]]
            if not any(self.api.absent(t, f, k) for t, f in n.facts.items()):
                happened(st, ghost("replace", k))

    def hold(self, t):
        if any(x.op == "old" for x in t.sub):
            return False
        return self.api.hold(t) or t.op == "forall" or base(t).op in ("sym", "call", "elem")

    def is_read(self, x):
        return x.op in ("call", "ver") and (x.args[0] in self.readers or matcher(READS)(x.args[0]))

    # -- the three questions ----------------------------------------------------------
    def saved(self, t):
        """Does the term tell whether the saved document exists? Its path, or None."""
        b = base(t)
        if b.op == "call" and (b.args[0] in self.exists or matcher(EXISTS)(b.args[0])) and b.args[1] and fixed(b.args[1][-1]):
            return b.args[1][-1]
        return None

    def requested(self, h, t):
        """Is this the option for a fresh start?"""
        key = (h, t)
        if key not in self.memo:
            hit = []

            def leaf(g, E, x):
                if x.op in ("fld", "vfld") and x.args[-1] == "init":
                    hit.append(x)
                    return True
                return None

            bad = self.m.origins(h, t, leaf)
            self.memo[key] = bool(hit) and not bad
        return self.memo[key]

    memo = {}

    def literals(self, h, facts):
        """Possible values of (saved document exists, fresh start requested, hosting)."""
        e, i, k = {True, False}, {True, False}, {True, False}
        for t, f in facts.items():
            if f[0] != "=":
                continue
            if f[1] in (True, False):
                if self.saved(t) is not None:
                    e &= {f[1]}
                elif base(t).op == "sym" and t.op in ("sym", "fld", "vfld") and base(t).args[0] == "arg":
                    if self.requested(h, t):
                        i &= {f[1]}
                    else:
                        k &= {f[1]}
                elif t.op == "call" and t.args[0].endswith("is_host"):
                    k &= {f[1]}
            elif f[1] in ("Some", "None") and t.op in ("fld", "vfld") and t.args[-1] == "peer":
                k &= {f[1] == "None"}
        return [(a, b, d) for a in e for b in i for d in k]

    # -- what happened -------------------------------------------------------------------
    def loaded(self, facts):
        """The saved document was loaded: its path."""
        for t in facts:
            if is_ghost(t, "load"):
                for x in t.args[1][0].sub:
                    if self.is_read(x):
                        return (x.args[1] if x.op == "call" else x.args[3])[-1]
        return None

    def total(self, src, names):
        """Do the elements come from all elements of such a call?"""
        if src.op == "call":
            return src.args[0].endswith(names)
        if src.op == "coll" and src.args[0] in ("all", "vec") and src.args[1]:
            return all(x.op == "item" and self.total(x.args[0], names) for x in src.args[1])
        return False

    def gone_through(self, facts, names, among=None):
        return any(t.op == "forall" and f in (("=", True), ("=", "empty")) and (t.args[1] is TRUE or t.args[1] is BV) and self.total(t.args[0], names) and (among is None or t.args[0] in among or f == ("=", "empty")) for t, f in facts.items())

    def walked(self, facts):
        return self.gone_through(facts, ("WalkBuilder::build",))

    def cleaned(self, facts):
        """All files of the document were looked at, or there are none."""
        if any(any(x.op == "k" and x.args[0] == "files" for x in t.sub) and (self.api.absent(t, f, BV) or f == ("=", "Err") and t.op == "call") for t, f in facts.items()):
            return True
        if self.collected and not any(t.op == "forall" and (self.chosen(t.args[0]) or t.args[0].op == "coll" and not t.args[0].args[1]) for t in facts):
            return False
        return self.gone_through(facts, ("ReadDoc::keys", "ReadDoc::map_range", "ReadDoc::iter"), self.judged)

    collected = False
    judged = set()

    def chosen(self, src):
        """A collection of some files of the document."""
        return src.op == "coll" and src.args[0] == "vec" and any(x.op == "call" and "ReadDoc::" in x.args[0] for x in src.sub)

    def round(self, facts, e, diff):
        """What is done with one file of the walk: None if that is right."""
        seen = False
        for t, f in facts.items():
            if e not in t.sub:
                continue
            if t is e and f == ("=", "Err"):
                return None
            if t.op == "call" and f == ("=", False) and t.args[0].endswith("FileType::is_file"):
                return None
            if t.op == "call" and f == ("=", True) and t.args[0].endswith(("FileType::is_dir", "FileType::is_symlink")):
                return None
            if f == ("=", "None") and t.op == "call" and t.args[0].endswith("DirEntry::file_type"):
                return None
            if f == ("=", "Err") and any(self.is_read(x) for x in t.sub) and (self.is_read(t) or t.op == "call" and "utf8" in t.args[0]):
                return None
            if f == ("=", False) and t.op == "call" and "utf8" in t.args[0]:
                return None
            if is_ghost(t, "set") and e in t.args[1][0].sub:
                if any(self.is_read(x) and e in x.sub for x in t.args[1][1].sub):
                    seen = True
        if not seen:
            return "is not merged into the document"
        if diff and any(is_ghost(t, "replace") and e in t.sub for t in facts):
            return "replaces the text that the document has instead of being merged into it"
        return None

    def cleaning(self, facts, e):
        gone = back = False
        for t, f in facts.items():
            if e in t.sub:
                b = base(t)
                if b.op == "call" and (b.args[0] in self.exists or matcher(EXISTS)(b.args[0])) and f in (("=", True), ("=", False)):
                    if f[1]:
                        back = True
                    else:
                        gone = True
        removed = any(is_ghost(t, "remove") and e in t.sub for t in facts)
        if not removed and any(is_ghost(t, "put") and e in t.sub for t in facts):
            self.collected = removed = True
        if removed and not gone:
            return "is removed from the document although it may exist"
        if not removed and not back:
            return "stays in the document although it may not exist any more"
        return None

    def roots(self):
        """Functions that set up the document."""
        c, m = self.c, self.m
        f = matcher(LOAD)
        loads = Engine(c.facts).closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
        touch = Engine(c.facts).closure_over(lambda h: any(m.name(x) in self.api.effects for x in m.callees[h][0]))
        roots = []
        for h in m.live & loads & touch:
            b = c.facts.bodies[h]
            if m.top(h) != h or m.is_wrapper(h):
                continue
            if not any(s[0] not in ("dead", "live", "setdisc") and s[1][0] == "agg" and s[1][1] == "adt" for blk in b["blocks"] for s in blk["s"]):
                continue
            a = c.facts.types[b["locals"][0]]["s"]
            if any(x["p"] == a.split("<")[0] or a.endswith(x["p"].split("::", 1)[1]) for x in c.facts.adts.values() if x["p"].startswith("ethersync") and any(fl[0] in self.doc_fields for v in x["variants"] for fl in v[1])):
                roots.append(h)
        return roots

    def run(self):
        c, m = self.c, self.m
        names = tuple(self.api.effects) + tuple(self.readers) + self.exists
        mm = m.other(names + WALK + LOAD + EXISTS + READ, hold_fact=self.hold, pin_args=True, never=names, want_back=True, elem_facts=False, ghost=self.on_event)
        roots = self.roots()
        if not roots:
            c.violate(("anchor",), "the function that sets up the document was not found")
        for h in sorted(roots, key=m.name):
            self.judge(h, mm.free(h))

    def judge(self, h, E):
        c, m = self.c, self.m
        seen = set()

        def bad(what, key, n):
            c.violate((key, m.name(h)), "%s: %s" % (m.name(h), what), c.at(E, n), c.trace(E, from_root(E, n.id)))

        for n in sorted(E.nodes, key=lambda n: n.kind == "end"):
            if n.kind == "call" and n.data.name in self.api.effects:
                for e, i, k in self.literals(h, n.facts):
                    if not e and not i and not k:
                        c.oblige(kind="changes_of_the_document_at_start")
                        bad("a daemon that joins for the first time changes the document", "joining", n)
                        break
            elif n.kind == "back":
                cases = self.literals(h, n.facts)
                diff = any(e and not i for e, i, k in cases)
                for src, el in n.data:
                    if from_walk(el):
                        c.oblige(kind="files_on_disk")
                        w = self.round(n.facts, el, diff)
                        if w:
                            bad("a file found on disk %s" % w, "merge", n)
                    elif diff and any(x.op == "call" and "ReadDoc::" in x.args[0] for x in el.sub) and (src.op != "call" or "ReadDoc::" not in src.args[0] or any(is_ghost(t, "remove") for t in n.facts)):
                        c.oblige(kind="files_in_the_document")
                        if self.chosen(src) and any(is_ghost(t, "remove") and el in t.sub for t in n.facts):
                            continue
                        self.judged.add(src)
                        w = self.cleaning(n.facts, el)
                        if w:
                            bad("a file of the saved document %s" % w, "clean", n)
            elif n.kind == "end" and n.ret is not None:
                p = self.loaded(n.facts)
                for e, i, k in self.literals(h, n.facts):
                    seen.add((e, i, k))
                    c.oblige(kind="combinations_at_the_end_of_start_up")
                    if e and not i:
                        if p is None:
                            bad("a saved document is not loaded although no fresh start was requested", "load", n)
                        elif not any(self.saved(t) is p for t in n.facts):
                            bad("the document that is loaded is not the one whose existence was checked", "path", n)
                        if not self.walked(n.facts):
                            bad("the files on disk are not merged into the saved document", "walk", n)
                        elif not self.cleaned(n.facts):
                            bad("files that no longer exist are not removed from the saved document", "missing", n)
                    elif e and i or k:
                        if p is not None:
                            bad("the saved document is loaded for a fresh start", "fresh", n)
                        if not self.walked(n.facts):
                            bad("a new document is not filled from the files on disk", "fill", n)
                    elif p is not None:
                        bad("a document that does not exist is loaded", "fresh", n)
        for combo in ((True, False, False), (True, False, True), (True, True, True), (False, False, True), (False, False, False)):
            if combo not in seen:
                c.violate(("case", m.name(h)) + tuple(str(x) for x in combo), "%s: no way found to start with (saved document, fresh start requested, hosting) = %s" % (m.name(h), combo))


def run(c):
    c.rule = (
        "For each combination of the three conditions, every path through the set-up of the document ends with what the table says: the saved document loaded and all files on disk and all files "
        "of the document gone through; a new document and all files on disk gone through; or nothing changed at all. In each round, a regular UTF-8 file that can be read is set in the document to what was "
        "read from that very file (for a saved document only by functions that never replace an existing text), and a file of the document is removed exactly if it does not exist."
    )
    m = Modular(c, ())
    Start(c, m).run()
    walking.complete(c, m, {h for h in walking.places(c, m) if m.name(h) not in ignoring(c, m)})
