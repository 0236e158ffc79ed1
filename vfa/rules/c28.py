"""C28: the Neovim plugin follows the revision protocol and does not echo edits."""
import glob
import os

from .. import extract
from ..rulelib import *
from ..script import lua
from ..script.interp import FALSE, NIL, TRUE, Interp, Module, has, k, walk
from ..script.interp import Limit as ScriptLimit

TECHNIQUE = "disjunctive abstract interpretation of the plugin's Lua source with the editor's functions unknown; rules over the calls and writes of all paths of each callback"
NOTE = (
    "All paths of all functions that are handed to the editor, loops widened. Neovim runs callbacks one after another and calls the change callback while the text is being changed. "
    "How ranges and texts are adapted to Neovim's line ends is not looked at."
)
SET_TEXT = "nvim_buf_set_text"
ATTACH = "nvim_buf_attach"
FILE = ("file", "")


def mentions(tree, name):
    if type(tree) in (tuple, list):
        return any(mentions(x, name) for x in tree)
    return tree == name


def funcs(tree):
    if type(tree) in (tuple, list):
        if type(tree) is tuple and tree and tree[0] == "func":
            yield tree
        for x in tree:
            yield from funcs(x)


class Plugin:
    def __init__(self, c):
        self.c = c
        base = os.path.join(extract.REPO, "vim-plugin")
        files = sorted(glob.glob(os.path.join(base, "lua", "**", "*.lua"), recursive=True)) + sorted(glob.glob(os.path.join(base, "plugin", "*.lua")))
        mods, entries = [], []
        opaque = set()
        for f in files:
            rel = os.path.relpath(f, extract.REPO)
            name = os.path.relpath(f, os.path.join(base, rel.split(os.sep)[1]))[:-4].replace(os.sep, ".")
            with open(f, encoding="utf-8") as fh:
                tree = lua.parse(fh.read())
            mods.append(Module(name, rel, tree, False))
            if rel.split(os.sep)[1] == "plugin":
                entries.append(name)
            if mentions(tree, SET_TEXT):
                # what changes the text is taken as a whole
                opaque |= {id(x) for x in funcs(tree) if not mentions(tree, ATTACH) or mentions(x, SET_TEXT)}
        self.I = Interp(mods, False, opaque=lambda n: id(n) in opaque, silent=lambda m: m == "logging")
        for e in entries:
            self.I.run(e)
        c.counts["source_files"] = len(files)
        c.counts["functions_analysed"] = len(self.I.functions)
        c.counts["entry_points"] = len(self.I.results)
        c.counts["paths"] = sum(len(o) for _, _, o in self.I.results)
        c.counts["steps"] = self.I.steps
        self.roots = {}
        for label, fn, outs in self.I.results:
            if fn is not None:
                self.roots.setdefault(label, []).append((fn, outs))

    def having(self, part):
        """Paths of the entry points of a kind."""
        return [(label, fn, outs) for label, xs in self.roots.items() if part in label for fn, outs in xs]

    def place(self, label, fn, e=None):
        mod = self.I.closures[fn][2] if fn else None
        if e is not None:
            return {"function": "%s (%s)" % (label, fn[1] or "function") if fn else label, "file": e.where[0], "line": e.where[1]}
        return {"function": "%s (%s)" % (label, fn[1] or "function"), "file": mod.path, "line": fn[2][1]}


def field(obj, name):
    """A field of a frozen table."""
    if type(obj) is tuple and obj and obj[0] == "obj":
        for key, v in obj[2]:
            if key == k(name):
                return v
    return None


def sends(st, method=None):
    """Messages that are sent: (event, parameters)."""
    out = []
    for e in st.ev:
        if e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("request", "notify") and len(e.args) > 1 and e.args[0][0] == "k":
            if method is None or e.args[0] == k(method):
                out.append((e, e.args[1]))
    return out


def applies(st):
    return [e for e in st.ev if e.kind == "call" and (e.name == "opaque" or e.name.rsplit(".", 1)[-1] in ("apply_text_edits", SET_TEXT, "nvim_buf_set_lines"))]


def names_of(uri):
    """Terms that stand for the file with this URI."""
    out = {uri}
    if uri[0] == "cat" and len(uri[1]) == 2 and uri[1][0] == k("file://"):
        out.add(uri[1][1])
    if uri[0] == "call" and uri[1].endswith("uri_from_fname"):
        out.add(uri[2][-1])
    return out


def abstract(t, files):
    """The term with the file left open."""
    if t in files or t[0] == "call" and t[1].endswith("uri_to_fname") and t[2][-1] in files:
        return FILE
    if t[0] == "get":
        return ("get", abstract(t[1], files), abstract(t[2], files))
    return t


def writes(st, files):
    """Writes to fields: (event, place with the file left open, old, new)."""
    return [(e, abstract(("get", e.obj, e.args[0]), files), e.args[1], e.args[2]) for e in st.ev if e.kind == "set"]


def replaced(t, env):
    if type(t) is not tuple or not t:
        return t
    if t[0] == "var":
        for (n, v) in env:
            if n == t[1]:
                return v
        return t
    return tuple(replaced(x, env) if type(x) is tuple else x for x in t)


def folded(I, t):
    """Arithmetic on constants."""
    if t[0] == "bin":
        a, b = folded(I, t[2]), folded(I, t[3])
        if a[0] == "k" and b[0] == "k":
            num = all(type(x[1]) in (int, float) for x in (a, b))
            if t[1] == "<" and num:
                return k(a[1] < b[1])
            if t[1] == "==":
                return k(a[1] == b[1] and type(a[1]) is type(b[1]))
        return I.binary(t[1], a, b) if t[1] not in ("==", "<") else ("bin", t[1], a, b)
    if t[0] == "not":
        a = folded(I, t[1])
        return k(a[1] is None or a[1] is False) if a[0] == "k" else ("not", a)
    return t


def contradicted(I, facts, env):
    """Can the path not be taken when the variables have these values?"""
    for t, v in facts.items():
        if not any(type(x) is tuple and x and x[0] == "var" for x in walk(t)):
            continue
        u = ("bin", "==", t[1], t[2]) if t[0] == "eq" else t[1]
        w = folded(I, replaced(u, env))
        b = I.known({}, w)
        if b is not None and b != v:
            return True
    return False


def enabled(facts):
    """Is it known that the file is in a shared directory?"""
    for t, v in facts.items():
        if t[0] != "eq":
            if t[1][0] == "call" and t[1][1].endswith(("fs.root", "isdirectory", "finddir")):
                return v
            continue
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if a[0] == "call" and a[1].endswith("isdirectory") and b == k(1) and v:
                return True
            if a[0] == "call" and a[1].endswith(("fs.root", "finddir")) and b == NIL:
                return not v
    return None


class Rules:
    def __init__(self, c, p):
        self.c, self.p, self.I = c, p, p.I
        self.mine = None  # where local edits are counted
        self.theirs = None  # where edits of the daemon are counted
        self.ends = []

    # -- edits from the daemon ------------------------------------------------------------
    def expected(self, facts, rev, files):
        """What the revision of the message is compared with: (place, result)."""
        for t, v in facts.items():
            if t[0] == "eq":
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    if a == rev and b[0] == "get":
                        return abstract(b, files), v
        return None

    def remote(self):
        c, p = self.c, self.p
        roots = p.having(".notification")
        if not roots:
            c.violate(("anchor", "notification"), "no function receives the notifications of the daemon")
        found = 0
        for label, fn, outs in roots:
            method, params = ("arg", label, 0), ("arg", label, 1)
            uri, rev, delta = (("get", params, k(x)) for x in ("uri", "revision", "delta"))
            files = {uri}
            for kind, st, v in outs:
                edit = st.facts.get(self.I.eqkey(method, k("edit")))
                at = applies(st)
                ws = writes(st, files)
                for e, _ in sends(st):
                    if e.args[0] == k("edit"):
                        c.violate(("echo", e.args[0][1]), "an edit is sent to the daemon while one of its notifications is being handled", p.place(label, fn, e))
                if edit is not True:
                    if at:
                        c.violate(("not an edit",), "text is changed on a notification that is not known to be an edit", p.place(label, fn, at[0]))
                    continue
                found += 1
                c.oblige(1, "edit_paths")
                exp = self.expected(st.facts, rev, files)
                if not at:
                    gone = exp is not None and exp[1] is False or any(v is False and t[0] == "truthy" and t[1][0] == "get" and abstract(t[1], files) != t[1] for t, v in st.facts.items())
                    gone = gone or any(v is True and t[0] == "eq" and NIL in t[1:] and any(abstract(x, files) != x for x in t[1:]) for t, v in st.facts.items())
                    if not gone and kind != "throw":
                        c.violate(("dropped",), "an edit of the daemon is dropped although nothing says that it is out of date", p.place(label, fn))
                    for e, pl, old, new in ws:
                        if pl != abstract(pl, set()) or FILE in pl[1:] or has(pl, FILE):
                            c.violate(("counted", "dropped"), "a revision is changed although the edit is not applied", p.place(label, fn, e))
                    continue
                e = at[0]
                if exp is None or exp[1] is not True:
                    c.violate(("unchecked",), "an edit of the daemon is applied without its revision being that of the local edits", p.place(label, fn, e))
                    continue
                if self.mine is None:
                    self.mine = exp[0]
                if exp[0] != self.mine:
                    c.violate(("unchecked", "other"), "the revision of an edit is compared with different counters", p.place(label, fn, e))
                if not has(exp[0], FILE):
                    c.violate(("unchecked", "file"), "the revision of an edit is not compared with that of its file", p.place(label, fn, e))
                if len(at) != 1 or at[0].loops:
                    c.violate(("twice",), "an edit of the daemon may be applied several times", p.place(label, fn, at[-1]))
                self.applied(label, fn, e, uri, delta, st)
                self.ends.append((label, fn, e, st))
                if kind == "throw":
                    continue
                counted = [(x, pl, old, new) for x, pl, old, new in ws if has(pl, FILE)]
                if len(counted) != 1 or counted[0][3] != ("bin", "+", counted[0][2], k(1)) or counted[0][1] == self.mine or counted[0][0].loops:
                    c.violate(("counted", "applied"), "an applied edit of the daemon is not counted exactly once", p.place(label, fn, counted[0][0] if counted else e))
                else:
                    if self.theirs is None:
                        self.theirs = counted[0][1]
                    if counted[0][1] != self.theirs:
                        c.violate(("counted", "applied"), "edits of the daemon are counted in different places", p.place(label, fn, counted[0][0]))
        if not found:
            c.violate(("anchor", "edit"), "no path handles an edit of the daemon")

    def applied(self, label, fn, e, uri, delta, st):
        """The edits of the message go to the buffer of its file."""
        c, p = self.c, self.p
        c.oblige(3, "applications")
        if len(e.args) < 2 or not any(has(a, uri) for a in e.args[1:]):
            c.violate(("buffer",), "an edit of the daemon is not applied to the buffer of its file", p.place(label, fn, e))
        if k("utf-32") not in e.args:
            c.violate(("encoding", "apply"), "positions in an edit of the daemon are not taken as characters", p.place(label, fn, e))
        edits = e.args[0]
        items = []
        if edits[0] == "obj":
            for key, v in edits[2]:
                items += list(v) if key == ("push",) else [v]
        else:
            c.violate(("edits",), "what is applied is not made from the edit of the daemon", p.place(label, fn, e))
        for x in items:
            r, t = field(x, "range"), field(x, "newText")
            ok = r is not None and t is not None and r[0] == "get" and r[2] == k("range") and t == ("get", r[1], k("replacement")) and r[1][0] in ("elem", "get") and r[1][1] == delta
            if not ok:
                c.violate(("edits",), "what is applied is not made from the edit of the daemon", p.place(label, fn, e))
        tab = edits[1] if edits[0] == "obj" else None
        for x in st.ev:
            if x is e:
                break
            if x.kind == "iter" and any(o == tab for o, _ in x.args) or x.kind == "iter" and not x.args and not items:
                if x.name == "break" or sum(o == tab for o, _ in x.args) != 1:
                    c.violate(("edits", "some"), "only a part of an edit of the daemon is applied", p.place(label, fn, x))

    # -- local edits ------------------------------------------------------------------------
    def local(self):
        c, p, I = self.c, self.p, self.I
        roots = p.having(ATTACH + "#2.on_lines") + p.having(ATTACH + "#2.on_bytes")
        if not roots:
            c.violate(("anchor", "on_lines"), "no function is told about changes of the text")
        sending, quiet = [], []
        for label, fn, outs in roots:
            for kind, st, v in outs:
                c.oblige(2, "change_paths")
                if v and I.known(st.facts, v[0]) is not False:
                    c.violate(("detach",), "changes of the text are no longer reported after a call", p.place(label, fn))
                if applies(st):
                    c.violate(("change",), "the text is changed while a change is reported", p.place(label, fn))
                ms = sends(st, "edit")
                self.remember(label, fn, st)
                if not ms:
                    quiet.append((label, fn, st))
                    if [w for w in writes(st, set()) if self.counter(w[1])]:
                        c.violate(("counted", "quiet"), "a change that is not sent is counted", p.place(label, fn))
                    continue
                sending.append((label, fn, st))
                e, params = ms[0]
                if len(ms) != 1 or e.loops:
                    c.violate(("sent twice",), "a local edit may be sent several times", p.place(label, fn, ms[-1][0]))
                self.sent(label, fn, e, params, st)
        if roots and not sending:
            c.violate(("anchor", "sent"), "local edits are not sent")
        self.flag(sending, quiet)

    def counter(self, pl):
        return any(x is not None and pl[2] == x[2] for x in (self.mine, self.theirs))

    def sent(self, label, fn, e, params, st):
        c, p = self.c, self.p
        c.oblige(3, "messages")
        uri = field(params, "uri")
        files = names_of(uri) if uri else set()
        rev = field(params, "revision")
        if rev is None or self.theirs is None or abstract(rev, files) != self.theirs:
            c.violate(("revision",), "a local edit is not sent with the number of edits of the daemon that were applied to its file", p.place(label, fn, e))
        ws = [w for w in writes(st, files) if has(w[1], FILE) or self.counter(w[1])]
        if len(ws) != 1 or ws[0][1] != self.mine or ws[0][3] != ("bin", "+", ws[0][2], k(1)) or ws[0][0].loops:
            c.violate(("counted", "local"), "a local edit that is sent is not counted exactly once", p.place(label, fn, ws[-1][0] if ws else e))
        delta = field(params, "delta")
        items = [v for key, v in delta[2]] if delta is not None and delta[0] == "obj" else []
        diffs = [x for x in st.ev if x.kind == "call" and x.name.endswith("compute_diff")]
        if len(items) != 1 or len(diffs) != 1:
            c.violate(("delta",), "what is sent is not the difference to the text before", p.place(label, fn, e))
            return
        d = diffs[0]
        r, t = field(items[0], "range"), field(items[0], "replacement")
        if r is None or t is None or not has(r, d.term) or not has(t, d.term) or r != ("get", d.term, k("range")):
            c.violate(("delta",), "what is sent is not the difference to the text before", p.place(label, fn, e))
        if k("utf-32") not in d.args:
            c.violate(("encoding", "diff"), "positions in a local edit are not counted in characters", p.place(label, fn, d))
        if len(d.args) < 5 or d.args[0][0] != "var" or not self.lines(d.args[1]) or d.args[2:5] != tuple(("arg", label, i) for i in (3, 4, 5)):
            c.violate(("delta", "texts"), "the difference is not taken between the text before and the text now", p.place(label, fn, d))

    @staticmethod
    def lines(t):
        return t[0] == "call" and t[1].endswith("nvim_buf_get_lines") and t[2][1:3] == (k(0), k(-1))

    def remember(self, label, fn, st):
        """The text now is the text before at the next change."""
        c, p = self.c, self.p
        names = {x.args[0][1] for _, _, outs in p.having(ATTACH + "#2.on_lines") for _, s, _ in outs for x in s.ev if x.kind == "call" and x.name.endswith("compute_diff") and x.args and x.args[0][0] == "var"}
        for n in names:
            if not any(cell[0] == n and self.lines(v) for cell, v in st.mem.items() if cell != "..."):
                c.violate(("before",), "the text is not remembered for the next difference", p.place(label, fn))

    def flag(self, sending, quiet):
        """While an edit of the daemon is applied, changes are not sent; otherwise they are."""
        c, p, I = self.c, self.p, self.I
        normal = frozenset((cell[0], v) for cell, v in I.state.mem.items() if cell != "..." and I.mutable(cell))
        const = [(n, v) for n, v in normal if v[0] == "k"]
        for label, fn, st in quiet:
            c.oblige(1, "quiet_paths")
            if not contradicted(I, st.facts, const):
                c.violate(("unsent",), "a local edit may not be sent", p.place(label, fn))
        for label, fn, e, st in self.ends:
            c.oblige(2, "flags")
            during = [(n, folded(I, replaced(v, const))) for n, v in e.cells]
            if any(not contradicted(I, s.facts, [x for x in during if x[1][0] == "k"]) for _, _, s in sending):
                c.violate(("echo", "flag"), "an edit of the daemon may be sent back when the buffer changes", p.place(label, fn, e))
            after = [(cell[0], folded(I, replaced(v, const))) for cell, v in st.mem.items() if cell != "..." and I.mutable(cell)]
            for n, v in const:
                if (n, v) in during:
                    continue
                if any(m == n and w != v for m, w in after):
                    c.violate(("silent", n), "local edits are not sent any more after an edit of the daemon was applied or could not be applied", p.place(label, fn, e))

    # -- opening and closing --------------------------------------------------------------------
    def opening(self):
        c, p, I = self.c, self.p, self.I
        roots = [(l, f, o) for l, f, o in p.having("nvim_create_autocmd") if any(sends(st, "open") for _, st, _ in o)]
        if len({f for _, f, _ in roots}) < 1:
            c.violate(("anchor", "open"), "no event of the editor opens a file")
        uris = set()
        for label, fn, outs in roots:
            for kind, st, v in outs:
                c.oblige(1, "open_paths")
                ms = sends(st, "open")
                if ms:
                    uris.add(field(ms[0][1], "uri"))
                    if len(ms) != 1:
                        c.violate(("open", "twice"), "a file is opened several times", p.place(label, fn, ms[-1][0]))
                    if enabled(st.facts) is not True:
                        c.violate(("open", "outside"), "a file is opened that is not known to be in a shared directory", p.place(label, fn, ms[0][0]))
                elif enabled(st.facts) is True and kind != "throw":
                    c.violate(("open", "not"), "a file in a shared directory is not opened", p.place(label, fn))
        if None in uris or len(uris) != 1:
            c.violate(("open", "uri"), "files are opened under different names")
            return
        uri = uris.pop()
        files = names_of(uri)
        n = 0
        for label, xs in p.roots.items():
            for fn, outs in xs:
                for kind, st, v in outs:
                    at = [e for e in st.ev if e.kind == "call" and e.name.endswith(ATTACH)]
                    if not at:
                        continue
                    n += 1
                    c.oblige(2, "attachments")
                    if "request(open)" not in label or st.facts.get(("truthy", ("arg", label, 1))) is not True and st.facts.get(("truthy", ("arg", label, 0))) is not False:
                        c.violate(("attach", "early"), "changes are tracked before the daemon has accepted the file", p.place(label, fn, at[0]))
                    if len(at) != 1:
                        c.violate(("attach", "twice"), "changes are tracked twice", p.place(label, fn, at[-1]))
                    for pl in (self.mine, self.theirs):
                        if pl is not None and not any(self.value(st, pl, f) == k(0) for f in files):
                            c.violate(("zero", str(pl[2][1])), "the revisions of a file do not start at zero when it is opened", p.place(label, fn, at[0]))
        if not n:
            c.violate(("anchor", "attach"), "changes of the text are not tracked")
        for label, fn, outs in p.having(ATTACH + "#2.on_lines"):
            for kind, st, v in outs:
                for e, params in sends(st, "edit"):
                    if field(params, "uri") != uri:
                        c.violate(("uri",), "local edits are sent under a different name than the file was opened with", p.place(label, fn, e))
        self.closing()

    def value(self, st, pl, f):
        if pl == FILE:
            return f
        if pl[0] == "get":
            return self.I.read(st, self.value(st, pl[1], f), self.value(st, pl[2], f))
        return pl

    def closing(self):
        c, p, I = self.c, self.p, self.I
        if self.mine is None:
            return
        entry = self.mine[1] if has(self.mine[1], FILE) else self.mine
        roots = [(l, f, o) for l, f, o in p.having("nvim_create_autocmd") if any(sends(st, "close") for _, st, _ in o)]
        if not roots:
            c.violate(("anchor", "close"), "no event of the editor closes a file")
        for label, fn, outs in roots:
            uris = {field(ps, "uri") for _, st, _ in outs for _, ps in sends(st, "close")}
            files = set().union(*(names_of(u) for u in uris if u)) if uris else set()
            for kind, st, v in outs:
                c.oblige(1, "close_paths")
                ms = sends(st, "close")
                if ms:
                    if not any(pl == entry and new == NIL for _, pl, _, new in writes(st, files)):
                        c.violate(("close", "kept"), "a closed file is still taken as open", p.place(label, fn, ms[0][0]))
                    continue
                unknown = any(v is False and t[0] == "truthy" and abstract(t[1], files) == entry for t, v in st.facts.items())
                unknown = unknown or any(v is True and t[0] == "eq" and NIL in t[1:] and any(abstract(x, files) == entry for x in t[1:]) for t, v in st.facts.items())
                if not unknown and enabled(st.facts) is True and kind != "throw":
                    c.violate(("close", "not"), "the daemon is not told that a file is closed", p.place(label, fn))
                if any(pl == entry for _, pl, _, new in writes(st, files)):
                    c.violate(("close", "untold"), "a file is taken as closed without telling the daemon", p.place(label, fn))

    def others(self):
        """Nothing else sends edits, changes text or counts."""
        c, p = self.c, self.p
        for label, xs in p.roots.items():
            for fn, outs in xs:
                if label.endswith((".notification", ".on_lines", ".on_bytes")):
                    continue
                for kind, st, v in outs:
                    for e, _ in sends(st, "edit"):
                        c.violate(("sent elsewhere", label), "an edit is sent although nothing was changed", p.place(label, fn, e))
                    for e in applies(st):
                        c.violate(("applied elsewhere", label), "text is changed without an edit of the daemon", p.place(label, fn, e))
                    for e, pl, old, new in writes(st, set()):
                        if self.counter(pl) and new != k(0):
                            c.violate(("counted elsewhere", label), "a revision is changed without an edit", p.place(label, fn, e))


def run(c):
    c.rule = (
        "On every path of the function that receives notifications: an edit changes the text once, in the buffer of its file, iff its revision equals the counter of local edits of that file, and then one other counter of that file goes up by one; "
        "while the text is changed, the module state contradicts every path of the change callback that sends. On every path of the change callback that the normal state allows: one edit is sent with that other counter, made from the difference between the remembered and the current text, "
        "and the counter of local edits goes up by one; the current text is remembered on all paths. Tracking starts, with both counters at zero, only after the daemon accepted the file."
    )
    try:
        p = Plugin(c)
    except ScriptLimit as e:
        raise Limit(str(e))
    r = Rules(c, p)
    r.remote()
    r.local()
    r.opening()
    r.others()
