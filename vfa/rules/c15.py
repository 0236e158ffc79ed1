"""C15: ignored files are never shared."""
from ..rulelib import *
from .c20 import READS
from .c22 import Handler, QUEUE, RECV, ignoring, local_type
from .common import MUTATORS
from .docapi import DocApi
from .own import *

TECHNIQUE = "modular dataflow over MIR: every text that gets from a file into the document, traced back to the test that the file may be shared"
NOTE = (
    "All places where the content of a file enters the document or a file is opened for an editor, all walks over the directory and all tests for ignored files. "
    "That the library that walks the directory applies git's rules as configured is assumed."
)

BUILD = ("ignore::walk::WalkBuilder::build", "ignore::walk::WalkBuilder::build_parallel")
FILTER = "ignore::walk::WalkBuilder::filter_entry"
HIDDEN_NAMES = (".git", ".ethersync")
# settings of a walk that must be on
NEEDED = ("git_ignore", "git_exclude", "git_global", "parents")
HARMLESS = ("new", "add", "max_depth", "max_filesize", "threads", "hidden", "ignore", "standard_filters", "filter_entry", "sort_by_file_path", "sort_by_file_name", "same_file_system", "require_git", "add_ignore", "add_custom_ignore_filename", "skip_stdout", "ignore_case_insensitive", "clone", "current_dir")
CANON = ("::canonicalize",)


def settings(t):
    """What was set on a builder, in order: [(name, argument)]."""
    out = []
    while True:
        if t.op == "call" and "WalkBuilder::" in t.args[0]:
            args, name = t.args[1], t.args[0]
        elif t.op == "ver" and "WalkBuilder::" in t.args[0]:
            args, name = t.args[3], t.args[0]
        else:
            return out[::-1], t
        out.append((name.rsplit("::", 1)[-1], args[1] if len(args) > 1 else None))
        if name.endswith("::new"):
            return out[::-1], None
        t = args[0]


def excluded(facts, subject, name):
    """Do the facts say that the entry's name is not this one?"""
    for t, f in facts.items():
        if subject not in t.sub:
            continue
        if any(x.op == "call" and x.args[0].endswith("::file_name") for x in t.sub) and t.op in ("vfld", "fld", "call"):
            b = base(t)
            if b.op == "call" and b.args[0].endswith("::file_name"):
                if f[0] == "=" and f[1] != name and isinstance(f[1], str) and f[1] not in ("Some", "None") or f[0] == "!" and name in f[1]:
                    return True
                if f == ("=", "None"):
                    return True
            if t.op == "call" and len(t.args[1]) == 2 and t.args[1][1].op == "k" and f in (("=", True), ("=", False)):
                k = t.args[1][1].args[0]
                what = t.args[0].rsplit("::", 1)[-1]
                v = None
                if isinstance(k, str):
                    v = {"starts_with": name.startswith(k), "ends_with": name.endswith(k), "contains": k in name, "eq": name == k, "eq_ignore_ascii_case": name == k.lower()}.get(what)
                if v is not None and v != f[1]:
                    return True
    return False


def filters(c, m, h):
    """The function with the filters of its walks looked into."""
    E = m.other(BUILD, hold_fact=lambda t: False).free(h)
    work = []
    for n in events(E, BUILD):
        for x in n.data.args[0].sub:
            if x.op in ("call", "ver") and x.args[0] == FILTER:
                for a in kids(x.args):
                    if a.op == "agg" and a.args[0] == "closure":
                        work.append(a.args[1])
                    elif a.op == "fn":
                        callee = E.callees[a.args[0]]
                        work += [callee["h"], (callee.get("r") or {}).get("h")]
    work = [x for x in work if x in m.F.bodies]
    below = set(work)
    while work:
        for x in m.callees[work.pop()][0]:
            if x not in below:
                below.add(x)
                work.append(x)
    mm = m.other(BUILD + (FILTER,), hold_fact=lambda t: base(t).op != "elem", pin_args=True, elem_facts=False, always=tuple(c.facts.bodies[x]["p"] for x in below))
    return mm.free(h)


def walks(c, m):
    """Every walk skips what git ignores and the internal directories."""
    found = 0
    for h in sorted({m.top(h) for h in m.sites(BUILD)}, key=m.name):
        E = filters(c, m, h)
        rets = [n for n in E.nodes if n.kind == "closure_ret" and n.data.name == FILTER]
        for n in events(E, BUILD):
            found += 1
            c.oblige(kind="walks", sample=m.name(h))
            done, rest = settings(n.data.args[0])
            on = {k: True for k in NEEDED}
            links = False
            filtered = False
            if rest is not None:
                c.violate(("builder", m.name(h)), "%s: how the walk over the directory is set up cannot be told" % m.name(h), c.at(E, n))
                continue
            for name, v in done:
                val = v.args[0] if v is not None and v.op == "k" else None
                if name == "standard_filters":
                    on = {k: val is True for k in NEEDED}
                elif name in on:
                    on[name] = val is True
                elif name == "follow_links":
                    links = val is not False
                elif name == "filter_entry":
                    filtered = True
                elif name not in HARMLESS:
                    c.violate(("setting", m.name(h), name), "%s uses %s, which may let ignored files through" % (m.name(h), name), c.at(E, n))
            for k in NEEDED:
                if not on[k]:
                    c.violate(("rules", m.name(h), k), "the walk in %s does not apply git's ignore rules (%s)" % (m.name(h), k), c.at(E, n))
            if links:
                c.violate(("links", m.name(h)), "the walk in %s follows symbolic links, which may lead to ignored files" % m.name(h), c.at(E, n))
            if not filtered:
                c.violate(("filter", m.name(h)), "the walk in %s does not skip '.git' and '.ethersync'" % m.name(h), c.at(E, n))
        for n in rets:
            facts = assuming(E, n.facts, n.data.args[0], True)
            if facts is None:
                continue
            cb = {x for t in facts for x in t.sub if x.op == "sym" and x.args[0] == "cb" and FILTER in x.args}
            for name in HIDDEN_NAMES:
                c.oblige(kind="entries_let_through")
                if not any(excluded(facts, x, name) for x in cb):
                    c.violate(("filter", m.name(h), name), "the walk in %s does not skip '%s'" % (m.name(h), name), c.at(E, n), c.trace(E, from_root(E, n.id)))
        if not rets:
            c.violate(("filter", m.name(h)), "the filter of the walk in %s was not found" % m.name(h))
    if not found:
        c.violate(("anchor", "walk"), "no walk over the directory found")


def from_walk(x):
    return x.op == "elem" and any(y.op == "call" and y.args[0] in BUILD for y in x.args[0].sub)


def regular(facts, e):
    """The entry is known to be a regular file."""
    for t, f in facts.items():
        if e in t.sub and t.op == "call":
            if f == ("=", True) and t.args[0].endswith("FileType::is_file") and any(x.op == "call" and x.args[0] == "ignore::walk::DirEntry::file_type" for x in t.sub):
                return True
            if f == ("=", False) and t.args[0].endswith(("FileType::is_symlink", "DirEntry::path_is_symlink")):
                return True
    return False


def tests(c, m, skip):
    """'Not ignored' is only said of regular files found on such a walk."""
    ids = [m.ids[s] for s in skip]
    hold = lambda t: t.op == "bin" or t.op == "call" and t.args[0].endswith(("FileType::is_file", "is_symlink", "::eq")) or base(t).op == "call" and base(t).args[0].endswith("canonicalize")
    mm = m.other(BUILD, hold_fact=hold, pin_args=True, elem_facts=False, never=tuple(x for x in m.ids if x.endswith("canonicalize") or "canonicalize" in x.rsplit("::", 1)[-1] or "canonicalized" in x.rsplit("::", 1)[-1]))
    for h in ids:
        E = mm.free(h)
        k = 0
        for n in E.nodes:
            if n.kind != "end" or n.ret is None:
                continue
            r = n.ret
            if r.op == "agg" and r.args[2] == "Err":
                continue
            if r.op == "agg" and r.args[2] == "Ok":
                r = r.args[4][0]
            if r == const(True) or n.facts.get(r) == ("=", True):
                continue
            k += 1
            c.oblige(kind="answers_that_a_file_is_not_ignored", sample=m.name(h))
            if not found_on_walk(m, h, n):
                c.violate(
                    ("test", m.name(h)),
                    "%s can say that a file is not ignored although it was not found as a regular file on a walk that skips ignored ones" % m.name(h),
                    c.at(E, n),
                    c.trace(E, from_root(E, n.id)),
                )
        if not k:
            c.violate(("anchor", "test", m.name(h)), "%s never says that a file is not ignored" % m.name(h))


def found_on_walk(m, h, n):
    args = [mk("sym", "arg", m.name(h), i) for i in range(m.F.bodies[h]["argc"])]
    for t, f in n.facts.items():
        if f != ("=", True):
            continue
        if t.op == "bin" and t.args[0] == "Eq":
            a, b = t.args[1:3]
        elif t.op == "call" and t.args[0].endswith("::eq") and len(t.args[1]) == 2:
            a, b = t.args[1]
        else:
            continue
        for x, y in ((a, b), (b, a)):
            es = [e for e in x.sub if from_walk(e)]
            if not es or any(from_walk(e) for e in y.sub) or args[-1] not in y.sub:
                continue
            if any(z.op == "call" and z.args[0].endswith(("file_name", "file_stem", "parent", "extension")) for z in list(x.sub) + list(y.sub)):
                continue
            canon = lambda z: any(w.op == "call" and "canonicalize" in w.args[0].rsplit("::", 1)[-1] for w in z.sub)
            if any(regular(n.facts, e) for e in es) or canon(y) and not canon(x):
                return True
    return False


def not_ignored(facts, skip, p):
    """The file was tested."""
    for t, f in facts.items():
        if f == ("=", False) and p is not None:
            b = base(t)
            if b.op == "call" and b.args[0] in skip and same_path(b.args[1][-1], p):
                return True
    return False


def same_path(a, b):
    return a is b or strip(a) is strip(b)


def strip(t):
    while t.op in ("fld", "vfld") and t.args[-1] == "0" and t.op == "fld":
        t = t.args[0]
    return t


def watcher(c, m, skip):
    """Reports of creation and change are passed on for files that are not ignored only."""

    def on_event(st, n):
        if n.kind == "call" and n.data.name in QUEUE and len(n.data.args) > 1:
            happened(st, ghost("queued", n.data.args[1]))

    mm = m.other(RECV + skip + QUEUE, hold_fact=lambda t: is_ghost(t) or base(t).op == "call" and base(t).args[0] in skip, pin_args=True, ghost=on_event, never=skip, want_back=True, want_agg=lambda p: p.endswith("::WatcherEvent"))
    f = matcher(RECV)
    covered = set()
    for h in sorted(m.live, key=m.name):
        b = c.facts.bodies[h]
        if not any(f(n) for n in m.callees[h][1]) or not any("notify::" in c.facts.types[l]["s"] for l in b["locals"]):
            continue
        E = mm.free(m.top(h))
        work = [m.top(h)]
        while work:
            x = work.pop()
            if x not in covered:
                covered.add(x)
                work.extend(m.callees[x][0])
        for n in E.nodes:
            if n.kind not in ("end", "back"):
                continue
            out = [t.args[1][0] for t in n.facts if is_ghost(t, "queued")]
            if n.kind == "end" and n.ret is not None:
                out.append(n.ret)
            for x in {x for o in out for x in o.sub if x.op == "agg" and x.args[1].endswith("::WatcherEvent") and x.args[2] != "Removed"}:
                c.oblige(kind="file_events_passed_on", sample="%s in %s" % (x.args[2], m.name(h)))
                if not not_ignored(n.facts, skip, x.args[4][0]):
                    c.violate(
                        ("event", m.name(h), x.args[2]),
                        "%s can pass on the '%s' event of a file without having found that it is not ignored" % (m.name(h), x.args[2]),
                        c.at(E, n),
                        c.trace(E, from_root(E, n.id)),
                    )
    for h in sorted(m.live - covered, key=m.name):
        b = c.facts.bodies[h]
        if not b.get("derived") and any(
            s[0] not in ("dead", "live", "setdisc") and s[1][0] == "agg" and s[1][1] == "adt" and s[1][3].endswith("::WatcherEvent")
            for blk in b["blocks"]
            for s in blk["s"]
        ):
            c.violate(("event", m.name(h)), "%s makes up a file event" % m.name(h))


def entering(c, m, skip):
    """Content of files that gets into the document."""
    api = DocApi(c, m)
    readers = Handler(c, m, api).readers
    names = tuple(api.effects)
    rd = matcher(READS)

    def hold(t):
        b = base(t)
        return b.op == "call" and b.args[0] in skip or t.op == "call" and t.args[0].endswith(("FileType::is_file", "is_symlink")) or base(t).op == "sym"

    mm = m.other(names + tuple(readers) + skip + BUILD, hold_fact=hold, pin_args=True, never=names + tuple(readers) + skip, elem_facts=False)

    def reads(t):
        return [x for x in t.sub if x.op in ("call", "ver") and (x.args[0] in readers or rd(x.args[0]))]

    def judge(E, n):
        for a in n.data.args[1:]:
            for r in reads(a):
                args = r.args[1] if r.op == "call" else r.args[3]
                p = args[-1] if r.args[0] in readers or len(args) == 1 else args[0]
                c.oblige(kind="texts_of_files_put_into_the_document", sample="%s in %s" % (n.data.short, m.name(E.ctxs[n.ctx][3])))
                es = [x for x in p.sub if from_walk(x)]
                if es and all(regular(n.facts, e) for e in es):
                    continue
                if not_ignored(n.facts, skip, p):
                    continue
                if any(x.op == "vfld" and x.args[1] in ("Created", "Changed") and x.args[2] == "file_path" for x in p.sub):
                    continue
                return "the content of a file enters the document in %s although nothing shows that the file is not ignored" % m.name(m.top(E.ctxs[n.ctx][3]))
            if any(x.op == "sym" and x.args[0] == "arg" and m.arg_type(x).lstrip("&").split("::")[-1] in ("str", "String", "Vec<u8>", "[u8]", "TextDelta") for x in a.sub):
                return "a text of unknown origin enters the document in %s" % m.name(m.top(E.ctxs[n.ctx][3]))
        return None

    sets = tuple(k for k, e in api.effects.items() if e[0] in ("set", "apply"))
    for E, n, w in mm.climb(sets, judge):
        if w.startswith("a text of unknown"):
            continue  # not from a file
        c.violate(("enters", m.name(m.top(E.ctxs[n.ctx][3])), n.data.name), w, c.at(E, n), c.trace(E, from_root(E, n.id)))
    if not c.counts.get("texts_of_files_put_into_the_document"):
        c.violate(("anchor", "enters"), "no place found where the content of a file enters the document")


def opening(c, m, skip):
    """Editors can only open files that are not ignored, and edit files they have opened."""
    o = Owned(c.facts)
    mm = m.other(MAP_CALLS + skip, hold_fact=lambda t: t.op == "mapget" or base(t).op == "call" and base(t).args[0] in skip or base(t).op == "sym", pin_args=True, never=skip)
    found = set()
    for h in sorted(m.live, key=m.name):
        b = c.facts.bodies[h]
        if "::ComponentMessage" not in c.facts.types[b["locals"][0]]["s"] or m.top(h) != h or b.get("derived"):
            continue
        E = mm.free(h)
        for n in E.nodes:
            if n.kind == "call" and n.data.name.endswith(("HashMap::insert", "BTreeMap::insert")) and any(x.op in ("fld", "vfld") and x.args[-1] in o.servers for x in n.data.args[0].sub):
                found.add("insert")
                c.oblige(kind="files_opened_for_an_editor")
                if not tested(n.facts, skip, n.data.args[1]):
                    c.violate(("open", m.name(h)), "%s opens a file for an editor without having found that it is not ignored" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
            if n.kind == "end" and n.ret is not None:
                for x in n.ret.sub:
                    if x.op == "agg" and x.args[1].endswith("::ComponentMessage") and "file_path" in x.args[3]:
                        p = x.args[4][x.args[3].index("file_path")]
                        if x.args[2] == "Open":
                            found.add("Open")
                            c.oblige(kind="messages_of_editors_that_concern_content")
                            if not tested(n.facts, skip, p):
                                c.violate(("open message", m.name(h)), "%s tells the document that an editor opened a file that may be ignored" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
                        elif x.args[2] == "Edit":
                            found.add("Edit")
                            c.oblige(kind="messages_of_editors_that_concern_content")
                            if not any(t.op == "mapget" and f == ("=", "Some") and t.args[0].op in ("fld", "vfld") and t.args[0].args[-1] in o.servers and same_path(t.args[1], p) for t, f in n.facts.items()):
                                c.violate(("edit message", m.name(h)), "%s takes over an edit of a file that the editor has not opened" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
    for k in ("insert", "Open", "Edit"):
        if k not in found:
            c.violate(("anchor", k), "no place found where files are opened and edited by an editor (%s)" % k)


def tested(facts, skip, p):
    """The file with this (relative) name was tested: both were made from the same absolute path."""
    for t, f in facts.items():
        b = base(t)
        if f == ("=", False) and b.op == "call" and b.args[0] in skip:
            q = strip(b.args[1][-1])
            if q in p.sub or same_path(q, p):
                return True
    return False


def run(c):
    c.rule = (
        "Every walk over the directory applies git's ignore rules, does not follow links and has a filter that rejects the names '.git' and '.ethersync'; the test for ignored files answers "
        "'no' only for a regular file found on such a walk. Content of a file is put into the document only if the file is a regular file of such a walk, passed the test, or is named "
        "by a watcher event; these events and the opening of files by editors are passed on only after the test of that very file said 'no', and edits only for opened files."
    )
    m = Modular(c, ())
    skip = ignoring(c, m)
    if not skip:
        c.violate(("anchor", "ignored"), "no function that tells whether a file is ignored found")
    walks(c, m)
    tests(c, m, skip)
    watcher(c, m, skip)
    entering(c, m, skip)
    opening(c, m, skip)
