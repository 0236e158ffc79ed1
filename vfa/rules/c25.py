"""C25: all documents start from the same content."""
from ..rulelib import *
from .common import MUTATORS
from .own import *

TECHNIQUE = "origin analysis over MIR: what documents are made from and which objects changes are made to, back through callers and fields"
NOTE = (
    "All values put into a field that holds a document, all contents that documents are loaded from, and all objects of the document that are changed, each followed back through all callers. "
    "The fixed content is recognised by its automerge heads. Which structure the content of a saved document has is left to the rules for saving and loading."
)

# heads of the document that all released versions start from
HEADS = bytes.fromhex("8fa41f0d663d8b7df6bd876110a73f1ed7f93ce3716f3d378aea5e1e8ea64efa")
EMPTY = ("::AutoCommit::new", "::AutoCommit::new_with_encoding", "::AutoCommit::default", "::Automerge::new", "::Automerge::new_with_encoding", "::Automerge::default")
LOADS = ("::AutoCommit::load", "::AutoCommit::load_with_options", "::AutoCommit::load_with", "::AutoCommit::load_unverified_heads", "::Automerge::load", "::Automerge::load_with_options")
ADDS = ("::AutoCommit::load_incremental", "::AutoCommit::load_incremental_log_patches")
ACTORS = ("::AutoCommit::set_actor", "::AutoCommit::with_actor")
OF_FILES = ("std::fs::read", "::Read::read_to_end", "::read")


def uleb(b, i):
    v = s = 0
    while True:
        v |= (b[i] & 127) << s
        s += 7
        i += 1
        if not b[i - 1] & 128:
            return v, i


def heads(b):
    """Heads of a saved document that consists of one whole chunk."""
    try:
        if b[:4] != bytes((0x85, 0x6F, 0x4A, 0x83)) or b[8] != 0:
            return None
        n, i = uleb(b, 9)
        if i + n != len(b):
            return None
        k, i = uleb(b, i)
        for _ in range(k):
            n, i = uleb(b, i)
            i += n
        k, i = uleb(b, i)
        return {b[i + 32 * j : i + 32 * j + 32] for j in range(k)}
    except IndexError:
        return None


def data(t):
    """The bytes of a constant, or None."""
    if t.op == "agg" and t.args[0] == "array":
        vs = t.args[4]
        if all(v.op == "k" and type(v.args[0]) is int and 0 <= v.args[0] < 256 for v in vs):
            return bytes(v.args[0] for v in vs)
    if t.op == "k":
        v = t.args[0]
        if isinstance(v, bytes):
            return v
        if isinstance(v, tuple) and all(type(x) is int and 0 <= x < 256 for x in v):
            return bytes(v)
    return None


def run(c):
    c.rule = (
        "Every value that is put into a field holding a document comes from loading bytes, or from adding saved changes to a document that does. "
        "The bytes are the content of a file, or a constant whose heads are those of the fixed initial document. "
        "No object that the daemon changes in the document is the root, so that the top-level structure always is the one of the fixed initial document. "
        "The identity under which changes are made is never a fixed one."
    )
    m = Modular(c, ())
    F = c.facts
    mm = m.other(("automerge*",), hold_fact=lambda t: False, pin_args=True)
    empty, loads, adds, actors, muts = (matcher(x) for x in (EMPTY, LOADS, ADDS, ACTORS, MUTATORS))
    files = matcher(OF_FILES)
    found = {"constant": 0, "file": 0}

    def content(h, E, t):
        """Is this what a document may be loaded from?"""
        d = data(t)
        if d is not None:
            found["constant"] += 1
            return heads(d) == {HEADS}
        b = base(t)
        if b.op in ("call", "ver") and (b.args[0].startswith(("std::fs::", "tokio::fs::", "ethersync::sandbox::")) or files(b.args[0])):
            found["file"] += 1
            return True
        if b.op in ("call", "ver") and b.args[0].endswith(("::save", "::save_incremental", "::save_after", "::save_nocompress")):
            return True
        return None

    def fine(h, E, t, depth=0):
        """Does the document start from the fixed content?  None if it does, else what is wrong."""
        b = base(t)
        if b.op in ("loop", "join") and E.alts.get(b) and depth < 8:
            for x in E.alts[b]:
                r = fine(h, E, x, depth + 1)
                if r:
                    return r
            return None
        if b.op == "fld" or b.op == "vfld":
            return fine(h, E, b.args[0], depth)
        if b.op == "call" and b.args[0] in m.ids:
            # judged where it is made
            return None
        if b.op == "call" and loads(b.args[0]):
            return None
        if b.op == "ver":
            # what it was before the call
            prev = [n.data for n in E.nodes if n.kind == "call" and n.data.name == b.args[0] and n.data.args[1:] == b.args[3][1:]]
            if not prev:
                return "is the result of %s on something unknown" % last2(b.args[0])
            for ev in prev:
                p = base(ev.args[0])
                if adds(b.args[0]) and p.op == "call" and empty(p.args[0]):
                    if content(h, E, ev.args[1]) is not True or data(ev.args[1]) is None:
                        return "is empty at first and then gets content that is not the fixed one"
                    continue
                r = fine(h, E, ev.args[0], depth + 1) if depth < 8 else "is made in too many steps"
                if r:
                    return r
            return None
        if b.op == "call" and (empty(b.args[0]) or b.args[0].endswith("::Default::default")):
            return "starts out empty"
        if b.op == "sym" and b.args[0] == "arg":
            for g, E2, x in m.up(h, t):
                r = fine(g, E2, x, depth + 1) if depth < 8 else "is made in too many steps"
                if r:
                    return r
            return None
        if b.op == "agg":
            return None
        return "comes from %s" % str(b)[:80]

    fields = {f[0] for a in F.adts.values() if a["p"].startswith("ethersync") for v in a["variants"] for f in v[1] if F.types[f[1]]["s"].split("::")[-1] in ("AutoCommit", "Automerge")}
    n = 0
    for f in sorted(fields):
        for h, E, v in m.field_values(f):
            n += 1
            c.oblige(kind="values_that_become_the_document", sample="%s: %s" % (m.name(h), str(v)[:80]))
            r = fine(h, E, v)
            if r:
                c.violate(("document", m.name(h)), "%s: a document %s" % (m.name(h), r))
    if not n:
        c.violate(("anchor", "document"), "no structure that holds a document was found")

    # documents that are derived from others or made by a derived function
    for h in sorted(m.live, key=m.name):
        for x in sorted(m.callees[h][1]):
            if x.endswith("::Default::default") and F.bodies[h].get("derived") and any(a in m.name(h) for a in ("Document",)):
                c.violate(("document", m.name(h)), "%s: a document starts out empty" % m.name(h))

    nobj = 0
    for h in sorted(m.live, key=m.name):
        names = m.callees[h][1]
        if m.top(h) != h:
            continue
        around = {h} | {x for x in F.bodies if m.top(x) == h}
        if not any(loads(x) or adds(x) or actors(x) or muts(x) or empty(x) for y in around for x in m.callees[y][1]):
            continue
        if F.bodies[h].get("coroutine"):
            pass
        E = mm.free(h)
        for nd in E.nodes:
            if nd.kind != "call" or nd.ctx == 0 or m.top(E.ctx_body(nd.ctx).h) != h:
                continue
            name, args = nd.data.name, nd.data.args
            if loads(name) or adds(name):
                x = args[0] if loads(name) else args[1]
                c.oblige(kind="contents_that_are_loaded")
                for g, t in m.origins(h, x, content, E):
                    d = data(t)
                    what = "a constant that is not the fixed initial document" if d is not None else str(t)[:80]
                    c.violate(("content", m.name(h), m.name(g)), "%s: a document is loaded from %s" % (m.name(g), what), c.at(E, nd))
            elif actors(name):
                c.oblige(kind="identities_set")
                a = args[1]
                if not any(x.op == "call" and x.args[0].endswith(("::random", "new_v4", "::ThreadRng::gen")) for x in a.sub):
                    c.violate(("actor", m.name(h)), "%s: the identity under which changes are made may be one that another daemon has" % m.name(h), c.at(E, nd))
            elif muts(name) and "Transactable::" in name:
                nobj += 1
                c.oblige(kind="objects_changed", sample="%s in %s" % (last2(name), m.name(h)))

                def obj(g, E2, t):
                    b = base(t)
                    if b.op == "call" and b.args[0].endswith(("::ReadDoc::get", "::ReadDoc::get_all", "::Transactable::put_object", "::Transactable::insert_object")):
                        return True
                    if "automerge::ROOT" in str(t) or t.op == "agg" and t.args[2] == "Root":
                        return False
                    if b.op == "call" and b.args[0] in m.ids:
                        return True
                    return None

                for g, t in m.origins(h, args[1], obj, E):
                    root = "automerge::ROOT" in str(t) or t.op == "agg"
                    c.violate(
                        ("root", m.name(g), last2(name)),
                        "%s: %s" % (m.name(g), "the top-level structure of the document is changed (%s)" % last2(name) if root else "%s on an object that is not known to be below the top level: %s" % (last2(name), str(t)[:80])),
                        c.at(E, nd),
                        c.trace(E, from_root(E, nd.id)),
                    )
    if not nobj:
        c.violate(("anchor", "changes"), "no change of the document was found")
    if not found["constant"]:
        c.violate(("anchor", "initial"), "no document is made from the fixed initial content")
    c.counts["constants_seen"] = found["constant"]
    c.counts["file_contents_seen"] = found["file"]
