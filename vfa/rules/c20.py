"""C20: files that are not valid UTF-8 are neither shared nor altered."""
from ..rulelib import *
from .common import MUTATORS
from .own import Owned

TECHNIQUE = "taint analysis over MIR: bytes read from files, from every reading function to every use"
NOTE = "All uses of bytes read from a file in the functions that read them or are handed them by such a function."

READS = (
    "std::fs::read",
    "std::fs::read_to_string",
    "std::io::Read::read_to_end",
    "std::io::Read::read_to_string",
    "std::io::Read::read_exact",
    "std::io::Read::read",
    "std::io::BufRead::read_line",
    "std::io::BufRead::lines",
    "tokio::fs::read::read",
    "tokio::fs::read_to_string::read_to_string",
)
DECODE = ("::String::from_utf8", "::str::converts::from_utf8", "::str::from_utf8", "core::str::from_utf8")
# uses of the raw bytes that do not make them text
BYTES_OK = (
    "::AutoCommit::load",
    "::Keypair::from_protobuf_encoding",
    "::len",
    "::is_empty",
    "::clone",
    "::to_vec",
    "::into_boxed_slice",
    "::drop",
)
LOSSY = ("lossy", "unchecked", "valid_up_to", "utf8_chunks", "decode", "from_utf16", "as_ascii", "is_ascii")


def run(c):
    c.rule = (
        "Bytes read from a file become text only through a strict UTF-8 conversion of all of them: no call with these bytes (or with the "
        "error of the conversion) is a lossy, partial or unchecked one. Where the conversion fails, nothing is put into the document "
        "under that file's name, and it is not opened for an editor."
    )

    def hold(t):
        return t.op == "call" and t.args[0].endswith("from_utf8")

    interest = READS + DECODE + MUTATORS
    m = Modular(c, interest, hold_fact=hold)
    f = matcher(READS)
    direct = {h for h in m.live if any(f(n) for n in m.callees[h][1])}
    readers, roots = set(), {m.top(h) for h in direct}
    work = list(direct)
    while work:
        h = m.top(work.pop())
        if h in readers:
            continue
        ret = c.facts.types[c.facts.bodies[h]["locals"][0]]["s"]
        if not any(x in ret for x in ("Vec<u8>", "String", "Cow<", "Box<[u8]>")):
            continue
        readers.add(h)
        for g in m.callers(h):
            roots.add(g)
            work.append(g)
    c.counts["reading_functions"] = sorted(m.name(h) for h in roots)

    def is_read(t):
        return t.op in ("call", "ver") and f(t.args[0])

    dec = matcher(DECODE)

    def raw(t, seen=None):
        """Do bytes of a file reach this value other than through a strict conversion?"""
        if is_read(t):
            return True
        if t.op == "vfld" and t.args[1] == "Ok" and t.args[0].op == "call" and dec(t.args[0].args[0]):
            return False
        if t.op == "call" and dec(t.args[0]):
            return False
        if t.op in ("call", "ver") and ("ReadDoc::" in t.args[0] or "AutoCommit::" in t.args[0] or "Transactable::" in t.args[0]):
            return False  # text of the document
        return any(raw(x) for x in kids(t.args))

    def failed(t):
        """The error of a conversion."""
        return any(x.op == "vfld" and x.args[1] == "Err" and x.args[0].op == "call" and dec(x.args[0].args[0]) for x in walk(t))

    okay = matcher(BYTES_OK)
    mut = is_event(MUTATORS)
    servers = Owned(c.facts).servers

    def opens(n):
        return (
            n.kind == "call"
            and n.data is not None
            and n.data.name.endswith("HashMap::insert")
            and any(x.op in ("fld", "vfld") and x.args[-1] in servers for x in n.data.args[0].sub)
        )

    for h in sorted(roots, key=m.name):
        E = m.free(h)
        for n in E.nodes:
            if n.kind == "call" and n.data is not None:
                name = n.data.name
                if f(name):
                    c.oblige(kind="reads")
                    continue
                if dec(name):
                    c.oblige(kind="strict_conversions", sample="%s in %s" % (short(name), m.name(h)))
                    continue
                args = n.data.args
                last = name.rsplit("::", 1)[-1]
                if any(x in last for x in LOSSY) and any(leads_to(E, a, is_read) or failed(a) for a in args):
                    c.oblige(kind="uses_of_bytes")
                    c.violate(
                        ("lossy", m.name(h), name),
                        "%s makes text of the bytes of a file with %s" % (m.name(h), short(name)),
                        c.at(E, n),
                        c.trace(E, from_root(E, n.id)),
                    )
                elif any(raw(a) for a in args) and not okay(name) and "fmt" not in name and not name.startswith("ethersync"):
                    c.oblige(kind="uses_of_bytes", sample="%s in %s" % (short(name), m.name(h)))
            if opens(n):
                c.oblige(kind="files_opened")
                if any(g == ("=", "Err") and dec(callname(t) or "") for t, g in n.facts.items()):
                    c.violate(
                        ("opened", m.name(h)),
                        "a file is opened for an editor although its content is not valid UTF-8",
                        c.at(E, n),
                        c.trace(E, from_root(E, n.id)),
                    )
            if mut(n):
                about = set()
                for a in n.data.args[1:]:
                    about |= a.sub
                c.oblige(kind="changes_of_the_document")
                for a in n.data.args[-1:]:
                    if raw(a) and n.data.name.endswith(("text", "::put", "::insert", "::splice")):
                        c.violate(
                            ("raw", m.name(h), n.data.name),
                            "bytes of a file get into the document without a strict UTF-8 conversion",
                            c.at(E, n),
                            c.trace(E, from_root(E, n.id)),
                        )
                if n.data.name.endswith("::delete"):
                    continue
                for t, g in n.facts.items():
                    if g == ("=", "Err") and dec(callname(t) or "") and same_file(t, about):
                        c.violate(
                            ("undecodable", m.name(h), n.data.name),
                            "the document is changed (%s) although the content of the file is not valid UTF-8" % n.data.short,
                            c.at(E, n),
                            c.trace(E, from_root(E, n.id)),
                        )
    if not c.counts.get("reads") or not c.counts.get("strict_conversions"):
        c.violate(("anchor",), "no strict conversion of file content found")


def same_file(t, about):
    """The file that was read is the one that is changed."""
    for x in walk(t):
        if x.op in ("call", "ver") and matcher(READS)(x.args[0]):
            return any(y in about for y in x.sub if y.op in ("elem", "sym") and not (y.op == "sym" and len(y.args) > 2 and y.args[2] == 0))
    return False
