"""C21: positions and lengths are counted in Unicode characters everywhere."""
import os
import re
import tomllib

from ..rulelib import *
from .. import extract
from .editors import arg_types
from .ot import SEQ, kind

TECHNIQUE = "dataflow over MIR from everything that counts bytes or UTF-16 units to every position and length of an edit, through loops, closures and callers"
NOTE = "All constructions of edit operations and positions, and all calls of the transformation, rope and document libraries that take positions. Numbers that editors send are taken to be characters, as the protocol says."

UNITS = (
    "str::len",
    "core::str::str::len", "alloc::string::String::len", "core::str::str::as_bytes", "core::str::str::bytes", "alloc::string::String::into_bytes", "alloc::string::String::as_bytes",
    "core::str::str::char_indices", "core::str::str::find", "core::str::str::rfind", "core::str::str::match_indices", "core::str::str::rmatch_indices", "core::str::str::encode_utf16",
    "core::char::methods::len_utf8", "core::char::methods::len_utf16", "char::len_utf8", "char::len_utf16", "core::str::str::floor_char_boundary", "core::str::str::ceil_char_boundary",
    "alloc::string::String::capacity",
)
ROPES = ("len_bytes", "char_to_byte", "line_to_byte", "char_to_utf16_cu", "len_utf16_cu", "byte_slice", "bytes", "bytes_at")
FROM_CHARS = ("char_to_line", "line_to_char", "char_to_byte", "char", "slice", "get_slice", "remove", "insert", "insert_char", "get_char")


def is_unit(t):
    if t.op != "call":
        return False
    n = t.args[0]
    last = n.rsplit("::", 1)[-1]
    return n in UNITS or last in ("len_utf8", "len_utf16", "encode_utf8", "encode_utf16") or n.startswith("ropey::") and last in ROPES or n.startswith("core::str::") and "Indices" in n


def is_count(t):
    """A number of characters, whatever it is counted in."""
    if t.op != "call":
        return False
    last = t.args[0].rsplit("::", 1)[-1]
    if last == "count" and t.args[1]:
        s = t.args[1][0]
        while s.op == "call" and s.args[0].startswith("core::iter::") and s.args[1]:
            s = s.args[1][0]
        return s.op == "call" and s.args[0] == "core::str::str::chars"
    return t.args[0].startswith("ropey::") and last in ("len_chars", "byte_to_char", "utf16_cu_to_char", "len_lines")


def tainted(E, t, seen=None):
    """A count of something else than characters that a number depends on."""
    seen = set() if seen is None else seen
    work = [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_count(x):
            continue
        if is_unit(x):
            return x
        if x.op in ("loop", "join"):
            work.extend(E.alts.get(x, ()))
        work.extend(kids(x.args))
    return None


def run(c):
    c.rule = "No number of bytes or UTF-16 units takes part in a position or length: of operations kept as a change, given to the transformation, sent to editors or applied to the document, nor in looking up lines."
    m = Modular(c, ())
    F = c.facts
    direct = set()
    path = lambda p: p.endswith(("::TextOp", "::Position", "::PatchAction"))
    lib = lambda n: n.startswith(SEQ + "::") and n.rsplit("::", 1)[-1] in ("retain", "delete") or n.endswith("::Transactable::splice_text") or n.startswith("ropey::") and n.rsplit("::", 1)[-1] in FROM_CHARS
    for h in m.live:
        b = F.bodies[h]
        if b.get("derived"):
            continue
        if any(lib(n) for n in m.callees[h][1]) or any(path(p) for p in built(b)):
            direct.add(m.top(h))
    todo, done = sorted(direct, key=m.name), set()
    while todo:
        h = todo.pop()
        if h in done:
            continue
        done.add(h)
        for g in up(c, m, h, path, lib):
            if g not in done:
                todo.append(g)
    if len(direct) < 8:
        c.violate(("anchor", "sinks"), "only %d functions found that make or use positions" % len(direct))
    features(c)


def built(b):
    """Types of what a body constructs."""
    for blk in b["blocks"]:
        for s in str_aggs(blk["s"]):
            yield s


def str_aggs(x):
    if isinstance(x, list):
        if len(x) > 3 and x[0] == "agg" and x[1] == "adt":
            for y in x[2:]:
                if isinstance(y, str):
                    yield y
        for y in x:
            if isinstance(y, list):
                yield from str_aggs(y)


def up(c, m, h, path, lib):
    F = c.facts
    out, work = set(), [h]
    while work:
        x = work.pop()
        if x not in out and len(out) < 40:
            out.add(x)
            work.extend(g for g in m.callees[x][0] if F.bodies[g]["kind"] == "Closure" or numbers(F, g))
    names = (SEQ + "::*", "*::Transactable::splice_text", "ropey::*")
    mm = m.other(names, pin_args=True, always=tuple({F.bodies[x]["p"] for x in out}), max_nodes=20000, want_agg=path)
    try:
        E = mm.free(h)
    except Limit:
        c.violate(("limit", m.name(h)), "%s: too many states" % m.name(h))
        return
    sinks = []
    for p, aggs in E.aggs.items():
        for a in sorted(aggs):
            if a.args[2] != "Insert":
                sinks.append((p.rsplit("::", 1)[-1], [v for f, v in zip(a.args[3], a.args[4]) if f not in ("value", "marks", "key")], None))
    for n in E.nodes:
        if n.kind == "call" and lib(n.data.name):
            last = n.data.name.rsplit("::", 1)[-1]
            args = n.data.args[2:4] if last == "splice_text" else n.data.args[1:]
            sinks.append((n.data.short, list(args), n))
    name = m.name(h)
    own = set()
    for what, vals, n in sinks:
        c.oblige(kind="positions_and_lengths", sample="%s: %s" % (name, what))
        for v in vals:
            if v.op == "agg":
                continue
            x = tainted(E, v)
            if x is not None:
                c.violate(("unit", name, what, x.args[0]), "%s: %s depends on %s, which does not count characters" % (name, what, x), c.at(E, n) if n is not None else {"function": name}, c.trace(E, from_root(E, n.id)) if n is not None else ())
            own |= {y.args[2] for y in v.sub if y.op == "sym" and y.args[0] == "arg" and y.args[1] == name and type(y.args[2]) is int}
    tys = arg_types(F, F.bodies[h])
    if any(i < len(tys) and numeric(tys[i]) for i in own):
        for g in m.callers(h):
            yield m.top(g)


def numeric(s):
    return s.lstrip("&").replace("mut ", "") in ("usize", "isize", "u64", "i64", "u32", "i32")


def numbers(F, g):
    b = F.bodies[g]
    tys = arg_types(F, b)
    ret = F.types[b["locals"][0]]["s"]
    return any(numeric(t) for t in tys) or numeric(ret) or ret.startswith("(") and any(numeric(x.strip("() ")) for x in ret.split(","))


def features(c):
    """The document library counts characters unless it is told otherwise."""
    p = os.path.join(extract.REPO, "daemon", "Cargo.toml")
    with open(p, "rb") as f:
        t = tomllib.load(f)
    c.oblige(kind="library_settings", sample="automerge")
    dep = t.get("dependencies", {}).get("automerge")
    if dep is None:
        c.violate(("anchor", "automerge"), "the document library is not a dependency")
        return
    fs = dep.get("features", []) if isinstance(dep, dict) else []
    for f in fs:
        if re.search(r"utf-?(8|16)", f):
            c.violate(("feature", f), "the document library is built to count in other units: %s" % f, {"file": "daemon/Cargo.toml"})
