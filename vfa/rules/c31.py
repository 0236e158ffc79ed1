"""C31: a change keeps its meaning when it is passed between editors, the document and the transformation."""
from .conv import *
from .conv import Conv

TECHNIQUE = "disjunctive abstract interpretation of each conversion with loop-carried positions as sums; every round of the loop is compared with the meaning of the operation"
NOTE = "Each conversion between representations of a change is analysed on its own, for every operation and every state of the loop. That the operations of the libraries (rope, transformation, document) do what they are documented to do is assumed."


def run(c):
    c.rule = (
        "For each conversion of a change: every operation is turned, in order and exactly once, into one of the same kind, size and text, "
        "unless it is known to do nothing. Positions are the numbers of characters kept, deleted or inserted before, as the target counts them; "
        "ranges of editors are turned into positions with line starts of the text they refer to, in whatever direction they are given."
    )
    k = Conv(c)
    for key, what in ((("D", "E"), "that gives changes to editors"), (("E", "D"), "that takes changes from editors"), (("D", "O"), "that hands changes to the transformation"), (("O", "D"), "that takes changes from the transformation"), (("P", "F"), "that reads changes of the document")):
        if not k.by.get(key):
            c.violate(("anchor",) + key, "no conversion found %s" % what)
    if not k.by.get(("D", "doc")) and not k.by.get(("E", "doc")):
        c.violate(("anchor", "doc"), "no function found that applies a change to the document")
    for h in k.by.get(("D", "O"), []):
        plain(c, k, h, "D", lambda a: getf(a, "0"))
    for h in k.by.get(("O", "D"), []):
        plain(c, k, h, "O", lambda a: mk("call", SEQ + "::ops", (a,), None))
    for h in k.by.get(("D", "E"), []):
        ranges(c, k, h)
    for h in k.by.get(("E", "D"), []):
        offsets(c, k, h)
    for h in k.by.get(("D", "doc"), []) + k.by.get(("E", "doc"), []):
        document(c, k, h)
    for h in k.by.get(("P", "F"), []):
        patches(c, k, h)
    for h in k.by.get(("D", "DD"), []):
        compose(c, k, h)


def title(k, h):
    return k.c.facts.bodies[h]["p"]


def every(c, k, h, E, is_source):
    """All elements are dealt with, and nothing else is written down."""
    name = title(k, h)
    for n in E.nodes:
        if n.kind == "end" and n.ret is not None:
            c.oblige(kind="ends_of_conversions", sample=name)
            if not k.exhausted(n, is_source):
                k.complain(("all", name), "%s: may end before all operations are converted" % name, E, n)
            if k.did(n):
                k.complain(("more", name), "%s: writes operations that are not in what is converted" % name, E, n)


def plain(c, k, h, frm, ops, amounts=None):
    """One operation for each operation."""
    name = title(k, h)
    E = k.analyse(h, ())
    src = ops(k.arg(h, frm))
    is_source = lambda t: plainly(t) is src or plainly(t) is k.arg(h, frm)
    seen = set()
    for n, el, later in k.rounds(E, is_source):
        v = variant(n.facts, el)
        c.oblige(kind="rounds_of_conversions", sample="%s: %s" % (name, v))
        kinds = {"Retain": "R", "Equal": "R", "Insert": "I", "Delete": "X"}
        if v not in kinds:
            k.complain(("kind", name), "%s: an operation is converted without looking at its kind" % name, E, n)
            continue
        seen.add(v)
        p = inner(el, v)
        if v != "Insert" and frm == "C":
            w = {count(p): 1}
        else:
            w = p if v == "Insert" else size(p)
        want = [] if nothing(n.facts, kinds[v], w) else [(kinds[v], w)]
        got = k.did(n)
        if not agree(n.facts, normal(n.facts, got), want):
            k.complain(("op", name, v), "%s: %s is not converted to the same operation (%s)" % (name, v, told(got)), E, n)
    if len(seen) < 3:
        c.violate(("shape", name), "%s: conversions of only %s found" % (name, ", ".join(sorted(seen)) or "nothing"))
    every(c, k, h, E, is_source)


def told(ops):
    return "; ".join("%s %s" % ({"R": "keep", "I": "insert", "X": "delete", "E": "replace", "S": "splice"}.get(k, k), ", ".join(str(x) for x in a)) for k, a in ops) or "nothing"


def carried(c, k, h, E, rounds, places, name):
    """Positions advance by what each operation stands for. rounds: (node, element, later, expected step)."""
    for f in sorted(places.forms, key=str):
        form = dict(f)
        loops = {s.args[0] for s in form}
        for n, v, later, step, w in rounds:
            if not loops <= {l[0] for l in n.loops}:
                continue
            now, before = {}, {}
            for s, q in form.items():
                x = value_at(n, s)
                if x is None:
                    now = None
                    break
                now = plus(now, size(w(x), n.facts), q)
                before = plus(before, {s: q})
            if now is None:
                continue
            c.oblige(kind="positions_after_an_operation", sample="%s: %s" % (name, v))
            want = plus(before if later else {}, step)
            if now != want and not same(n.facts, now, want):
                k.complain(("advance", name, str(v)), "%s: the position is not advanced by what %s stands for" % (name, v), E, n)


def ranges(c, k, h):
    """Changes for editors: ranges in the text before the change."""
    name = title(k, h)
    E = k.analyse(h, ())
    src = getf(k.arg(h, "D"), "0")
    content = k.arg(h, "S")
    is_source = lambda t: plainly(t) is src or plainly(t) is k.arg(h, "D")
    places, rounds, seen = Places(), [], set()
    for n, el, later in k.rounds(E, is_source):
        v = variant(n.facts, el)
        c.oblige(kind="rounds_of_conversions", sample="%s: %s" % (name, v))
        if v not in ("Retain", "Insert", "Delete"):
            k.complain(("kind", name), "%s: an operation is converted without looking at its kind" % name, E, n)
            continue
        seen.add(v)
        p = inner(el, v)
        amount = p if v == "Insert" else size(p)
        rounds.append((n, v, later, {} if v == "Insert" else amount, lambda t: t))
        got = k.did(n)
        if v == "Retain" or nothing(n.facts, {"Insert": "I", "Delete": "X"}[v], amount):
            if got:
                k.complain(("op", name, v), "%s: an operation that changes nothing is passed on as a change" % name, E, n)
            continue
        if len(got) != 1 or got[0][0] != "E":
            k.complain(("op", name, v), "%s: %s is not passed on exactly once" % (name, v), E, n)
            continue
        s, e, text = got[0][1]
        a, b = offset(s, content), offset(e, content)
        if a is None or b is None:
            k.complain(("position", name, v), "%s: a position is not the line and character of an offset in the text" % name, E, n)
            continue
        f = places.see(a)
        if plus(a, f, -1) or bool(f) != later:
            k.complain(("start", name, v), "%s: %s does not begin where the operations before it end" % (name, v), E, n)
        if b != plus(a, amount if v == "Delete" else {}) or (text is not p if v == "Insert" else text != EMPTY):
            k.complain(("op", name, v), "%s: %s is passed on with another extent or text" % (name, v), E, n)
    carried(c, k, h, E, rounds, places, name)
    if len(seen) < 3 or not places.forms:
        c.violate(("shape", name), "%s: conversions of only %s found" % (name, ", ".join(sorted(seen)) or "nothing"))
    every(c, k, h, E, is_source)


def extent(facts, el, content):
    """(first offset, length) of a range by each order of its ends that is possible."""
    r = getf(el, "range")
    s, e = getf(r, "start"), getf(r, "end")
    a, b = at(s, content), at(e, content)
    out = []
    for o in orders(facts, s, e):
        if o != "after":
            out.append((a, plus(b, a, -1) if o == "before" else {}, o))
        else:
            out.append((b, plus(a, b, -1), o))
    return out


def equal_ends(el, o):
    """How to write what is known when both ends of a range are the same."""
    if o != "same":
        return lambda t: t
    s = getf(getf(el, "range"), "start")
    both = adt("EditorTextOp", None, ("range", "replacement"), (adt("Range", None, ("start", "end"), (s, s)), getf(el, "replacement")))
    return lambda t: subst(t, {el: both})


def is_length(facts, got, want):
    return got == want or same(facts, got, want)


def offsets(c, k, h):
    """Changes from editors."""
    name = title(k, h)
    opaque = tuple(k.m.name(x) for x in k.by.get(("D", "DD"), []))
    E = k.analyse(h, opaque)
    src = getf(k.arg(h, "E"), "0")
    content = k.arg(h, "S")
    is_source = lambda t: plainly(t) is src or plainly(t) is k.arg(h, "E")
    some = False
    for n, el, later in k.rounds(E, is_source):
        some = True
        got = k.did(n)
        for lo, length, o in extent(n.facts, el, content):
            c.oblige(kind="rounds_of_conversions", sample="%s: range with its start %s its end" % (name, {"same": "at"}.get(o, o)))
            w = equal_ends(el, o)
            facts = {w(t): f for t, f in n.facts.items()}
            ops = [(q, tuple(map(w, x))) for q, x in got]
            text = getf(el, "replacement")
            want = [(q, v) for q, v in (("R", lo), ("X", length), ("I", text)) if not nothing(facts, q, v)]
            if want and want[-1][0] == "R" and not ops:
                continue  # keeping is all there would be
            if not agree(facts, normal(facts, ops), want):
                k.complain(("op", name, o), "%s: with the start of a range %s its end, the change is not the replacement of that range (%s)" % (name, {"same": "at"}.get(o, o), told(got)), E, n)
    for n in E.nodes:
        if n.kind == "call" and n.data.name in opaque:
            c.oblige(kind="changes_joined", sample=name)
            if any(x.op == "elem" and is_source(x.args[0]) for x in n.data.args[0].sub) and not any(x.op == "elem" and is_source(x.args[0]) for x in n.data.args[1].sub):
                k.complain(("order", name), "%s: changes are joined in the wrong order" % name, E, n)
    if not some:
        c.violate(("shape", name), "%s: no loop over the ranges found" % name)
    for n in E.nodes:
        if n.kind == "end" and n.ret is not None:
            c.oblige(kind="ends_of_conversions", sample=name)
            if not k.exhausted(n, is_source):
                k.complain(("all", name), "%s: may end before all ranges are converted" % name, E, n)


def document(c, k, h):
    """Changes applied to the document."""
    name = title(k, h)
    opaque = tuple(k.m.name(x) for x in k.by.get(("D", "E"), []))
    E = k.analyse(h, opaque)
    d = k.arg(h, "D")
    if d is None:
        d = k.arg(h, "E")
    texts = set()
    srcs = {}
    for n in E.nodes:
        if n.kind == "call" and n.data.name in opaque and d in n.data.args:
            other = [x for x in n.data.args if x is not d]
            t = mk("call", n.data.name, tuple(n.data.args), None)
            srcs[n.data.ret] = other[0] if other else None
            srcs[getf(n.data.ret, "0")] = other[0] if other else None
    if d.args[0] == "arg" and not srcs:
        srcs = {d: None, getf(d, "0"): None}
    is_source = lambda t: plainly(t) in srcs
    places, rounds, some = Places(), [], False
    for n, el, later in k.rounds(E, is_source):
        some = True
        src = next(plainly(s) for s, x in n.data if x is el)
        got = k.did(n)
        v = variant(n.facts, el)
        content = srcs[src]
        if content is not None:
            if not any(x.op == "call" and x.args[0].endswith("ReadDoc::text") for x in content.sub):
                k.complain(("text", name), "%s: positions are looked up in another text than that of the document" % name, E, n)
            cases = []
            for lo, length, o in extent(n.facts, el, content):
                w = equal_ends(el, o)
                cases.append((o, lo, length, getf(el, "replacement"), {w(t): f for t, f in n.facts.items()}, w))
        else:
            p = inner(el, v)
            if v not in ("Retain", "Insert", "Delete"):
                k.complain(("kind", name), "%s: an operation is applied without looking at its kind" % name, E, n)
                continue
            cases = [(v, {}, size(p) if v == "Delete" else {}, p if v == "Insert" else EMPTY, n.facts, lambda t: t)]
        for o, lo, length, text, facts, w in cases:
            c.oblige(kind="changes_applied_to_the_document", sample="%s: %s" % (name, o))
            if content is not None:
                step = plus({count(text): 1}, length, -1)
            else:
                step = {"Retain": size(inner(el, v)) if v == "Retain" else {}, "Insert": {count(text): 1}, "Delete": {}}[v]
            rounds.append((n, o, later, step, w))
            if o == "Retain" or nothing(facts, "X", length) and nothing(facts, "I", text):
                if any(not (nothing(facts, "X", size(a[1])) and a[2] == EMPTY) for q, a in got):
                    k.complain(("op", name, o), "%s: something that changes nothing is applied as a change" % name, E, n)
                if o == "Retain" or not got:
                    continue
            if len(got) != 1 or got[0][0] != "S":
                k.complain(("op", name, o), "%s: a change is not applied exactly once" % name, E, n)
                continue
            pos, cut, new = map(w, got[0][1][:3])
            pos, cut = size(pos, facts), size(cut, facts)
            rest = plus(pos, lo, -1)
            f = places.see(rest)
            if plus(rest, f, -1) or bool(f) != later:
                k.complain(("start", name, o), "%s: the change is not applied where it belongs after the ones before it" % name, E, n)
            if not is_length(facts, cut, length) or new is not text and not (new == EMPTY and nothing(facts, "I", text)):
                k.complain(("op", name, o), "%s: the change is applied with another extent or text" % name, E, n)
    carried(c, k, h, E, rounds, places, name)
    if not some or not places.forms:
        c.violate(("shape", name), "%s: no loop over the operations found" % name)
    every(c, k, h, E, is_source)


def patches(c, k, h):
    """Changes of the document read from patches."""
    name = title(k, h)
    E = k.analyse(h, ())
    a = getf(k.arg(h, "P"), "action")
    seen = set()
    for n in E.nodes:
        if n.kind != "end" or n.ret is None or not any(x.op == "agg" and x.args[1].endswith("::FileTextDelta") for x in n.ret.sub):
            continue
        v = variant(n.facts, a)
        got = k.did(n)
        c.oblige(kind="changes_read_from_patches", sample="%s: %s" % (name, v))
        if v not in ("SpliceText", "DeleteSeq"):
            if got:
                k.complain(("op", name, str(v)), "%s: operations are made from a patch of another kind" % name, E, n)
            continue
        seen.add(v)
        index = size(vfld(a, v, "index"))
        if v == "SpliceText":
            t = vfld(a, v, "value")
            text = [x for y in list(n.facts) for x in y.sub if x.op == "call" and x.args[0].endswith("::make_string") and x.args[1][0] is t]
            if not text:
                k.complain(("text", name), "%s: the inserted text is not that of the patch" % name, E, n)
                continue
            want = [("R", index), ("I", text[0])]
        else:
            want = [("R", index), ("X", size(vfld(a, v, "length")))]
        want = [(q, x) for q, x in want if not nothing(n.facts, q, x)]
        if not agree(n.facts, normal(n.facts, got), want):
            k.complain(("op", name, v), "%s: %s does not become the same change (%s)" % (name, v, told(got)), E, n)
    if len(seen) < 2:
        c.violate(("shape", name), "%s: changes read from only %s found" % (name, ", ".join(sorted(seen)) or "nothing"))


def compose(c, k, h):
    """Two changes one after the other."""
    name = title(k, h)
    opaque = tuple({k.m.name(x) for q in (("D", "O"), ("O", "D")) for x in k.by.get(q, [])})
    E = k.analyse(h, opaque)
    first, second = (mk("sym", "arg", k.m.name(h), i) for i in (0, 1))
    conv = lambda t: t.args[1][0] if t.op == "call" and t.args[0] in opaque else None
    some = False
    for n in E.nodes:
        if n.kind != "end" or n.ret is None:
            continue
        some = True
        c.oblige(kind="ways_to_join_changes", sample=name)
        x = conv(n.ret)
        x = x.args[0] if x is not None and x.op in ("vfld", "fld") else x
        if x is None or x.op != "call" or x.args[0] != SEQ + "::compose":
            k.complain(("result", name), "%s: the result is not the two changes joined" % name, E, n)
            continue
        a, b = x.args[1]
        sides = []
        for t in (a, b):
            pads = {}
            while t.op == "ver" and t.args[0] == SEQ + "::retain":
                pads = plus(pads, size(t.args[3][1]))
                t = t.args[3][0]
            sides.append((conv(t), pads, t))
        if sides[0][0] is not first or sides[1][0] is not second:
            k.complain(("order", name), "%s: the two changes are not joined in order" % name, E, n)
            continue
        l = plus({mk("call", SEQ + "::target_len", (sides[0][2],), None): 1}, sides[0][1])
        r = plus({mk("call", SEQ + "::base_len", (sides[1][2],), None): 1}, sides[1][1])
        # where the second is the shorter one, the library says so
        most = {mk("call", "max", tuple(sorted((mk("call", SEQ + "::base_len", (sides[1][2],), None), mk("call", SEQ + "::target_len", (sides[0][2],), None)))), None): 1}
        if not same(n.facts, l, r) and not (not sides[0][1] and not sides[1][1] and not_negative(n.facts, plus(l, r, -1))) and not (l == most and not sides[1][1]):
            k.complain(("length", name), "%s: a change that does not mention the end of the text is not extended to its length" % name, E, n)
    if not some:
        c.violate(("shape", name), "%s: never ends" % name)
