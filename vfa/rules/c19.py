"""C19: revision numbers count every operation exactly once."""
from ..rulelib import *
from .editors import answering, asking
from .ot import OT, kind, linear, plus

TECHNIQUE = "value dataflow over MIR: counters, stamps and queue of unconfirmed operations as terms over their old values, on all paths"
NOTE = "All ways through the functions that take a change of the daemon or of the editor, and through those that turn messages into such changes."


def run(c):
    c.rule = (
        "A change of the daemon raises only the daemon's counter, by one, puts exactly that operation at the end of the queue and is stamped with the editor's counter. "
        "A change of the editor raises only the editor's counter, by one, takes as many operations from the start of the queue as the editor has seen since, and everything sent for it is stamped with the raised counter. "
        "A message of the editor leads to exactly one such change, with its revision; everything that results is sent with its stamp. Opening a file starts with both counters at zero."
    )
    o = OT(c)
    if c.violations or not o.find():
        return
    m = c_daemon(c, o)
    c_editor(c, o)
    c_new(c, o)
    c_others(c, o)
    c_messages(c, o)


def c_daemon(c, o):
    for h, i in sorted(o.out.items()):
        E, ends = o.ends(h)
        name = o.m.name(h)
        if not ends:
            c.violate(("end", name), "%s never ends" % name)
        for n in ends:
            c.oblige(5, kind="ways_through_changes_of_the_daemon", sample=name)

            def bad(what, text):
                o.complain((what, name), "%s: %s" % (name, text), E, n)

            old = linear(o.field(h, o.dm))
            if linear(o.final(E, h, n, o.dm)) != plus(old, {None: 1}):
                bad("count", "a change of the daemon is not counted exactly once")
            if o.final(E, h, n, o.ed) is not o.field(h, o.ed):
                bad("other count", "the count of the editor's changes is altered by a change of the daemon")
            q = o.final(E, h, n, o.queue)
            if not (q.op == "ver" and q.args[0].endswith(("Vec::push", "VecDeque::push_back")) and q.args[3][0] is o.field(h, o.queue) and o.arg(h, i) in q.args[3][1].sub):
                bad("queue", "a change of the daemon is not kept exactly once, at the end of what is not confirmed yet")
            r = stamp(n.ret)
            if r is None or r[0] is not o.field(h, o.ed):
                bad("stamp", "a change is not stamped with the number of changes seen from the editor")
            if r is None or o.arg(h, i) not in r[1].sub:
                bad("change", "what is sent is not the change")


def stamp(t):
    if t.op == "agg" and t.args[1].endswith("::RevisionedEditorTextDelta"):
        return getf(t, "revision"), getf(t, "delta")
    if t.op == "agg" and t.args[0] == "tuple" and len(t.args[4]) == 2:
        return t.args[4][0], t.args[4][1]
    return None


def c_editor(c, o):
    for h, i in sorted(o.come.items()):
        E, ends = o.ends(h)
        name = o.m.name(h)
        rev, delta = o.revision(h)
        if not ends:
            c.violate(("end", name), "%s never ends" % name)
        queue = o.field(h, o.queue)
        size = mk("call", "len", (queue,), None)
        seen = plus(plus(linear(size), linear(o.field(h, o.dm)), -1), linear(rev))
        for n in ends:
            c.oblige(6, kind="ways_through_changes_of_the_editor", sample=name)

            def bad(what, text):
                o.complain((what, name), "%s: %s" % (name, text), E, n)

            if linear(o.final(E, h, n, o.ed)) != plus(linear(o.field(h, o.ed)), {None: 1}):
                bad("count", "a change of the editor is not counted exactly once")
            if o.final(E, h, n, o.dm) is not o.field(h, o.dm):
                bad("other count", "the count of the daemon's changes is altered by a change of the editor")
            q = o.final(E, h, n, o.queue)
            left = None
            if q.op in ("fld", "vfld") and q.args[0].op == "call" and q.args[0].args[0] in o.trans:
                io, il, ro = o.trans[q.args[0].args[0]]
                if q.args[-1] == str(1 - ro):
                    left = q.args[0].args[1][il]
            s = o.split(E, left) if left is not None else None
            if s is None or s[0] is not queue or linear(s[1]) != seen:
                bad("queue", "what is kept are not exactly the changes that the editor has not confirmed")
            # everything that is sent
            lists = [x for x in n.ret.sub if x.op == "coll"]
            for x in lists:
                for it in x.args[1]:
                    r = stamp(it.args[1])
                    if r is None:
                        bad("stamp", "something is sent to the editor without a number of changes seen from it")
                    elif linear(r[0]) != plus(linear(o.field(h, o.ed)), {None: 1}):
                        bad("stamp", "a change is not stamped with the number of changes seen from the editor")
                    elif it.args[0] is not q:
                        bad("sent", "what is sent are not the changes that are kept")
            if not lists:
                bad("sent", "the changes that are kept are not sent to the editor")
            if any(not x.args[1] for x in lists) and not never_more(n.facts, q):
                bad("sent", "the changes that are kept may not be sent to the editor")
        for n in E.nodes:
            if n.kind != "back":
                continue
            over = [src for src, el in n.data if src is not None and any(x.kind == "end" and x.ret is not None and o.final(E, h, x, o.queue) is src for x in ends)]
            if not over:
                continue
            c.oblige(kind="changes_sent_again")
            if any(is_ghost(t, "again") for t in n.facts):
                o.complain(("twice", name), "%s: a change may be sent twice" % name, E, n)
            if any(is_ghost(t, "pushed") for x in E.nodes if x.kind == "back" and x.data == n.data for t in x.facts) and not any(is_ghost(t, "pushed") for t in n.facts):
                o.complain(("left out", name), "%s: a change that is kept may not be sent" % name, E, n)


def never_more(facts, q):
    """The list is known to be empty."""
    return any(t.op == "forall" and t.args[0] is q and t.args[1] is BV and f == ("=", "empty") for t, f in facts.items()) or any(
        f == ("=", True) and t.op == "call" and t.args[0] == "is_empty" and t.args[1][0] is q for t, f in facts.items()
    )


def c_new(c, o):
    for h in sorted(o.new):
        E, ends = o.ends(h)
        name = o.m.name(h)
        for n in ends:
            c.oblige(2, kind="ways_to_open_a_file", sample=name)
            for f in o.fields("n"):
                v = getf(n.ret, f)
                if not zero(v):
                    o.complain(("zero", name, f), "%s: counting does not start at zero" % name, E, n)
            v = getf(n.ret, o.queue)
            if not zero(v):
                o.complain(("zero", name), "%s: the queue of changes does not start empty" % name, E, n)


def zero(v):
    if v == const(0) or v.op == "k" and v.args[0] == 0:
        return True
    if v.op == "coll":
        return not v.args[1]
    b = base(v)
    return b.op == "call" and b.args[0].endswith(("Default::default", "Vec::new", "VecDeque::new"))


def c_others(c, o):
    for h in sorted(o.rest):
        E, ends = o.ends(h)
        name = o.m.name(h)
        for n in ends:
            c.oblige(kind="other_uses_of_the_state", sample=name)
            for f in (o.ed, o.dm, o.queue):
                if n.mem is not None and ("arg:" + name, 0) in n.mem and o.final(E, h, n, f) is not o.field(h, f):
                    o.complain(("other", name, f), "%s: counters or queue are altered without a change" % name, E, n)
    # nothing else touches the state
    names = {o.m.name(h) for h in list(o.out) + list(o.come)}
    for h in o.m.live:
        if h in o.below or o.m.top(h) in o.below or o.c.facts.bodies[h].get("derived"):
            continue


def c_messages(c, o):
    m = o.m
    ask, answer = asking(m), answering(m)
    for what, found in (("takes the message of an editor", ask), ("tells an editor a change", answer)):
        if not found:
            c.violate(("anchor", what), "no function found that %s" % what)
    come = {m.name(h) for h in o.come}
    out = {m.name(h) for h in o.out}
    new = {m.name(h) for h in o.new}

    def on_event(st, n):
        if n.kind == "call" and n.data.name in come | out:
            g = ghost("did", n.data.args[0], n.data.ret, *n.data.args[1:])
            if any(is_ghost(t, "did") for t in st.facts):
                happened(st, ghost("again"))
            happened(st, g)
        if n.kind == "call" and n.data.name.endswith("HashMap::insert") and len(n.data.args) > 2:
            happened(st, ghost("opened", n.data.args[2]))

    never = tuple(come | out | new)
    F = c.facts
    small = tuple(F.bodies[h]["p"] for h in m.live if F.bodies[h]["p"].startswith("ethersync::types::Revisioned"))
    mm = m.other(never + ("::HashMap::insert",), hold_fact=lambda t: True, pin_args=True, never=never, ghost=on_event, want_back=True, always=small)

    def variant(n, x):
        f = n.facts.get(x)
        return f[1] if f and f[0] == "=" else None

    for name, i in sorted(ask.items()):
        h = m.ids[name]
        E = mm.free(h)
        msg = mk("sym", "arg", name, i)
        got = set()
        for n in E.nodes:
            if n.kind != "end" or n.ret is None:
                continue
            v = variant(n, msg)
            did = [t for t in n.facts if is_ghost(t, "did")]
            c.oblige(kind="ways_through_messages_of_editors", sample=name)

            def bad(what, text):
                o.complain((what, name), "%s: %s" % (name, text), E, n)

            if any(is_ghost(t, "again") for t in n.facts) or len(did) > 1:
                bad("twice", "a message of the editor may be counted twice")
                continue
            okay = n.ret.op == "agg" and n.ret.args[2] == "Ok"
            if did and v != "Edit":
                bad("other", "a message that is not a change is counted")
            if v == "Edit" and okay and not did:
                bad("none", "a change of the editor is accepted without being counted")
            if did and not okay:
                bad("lost", "a change of the editor is counted but not passed on")
            if did and okay:
                got.add("Edit")
                _, ret, *args = did[0].args[1]
                r = stamp(args[0]) if len(args) == 1 else (args[0], args[1])
                if r is None or r[0] is not mk("vfld", msg, "Edit", "revision") or r[1] is not mk("vfld", msg, "Edit", "delta"):
                    bad("revision", "the change is not taken with the revision and content that the editor gave")
                check_sent(c, o, E, n, ret, n.ret, bad)
        for n in E.nodes:
            if n.kind == "call" and n.data.name.endswith("HashMap::insert") and len(n.data.args) > 2 and kind_of_server(c, n.data.args[2], new):
                got.add("Open")
                c.oblige(kind="files_opened")
        for k in ("Edit", "Open"):
            if k not in got:
                c.violate(("anchor", k, name), "%s does not deal with %s" % (name, k))
    for name, i in sorted(answer.items()):
        h = m.ids[name]
        E = mm.free(h)
        msg = mk("sym", "arg", name, i)
        got = False
        for n in E.nodes:
            if n.kind != "end" or n.ret is None:
                continue
            c.oblige(kind="ways_through_changes_for_editors", sample=name)
            did = [t for t in n.facts if is_ghost(t, "did")]

            def bad(what, text):
                o.complain((what, name), "%s: %s" % (name, text), E, n)

            if any(is_ghost(t, "again") for t in n.facts) or len(did) > 1:
                bad("twice", "a change may be counted twice")
                continue
            items = n.ret.args[1] if n.ret.op == "coll" else None
            edits = [it for it in items or () if any(x.op == "agg" and x.args[2] == "Edit" for x in it.args[1].sub)]
            if not did:
                if edits:
                    bad("uncounted", "a change is sent without being counted")
                continue
            got = True
            _, ret, *args = did[0].args[1]
            if args[0] is not mk("vfld", msg, "Edit", "delta"):
                bad("change", "what is counted is not the change")
            if items is None or len(edits) != 1 or edits[0].args[0] is not UNIT:
                bad("sent", "a change that is counted is not sent exactly once")
                continue
            e = [x for x in edits[0].args[1].sub if x.op == "agg" and x.args[2] == "Edit"][0]
            if getf(e, "revision") is not getf(ret, "revision") or getf(e, "delta") is not getf(ret, "delta"):
                bad("stamp", "a change is not sent with its own revision")
        if not got:
            c.violate(("anchor", "change", name), "%s does not deal with changes" % name)


def kind_of_server(c, t, new):
    return t.op == "call" and t.args[0] in new


def check_sent(c, o, E, n, ret, value, bad):
    lists = [x for x in value.sub if x.op == "coll"]
    okay = False
    for x in lists:
        for it in x.args[1]:
            e = [y for y in it.args[1].sub if y.op == "agg" and y.args[2] == "Edit" and "revision" in y.args[3]]
            if not e:
                continue
            if not (it.args[0].op in ("fld", "vfld") and it.args[0].args[0] is ret):
                bad("sent", "what is sent are not the resulting changes")
            elif getf(e[0], "revision") is not getf(BV, "revision") or getf(e[0], "delta") is not getf(BV, "delta"):
                bad("stamp", "a change is not sent with its own revision")
            else:
                okay = True
        if not x.args[1] and any(t.op == "forall" and t.args[1] is BV and f == ("=", "empty") and base(t.args[0]) is ret for t, f in n.facts.items()):
            okay = True
    if not okay:
        bad("unsent", "the resulting changes are not all sent to the editor")
