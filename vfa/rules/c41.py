"""C41: concurrent edits of editor and daemon are transformed consistently."""
from ..rulelib import *
from .c19 import stamp
from .ot import OT, SEQ, linear, not_less, plus, same, uncast

TECHNIQUE = "value dataflow over MIR: every text and operation of the transformation as a term over its old values, compared with the diagram that makes both sides meet"
NOTE = (
    "All ways through the functions that take a change of the daemon or of the editor, through the step-wise transformation and through applying an operation to a text. "
    "That the library's transform and apply do what they promise for operations of fitting length is taken for granted."
)


def run(c):
    c.rule = (
        "A change of the editor is read against the text that the editor had: its last known text with the operations it has confirmed, in order. "
        "It is transformed step by step through all unconfirmed operations, each pair being brought to the same length and both results of each step being used in their own place. "
        "The transformed change is what the daemon applies and passes on; the transformed unconfirmed operations replace the old ones and are sent to the editor, each read against the text it applies to. "
        "A change of the daemon is read against the daemon's text, to which it is then applied."
    )
    o = OT(c)
    if c.violations or not o.find():
        return
    for what, x in (("applies an operation to a text", o.apply), ("transforms an operation through others", o.trans)):
        if not x:
            c.violate(("anchor", what), "no function found that %s" % what)
    daemon(c, o)
    editor(c, o)
    start(c, o)
    for name in sorted(o.trans):
        transform(c, o, name)
    for name in sorted(o.apply):
        applies(c, o, name)


def applied(o, t):
    """(text, operation) of a text that an operation was applied to."""
    if t.op == "call" and t.args[0] in o.apply:
        i, j = o.apply[t.args[0]]
        return t.args[1][i], t.args[1][j]
    return None


def daemon(c, o):
    for h, i in sorted(o.out.items()):
        E, ends = o.ends(h)
        name = o.m.name(h)
        for n in ends:
            c.oblige(4, kind="ways_through_changes_of_the_daemon", sample=name)

            def bad(what, text):
                o.complain((what, name), "%s: %s" % (name, text), E, n)

            d = o.arg(h, i)
            r = stamp(n.ret)
            a = o.is_conv(r[1], "D", "E") if r else None
            if a is None or d not in a or o.field(h, o.cur) not in a:
                bad("sent", "what is sent to the editor is not the change, read against the text before it")
            a = applied(o, o.final(E, h, n, o.cur))
            x = o.is_conv(a[1], "D", "O") if a else None
            if a is None or a[0] is not o.field(h, o.cur) or x is None or x[0] is not d:
                bad("text", "the change is not applied to the daemon's text")
            q = o.final(E, h, n, o.queue)
            x = o.is_conv(q.args[3][1], "D", "O") if q.op == "ver" and len(q.args[3]) > 1 else None
            if x is None or x[0] is not d:
                bad("queue", "what is kept is not the change")
            if o.final(E, h, n, o.seen) is not o.field(h, o.seen):
                bad("other text", "the text that the editor is known to have is altered although it has confirmed nothing")


def plain(t):
    """A list made of all elements of another one is that one."""
    while t.op == "coll" and len(t.args[1]) == 1:
        it = next(iter(t.args[1]))
        if it.args[1] is not BV:
            break
        t = it.args[0]
    return t


class Chain:
    """Texts that result from applying the elements of a list in order."""

    def __init__(self, o, E, sources, begins):
        self.o, self.E, self.sources, self.begins = o, E, sources, begins
        self.loops = set()

    def of(self, el):
        return el is BV or el.op in ("elem", "old", "any") and any(x.op == "elem" and x.args[0] in self.sources for x in el.sub)

    def during(self, t):
        """May the text before some element be this?"""
        if t in self.begins:
            return True
        if t.op in ("old", "any"):
            return self.during(t.args[0])
        if t.op in ("loop", "join"):
            if t in self.loops:
                return True
            self.loops.add(t)
            return bool(self.E.alts.get(t)) and all(self.step(x) or x in self.begins for x in self.E.alts[t])
        a = applied(self.o, t)
        # an element of an earlier round may look like the one of this round
        return a is not None and self.of(a[1]) and a[0] in self.begins

    def step(self, t):
        a = applied(self.o, t)
        return a is not None and self.of(a[1]) and (self.during(a[0]))

    def after(self, t, facts):
        if t in self.begins:
            return any(x.op == "forall" and plain(x.args[0]) in self.sources and x.args[1] is BV and f == ("=", "empty") for x, f in facts.items()) or any(
                x.op == "call" and x.args[0] == "is_empty" and plain(x.args[1][0]) in self.sources and f == ("=", True) for x, f in facts.items()
            )
        return self.during(t) or self.step(t)

    def rounds(self):
        """Rounds of the loop that do not apply their element exactly once: the nodes where they end."""
        for n in self.E.nodes:
            if n.kind != "back" or not any(src is not None and plain(src) in self.sources for src, el in n.data):
                continue
            for s in self.loops:
                p = s.args[1]
                if p[0] not in n.mem or s.args[0] not in [l[0] for l in n.loops]:
                    continue
                v = n.mem[p[0]]
                for k in p[1:]:
                    v = getf(v, k)
                self.o.c.oblige(kind="rounds_of_loops_over_operations")
                a = applied(self.o, v)
                if a is None or not self.of(a[1]):
                    yield n
                else:
                    b = applied(self.o, a[0])
                    if b is not None and a[0] not in self.begins and b[0].op == "loop":
                        yield n


def editor(c, o):
    for h, i in sorted(o.come.items()):
        E, ends = o.ends(h)
        name = o.m.name(h)
        rev, delta = o.revision(h)
        chains = {}
        # ways through the function share the loops that follow
        queues = {o.final(E, h, n, o.queue) for n in ends}
        seens = {o.final(E, h, n, o.seen) for n in ends}
        for n in ends:
            c.oblige(6, kind="ways_through_changes_of_the_editor", sample=name)

            def bad(what, text):
                o.complain((what, name), "%s: %s" % (name, text), E, n)

            q = o.final(E, h, n, o.queue)
            T = q.args[0] if q.op in ("fld", "vfld") else None
            if T is None or T.op != "call" or T.args[0] not in o.trans:
                bad("queue", "what is kept are not the transformed unconfirmed changes")
                continue
            io, il, ro = o.trans[T.args[0]]
            mine, theirs = getf(T, str(1 - ro)), getf(T, str(ro))
            if q is not mine:
                bad("queue", "what is kept are not the transformed unconfirmed changes")
            X, left = T.args[1][io], T.args[1][il]
            d = o.is_conv(X, "D", "O")
            e = o.is_conv(d[0], "E", "D") if d else None
            if e is None or e[0] is not delta or len(e) < 2:
                bad("change", "what is transformed is not the change of the editor")
                continue
            W = e[1]
            # the text that the editor had
            confirmed = [mk("call", "drained", left.args[1], None)] if left.op == "call" and left.args[0] == "undrained" else []
            okay = False
            for src in confirmed:
                ch = chains.setdefault(("seen", src), Chain(o, E, {src}, {o.field(h, o.seen)}))
                okay = okay or ch.after(W, n.facts)
            if not okay:
                bad("base", "the change of the editor is not read against its last text with exactly the confirmed changes, in order")
            a = applied(o, o.final(E, h, n, o.seen))
            if a is None or a[0] is not W or a[1] is not X:
                bad("seen", "the text that the editor has is not kept up to date")
            a = applied(o, o.final(E, h, n, o.cur))
            if a is None or a[0] is not o.field(h, o.cur) or a[1] is not theirs:
                bad("text", "the transformed change is not applied to the daemon's text")
            passed = [x for x in n.ret.args[4]] if n.ret.op == "agg" else [n.ret]
            if not any((o.is_conv(x, "O", "D") or (None,))[0] is theirs for x in passed):
                bad("passed", "what is passed on is not the transformed change")
            for x in n.ret.sub:
                if x.op != "coll":
                    continue
                for it in x.args[1]:
                    r = stamp(it.args[1])
                    a = o.is_conv(r[1], "D", "E") if r else None
                    b = o.is_conv(a[0], "O", "D") if a else None
                    if b is None or b[0] is not BV or it.args[0] is not mine:
                        bad("sent", "what is sent to the editor are not the transformed unconfirmed changes")
                        continue
                    ch = chains.setdefault("sent", Chain(o, E, queues, seens))
                    if not ch.during(a[1]):
                        bad("sent text", "an unconfirmed change is read against another text than the one it applies to")
        if "sent" in chains and not chains["sent"].loops:
            c.violate(("fixed", name), "%s: unconfirmed changes are read against a text that lacks those before them" % name)
        for k in sorted(chains, key=str):
            for n in chains[k].rounds():
                o.complain(("round", name), "%s: not every operation is applied exactly once, in order" % name, E, n)
        order(c, o, h, E)


def order(c, o, h, E):
    """Nothing disturbs the order of the operations."""
    name = o.m.name(h)
    for n in E.nodes:
        if n.kind == "call" and n.data.name.rsplit("::", 1)[-1] in ("sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "rev", "swap", "swap_remove", "push_front", "rotate_left", "rotate_right", "insert") and n.data.name.split("::")[0] in ("alloc", "core", "std"):
            o.complain(("order", name), "%s: %s may change the order of the operations" % (name, n.data.short), E, n)


def start(c, o):
    for h, i in sorted(o.new.items()):
        E, ends = o.ends(h)
        name = o.m.name(h)
        for n in ends:
            c.oblige(2, kind="ways_to_open_a_file", sample=name)
            for f in (o.seen, o.cur):
                if i is None or getf(n.ret, f) is not o.arg(h, i):
                    o.complain(("start", name, f), "%s: the texts do not start with the content of the file" % name, E, n)


def unpad(t):
    """(operation, what it was extended by)"""
    pads = []
    while t.op == "ver" and t.args[0] == SEQ + "::retain" and len(t.args[3]) > 1:
        pads.append(t.args[3][1])
        t = t.args[3][0]
    return t, pads


def length(t, pads, facts):
    out = linear(mk("call", SEQ + "::base_len", (t,), None))
    for p in pads:
        out = plus(out, linear(p, facts))
    return out


def safe(facts, p):
    """No number gets below zero."""
    p = uncast(p)
    if p.op == "bin" and p.args[0] == "Sub":
        return not_less(facts, p.args[1], p.args[2])
    return True


def transform(c, o, name):
    h = o.m.ids[name]
    io, il, ro = o.trans[name]
    mm = o.m.other((SEQ + "::*",), hold_fact=lambda t: True, pin_args=True, want_back=True, want_mem=("back",), ghost=o.on_event, always=always(o, h))
    E = mm.free(h)
    mine, theirs = mk("sym", "arg", name, il), mk("sym", "arg", name, io)

    def bad(what, text, n):
        o.complain((what, name), "%s: %s" % (name, text), E, n)

    def is_mine(t):
        return t.op == "elem" and t.args[0] is mine or t is BV

    def is_theirs(t, seen=()):
        if t is theirs:
            return True
        if t.op in ("loop", "join"):
            return t in seen or bool(E.alts.get(t)) and all(is_theirs(x, seen + (t,)) for x in E.alts[t])
        r = result(t)
        return r == "theirs"

    def result(t):
        """Whose transformed operation this is."""
        if t.op == "fld" and t.args[0].op == "vfld" and t.args[0].args[1] == "Ok":
            x = t.args[0].args[0]
            if x.op == "call" and x.args[0] == SEQ + "::transform" and t.args[1] in ("0", "1"):
                a = unpad(x.args[1][int(t.args[1])])[0]
                return "mine" if is_mine(a) else "theirs"
        return None

    steps = 0
    for n in E.nodes:
        if n.kind == "call" and n.data.name == SEQ + "::transform":
            steps += 1
            c.oblige(2, kind="transformation_steps", sample=name)
            (a, pa), (b, pb) = unpad(n.data.args[0]), unpad(n.data.args[1])
            if is_mine(a) == is_mine(b) or not is_theirs(b if is_mine(a) else a):
                bad("pair", "an unconfirmed operation is not transformed together with the result of the step before", n)
            if not same(n.facts, length(a, pa, n.facts), length(b, pb, n.facts)) or not all(safe(n.facts, p) for p in pa + pb):
                bad("length", "operations of different length may be transformed", n)
        elif n.kind == "back" and any(src is mine for src, el in n.data):
            c.oblige(2, kind="rounds_of_loops_over_operations")
            again = [t for t in n.facts if is_ghost(t, "again")]
            lists = [v for v in n.mem.values() if v.op == "coll" and any(result(it.args[1]) for it in v.args[1])]
            if again or not lists and not any(is_ghost(t, "pushed") for t in n.facts) and any(x.kind == "call" and x.data.name.endswith("Vec::push") for x in E.nodes):
                bad("kept", "a transformed operation is not kept exactly once", n)
            ts = [t for t in E.alts if t.op == "loop" and any(result(x) == "theirs" for x in E.alts[t])]
            for t in ts:
                p = t.args[1]
                v = n.mem.get(p[0])
                for k in p[1:]:
                    v = getf(v, k) if v is not None else None
                if v is not None and result(v) != "theirs":
                    bad("step", "the result of a step is not used for the next one", n)
        elif n.kind == "end" and n.ret is not None:
            c.oblige(2, kind="ways_through_transformation", sample=name)
            t, l = getf(n.ret, str(ro)), getf(n.ret, str(1 - ro))
            empty = any(x.op == "forall" and x.args[0] is mine and x.args[1] is BV and f == ("=", "empty") for x, f in n.facts.items())
            if not is_theirs(unpad(t)[0]) or t is theirs and not empty:
                bad("result", "the resulting change is not the transformed one", n)
            if l.op != "coll" or any(it.args[0] is not mine or result(it.args[1]) != "mine" for it in l.args[1]) or not l.args[1] and not empty:
                bad("results", "the resulting operations are not all the transformed ones", n)
            if not l.op == "coll":
                continue
    order(c, o, h, E)
    if not steps:
        c.violate(("anchor", name), "%s transforms nothing" % name)


def always(o, h):
    out, work = set(), [h]
    while work:
        x = work.pop()
        if x not in out:
            out.add(x)
            work.extend(o.m.callees[x][0])
    return tuple({o.c.facts.bodies[x]["p"] for x in out})


def applies(c, o, name):
    h = o.m.ids[name]
    i, j = o.apply[name]
    mm = o.m.other((SEQ + "::*",), hold_fact=lambda t: True, pin_args=True, always=always(o, h))
    E = mm.free(h)
    text, op = mk("sym", "arg", name, i), mk("sym", "arg", name, j)
    for n in E.nodes:
        if n.kind != "end" or n.ret is None:
            continue
        c.oblige(2, kind="ways_through_applying_an_operation", sample=name)

        def bad(what, text):
            o.complain((what, name), "%s: %s" % (name, text), E, n)

        x = n.ret.args[0] if n.ret.op == "vfld" and n.ret.args[1] == "Ok" else None
        if x is None or x.op != "call" or x.args[0] != SEQ + "::apply" or x.args[1][1] is not text:
            bad("apply", "the result is not the text with the operation applied")
            continue
        a, pads = unpad(x.args[1][0])
        if a is not op:
            bad("apply", "another operation is applied")
        size = [t for t in sizes(n, text)]
        if pads:
            if not any(same(n.facts, length(a, pads, n.facts), linear(t)) for t in size) or not all(safe(n.facts, p) for p in pads):
                bad("length", "an operation may be extended by a wrong length")
        elif not any(not_less(n.facts, mk("call", SEQ + "::base_len", (a,), None), t) for t in size):
            bad("length", "a shorter operation is not extended to the length of the text")


def sizes(n, text):
    """Terms for the number of characters of the text."""
    for t in n.facts:
        for x in t.sub:
            if x.op == "call" and x.args[0] == "count" and x.args[1][0].op == "call" and x.args[1][0].args[0].endswith("str::chars") and x.args[1][0].args[1][0] is text:
                yield x
