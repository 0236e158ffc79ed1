"""The operational transformation between the daemon and one editor: its state and the functions that work on it."""
from ..rulelib import *
from .editors import arg_types

SEQ = "operational_transform::OperationSeq"
# anything that puts elements of a sequence elsewhere than at its end, or takes them away
DISORDER = ("insert", "push_front", "sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "rev", "swap", "swap_remove", "remove", "retain", "dedup", "truncate", "rotate_left", "rotate_right", "pop", "pop_back", "split_off", "resize", "skip", "take", "step_by", "filter")


def bare(s):
    s = s.lstrip("&").strip()
    for p in ("mut ",):
        if s.startswith(p):
            s = s[len(p) :]
    return s


def kind(s):
    """D: change of a text, E: the same for editors, R: that with a revision, O: for the transformation, S: text, Os: a list."""
    s = bare(s)
    if s.startswith(("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<", "[")):
        k = kind(s[s.index("<") + 1 : -1] if "<" in s else s[1:-1])
        return k + "s" if k else None
    last = s.rsplit("::", 1)[-1]
    if last == "TextDelta":
        return "D"
    if last == "EditorTextDelta":
        return "E"
    if last == "RevisionedEditorTextDelta":
        return "R"
    if s == SEQ:
        return "O"
    if last in ("str", "String"):
        return "S"
    if s == "usize":
        return "n"
    return None


def linear(t, facts=None):
    """A number as a sum: {term: factor}, with None for the constant."""
    out = {}

    def add(t, k):
        if is_const(t) and type(t.args[0]) is int:
            out[None] = out.get(None, 0) + k * t.args[0]
        elif t.op == "bin" and t.args[0] in ("Add", "Sub"):
            add(t.args[1], k)
            add(t.args[2], k if t.args[0] == "Add" else -k)
        elif t.op == "call" and t.args[0].startswith("as:"):
            add(t.args[1][0], k)
        elif t.op == "call" and t.args[0] == SEQ + "::base_len" and t.args[1][0].op == "ver" and t.args[1][0].args[0] == SEQ + "::retain" and len(t.args[1][0].args[3]) > 1:
            x, n = t.args[1][0].args[3]
            add(mk("call", SEQ + "::base_len", (x,), None), k)
            add(n, k)
        elif t.op == "call" and t.args[0].endswith("::saturating_sub"):
            a, b = t.args[1]
            add(mk("call", "max", tuple(sorted((a, b))), None), k)
            add(b, -k)
        elif t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "max" and len(t.args[1]) == 2:
            a, b = sorted(t.args[1])
            x = mk("call", "max", (a, b), None)
            out[x] = out.get(x, 0) + k
        elif t.op == "call" and t.args[0].endswith("::abs_diff") and facts is not None:
            a, b = t.args[1]
            if not_less(facts, a, b):
                add(a, k), add(b, -k)
            elif not_less(facts, b, a):
                add(b, k), add(a, -k)
            else:
                out[t] = out.get(t, 0) + k
        else:
            out[t] = out.get(t, 0) + k

    add(t, 1)
    return {x: k for x, k in out.items() if k}


def known(facts):
    """What is known not to be negative."""
    out = []
    for t, f in facts.items():
        if t.op == "bin" and t.args[0] == "Lt" and f[0] == "=":
            x, y = linear(t.args[1]), linear(t.args[2])
            out.append(plus(x, y, -1) if f[1] is False else plus(plus(y, x, -1), {None: -1}))
        elif t.op == "bin" and t.args[0] == "Eq" and f == ("=", True):
            x, y = linear(t.args[1]), linear(t.args[2])
            out += [plus(x, y, -1), plus(y, x, -1)]
        elif f[0] == "=" and type(f[1]) is int:
            out += [plus(linear(t), {None: -f[1]}), plus({None: f[1]}, linear(t), -1)]
    for l in list(out):
        for x, k in l.items():
            if x is not None and x.op == "call" and x.args[0] == "max" and k in (1, -1):
                rest = plus(l, {x: -k})
                for y in x.args[1]:
                    z = [w for w in x.args[1] if w is not y]
                    if k == -1:  # rest >= max(y, z)
                        out.append(plus(rest, linear(y), -1))
                    elif z and rest == plus({None: -1}, linear(z[0]), -1):  # max(y, z) > z
                        out.append(plus(rest, linear(y)))
                        out.append(plus(linear(y), {x: -1}))
    return out


def not_less(facts, a, b):
    """Is a >= b known?"""
    return not_negative(facts, plus(linear(a, facts), linear(b, facts), -1))


def not_negative(facts, d):
    if all(x is None and k >= 0 for x, k in d.items()):
        return True
    for x, k in d.items():
        if k == 1 and x is not None and x.op == "call" and x.args[0] == "max" and any(plus(d, {x: -1}) == plus({}, linear(y), -1) for y in x.args[1]):
            return True
    for l in known(facts):
        rest = plus(d, l, -1)
        if all(x is None and k >= 0 for x, k in rest.items()):
            return True
    return False


def same(facts, a, b):
    """Two sums that are equal."""
    d = plus(a, b, -1)
    return not d or not_negative(facts, d) and not_negative(facts, plus({}, d, -1))


def uncast(t):
    while t.op == "call" and t.args[0].startswith("as:"):
        t = t.args[1][0]
    return t


def plus(a, b, k=1):
    out = dict(a)
    for x, n in b.items():
        out[x] = out.get(x, 0) + k * n
    return {x: n for x, n in out.items() if n}


class OT:
    def __init__(self, c):
        self.c = c
        m = self.m = Modular(c, ())
        F = c.facts
        self.state = next((a for a in F.adts.values() if a["p"].startswith("ethersync") and a["p"].endswith("::OTServer")), None)
        if self.state is None:
            c.violate(("anchor", "state"), "the state of the transformation was not found")
            return
        own = lambda s: bare(s).endswith("::OTServer")
        self.conv, self.apply, self.trans, self.out, self.come, self.new, self.rest = {}, {}, {}, {}, {}, {}, {}
        methods = set()
        for h in m.live:
            b = F.bodies[h]
            if b["kind"] == "Closure" or not b["p"].startswith("ethersync") and not b["p"].startswith("<"):
                continue
            tys = arg_types(F, b)
            if tys and own(tys[0]):
                methods.add(h)
        for h in m.live:
            b = F.bodies[h]
            if b["kind"] == "Closure":
                continue
            tys, ret = arg_types(F, b), F.types[b["locals"][0]]["s"]
            ks, k = [kind(t) for t in tys], kind(ret)
            n = m.name(h)
            ops = [x for x in ks if x in ("D", "E", "O")]
            if h in methods:
                outside = any(m.top(g) not in methods for g in m.callers(h))
                if not outside:
                    continue
                if "D" in ks:
                    self.out[h] = ks.index("D")
                elif "R" in ks or "E" in ks:
                    self.come[h] = ks.index("R") if "R" in ks else ks.index("E")
                else:
                    self.rest[h] = None
            elif own(ret) and not b.get("derived"):
                self.new[h] = ks.index("S") if "S" in ks else None
            elif len(ops) == 1 and k in ("D", "E", "O") and k != ops[0] and all(x in ("D", "E", "O", "S") for x in ks):
                self.conv[n] = (ops[0], k)
            elif sorted(filter(None, ks)) == ["O", "S"] and len(ks) == 2 and k == "S":
                self.apply[n] = (ks.index("S"), ks.index("O"))
            elif sorted(filter(None, ks)) == ["O", "Os"] and len(ks) == 2 and ret.startswith("("):
                self.trans[n] = (ks.index("O"), ks.index("Os"), 0 if kind(ret[1:].split(", ")[0]) == "O" else 1)
        for what, x in (("a change made by the daemon", self.out), ("a change made by the editor", self.come), ("its start", self.new)):
            if not x:
                c.violate(("anchor", what), "no function of the transformation found for %s" % what)
        opaque = tuple(self.conv) + tuple(self.apply) + tuple(self.trans)
        below = set()
        work = list(self.out) + list(self.come) + list(self.new) + list(self.rest)
        while work:
            x = work.pop()
            if x in below or m.name(x) in opaque:
                continue
            below.add(x)
            work.extend(m.callees[x][0])
        self.below = below
        self.mm = m.other(opaque + (SEQ + "::*",), hold_fact=lambda t: True, pin_args=True, want_back=True, want_mem=("end", "back"), never=opaque, always=tuple({F.bodies[x]["p"] for x in below}), ghost=self.on_event)

    def on_event(self, st, n):
        if n.kind == "call" and n.data.name.endswith(("Vec::push", "VecDeque::push_back", "Vec::extend", "Extend::extend")):
            where = n.data.raw[0] if n.data.raw else UNIT
            g = ghost("pushed", where)
            if g in st.facts:
                happened(st, ghost("again", where))
            happened(st, g)

    def fields(self, k):
        return [f[0] for v in self.state["variants"] for f in v[1] if kind(self.c.facts.types[f[1]]["s"]) == k]

    # -- terms --------------------------------------------------------------------
    def is_conv(self, t, frm, to):
        """The argument of a conversion, or None."""
        if t.op == "call" and self.conv.get(t.args[0]) is not None:
            k = self.conv[t.args[0]]
            if k[1] == to and (k[0] == frm or t.args[0].endswith("From::from")):
                return t.args[1]
        return None

    def final(self, E, h, n, field):
        return getf(n.mem[("arg:" + self.m.name(h), 0)], field)

    def ends(self, h):
        E = self.mm.free(h)
        return E, [n for n in E.nodes if n.kind == "end" and n.ret is not None]

    def arg(self, h, i):
        return mk("sym", "arg", self.m.name(h), i)

    def field(self, h, f):
        return getf(self.arg(h, 0), f)

    def complain(self, key, text, E, n):
        self.c.violate(key, text, self.c.at(E, n), self.c.trace(E, from_root(E, n.id)))

    def find(self):
        """Which field is what."""
        c = self.c
        self.ed = self.dm = self.queue = self.seen = self.cur = None
        for h, i in self.out.items():
            E, ends = self.ends(h)
            for n in ends:
                for f in self.fields("n"):
                    if linear(self.final(E, h, n, f)) == plus(linear(self.field(h, f)), {None: 1}):
                        self.dm = f
                for f in self.fields("Os"):
                    v = self.final(E, h, n, f)
        for h, i in self.come.items():
            E, ends = self.ends(h)
            for n in ends:
                for f in self.fields("n"):
                    if linear(self.final(E, h, n, f)) == plus(linear(self.field(h, f)), {None: 1}) and f != self.dm:
                        self.ed = f
                for x in E.nodes:
                    if x.kind == "call" and x.data.name in self.trans:
                        io, il, _ = self.trans[x.data.name]
                        for f in self.fields("Os"):
                            if self.field(h, f) in x.data.args[il].sub:
                                self.queue = f
                    if x.kind == "call" and self.conv.get(x.data.name) == ("E", "D") and len(x.data.args) > 1:
                        for f in self.fields("S"):
                            if leads_to(E, x.data.args[1], lambda y: y is self.field(h, f)):
                                self.seen = f
        others = [f for f in self.fields("S") if f != self.seen]
        self.cur = others[0] if len(others) == 1 else None
        for what, x in (("counts the changes of the editor", self.ed), ("counts the changes of the daemon", self.dm), ("keeps unconfirmed changes", self.queue), ("is the text that the editor has", self.seen), ("is the current text", self.cur)):
            if x is None:
                c.violate(("anchor", what), "no part of the state found that %s" % what)
        return None not in (self.ed, self.dm, self.queue, self.seen, self.cur)

    def revision(self, h):
        """What the editor says it has seen."""
        i = self.come[h]
        tys = arg_types(self.c.facts, self.c.facts.bodies[h])
        if kind(tys[i]) == "R":
            return getf(self.arg(h, i), "revision"), getf(self.arg(h, i), "delta")
        j = [j for j, t in enumerate(tys) if kind(t) == "n"]
        return (self.arg(h, j[0]) if j else None), self.arg(h, i)

    def split(self, E, t):
        """(list, number of elements taken away from its start) of what is left of a list."""
        if t.op == "call" and t.args[0] == "undrained" and len(t.args[1]) > 1:
            r = t.args[1][1]
            if r.op == "agg" and r.args[1].endswith("RangeTo"):
                return t.args[1][0], r.args[4][0]
            if r.op == "agg" and r.args[1].endswith("::Range") and r.args[4][0] == const(0):
                return t.args[1][0], r.args[4][1]
        return None

    def taken(self, E, t):
        """(list, number) of the first elements of a list."""
        if t.op == "call" and t.args[0] == "drained" and len(t.args[1]) > 1:
            r = t.args[1][1]
            if r.op == "agg" and r.args[1].endswith("RangeTo"):
                return t.args[1][0], r.args[4][0]
            if r.op == "agg" and r.args[1].endswith("::Range") and r.args[4][0] == const(0):
                return t.args[1][0], r.args[4][1]
        return None
