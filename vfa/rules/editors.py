"""How the daemon talks to its editors: which functions do what, found by their types."""
from ..rulelib import *
from .common import MUTATORS
from .own import Owned

SINK = ("futures_util::sink::SinkExt::send",)


def arg_types(F, b):
    ty = F.types[b["locals"][1]] if b["argc"] else None
    if ty is not None and ty["k"] in ("closure", "coroutine"):
        return [F.types[a]["s"] for a in ty["a"]]
    return [F.types[b["locals"][i + 1]]["s"] for i in range(b["argc"])]


def ends(t, what):
    return t.lstrip("&").replace("mut ", "").endswith(what)


def answering(m):
    """Functions of an editor connection that say what to send for a message of the daemon: {name: message argument}."""
    out = {}
    for h, b in m.F.bodies.items():
        if h in m.live and b["kind"] != "Closure" and "::EditorProtocolMessageToEditor" in m.F.types[b["locals"][0]]["s"]:
            i = [i for i, t in enumerate(arg_types(m.F, b)) if ends(t, "::ComponentMessage")]
            if len(i) == 1:
                out[m.name(h)] = i[0]
    return out


def asking(m):
    """Functions of an editor connection that take a message of its editor: {name: message argument}."""
    out = {}
    for h, b in m.F.bodies.items():
        ret = m.F.types[b["locals"][0]]["s"]
        if h in m.live and b["kind"] != "Closure" and "::ComponentMessage" in ret and "::EditorProtocolMessageToEditor" in ret:
            i = [i for i, t in enumerate(arg_types(m.F, b)) if ends(t, "::EditorProtocolMessageFromEditor")]
            if len(i) == 1:
                out[m.name(h)] = i[0]
    return out


def with_message(c, m, reaches, avoids, what="::ComponentMessage"):
    """Functions with such an argument that lead to some calls and not to others: {name: (argument, types)}."""
    f, g = matcher(reaches), matcher(avoids)
    rel = Engine(c.facts).closure_over(lambda h: m.name(h) in reaches or any(f(n) for n in m.callees[h][1]))
    no = Engine(c.facts).closure_over(lambda h: m.name(h) in avoids or any(g(n) for n in m.callees[h][1]))
    out = {}
    for h in (rel - no) & m.live:
        b = c.facts.bodies[h]
        if b["kind"] == "Closure":
            continue
        ts = arg_types(c.facts, b)
        i = [i for i, t in enumerate(ts) if ends(t, what)]
        if len(i) == 1:
            out[m.name(h)] = (i[0], ts)
    return out


def telling(c, m):
    """Functions that pass a message on to the editors: {name: (message argument, editor left out or None)}."""
    a = tuple(answering(m))
    return {
        k: (i, next((j for j, t in enumerate(ts) if t.lstrip("&").startswith("core::option::Option<")), None))
        for k, (i, ts) in with_message(c, m, a, MUTATORS).items()
        if k not in a
    }


def applying(c, m):
    """Functions that carry out a message on the document: {name: message argument}."""
    return {k: i for k, (i, ts) in with_message(c, m, MUTATORS, tuple(answering(m))).items()}


def sending(c, m):
    """Functions that send something to one editor: {name: (editor argument, message argument)}."""
    out = {}
    for k, (i, ts) in with_message(c, m, SINK, MUTATORS, "::EditorProtocolObject").items():
        j = [j for j, t in enumerate(ts) if ends(t, "usize")]
        if len(j) == 1:
            out[k] = (j[0], i)
    return out


class Editors:
    """Ghosts for what is sent to editors, told to all of them and carried out on the document."""

    def __init__(self, c, m):
        self.c, self.m = c, m
        self.o = Owned(c.facts)
        self.answer, self.ask = answering(m), asking(m)
        self.tell, self.apply, self.send = telling(c, m), applying(c, m), sending(c, m)
        for what, found in (
            ("function that tells an editor a change", self.answer),
            ("function that takes the message of an editor", self.ask),
            ("function that passes a change to the editors", self.tell),
            ("function that carries out the message of an editor", self.apply),
        ):
            if not found:
                c.violate(("anchor", what), "no %s found" % what)

    @property
    def opaque(self):
        return tuple(self.answer) + tuple(self.ask) + tuple(self.tell) + tuple(self.apply) + tuple(self.send)

    def once(self, st, g):
        if g in st.facts:
            happened(st, ghost("again", g))
        happened(st, g)

    def on_event(self, st, n):
        name, args = carried_out(self.m, n)
        if name is None:
            return
        if name in self.send:
            i, j = self.send[name]
            self.once(st, ghost("send", args[i], args[j]))
        elif name[6:] in SINK and name.startswith("await "):
            self.once(st, ghost("send", args[0], args[1]))
        elif name in self.tell:
            i, j = self.tell[name]
            self.once(st, ghost("tell", args[j] if j is not None else NONE, args[i]))
        elif name in self.apply:
            self.once(st, ghost("apply", args[self.apply[name]]))
        elif name in self.ask:
            self.once(st, ghost("ask", n.data.ret, args[0], args[self.ask[name]]))
        elif name in self.answer:
            self.once(st, ghost("answer", n.data.ret, args[0], args[self.answer[name]]))

    def other(self, names=(), **opts):
        return self.m.other(self.opaque + SINK + tuple(names), hold_fact=lambda t: True, pin_args=True, never=self.opaque, want_back=True, ghost=self.on_event, **opts)

    def is_conns(self, t):
        return any(x.op in ("fld", "vfld") and x.args[-1] in self.o.conns for x in t.sub)

    def gone(self, facts, who):
        """The editor is known not to be connected."""
        return any(t.op == "mapget" and f == ("=", "None") and t.args[1] is who and self.is_conns(t.args[0]) for t, f in facts.items())

    def check_senders(self):
        """What sends to one editor really does so."""
        c, m = self.c, self.m
        for name in sorted(self.send):
            i, j = self.send[name]
            h = self.m.ids[name]
            if m.is_wrapper(h):
                h = next(x for x in m.callees[h][0] if c.facts.bodies[x].get("coroutine"))
            others = tuple(x for x in self.send if x != name)
            mm = self.m.other(SINK + others, hold_fact=lambda t: True, pin_args=True, ghost=self.on_event, never=others)
            E = mm.free(h)
            who, msg = mk("sym", "arg", m.name(h), i), mk("sym", "arg", m.name(h), j)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                c.oblige(kind="ways_out_of_sending_to_an_editor", sample=name)
                if self.gone(n.facts, who):
                    continue
                s = [t for t in n.facts if is_ghost(t, "send") and t.args[1][1] is msg and who in t.args[1][0].sub]
                if len(s) != 1 or any(is_ghost(t, "again") for t in n.facts):
                    c.violate(("send", name), "%s may not send the message exactly once" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
