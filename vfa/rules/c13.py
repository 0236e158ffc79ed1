"""C13: every request of an editor gets exactly one response."""
from ..rulelib import *
from .actor import loop
from .c22 import SENDS, local_type
from .editors import *

TECHNIQUE = "modular dataflow over MIR with ghost facts: responses sent on every way out of the handling of a line"
NOTE = (
    "All paths from a line of text read from an editor to the end of its handling. "
    "The sockets are assumed to accept what is sent; an editor that is gone gets no answer."
)
PARSE = ("serde_json::de::from_str", "serde_json::de::from_slice", "serde_json::value::from_value", "serde_json::de::from_reader")
NEXT = ("futures_util::stream::stream::StreamExt::next", "futures_util::stream::try_stream::TryStreamExt::try_next", "::Lines::next_line")


def parsers(m):
    """Functions that turn a line into a message of an editor."""
    return sorted({m.top(h) for h in m.sites(PARSE) if "::JSONRPCFromEditor" in m.F.types[m.F.bodies[h]["locals"][0]]["s"] or local_type(m, h, "::JSONRPCFromEditor")}, key=m.name)


def parsed(t):
    return next((x for x in t.sub if x.op == "call" and x.args[0] in PARSE), None)


def lines_of(m, h):
    """What may be the line and the editor in a function: arguments, or parts of a message."""
    return [(mk("sym", "arg", m.name(h), i), t) for i, t in enumerate(arg_types(m.F, m.F.bodies[h]))]


class Rule:
    def __init__(self, c, m, ed):
        self.c, self.m, self.ed = c, m, ed
        self.handlers = {}

    def response(self, t):
        """(response, its kind, its id) of a ghost for something sent to an editor."""
        msg = t.args[1][1]
        if not (msg.op == "agg" and msg.args[2] == "Response"):
            return None
        r = getf(msg, "@Response.0")
        kind = r.args[2] if r.op == "agg" else None
        return r, kind, getf(r, "@%s.id" % kind) if kind else None

    def judge(self, E, h):
        c, m, ed = self.c, self.m, self.ed
        who = [s for s, t in lines_of(m, h) if ends(t, "usize")]
        n_ends = 0
        for n in E.nodes:
            if n.kind != "end":
                continue
            fs = n.facts
            ps = {parsed(t) for t in fs if not is_ghost(t)} - {None}
            ps = [p for p in ps if p in fs]
            if not ps:
                continue
            n_ends += 1
            c.oblige(kind="ways_out_of_handling_a_line", sample=m.name(h))

            def bad(key, msg):
                c.violate((key, m.name(h)), "%s: %s" % (m.name(h), msg), c.at(E, n), c.trace(E, from_root(E, n.id)))

            if len(ps) > 1:
                bad("parsed", "a line is parsed more than once")
                continue
            p = ps[0]
            sent = [t for t in fs if is_ghost(t, "send")]
            rs = [(t,) + self.response(t) for t in sent if self.response(t)]
            vague = [t for t in sent if not (t.args[1][1].op == "agg" and t.args[1][1].args[2] in ("Request", "Response"))]
            # sends in loops
            many = [t for t in fs if t.op == "forall" and is_ghost(t.args[1], "send") and self.response(t.args[1])]
            if vague or many or any(is_ghost(t, "again") and is_ghost(t.args[1][0], "send") for t in fs):
                bad("again", "more than one response may be sent")
                continue
            if fs[p] == ("=", "Err"):
                if len(rs) != 1:
                    bad("invalid", "%s is sent for a line that cannot be understood" % ("nothing" if not rs else "more than one response"))
                    continue
                t, r, kind, rid = rs[0]
                if kind != "RequestError" or rid is not NONE:
                    bad("invalid", "a line that cannot be understood is not answered with an error without id")
            elif fs.get(vfld(p, "Ok", "0")) == ("=", "Notification"):
                if rs:
                    bad("notification", "a notification is answered")
                continue
            elif fs.get(vfld(p, "Ok", "0")) == ("=", "Request"):
                if len(rs) != 1:
                    bad("request", "%s is sent for a request" % ("no response" if not rs else "more than one response"))
                    continue
                t, r, kind, rid = rs[0]
                req = vfld(p, "Ok", "0")
                want = vfld(req, "Request", "id")
                if kind == "RequestError":
                    if not (rid.op == "agg" and rid.args[2] == "Some" and getf(rid, "@Some.0") is want):
                        bad("id", "an error response may not have the id of the request")
                elif kind == "RequestSuccess":
                    if rid is not want:
                        bad("id", "a response may not have the id of the request")
                    payload = vfld(req, "Request", "payload")
                    asked = [x.args[1] for x in fs if is_ghost(x, "ask") and x.args[1][2] is payload]
                    done = any(
                        fs.get(ask) == ("=", "Ok")
                        and any(is_ghost(x, "apply") and x.args[1][0] is getf(vfld(ask, "Ok", "0"), "0") for x in fs)
                        for ask, conn, _ in asked
                    )
                    if not done:
                        bad("success", "success may be reported for a request that was not carried out")
                    elif any(t.args[1][0] not in conn.sub for ask, conn, _ in asked):
                        bad("who", "a response may go to another editor")
                else:
                    bad("kind", "unknown what is sent as a response")
            else:
                bad("unknown", "unknown what kind of message a response is for")
                continue
            to = rs[0][0].args[1][0]
            if not (any(w in to.sub for w in who) or any(x.op == "vfld" and x.args[1] == "FromEditor" and x.args[2] == "0" for x in to.sub)):
                bad("who", "a response may go to another editor")
        return n_ends

    def run(self):
        c, m, ed = self.c, self.m, self.ed
        todo = parsers(m)
        if not todo:
            c.violate(("anchor", "parse"), "no function found that parses the lines of editors")
        mm = ed.other(PARSE)
        seen = set()
        while todo:
            h = todo.pop(0)
            if h in seen:
                continue
            seen.add(h)
            E = mm.free(h)
            if any(n.kind == "end" and n.ret is not None and parsed(n.ret) is not None for n in E.nodes):
                todo.extend(sorted(m.callers(h), key=m.name))
                continue
            if self.judge(E, h):
                self.handlers[m.name(h).split("::{closure")[0]] = h
        if not self.handlers and not c.violations:
            c.violate(("anchor", "handling"), "no function found that handles the lines of editors")

    # -- from the socket to the handler ---------------------------------------------
    def dispatch(self):
        """A message with a line leads to its handler, together with the editor it is from."""
        c, m, ed = self.c, self.m, self.ed
        names = self.handlers

        def on_event(st, n):
            name, args = carried_out(m, n)
            if name in names:
                happened(st, ghost("handled", *args))
            elif n.kind == "call" and name in PARSE:
                happened(st, ghost("handled", *args))

        found = 0
        hold = lambda t: is_ghost(t) or t.op in ("mapget", "sym")
        mm = m.other(tuple(names) + PARSE, hold_fact=hold, pin_args=True, ghost=on_event, never=tuple(names))
        roots = set()
        for h in names.values():
            if any(ends(t, "::DocMessage") for s, t in lines_of(m, h)):
                roots.add(h)
            else:
                up = h
                b = c.facts.bodies[h]
                roots |= m.callers(b["parent"] if b.get("coroutine") else h)
        for g in sorted(roots, key=m.name):
            E = mm.free(g) if g not in names.values() else m.other(PARSE, hold_fact=hold, pin_args=True, ghost=on_event).free(g)
            for n in E.nodes:
                if n.kind != "end":
                    continue
                for t, f in n.facts.items():
                    if f == ("=", "FromEditor"):
                        found += 1
                        c.oblige(kind="ways_out_of_handling_a_message_with_a_line")
                        who, line = vfld(t, "FromEditor", "0"), vfld(t, "FromEditor", "1")
                        if ed.gone(n.facts, who):
                            continue
                        hs = [x for x in n.facts if is_ghost(x, "handled") and any(a is line for a in x.args[1])]
                        if len(hs) != 1:
                            c.violate(("dispatch", m.name(g)), "%s can drop a line of an editor" % m.name(g), c.at(E, n), c.trace(E, from_root(E, n.id)))
                        elif len(hs[0].args[1]) > 1 and not any(a is who for a in hs[0].args[1]):
                            c.violate(("dispatch", m.name(g), "who"), "%s can mix up the editors" % m.name(g), c.at(E, n), c.trace(E, from_root(E, n.id)))
        if not found:
            c.violate(("anchor", "dispatch"), "no place found where messages with lines of editors are handled")

    def reading(self):
        """Each line that is read is sent on; reading goes on until the editor is gone."""
        c, m = self.c, self.m
        sends = matcher(SENDS)

        def on_event(st, n):
            name, args = carried_out(m, n)
            if name is not None and (name.startswith("await ") and sends(name[6:]) or name.endswith("::blocking_send") and sends(name)) and len(args) > 1:
                happened(st, ghost("sent", args[1]))

        mm = m.other(SENDS + NEXT, hold_fact=lambda t: True, pin_args=True, ghost=on_event, want_back=True)
        found = 0
        for h in sorted(m.live, key=m.name):
            b = c.facts.bodies[h]
            if not any(matcher(NEXT)(x) for x in m.callees[h][1]) or not any("LinesCodec" in c.facts.types[l]["s"] for l in b["locals"]):
                continue
            E = mm.free(m.top(h))
            if not any(is_ghost(t, "sent") and t.args[1][0].op == "agg" and t.args[1][0].args[2] == "FromEditor" for n in E.nodes for t in n.facts or ()):
                continue
            for n in E.nodes:
                if n.kind not in ("back", "end"):
                    continue
                got = [(t, f) for t, f in n.facts.items() if t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call" and matcher(NEXT)(t.args[1][0].args[0])]
                over = False
                for t, f in got:
                    line = vfld(t, "Some", "0")
                    if f == ("=", "None") or n.facts.get(line) == ("=", "Err"):
                        over = True
                        continue
                    found += 1
                    c.oblige(kind="lines_read")
                    text = vfld(line, "Ok", "0")
                    if not any(
                        is_ghost(x, "sent") and x.args[1][0].op == "agg" and x.args[1][0].args[2] == "FromEditor" and getf(x.args[1][0], "@FromEditor.1") is text
                        for x in n.facts
                    ):
                        c.violate(("read", m.name(h)), "%s can drop a line of an editor" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
                if n.kind == "end" and not over:
                    c.violate(("read", m.name(h), "stop"), "%s can stop reading while the editor is there" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
        if not found:
            c.violate(("anchor", "read"), "no place found where lines of editors are read")


def run(c):
    c.rule = (
        "Each line that is read is sent to the document together with the editor it is from, and handled unless the editor is gone. On every way out of its handling "
        "exactly one response was sent to that editor: an error without id if it could not be parsed; for a request one with its id, "
        "success only if it was carried out; none for a notification."
    )
    m = Modular(c, ())
    ed = Editors(c, m)
    if not ed.send:
        c.violate(("anchor", "send"), "no function found that sends to an editor")
    ed.check_senders()
    r = Rule(c, m, ed)
    r.run()
    r.dispatch()
    r.reading()
    loop(c, m, "FromEditor")
