"""C07: syncing with a peer loses neither wake-ups nor its state."""
from ..rulelib import *
from . import actor
from .c22 import compatible
from .c23 import SPAWN
from .common import MPSC_RECV
from .own import places

TECHNIQUE = "typestate over MIR dataflow: the sync state of a peer between the document and its task, and what each wake-up leads to"
NOTE = (
    "All paths of the task that syncs with a peer and of the answers the document gives to it, for any order of wake-ups and messages. "
    "That the sync library needs no more than being asked after each change is assumed."
)
SUBSCRIBE = ("tokio::sync::broadcast::Sender::subscribe", "tokio::sync::broadcast::Receiver::resubscribe")
PING = "tokio::sync::broadcast::Sender::send"
PINGED = "tokio::sync::broadcast::Receiver::recv"
SENDS = ("tokio::sync::mpsc::bounded::Sender::send", "tokio::sync::mpsc::unbounded::UnboundedSender::send", "tokio::sync::mpsc::bounded::Sender::blocking_send")
REPLY = ("tokio::sync::oneshot::Sender::send",)
CHANNEL = "tokio::sync::oneshot::channel"
STATE = "automerge::sync::state::State"
OPEN, ACCEPT = ("::Control::open_stream",), ("::Control::accept",)
EVENTS = ("::StreamExt::next", "::StreamExt::select_next_some")
NEWS = "ConnectionEstablished"
WRITES = ("::AsyncWriteExt::write_all", "::AsyncWriteExt::write")
READS = ("::AsyncReadExt::read_exact", "::AsyncReadExt::read", "::AsyncReadExt::read_to_end")
WIRE = WRITES + READS
LIB = {"Generate": "::SyncDoc::generate_sync_message", "Receive": ("::SyncDoc::receive_sync_message", "::SyncDoc::receive_sync_message_log_patches")}


class Rule:
    def __init__(self, c, m):
        self.c, self.m = c, m
        F = c.facts
        # messages that carry the state, and where it is kept
        self.kinds = {}
        self.fields = set()
        self.unasked = False
        for a in F.adts.values():
            if not a["p"].startswith("ethersync"):
                continue
            for v in a["variants"]:
                st = [f[0] for f in v[1] if F.types[f[1]]["s"] == STATE]
                tx = [f[0] for f in v[1] if F.types[f[1]]["s"].startswith("tokio::sync::oneshot::Sender<")]
                msg = [f[0] for f in v[1] if F.types[f[1]]["s"].endswith("automerge::sync::Message")]
                if len(st) == 1 and len(tx) == 1:
                    self.kinds[v[0]] = (st[0], tx[0], msg[0] if msg else None)
                elif st:
                    self.fields.update((a["p"], x) for x in st)

    def bad(self, key, msg, E, n):
        c = self.c
        c.violate(key, msg, c.at(E, n), c.trace(E, from_root(E, n.id)))

    def parts(self, msg):
        """(kind, state, channel of the answer, peer message) of a message with a sync state."""
        if msg.op != "agg" or msg.args[2] not in self.kinds:
            return None
        k = msg.args[2]
        st, tx, pm = self.kinds[k]
        tx = getf(msg, "@%s.%s" % (k, tx))
        ch = next((x for x in tx.sub if x.op == "call" and x.args[0] == CHANNEL), None)
        return k, getf(msg, "@%s.%s" % (k, st)), ch, getf(msg, "@%s.%s" % (k, pm)) if pm else None

    # -- ghosts -----------------------------------------------------------------------
    def drop(self, st, *names):
        st.facts = {t: f for t, f in st.facts.items() if not is_ghost(t, *names)}

    def on_event(self, st, n):
        if n.kind == "set" and type(n.data.name) is str and any(n.data.name == norm(p) + "::" + f for p, f in self.fields):
            v = n.data.args[0]
            flights = [t for t in st.facts if is_ghost(t, "flight")]
            if flights and any(self.answer_in(v, t.args[1][0]) for t in flights):
                self.drop(st, "flight", "taken", "lost")
            elif self.blank(v) and not flights:
                if n.data.extra is not None:
                    happened(st, ghost("taken", n.data.extra))
            else:
                happened(st, ghost("lost", v))
            return
        name, args = carried_out(self.m, n)
        if name is None:
            return
        if name in SUBSCRIBE:
            happened(st, ghost("subscribed"))
        elif name == "await " + PINGED:
            self.drop(st, "asked")
        elif name.startswith("await ") and name[6:] in SENDS or name in SENDS and "blocking" in name:
            p = self.parts(args[1])
            if p is None:
                happened(st, ghost("passed", args[1]))
                return
            kind, state, ch, pm = p
            if any(is_ghost(t, "flight") for t in st.facts):
                happened(st, ghost("early"))
            if any(is_ghost(t, "lost") for t in st.facts):
                happened(st, ghost("late"))
            happened(st, ghost("flight", ch if ch is not None else UNIT))
            happened(st, ghost("stepped"))
            if pm is None:
                happened(st, ghost("asked"))
                if any(is_ghost(t, "given") for t in st.facts):
                    happened(st, ghost("followed"))
            else:
                self.drop(st, "followed")
                happened(st, ghost("given", pm))

    @staticmethod
    def blank(v):
        return v.op == "call" and (v.args[0] == "Default::default" or v.args[0].endswith("State::new"))

    @staticmethod
    def answer_in(v, ch):
        """Is this the answer that came back through the channel?"""
        rx = getf(ch, "1")
        return any(x.op == "call" and x.args[0] == "await" and x.args[1][0] is rx for x in v.sub)

    # -- the task ---------------------------------------------------------------------
    def task(self):
        c, m = self.c, self.m
        if not self.kinds or not self.fields:
            c.violate(("anchor", "state"), "no sync state found")
            return
        e = Engine(c.facts)
        makes = set()
        for h, b in c.facts.bodies.items():
            for blk in b["blocks"]:
                for s in blk["s"]:
                    if s[0] not in ("dead", "live", "setdisc") and s[1][0] == "agg" and s[1][1] == "adt" and any(k in str(s[1]) for k in self.kinds):
                        makes.add(h)
        for h in makes:
            c.counts["functions_that_send_the_state"] = c.counts.get("functions_that_send_the_state", 0) + (h in m.live)
        a = e.closure_over(lambda h: h in makes)
        b = e.closure_over(lambda h: any(n in (PINGED,) for n in m.callees[h][1]))
        both = {h for h in a & b & m.live if not m.is_wrapper(h)}
        roots = []
        for h in sorted(both, key=m.name):
            if m.top(h) != h:
                continue
            below = set()
            work = list(m.callees[h][0])
            while work:
                x = work.pop()
                if x not in below:
                    below.add(x)
                    work.extend(m.callees[x][0])
            if not (below & both) - {h}:
                roots.append(h)
        if not roots:
            c.violate(("anchor", "task"), "no task found that syncs with a peer whenever the document changes")
        recv = tuple(MPSC_RECV) + (PINGED,)
        mm = m.other(recv + SENDS + SUBSCRIBE + (CHANNEL,), hold_fact=lambda t: True, pin_args=True, want_back=True, ghost=self.on_event, want_mem=SENDS, fields=tuple(f for _, f in self.fields))
        for h in roots:
            self.judge(mm.free(h), m.name(h))

    def judge(self, E, name):
        c = self.c
        asks = 0
        sends = matcher(SENDS)
        for n in E.nodes:
            fs = n.facts
            if n.kind == "call" and sends(n.data.name) and len(n.data.args) > 1:
                p = self.parts(n.data.args[1])
                if p is None:
                    continue
                kind, state, ch, pm = p
                c.oblige(kind="steps", sample="%s in %s" % (kind, name))
                if pm is None:
                    asks += 1
                    if not any(is_ghost(t, "subscribed") for t in fs):
                        self.bad(("subscribe", name), "%s: changes made before subscribing to them may be missed" % name, E, n)
                if any(is_ghost(t, "flight", "lost") for t in fs):
                    self.bad(("state", name, "early"), "%s: a step may start although the state of the last one was not taken over" % name, E, n)
                here = any(is_ghost(t, "taken") and t.args[1][0] is state for t in fs) or any(state in places(v) for v in (n.mem or {}).values())
                if self.blank(state) and any(is_ghost(t, "stepped") for t in fs):
                    here = False
                if not here or not self.proper(E, state, set()):
                    self.bad(("state", name, kind), "%s: a step (%s) may not start from the state that the last one left" % (name, kind), E, n)
            if n.kind == "pending":
                f = n.data.args[0]
                if f.op == "agg" and f.args[0] in ("coroutine", "closure") or any(x.op == "call" and x.args[0] in SENDS for x in f.sub):
                    self.bad(("cancel", name), "%s: a step may be given up half-way" % name, E, n)
            if n.kind == "back":
                c.oblige(kind="rounds", sample=name)
                self.round(E, n, name)
            if n.kind == "end" and n.ret is not None:
                self.over(E, n, name)
        # the first step comes before waiting
        stop = lambda x: x.kind in ("call", "await") and sends(x.data.name) and len(x.data.args) > 1 and self.parts(x.data.args[1]) is not None and self.parts(x.data.args[1])[3] is None
        par = reach(E, [E.roots[0][1]], stop=stop)
        for i in par:
            x = E.nodes[i]
            if x.kind in ("await", "pending") and any(y.op == "call" and y.args[0] in MPSC_RECV + (PINGED,) for a in x.data.args for y in a.sub):
                self.bad(("start", name), "%s: nothing may be sent to the peer at the start" % name, E, x)
                break
        if not asks:
            c.violate(("anchor", "ask", name), "%s never asks for what to send to the peer" % name)

    def proper(self, E, t, seen):
        """Only the first state or what came back."""
        if t in seen:
            return True
        seen.add(t)
        if t.op in ("loop", "join"):
            return all(self.proper(E, x, seen) for x in E.alts.get(t, ()))
        if t.op == "old":
            return self.proper(E, t.args[0], seen)
        if t.op in ("fld", "vfld"):
            b = base(t)
            return b.op == "sym" or b.op == "call" and b.args[0] == "await" and any(x.op == "call" and x.args[0] == CHANNEL for x in b.sub)
        return t.op == "sym" or self.blank(t)

    def round(self, E, n, name):
        fs = n.facts
        if any(is_ghost(t, "flight", "lost", "early") for t in fs):
            self.bad(("state", name, "kept"), "%s: the state that a step left may not be taken over" % name, E, n)
        for t, f in fs.items():
            if t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call":
                what = t.args[1][0].args[0]
                if what == PINGED and f == ("=", "Ok") and not any(is_ghost(x, "asked") for x in fs):
                    self.bad(("ping", name), "%s: a change of the document may not lead to a message for the peer" % name, E, n)
                if what in MPSC_RECV and f == ("=", "Some") and not any(is_ghost(x, "given") and x.args[1][0] is vfld(t, "Some", "0") for x in fs):
                    self.bad(("message", name), "%s: a message of the peer may be dropped" % name, E, n)
                if what in MPSC_RECV and f == ("=", "Some") and not any(is_ghost(x, "followed") for x in fs):
                    self.unasked = True
            # what the document answered
            if f == ("=", "Some") and t.op in ("fld", "vfld"):
                b = base(t)
                if b.op == "call" and b.args[0] == "await" and any(x.op == "call" and x.args[0] == CHANNEL for x in b.sub):
                    if not any(is_ghost(x, "passed") and vfld(t, "Some", "0") in x.args[1][0].sub for x in fs):
                        self.bad(("forward", name), "%s: a message for the peer may not be passed on" % name, E, n)

    def over(self, E, n, name):
        """The task ends only when there is nobody to sync with."""
        self.c.oblige(kind="ends_of_the_task")
        for t, f in n.facts.items():
            if t.op == "call" and t.args[0] == "await" and f in (("=", "Err"), ("=", "None")):
                a = t.args[1][0]
                if a.op != "call" or a.args[0] != PINGED:
                    return
                if n.facts.get(vfld(t, "Err", "0")) == ("=", "Closed"):
                    return
        self.bad(("stop", name), "%s: syncing may stop while the peer is connected" % name, E, n)

    # -- the connections ---------------------------------------------------------------
    def connections(self):
        """Each connection gets a stream, each stream a task that syncs over it."""
        c, m = self.c, self.m
        opened, accepted = matcher(OPEN), matcher(ACCEPT)
        roots = [h for h in m.live if any(opened(x) or accepted(x) for x in m.callees[h][1])]
        for _ in range(3):
            # the functions that handle the events of the network
            roots = [g for h in roots for g in ([h] if any(matcher(EVENTS)(x) for x in m.callees[h][1]) and c.facts.bodies[h].get("coroutine") else m.callers(h))]
        roots = sorted(set(roots), key=m.name)
        if not roots:
            c.violate(("anchor", "connections"), "no function found that opens and accepts streams of peers")

        def on_event(st, n):
            if n.kind == "spawn":
                for a in n.data.args:
                    for x in a.sub:
                        if self.stream(x):
                            happened(st, ghost("handed", x))

        def hold(t):
            b = base(t)
            return is_ghost(t) or b.op == "call" and b.args[0] == "await" and any(x.op == "call" and (matcher(EVENTS)(x.args[0]) or opened(x.args[0]) or accepted(x.args[0])) for x in b.sub)

        mm = m.other(EVENTS + SPAWN + OPEN + ACCEPT + SENDS + tuple(MPSC_RECV) + WIRE, hold_fact=hold, pin_args=True, want_back=True, ghost=on_event)
        for h in roots:
            E = mm.free(h)
            self.established(E, m.name(h))
            self.wiring(E, m.name(h))

    @staticmethod
    def stream(t):
        """How a stream was obtained: "opened", "accepted" or None."""
        if t.op not in ("fld", "vfld"):
            return None
        b = base(t)
        if b.op != "call" or b.args[0] != "await":
            return None
        x = b.args[1][0]
        if x.op == "call" and matcher(OPEN)(x.args[0]):
            return "opened" if t is vfld(b, "Ok", "0") else None
        if x.op == "call" and matcher(EVENTS)(x.args[0]) and any(y.op == "call" and matcher(ACCEPT)(y.args[0]) for y in x.sub):
            return "accepted" if t is getf(vfld(b, "Some", "0"), "1") else None
        return None

    def established(self, E, name):
        c = self.c
        seen = 0
        # streams may be accepted apart from the news that there is a connection
        apart = False
        for n in E.nodes:
            if n.kind == "await" and self.accepting(n.data.args[0]) and not any(f == ("=", NEWS) for f in n.facts.values()):
                apart = True
        for n in E.nodes:
            if n.kind != "back" or E.callpath(n.ctx)[0][0] != name:
                continue
            fs = n.facts
            handed = [t.args[1][0] for t in fs if is_ghost(t, "handed")]
            for t, f in list(fs.items()):
                if t.op == "call" and t.args[0] == "await" and f in (("=", "Ok"), ("=", "Some")):
                    got = vfld(t, "Ok", "0") if f[1] == "Ok" else getf(vfld(t, "Some", "0"), "1")
                    if self.stream(got) and got not in handed:
                        self.bad(("stream", name, self.stream(got)), "%s: a stream to a peer may not be used to sync with it" % name, E, n)
            # the events of this round
            evs = {t for t in fs if t.op in ("fld", "vfld") and base(t).op == "call" and fs.get(t) is not None and t is vfld(base(t), "Some", "0") and not self.accepting(base(t).args[1][0])}
            for ev in evs:
                if not compatible(fs, ev, NEWS):
                    continue
                end = vfld(ev, NEWS, "endpoint")
                for side, how in (("Dialer", "opened"), ("Listener", "accepted")):
                    if not compatible(fs, end, side):
                        continue
                    seen += 1
                    c.oblige(kind="connections_established", sample="%s in %s" % (side, name))
                    if any(self.stream(x) == how for x in handed) or how == "accepted" and apart:
                        continue
                    # there is no stream
                    if any(t.op == "call" and t.args[0] == "await" and (f == ("=", "Err") and how == "opened" and matcher(OPEN)(t.args[1][0].args[0]) or f == ("=", "None") and how == "accepted" and self.accepting(t.args[1][0])) for t, f in fs.items() if t.op == "call" and t.args[1] and t.args[1][0].op == "call"):
                        continue
                    self.bad(("connection", name, side), "%s: a connection to a peer (%s) may be established without syncing over it" % (name, side), E, n)
        if not seen:
            c.violate(("anchor", "established", name), "%s does not handle new connections" % name)

    @staticmethod
    def accepting(f):
        return any(x.op == "call" and matcher(ACCEPT)(x.args[0]) for x in f.sub)

    def wiring(self, E, name):
        """What the document wants to say goes to the stream, and what comes from there to the document."""
        c = self.c
        ends = {"send": {}, "wire": {}, "deliver": {}, "take": {}}
        write, read = matcher(WRITES), matcher(READS)
        for n in E.nodes:
            if n.kind != "await" or n.data.args[0].op != "call":
                continue
            f, a = n.data.args[0].args[0], n.data.args[0].args[1]
            if write(f):
                for x in a[-1].sub:
                    if x.op == "call" and x.args[0] == "await" and x.args[1][0].op == "call" and x.args[1][0].args[0] in MPSC_RECV:
                        ends["wire"].setdefault(x.args[1][0].args[1][0], n)
            elif f in SENDS:
                p = self.parts(a[1])
                if p is not None and p[3] is not None:
                    for x in p[3].sub:
                        if x.op == "call" and x.args[0] == "await" and x.args[1][0].op == "call" and x.args[1][0].args[0] in MPSC_RECV:
                            ends["take"].setdefault(x.args[1][0].args[1][0], n)
                elif p is None and any(x.op in ("call", "ver") and read(x.args[0]) for x in a[1].sub):
                    ends["deliver"].setdefault(a[0], n)
                elif p is None and any(x.op == "call" and x.args[0] == "await" and any(y.op == "call" and y.args[0] == CHANNEL for y in x.sub) for x in a[1].sub):
                    ends["send"].setdefault(a[0], n)
        channels = {}
        for k, d in ends.items():
            c.oblige(len(d), kind="ends_of_channels", sample=k)
            if not d:
                c.violate(("anchor", "wiring", name, k), "%s: no task found that passes messages on (%s)" % (name, k))
                return
            channels[k] = set()
            for t in d:
                channels[k] |= self.channel(E, t, set())
        for a, b, what in (("send", "wire", "messages for the peer"), ("deliver", "take", "messages of the peer")):
            if channels[a] != channels[b] or any(x[1] not in ("0", "1") for x in channels[a]):
                n = next(iter(ends[b].values()))
                self.bad(("wiring", name, a), "%s: %s may not get from one task to the other" % (name, what), E, n)

    def channel(self, E, t, seen):
        """The channels that an end may belong to."""
        if t in seen:
            return set()
        seen.add(t)
        if t.op in ("loop", "join"):
            out = set()
            for x in E.alts.get(t, ()):
                out |= self.channel(E, x, seen)
            return out
        b = base(t)
        if b.op == "call" and b.args[0].startswith("tokio::sync::mpsc::") and b.args[0].endswith("channel"):
            return {(b, "0" if t is getf(b, "0") or t is getf(b, "1") else "?")}
        return {(t, "?")}

    # -- the document --------------------------------------------------------------------
    def answers(self):
        c, m = self.c, self.m
        lib = [LIB["Generate"]] + list(LIB["Receive"])
        library = matcher(lib)

        def on_event(st, n):
            if n.kind == "call" and n.data.name in REPLY:
                happened(st, ghost("reply", n.data.args[0], n.data.args[1]))
            elif n.kind == "call" and n.data.name == PING:
                happened(st, ghost("pinged"))
            elif n.kind == "call" and library(n.data.name):
                happened(st, ghost("took", const(n.data.name), *n.data.args[1:3]))

        from .editors import arg_types, ends
        from .docapi import DocApi

        takers = {}
        for h in m.live:
            b = c.facts.bodies[h]
            if b["kind"] == "Closure" or b.get("trait") or b.get("derived"):
                continue
            i = [i for i, t in enumerate(arg_types(c.facts, b)) if ends(t, "::DocMessage") and not t.startswith("&")]
            if len(i) == 1 and not any(x in SENDS for y in [h] + list(m.callees[h][0]) for x in m.callees[y][1]):
                takers[h] = i[0]
        if not takers:
            c.violate(("anchor", "document"), "no function found that handles the messages to the document")
        for h in sorted(takers, key=m.name):
            g = h
            if m.is_wrapper(h):
                g = next(x for x in m.callees[h][0] if c.facts.bodies[x].get("coroutine"))
            msg = mk("sym", "arg", m.name(g), takers[h])

            def hold(t):
                b = base(t)
                return is_ghost(t) or b is msg

            mm = m.other(tuple(lib) + REPLY + (PING,), hold_fact=hold, pin_args=True, ghost=on_event)
            E = mm.free(g)
            for k, (sf, tf, pf) in sorted(self.kinds.items()):
                state, tx = vfld(msg, k, sf), vfld(msg, k, tf)
                seen = 0
                for n in E.nodes:
                    if n.kind != "end" or not compatible(n.facts, msg, k):
                        continue
                    seen += 1
                    c.oblige(kind="ways_out_of_answering", sample="%s in %s" % (k, m.name(g)))
                    rs = [t.args[1][1] for t in n.facts if is_ghost(t, "reply") and t.args[1][0] is tx]
                    if pf is not None and self.unasked and not any(is_ghost(t, "pinged") for t in n.facts):
                        self.bad(("answer", "peer"), "%s: a message of a peer may not lead to an answer to it" % m.name(g), E, n)
                    if len(rs) != 1:
                        self.bad(("answer", k), "%s: a step (%s) may get no answer" % (m.name(g), k), E, n)
                        continue
                    r = rs[0]
                    took = [t.args[1] for t in n.facts if is_ghost(t, "took")]
                    good = len(took) == 1 and took[0][1] is state
                    if pf is None:
                        good = good and self.made(getf(r, "0"), (LIB["Generate"],)) and self.result(getf(r, "1"), state)
                    else:
                        good = good and self.made(r, LIB["Receive"]) and took[0][2] is vfld(msg, k, pf)
                    if not good:
                        self.bad(("answer", k, "what"), "%s: the answer to a step (%s) is not what the sync library made of the state" % (m.name(g), k), E, n)
                if not seen:
                    c.violate(("anchor", "answer", k), "%s never ends for %s" % (m.name(g), k))

    @staticmethod
    def made(t, names):
        """The state as the library left it."""
        return t.op == "ver" and matcher(names)(t.args[0])

    @staticmethod
    def result(t, state):
        return t.op == "call" and t.args[0].endswith(LIB["Generate"]) and any(state in x.sub for x in t.args[1])


def run(c):
    c.rule = (
        "The task that syncs with a peer subscribes to changes before it first asks the document what to send, asks again after each wake-up, hands every message of the peer to the document, "
        "passes on all it gets, and ends only when the connection does. Each step starts from the state that came back from the last one; the document answers each step with the state that the sync library made of the one it got."
    )
    m = Modular(c, ())
    r = Rule(c, m)
    r.task()
    r.answers()
    r.connections()
    for k in sorted(r.kinds):
        actor.loop(c, m, k)
