"""C08: messages to and from a peer are neither split nor mixed."""
from ..rulelib import *
from .common import MPSC_RECV

TECHNIQUE = "typestate over MIR dataflow: what is written to and read from the stream of a peer, and what may be given up half-way"
NOTE = (
    "All paths of the task that owns the stream to a peer, for any sizes of reads and any order of messages in both directions. "
    "That the stream itself delivers bytes in order is assumed."
)
SENDS = ("tokio::sync::mpsc::bounded::Sender::send", "tokio::sync::mpsc::unbounded::UnboundedSender::send")
ENCODE = "automerge::sync::Message::encode"
DECODE = "automerge::sync::Message::decode"
WRITE_ALL = "AsyncWriteExt::write_all"
WRITES = tuple("AsyncWriteExt::" + x for x in ("write", "write_all", "write_buf", "write_all_buf", "write_vectored", "write_u32", "write_u32_le", "write_u64"))
READ = "AsyncReadExt::read"
READ_EXACT = "AsyncReadExt::read_exact"
WIDTH = {"u16": 2, "u32": 4, "u64": 8}


def reading(name):
    return "AsyncReadExt::" in name or "AsyncBufReadExt::" in name


class Rule:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.formats = {"to": set(), "from": set()}

    def bad(self, key, msg, E, n):
        c = self.c
        c.violate(key, msg, c.at(E, n), c.trace(E, from_root(E, n.id)))

    @staticmethod
    def drop(st, *names):
        st.facts = {t: f for t, f in st.facts.items() if not is_ghost(t, *names)}

    # -- ghosts -----------------------------------------------------------------------
    def on_event(self, st, n):
        name, args = carried_out(self.m, n)
        if name is not None and name.endswith(READ) and not name.startswith("await "):
            self.drop(st, "got", "sent", "reading")
            happened(st, ghost("reading", n.data.ret))
        if name is None or not name.startswith("await "):
            return
        name = name[6:]
        if name in MPSC_RECV:
            self.drop(st, "wrote", "writing")
            happened(st, ghost("writing", n.data.ret))
        elif name.endswith(WRITES):
            i = sum(1 for t in st.facts if is_ghost(t, "wrote"))
            if i < 6:
                what = args[1] if name.endswith(WRITE_ALL) and len(args) > 1 else UNDEF
                happened(st, ghost("wrote", const(i), what))
        elif name.endswith(READ):
            self.drop(st, "got", "sent")
            happened(st, ghost("got", n.data.args[0], n.data.ret))
        elif name in SENDS:
            happened(st, ghost("sent", args[1]))

    @staticmethod
    def value(mem, path):
        if path[0] not in mem:
            return None
        v = mem[path[0]]
        for k in path[1:]:
            v = getf(v, k)
        return v

    # -- where ------------------------------------------------------------------------
    def roots(self, *groups):
        """The smallest functions that do all of this."""
        c, m = self.c, self.m
        e = Engine(c.facts)
        both = set(m.live)
        for g in groups:
            both &= e.closure_over(lambda h: any(g(x) for x in m.callees[h][1]))
        out = []
        for h in sorted(both, key=m.name):
            if m.top(h) != h or m.is_wrapper(h):
                continue
            below, work = set(), list(m.callees[h][0])
            while work:
                x = work.pop()
                if x not in below:
                    below.add(x)
                    work.extend(m.callees[x][0])
            if not (below & both) - {h} - {x for x in below if m.top(x) == h}:
                out.append(h)
        return out

    def run(self):
        c, m = self.c, self.m
        out = self.roots(lambda x: x in MPSC_RECV, lambda x: x == ENCODE, lambda x: x.endswith(WRITES))
        into = self.roots(lambda x: x in SENDS, lambda x: x == DECODE, reading)
        if not out:
            c.violate(("anchor", "writer"), "no function found that writes messages to a peer")
        if not into:
            c.violate(("anchor", "reader"), "no function found that reads messages of a peer")
        interest = tuple("::" + x for x in WRITES + (READ, READ_EXACT)) + MPSC_RECV + SENDS + (ENCODE, DECODE)
        mm = m.other(interest, hold_fact=lambda t: True, pin_args=True, want_back=True, want_mem=("back",), ghost=self.on_event)
        for h in sorted(set(out) | set(into), key=m.name):
            E = mm.free(h)
            self.whole(E, m.name(h))
            if h in out:
                self.writer(E, m.name(h))
            if h in into:
                self.reader(E, m.name(h))
        if self.formats["to"] != self.formats["from"]:
            c.violate(("format",), "lengths are written as %s but read as %s" % tuple(", ".join(sorted("%s %s" % y for y in self.formats[x])) for x in ("to", "from")))

    # -- nothing is given up half-way ---------------------------------------------------
    def whole(self, E, name):
        c, m = self.c, self.m
        e = Engine(c.facts)
        touches = e.closure_over(lambda h: any(x.endswith(WRITES) or reading(x) or x in SENDS for x in m.callees[h][1]))
        for n in E.nodes:
            if n.kind != "pending":
                continue
            f = n.data.args[0]
            c.oblige(kind="waits_that_may_be_given_up", sample=name)
            if f.op == "agg" and f.args[0] == "coroutine":
                safe = f.args[1] not in touches
            elif f.op == "call":
                safe = not (f.args[0].endswith(WRITES) or f.args[0] in SENDS or reading(f.args[0]) and not f.args[0].endswith(READ))
                h = m.ids.get(f.args[0])
                if h is not None and h in touches:
                    safe = False
            else:
                safe = True
            if not safe:
                self.bad(("cancel", name), "%s: reading or writing a message may be given up half-way" % name, E, n)

    # -- to the peer ----------------------------------------------------------------------
    def writer(self, E, name):
        c = self.c
        for n in E.nodes:
            if n.kind not in ("back", "end"):
                continue
            for t in list(n.facts):
                if not is_ghost(t, "writing"):
                    continue
                r = t.args[1][0]
                if n.facts.get(r) == ("=", "None"):
                    continue
                if n.kind == "end" and any(f == ("=", "Err") for x, f in n.facts.items() if not is_ghost(x)):
                    continue
                c.oblige(kind="messages_to_the_peer", sample=name)
                msg = mk("call", ENCODE, (vfld(r, "Some", "0"),), None)
                wrote = sorted((x.args[1][0].args[0], x.args[1][1]) for x in n.facts if is_ghost(x, "wrote"))
                ws = [x for i, x in wrote]
                bad = any(f == ("=", "Err") for x, f in n.facts.items() if x.op == "call" and x.args[0] == "await" and x.args[1][0].op == "call" and x.args[1][0].args[0].endswith(WRITES))
                if bad or not self.framed(ws, msg):
                    self.bad(("write", name), "%s: a message may not be written as its length and then its bytes" % name, E, n)

    def framed(self, ws, msg):
        if len(ws) != 2 or ws[1] is not msg:
            return False
        l = ws[0]
        if l.op != "call" or not l.args[0].startswith("core::num::") or "::to_" not in l.args[0]:
            return False
        _, _, ty, fn = l.args[0].split("::")
        v = l.args[1][0]
        n = mk("call", "len", (msg,), None)
        ok = v is n
        if v.op == "vfld" and v.args[1] == "Ok":
            v = v.args[0]
            ok = v.op == "call" and v.args[0].startswith("try_into") and v.args[1][0] is n
        elif v.op == "call" and v.args[0] == "as:u64" and v.args[1][0] is n:
            ok = True
        self.formats["to"].add((ty, fn[3:]))
        return ok

    # -- from the peer --------------------------------------------------------------------
    def reader(self, E, name):
        c = self.c
        calls = {}
        for n in E.nodes:
            if n.kind == "call" and reading(n.data.name):
                calls.setdefault(n.data.ret.args[2], []).append(n)
        counters = set()
        seen = 0
        for n in E.nodes:
            if n.kind == "call" and n.data.name.endswith(READ):
                b, s = self.part(n.data.args[1])
                c.oblige(kind="reads", sample=name)
                if s is None:
                    continue
                if s.op == "loop":
                    counters.add(s.args[1])
                if s != const(0) and b.op not in ("loop", "ver"):
                    self.bad(("buffer", name), "%s: bytes of a length read before may be forgotten" % name, E, n)
            if n.kind == "call" and n.data.name == DECODE:
                seen += 1
                c.oblige(kind="messages_of_the_peer", sample=name)
                why = self.body(E, n, n.data.args[0], calls)
                if why:
                    self.bad(("read", name, why), "%s: %s" % (name, why), E, n)
            if n.kind in ("back", "end"):
                self.after(E, n, name, counters)
        for n in E.nodes:
            if n.kind == "back":
                self.count(E, n, name, counters)
        if not seen:
            c.violate(("anchor", "decode", name), "%s never reads a message" % name)

    @staticmethod
    def part(t):
        """(buffer, where reading into it starts)"""
        if t.op == "call" and t.args[0] == "slice":
            r = t.args[1][1]
            if r.op == "agg" and r.args[1].endswith("RangeFrom"):
                return t.args[1][0], getf(r, "start")
            if r.op == "agg" and r.args[1].endswith("Range"):
                return t.args[1][0], getf(r, "start")
            return t.args[1][0], UNDEF
        return t, const(0)

    def body(self, E, n, t, calls):
        """Why something may not be a whole message."""
        if t.op != "ver" or not t.args[0].endswith(READ_EXACT):
            return "something may be taken for a message that was not read completely"
        for x in calls.get(t.args[2], ()):
            if not self.succeeded(n, x.data.ret) and not any(y.op == "call" and y.args[0] == "await" and y.args[1][0].args[:1] == x.data.ret.args[:1] and y.args[1][0].args[2] == x.data.ret.args[2] and f == ("=", "Ok") for y, f in n.facts.items() if y.op == "call" and y.args[1] and y.args[1][0].op == "call"):
                return "a message may be used although reading it failed"
            b = x.data.args[1]
            if b.op == "call" and b.args[0].endswith("vec::from_elem"):
                l = b.args[1][1]
            elif b.op == "ver" and b.args[0].endswith("resize") and len(b.args[3]) > 1:
                l = b.args[3][1]
            else:
                return "a message may not be read with the length that was sent"
            if l.op == "call" and l.args[0] == "as:usize":
                l = l.args[1][0]
            elif l.op == "vfld" and l.args[1] == "Ok" and l.args[0].op == "call" and l.args[0].args[0].startswith("try_into"):
                l = l.args[0].args[1][0]
            if l.op != "call" or not l.args[0].startswith("core::num::") or "::from_" not in l.args[0]:
                return "a message may not be read with the length that was sent"
            _, _, ty, fn = l.args[0].split("::")
            self.formats["from"].add((ty, fn[5:]))
            p = l.args[1][0]
            if p.op != "ver" or not reading(p.args[0]):
                return "a length may be used that was not read"
            if p.args[0].endswith(READ_EXACT):
                continue
            if not any(self.complete(n.facts, y, WIDTH[ty]) for y in calls.get(p.args[2], ())):
                return "a length may be used before all of it was read"
        return None

    @staticmethod
    def succeeded(n, call):
        return any(y.op == "call" and y.args[0] == "await" and y.args[1][0] is call and f == ("=", "Ok") for y, f in n.facts.items())

    def complete(self, facts, call, width):
        """Have so many bytes been read?"""
        b, s = self.part(call.data.args[1])
        for t in facts:
            if not is_ghost(t, "got") or t.args[1][0].args[2] != call.data.ret.args[2]:
                continue
            b, s = self.part(t.args[1][0].args[1][1])
            k = vfld(t.args[1][1], "Ok", "0")
            for x in self.sums(s, k):
                for y, f in facts.items():
                    if y is x and f == ("=", width):
                        return True
                    if y.op != "call" and y.op != "bin":
                        continue
                    if self.implies(y, f, x, width):
                        return True
        return False

    @staticmethod
    def sums(s, k):
        if s is const(0):
            return (k, mk("bin", "Add", s, k))
        return (mk("bin", "Add", s, k), mk("bin", "Add", k, s))

    @staticmethod
    def implies(y, f, x, width):
        a = y.args
        ops = [z for z in a if type(z) is str]
        ts = [z for z in a if isinstance(z, T)]
        if len(ops) != 1 or len(ts) != 2 or f[0] != "=":
            return False
        op, l, r = ops[0], ts[0], ts[1]
        if l is x and is_const(r):
            return (op, f[1]) in (("Lt", False), ("Ge", True), ("Eq", True), ("Ne", False)) and r.args[0] == width or (op, f[1]) in (("Le", False), ("Gt", True)) and r.args[0] == width - 1
        if r is x and is_const(l):
            return (op, f[1]) in (("Gt", False), ("Le", True), ("Eq", True), ("Ne", False)) and l.args[0] == width or (op, f[1]) in (("Ge", False), ("Lt", True)) and l.args[0] == width - 1
        return False

    def after(self, E, n, name, counters):
        """A failed read ends the connection, and a message is passed on."""
        facts = n.facts
        for t, f in facts.items():
            if t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call" and reading(t.args[1][0].args[0]) and n.kind == "back":
                if f == ("=", "Err"):
                    self.bad(("failed", name), "%s: goes on after a failed read" % name, E, n)
            if t.op == "call" and t.args[0] == DECODE and f == ("=", "Ok"):
                if n.kind == "end" and any(g in (("=", "Err"), ("=", "None")) for x, g in facts.items() if not is_ghost(x)):
                    continue
                if not any(is_ghost(x, "sent") and x.args[1][0] is vfld(t, "Ok", "0") for x in facts):
                    self.bad(("dropped", name), "%s: a message of the peer may be dropped" % name, E, n)

    def count(self, E, n, name, counters):
        """What was read of a length is counted."""
        got = {t.args[1][0]: t.args[1][1] for t in n.facts if is_ghost(t, "got")}
        for call in [t.args[1][0] for t in n.facts if is_ghost(t, "reading")]:
            ret = got.get(call)
            if ret is not None and n.facts.get(ret) != ("=", "Ok"):
                continue
            b, s = self.part(call.args[1][1])
            good = (s,)
            if ret is not None:
                k = vfld(ret, "Ok", "0")
                if not self.positive(n.facts, k):
                    self.bad(("closed", name), "%s: goes on after the end of the stream" % name, E, n)
                good = (const(0),) if any(is_ghost(t, "sent") for t in n.facts) else self.sums(s, k)
            for place in counters:
                v = self.value(n.mem or {}, place)
                if v is not None and v not in good:
                    self.bad(("count", name), "%s: bytes of a length may be counted wrongly" % name, E, n)

    @staticmethod
    def positive(facts, k):
        f = facts.get(k)
        if f is not None and (f[0] == "=" and f[1] != 0 or f[0] == "!" and 0 in f[1]):
            return True
        for y, f in facts.items():
            ops = [z for z in y.args if type(z) is str]
            ts = [z for z in y.args if isinstance(z, T)]
            if y.op != "ghost" and len(ops) == 1 and len(ts) == 2 and ts[0] is k and is_const(ts[1]):
                if (ops[0], f[1], ts[1].args[0]) in (("Gt", True, 0), ("Eq", False, 0), ("Ne", True, 0), ("Lt", False, 1), ("Ge", True, 1)):
                    return True
        return False


def run(c):
    c.rule = (
        "What is written for a message is its length and its bytes, each completely, in this order. A message is only decoded if it was read completely, with the length that was read completely before, in the format in which it is written; "
        "bytes of a length that arrive piecewise are counted, the count starts again after the message, and a failed or empty read ends the connection. Nothing that may be given up while waiting for something else reads or writes more than one piece."
    )
    m = Modular(c, ())
    Rule(c, m).run()
