"""C27: framing of messages between daemon, client and editor."""
from ..rulelib import *
from .editors import SINK, arg_types

TECHNIQUE = "symbolic byte ranges over MIR dataflow: what the encoders append, which bytes the decoder takes and when, as linear expressions; obligations on the forwarding loops"
NOTE = (
    "All paths through the encoders and decoders of the repository, as linear expressions over positions and lengths, and all paths around the forwarding loops. "
    "Messages with raw line breaks (which editors do not send) cannot be forwarded on a line-based socket and are not covered; that the line codec of the library is correct is assumed."
)

ENCODER, DECODER = "tokio_util::codec::encoder::Encoder", "tokio_util::codec::decoder::Decoder"
BYTES = ("bytes::*", "tokio_util::bytes::*", "serde_json::*")
APPENDS = ("extend_from_slice", "put_slice", "put", "put_u8", "extend", "write_str", "write_fmt", "write_char", "push_str")
HARMLESS = ("reserve", "len", "is_empty", "capacity", "try_reclaim", "remaining", "has_remaining", "remaining_mut", "as_ref", "deref", "chunk", "starts_with", "windows", "iter", "to_vec", "get")
TEXT = ("core::str::converts::from_utf8", "alloc::string::String::from_utf8", "alloc::string::String::from")
SAME = (
    "to_string", "to_owned", "into", "from", "to_vec", "freeze", "as_bytes", "as_str", "as_ref", "deref", "clone", "into_bytes", "copy_from_slice", "borrow", "into_vec", "as_slice", "split", "must_use",
)
HEADER = b"Content-Length: "


def raw(t):
    """The bytes of a constant."""
    if t.op == "k":
        v = t.args[0]
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, tuple) and all(isinstance(x, int) for x in v):
            return bytes(v)
        if isinstance(v, bytes):
            return v
    if t.op == "agg" and t.args[0] == "array" and all(x.op == "k" for x in t.args[4]):
        return bytes(x.args[0] for x in t.args[4])
    return None


class Linear:
    """A sum of terms and a constant."""

    def __init__(self, parts=(), k=0):
        self.parts = {t: n for t, n in dict(parts).items() if n}
        self.k = k

    def plus(self, o, f=1):
        p = dict(self.parts)
        for t, n in o.parts.items():
            p[t] = p.get(t, 0) + f * n
        return Linear(p, self.k + f * o.k)

    def __eq__(self, o):
        return self.parts == o.parts and self.k == o.k

    def __repr__(self):
        return " + ".join(["%s%s" % ("" if n == 1 else "%d*" % n, t) for t, n in self.parts.items()] + [str(self.k)])


def name(t):
    return t.args[0].rsplit("::", 1)[-1] if t.op in ("call", "ver") else ""


class Buffer:
    """Positions in the buffer that a decoder was given."""

    def __init__(self, src):
        self.src = src

    def linear(self, t):
        if t.op == "k" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
            return Linear(k=t.args[0])
        if t.op == "bin" and t.args[0] in ("Add", "AddUnchecked", "AddWithOverflow", "Sub", "SubUnchecked"):
            return self.linear(t.args[1]).plus(self.linear(t.args[2]), 1 if t.args[0].startswith("Add") else -1)
        if t.op == "call" and name(t) in ("len", "remaining") and t.args[1]:
            b = raw(t.args[1][0])
            if b is not None:
                return Linear(k=len(b))
            r = self.region(t.args[1][0])
            if r is not None:
                if r[1] is not None:
                    return r[1]
                # what is left after some bytes were taken
                return Linear({mk("call", "len", (self.src,), None): 1}).plus(r[0], -1)
        return Linear({t: 1})

    def region(self, t):
        """(start, length or None for the rest) in the original buffer."""
        while True:
            if t is self.src:
                return Linear(), None
            if t.op == "fld" and t.args[1] == "0" and t.args[0].op == "call" and name(t.args[0]) in TEXT:
                t = t.args[0]
                continue
            if t.op == "ver" and name(t) in HARMLESS:
                t = t.args[3][0]
                continue
            if t.op == "vfld" and t.args[0].op == "call" and t.args[0].args[0] in TEXT and t.args[1] == "Ok":
                t = t.args[0].args[1][0]
                continue
            if t.op == "ver" and name(t) in ("advance", "split_to", "copy_to_bytes"):
                r = self.region(t.args[3][0])
                n = self.linear(t.args[3][1])
                return None if r is None else (r[0].plus(n), None if r[1] is None else r[1].plus(n, -1))
            if t.op == "call" and name(t) in ("split_to", "copy_to_bytes") and len(t.args[1]) > 1:
                r = self.region(t.args[1][0])
                return None if r is None else (r[0], self.linear(t.args[1][1]))
            if t.op == "call" and t.args[0] == "slice":
                r = self.region(t.args[1][0])
                a = t.args[1][1]
                if r is None or a.op != "agg":
                    return None
                kind = a.args[1].rsplit("::", 1)[-1]
                start = self.linear(getf(a, "start")) if kind in ("Range", "RangeFrom") else Linear()
                if kind in ("Range", "RangeTo"):
                    return r[0].plus(start), self.linear(getf(a, "end")).plus(start, -1)
                if kind in ("RangeFrom", "RangeFull"):
                    return r[0].plus(start), None if r[1] is None else r[1].plus(start, -1)
                return None
            if t.op == "call" and (name(t) in SAME or t.args[0] in TEXT) and t.args[1]:
                t = t.args[1][0]
                continue
            return None

    def found(self, t, facts):
        """(position, what was found there) for the position of a window that was compared with a constant."""
        if t.op != "call" or t.args[0] != "position_of":
            return None
        e = t.args[1][0]
        if e.op != "elem":
            return None
        w = e.args[0]
        if w.op != "call" or name(w) != "windows":
            return None
        r = self.region(w.args[1][0])
        f = facts.get(e)
        what = f[1] if f is not None and f[0] == "=" else None
        if isinstance(what, str):
            what = what.encode()
        elif isinstance(what, tuple):
            what = bytes(what)
        n = self.linear(w.args[1][1])
        if r is None or not isinstance(what, bytes) or n.parts or n.k != len(what):
            return None
        return r[0].plus(Linear({t: 1})), what


class Rule:
    def __init__(self, c, m):
        self.c, self.m = c, m

    def bad(self, key, msg, E, n):
        self.c.violate(key, msg, self.c.at(E, n), self.c.trace(E, from_root(E, n.id)))

    def bodies(self, trait):
        F = self.c.facts
        return sorted((h for h, b in F.bodies.items() if b.get("trait") == trait and h in self.m.live), key=lambda h: F.bodies[h]["p"])

    def arg(self, h, what):
        i = [i for i, t in enumerate(arg_types(self.c.facts, self.c.facts.bodies[h])) if what(t)]
        return mk("sym", "arg", self.m.name(h), i[0]) if len(i) == 1 else None

    def on_event(self, st, n):
        if n.kind != "call" or not n.data.args:
            return
        last = n.data.name.rsplit("::", 1)[-1]
        if any(x in self.dst for x in walk(n.data.args[0])) and ("BytesMut" in n.data.name or n.data.name.startswith(("bytes::", "core::fmt::Write", "core::iter::traits::collect::Extend"))):
            g = ghost("op", const(last), mk("agg", "tuple", "", "", (), tuple(n.data.args)))
            if g in st.facts:
                happened(st, ghost("again", g))
            happened(st, g)

    # -- encoders ------------------------------------------------------------------------
    def flat(self, t):
        """Constants and values that a text consists of."""
        b = raw(t)
        if b is not None:
            return [b]
        if t.op == "k" and isinstance(t.args[0], int):
            return [bytes([t.args[0]])]
        if t.op == "call" and (t.args[0].endswith("fmt::format") or name(t) == "must_use") and t.args[1]:
            return self.flat(t.args[1][0])
        if t.op == "call" and t.args[0].endswith("Arguments::from_str") or t.op == "call" and t.args[0].endswith("Arguments::from_str_nonconst"):
            return self.flat(t.args[1][0])
        if t.op == "call" and t.args[0].endswith("Arguments::new"):
            tpl = raw(t.args[1][0])
            vals = [x for x in t.args[1][1].args[4]] if t.args[1][1].op == "agg" else None
            if tpl is None or vals is None:
                return [t]
            out, i, k = [], 0, 0
            while i < len(tpl) and tpl[i]:
                if tpl[i] < 0x80:
                    out.append(tpl[i + 1 : i + 1 + tpl[i]])
                    i += 1 + tpl[i]
                elif tpl[i] == 0xC0 and k < len(vals):
                    v = vals[k]
                    k += 1
                    i += 1
                    if v.op == "call" and v.args[0].endswith("new_display"):
                        out += self.flat(v.args[1][0])
                    else:
                        return [t]
                else:
                    return [t]
            return out
        if t.op == "call" and name(t) in SAME and t.args[1] and not t.args[0].startswith("ethersync"):
            return self.flat(t.args[1][0])
        return [t]

    def appended(self, n, dst):
        """All that was appended on the way here, in order; None if that cannot be told."""
        ops = [t.args[1] for t in n.facts if is_ghost(t, "op")]
        if any(is_ghost(t, "again") for t in n.facts):
            return None

        def depth(t):
            d = 0
            while t.op == "ver" and t is not dst:
                d, t = d + 1, t.args[3][0]
            return d

        out = []
        for k, a in sorted(ops, key=lambda o: depth(o[1].args[4][0])):
            if k.args[0] in HARMLESS:
                continue
            if k.args[0] not in APPENDS:
                return None
            out += self.flat(a.args[4][1])
        joined = []
        for x in out:
            if isinstance(x, bytes) and joined and isinstance(joined[-1], bytes):
                joined[-1] += x
            elif x != b"":
                joined.append(x)
        return joined

    def encoders(self):
        c, m = self.c, self.m
        lines = counted = 0
        for h in self.bodies(ENCODER):
            path = c.facts.bodies[h]["p"]
            dst = self.arg(h, lambda t: "BytesMut" in t)
            item = self.arg(h, lambda t: "BytesMut" not in t and "Codec" not in t)
            if dst is None or item is None:
                c.violate(("shape", path), "%s: no buffer found" % path)
                continue
            self.dst = {dst}
            E = m.other(BYTES, hold_fact=lambda t: True, pin_args=True, ghost=self.on_event).free(h)
            text = arg_types(c.facts, c.facts.bodies[h])[item.args[2]].endswith("::String")
            for n in E.nodes:
                if n.kind != "end" or n.ret is None:
                    continue
                if n.ret.op == "agg" and n.ret.args[2] == "Err":
                    continue
                c.oblige(kind="ways_to_encode_a_message", sample=path)
                got = self.appended(n, dst)
                if text:
                    counted += 1
                    good = (
                        got is not None
                        and len(got) == 4
                        and got[0] == HEADER
                        and self.is_length(got[1], item)
                        and got[2] == b"\r\n\r\n"
                        and got[3] is item
                    )
                    if not good:
                        self.bad(("length", path), "%s: a message is not written as its length in bytes and its content: %s" % (path, got), E, n)
                else:
                    lines += 1
                    if not (got is not None and len(got) == 2 and got[1] == b"\n" and self.is_json(got[0], item)):
                        self.bad(("line", path), "%s: a message is not written as one line of JSON: %s" % (path, got), E, n)
        if not lines or not counted:
            c.violate(("anchor", "encoders"), "no encoder found for %s" % ("editors" if not lines else "the client"))

    @staticmethod
    def is_length(t, item):
        return not isinstance(t, bytes) and t.op == "call" and name(t) == "len" and (t.args[1][0] is item or name(t.args[1][0]) in SAME and t.args[1][0].args[1][0] is item)

    @staticmethod
    def is_json(t, item):
        """Text that serde_json made of the message, without line breaks."""
        if isinstance(t, bytes):
            return False
        b = base(t)
        if b.op != "call" or b.args[0] not in ("serde_json::ser::to_string", "serde_json::to_string", "alloc::string::ToString::to_string"):
            return False
        src = b.args[1][0]
        while src.op == "ver" and name(src) == "insert" and src.args[3][1].op == "k" and src.args[3][1].args[0] not in ("method", "params", "id", "result", "error"):
            src = src.args[3][0]
        if src.op == "agg" and src.args[2] == "Object":
            src = src.args[4][0]
        if src.op not in ("sym", "vfld") or base(src) is not item and not (base(src).op == "call" and base(src).args[0].endswith("to_value")):
            return False
        if b.args[0].startswith("alloc") and not any(x.op == "call" and x.args[0].endswith("to_value") for x in walk(src)):
            return False
        return item in set(walk(src))

    # -- decoders ------------------------------------------------------------------------
    def decoders(self):
        c, m = self.c, self.m
        found = 0
        for h in self.bodies(DECODER):
            path = c.facts.bodies[h]["p"]
            src = self.arg(h, lambda t: "BytesMut" in t)
            if src is None or not path.endswith("::decode"):
                continue
            self.dst = {src}
            B = Buffer(src)
            E = m.other(BYTES, hold_fact=lambda t: t.op != "old", pin_args=True, ghost=self.on_event).free(h)
            for n in E.nodes:
                if n.kind != "end" or n.ret is None or n.ret.op != "agg":
                    continue
                if n.ret.args[2] == "Err":
                    continue
                v = n.ret.args[4][0]
                c.oblige(kind="ways_to_decode", sample=path)
                taken = Linear()
                for t in n.facts:
                    if is_ghost(t, "op"):
                        k, a = t.args[1][0].args[0], t.args[1][1].args[4]
                        if k in ("advance", "split_to", "copy_to_bytes"):
                            taken = taken.plus(B.linear(a[1]))
                        elif k not in HARMLESS:
                            self.bad(("decode", path, k), "%s: it is not known how many bytes %s takes" % (path, k), E, n)
                if any(is_ghost(t, "again") for t in n.facts):
                    self.bad(("decode", path, "again"), "%s takes bytes repeatedly" % path, E, n)
                if v.op == "agg" and v.args[2] == "None":
                    self.incomplete(path, B, E, n, taken)
                elif v.op == "agg" and v.args[2] == "Some":
                    found += 1
                    self.complete(path, B, E, n, taken, v.args[4][0])
                else:
                    self.bad(("decode", path, "result"), "%s: the result is not known" % path, E, n)
        if not found:
            c.violate(("anchor", "decoders"), "no decoder found for the client")

    def guards(self, B, n):
        """[(length of the buffer minus what is needed, whether less)]"""
        out = []
        for t, f in n.facts.items():
            if t.op == "bin" and t.args[0] == "Lt" and f[0] == "=":
                out.append((B.linear(t.args[1]).plus(B.linear(t.args[2]), -1), bool(f[1])))
        return out

    def number(self, B, t, n):
        """Region of the text that a number was parsed from."""
        b = base(t)
        if t.op != "vfld" or t.args[1] != "Ok" or b.op != "call" or name(b) not in ("parse", "from_str"):
            return None
        x = b.args[1][0]
        while x.op == "call" and name(x) in ("trim", "trim_start", "trim_end"):
            x = x.args[1][0]
        return B.region(x)

    def complete(self, path, B, E, n, taken, msg):
        r = B.region(msg)
        if r is None or r[1] is None:
            self.bad(("content", path), "%s: the message is not part of the buffer" % path, E, n)
            return
        start, length = r
        if not (taken == start.plus(length)):
            self.bad(("taken", path), "%s takes other bytes than those up to the end of the message" % path, E, n)
        # the length is a number in the buffer
        num = self.number(B, next(iter(length.parts)), n) if len(length.parts) == 1 and not length.k and set(length.parts.values()) == {1} else None
        if num is None or num[1] is None:
            self.bad(("count", path), "%s: the length of the message is not the number that was sent" % path, E, n)
            return
        finds = {}
        for t in {x for y in list(start.parts) + list(num[0].parts) + list(num[1].parts) for x in walk(y)}:
            p = B.found(t, n.facts)
            if p is not None:
                finds[t] = p
        head = [p for p in finds.values() if p[1] == HEADER and num[0] == p[0].plus(Linear(k=len(p[1])))]
        if not head:
            self.bad(("header", path), "%s: the number is not what follows the header" % path, E, n)
        end = num[0].plus(num[1])
        sep = [p for p in finds.values() if p[1] in (b"\r\n\r\n", b"\n\n") and end == p[0] and start == p[0].plus(Linear(k=len(p[1])))]
        if not sep:
            self.bad(("body", path), "%s: the message does not begin right after the header" % path, E, n)
        need = Linear({mk("call", "len", (B.src,), None): 1}).plus(start, -1).plus(length, -1)
        if not any(d == need and not less for d, less in self.guards(B, n)):
            self.bad(("early", path), "%s takes a message that may not have arrived completely" % path, E, n)

    def incomplete(self, path, B, E, n, taken):
        heads = [p[0] for p in (B.found(t, n.facts) for x in n.facts for t in walk(x)) if p is not None and p[1] == HEADER]
        if taken.parts or taken.k:
            if taken not in heads:
                self.bad(("lost", path), "%s drops bytes of a message that has not arrived completely" % path, E, n)
        for t, f in n.facts.items():
            # something was searched for in all of the buffer and not found
            if t.op == "forall" and t.args[0].op == "call" and name(t.args[0]) == "windows":
                w = t.args[0]
                r = B.region(w.args[1][0])
                size = B.linear(w.args[1][1])
                ok = r is not None and r[1] is None and (not r[0].parts and not r[0].k and size == Linear(k=len(HEADER)) or any(r[0] == p.plus(Linear(k=len(HEADER))) for p in heads) and size == Linear(k=4))
                if ok and f == ("=", "empty"):
                    return
                if ok and f[0] == "!" and all(self.is_mark(x) for x in f[1]):
                    return
        for d, less in self.guards(B, n):
            if not less or d.parts.get(mk("call", "len", (B.src,), None)) != 1:
                continue
            rest = Linear({t: -k for t, k in d.parts.items() if not (t.op == "call" and t.args[0] == "len")}, -d.k)
            nums = [t for t in rest.parts if self.number(B, t, n) is not None]
            if len(nums) != 1 or rest.parts[nums[0]] != 1:
                continue
            num = self.number(B, nums[0], n)
            start = rest.plus(Linear({nums[0]: 1}), -1)
            end = num[0].plus(num[1])
            if any(start == end.plus(Linear(k=k)) for k in (2, 4)):
                return
        self.bad(("waits", path), "%s may wait for more although a message has arrived" % path, E, n)

    @staticmethod
    def is_mark(x):
        x = x.encode() if isinstance(x, str) else bytes(x) if isinstance(x, tuple) else x
        return x in (HEADER, b"\r\n\r\n")

    # -- forwarding ----------------------------------------------------------------------
    def forwarding(self):
        """What the client receives on one side is sent on the other one, unchanged and in order."""
        c, m = self.c, self.m
        NEXT = ("futures_util::stream::stream::StreamExt::next", "futures_util::stream::try_stream::TryStreamExt::try_next", "tokio_stream::stream_ext::StreamExt::next")
        nxt, sink = matcher(NEXT), matcher(SINK)
        STD = ("tokio::io::stdin::stdin", "tokio::io::stdout::stdout")
        f = matcher(STD)

        def on_event(st, n):
            nm, args = carried_out(m, n)
            if nm is not None and nm.startswith("await ") and sink(nm[6:]):
                g = ghost("sent", args[1])
                if g in st.facts:
                    happened(st, ghost("again", g))
                happened(st, g)
                happened(st, ghost("sent to", args[1], args[0]))

        ways = set()
        for h in sorted({m.top(h) for h in m.sites(STD)}, key=m.name):
            E = m.other(NEXT + SINK + STD + ("std::process::exit", "tokio_util::*"), hold_fact=lambda t: t.op != "old", pin_args=True, ghost=on_event, want_back=True).free(h)
            fn = m.name(h)
            for n in E.nodes:
                if n.kind in ("call", "await") and n.data is not None:
                    nm, args = carried_out(m, n)
                    if nm is not None and nm.startswith("await ") and sink(nm[6:]):
                        way = self.way(E, args[0], args[1], nxt)
                        c.oblige(kind="messages_forwarded", sample=fn)
                        if way is None:
                            self.bad(("forward", fn), "%s: what is sent is not a message that was received on the other side, or the formats do not fit" % fn, E, n)
                        else:
                            ways.add(way)
                if n.kind not in ("back", "end", "exit") or n.kind == "end" and n.ret is None:
                    continue
                got = [t for t in n.facts if t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call" and nxt(t.args[1][0].args[0])]
                c.oblige(kind="ways_to_go_on_after_a_message")
                over = any(t.op == "call" and t.args[0] == "await" and (fct == ("=", "Err") or fct == ("=", "None") and nxt(t.args[1][0].args[0])) for t, fct in n.facts.items() if t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call")
                for t in got:
                    fct = n.facts.get(t)
                    inner = n.facts.get(vfld(t, "Some", "0"))
                    if fct == ("=", "None") or inner == ("=", "Err"):
                        over = True
                        if n.kind == "back":
                            self.bad(("spin", fn), "%s goes on although a connection is closed" % fn, E, n)
                        continue
                    msg = vfld(vfld(t, "Some", "0"), "Ok", "0")
                    sent = [x for x in n.facts if is_ghost(x, "sent") and x.args[1][0] is msg]
                    if len(sent) != 1 or any(is_ghost(x, "again") for x in n.facts):
                        self.bad(("dropped", fn), "%s: a message may be dropped or sent twice" % fn, E, n)
                if n.kind in ("end", "exit") and not over:
                    # how the function ends without a closed connection
                    self.bad(("stops", fn), "%s can stop while both sides are connected" % fn, E, n)
        for w in ("stdin", "stdout"):
            if w not in ways:
                c.violate(("anchor", w), "no place found where messages are forwarded %s" % ("from standard input" if w == "stdin" else "to standard output"))

    def limits(self):
        """No message is too long for a reader of lines."""
        c, m = self.c, self.m
        for h in sorted(m.sites(("tokio_util::codec::*",)), key=m.name):
            c.oblige(kind="functions_that_make_codecs", sample=m.name(h))
            for x in m.callees[h][1]:
                if x.endswith("::new_with_max_length"):
                    c.violate(("limit", m.name(h)), "%s: messages of a certain length are not accepted (%s)" % (m.name(h), x))

    @staticmethod
    def way(E, to, msg, nxt):
        b = base(msg)
        if b.op != "call" or b.args[0] != "await" or msg is not vfld(vfld(b, "Some", "0"), "Ok", "0"):
            return None
        r = b.args[1][0]
        if r.op != "call" or not nxt(r.args[0]):
            return None
        src = r.args[1][0]

        def made(t):
            fr = [x for x in walk(t) if x.op == "call" and name(x) == "new" and "::framed_" in x.args[0]]
            if len(fr) != 1:
                return None
            io, codec = fr[0].args[1][:2]
            kind = "lines" if any(x.op == "call" and "lines_codec" in x.args[0] for x in walk(codec)) else "counted" if codec.op == "agg" and "Codec" in codec.args[1] else None
            names = {x.args[0] for x in walk(io) if x.op == "call"}
            return kind, "stdin" if any(x.endswith("stdin::stdin") for x in names) else "stdout" if any(x.endswith("stdout::stdout") for x in names) else "socket" if any("UnixStream::connect" in x for x in names) else None

        a, b = made(src), made(to)
        if a == ("counted", "stdin") and b == ("lines", "socket"):
            return "stdin"
        if a == ("lines", "socket") and b == ("counted", "stdout"):
            return "stdout"
        return None


def run(c):
    c.rule = (
        "On every path, what an encoder appends to its buffer is, for an editor, the JSON text of the message (from a serialiser that produces no line breaks) and one line break, and, for the client, "
        "'Content-Length: ', the length of the text in bytes, two line breaks and the text itself. The decoder's result is the range of its buffer that begins right after the separator that follows the header and has "
        "the length given by the number between header and separator; it takes exactly the bytes up to the end of that range, only if they have arrived, takes nothing otherwise, and waits for more only if header, separator or content are not there yet. "
        "The client sends each message it gets on one side exactly once and unchanged on the other side, awaiting this before it takes the next, until a side is closed."
    )
    m = Modular(c, ())
    r = Rule(c, m)
    r.encoders()
    r.decoders()
    r.forwarding()
    r.limits()
