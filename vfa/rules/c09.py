"""C09: only holders of the shared secret can sync."""
from ..rulelib import *
from .config import *

TECHNIQUE = "value-flow and structure analysis over MIR: how the transport is put together, and where its key comes from"
NOTE = (
    "Every transport that is given to the networking library, on all paths from the entry point, for all settings. "
    "That the pre-shared key and the handshakes of the networking library do what they promise is assumed."
)

NET = ("libp2p*", "pbkdf2*")
KDF = ("pbkdf2::", "hkdf::", "argon2::", "scrypt::", "sha2::", "blake2::", "blake3::", "digest::")
AUTH = ("libp2p_noise::", "libp2p_tls::")
PASS0 = ("::multiplex", "::multiplex_ext", "::boxed", "::timeout", "::outbound_timeout", "::map", "::map_err")
PASS1 = ("::upgrade", "::boxed", "::timeout", "::outbound_timeout", "::map", "::map_err")
EITHER = ("::or_transport", "OrTransport::new")
OWN = ("::SwarmBuilder::with_tcp", "::SwarmBuilder::with_quic", "::SwarmBuilder::with_quic_config", "::SwarmBuilder::with_websocket", "::SwarmBuilder::with_relay_client", "::SwarmBuilder::with_dns")
SOCKETS = ("tokio::net::tcp*", "tokio::net::udp*", "std::net::tcp*", "std::net::udp*", "std::net::Tcp*", "std::net::Udp*")
PLAIN = ("as_bytes", "as_str", "clone", "to_string", "to_owned", "into", "trim", "deref", "as_ref", "into_bytes", "to_vec")


def text(t):
    out = []
    for x in t.sub:
        if x.op == "k":
            v = x.args[0]
            if isinstance(v, str):
                out.append(v)
            elif isinstance(v, (tuple, bytes)):
                out.append("".join(chr(b) for b in v if isinstance(b, int) and 0 <= b < 256))
    return " ".join(out).lower()


class Secure:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.memo = {}

    def handshakes(self, E, t):
        """Does this callback make every connection go through the handshake with the pre-shared key?"""
        h = None
        if t.op == "agg" and t.args[0] == "closure":
            h = t.args[1]
        elif t.op == "fn":
            k = E.callees[t.args[0]]
            h = (k.get("r") or k)["h"]
        if h is None or h not in self.c.facts.bodies:
            return False
        if h not in self.memo:
            self.memo[h] = self.all_ends(h)
        return self.memo[h]

    def all_ends(self, h):
        mm = self.m.other(NET, hold_fact=lambda t: True, pin_args=True)
        E = mm.free(h)
        n_ends = 0
        for n in E.nodes:
            if n.kind != "end" or n.ret is None:
                continue
            n_ends += 1
            r = n.ret
            self.c.oblige(kind="ways_through_the_handshake")
            if any(x.op == "call" and x.args[0].endswith("PnetConfig::handshake") for x in r.sub):
                continue
            if r.op == "agg" and r.args[0] == "coroutine" and r.args[1] in self.c.facts.bodies and self.all_ends(r.args[1]):
                continue
            if r.op == "agg" and r.args[2] == "Err":
                continue
            return False
        return n_ends > 0

    def check(self, E, t, stage=0):
        """None, or what is missing."""
        if t.op == "vfld" and t.args[1] in ("Ok", "Some"):
            return self.check(E, t.args[0], stage)
        if t.op == "agg" and t.args[2] in ("Ok", "Some"):
            return self.check(E, t.args[4][0], stage)
        if t.op != "call":
            return "it cannot be traced"
        name, args = t.args[0], t.args[1]
        if name.endswith(EITHER):
            for a in args:
                w = self.check(E, a, stage)
                if w:
                    return w
            return None
        if stage == 0:
            if name.endswith("::authenticate"):
                if not any(x.op == "call" and x.args[0].startswith(AUTH) for x in args[1].sub):
                    return "it is not encrypted with an authenticated key exchange"
                return self.check(E, args[0], 1)
            if name.endswith(PASS0):
                return self.check(E, args[0], 0)
            return "it is not authenticated"
        if name.endswith("::and_then"):
            if self.handshakes(E, args[1]):
                return None
            return self.check(E, args[0], 1)
        if name.endswith(PASS1):
            return self.check(E, args[0], 1)
        return "connections do not have to know the shared secret"


def run(c):
    c.rule = (
        "Every transport given to the networking library is, in all its alternatives, a connection that first goes through the handshake with a pre-shared key, then an authenticated key exchange. "
        "On every path the pre-shared key is computed by a key derivation function from the whole secret of the configuration file; the built-in default is used only on paths where no secret is configured, "
        "after a warning about it was logged. No other kind of network socket is opened."
    )
    m = Modular(c, ())
    sec = Secure(c, m)

    def on_event(st, n):
        if n.kind == "log" and n.data.name in ("warn!", "error!"):
            s = " ".join(text(a) for a in n.data.args)
            if any(w in s for w in ("secret", "passphrase", "password", "secur")):
                happened(st, ghost("warned"))

    C = Config(c, m, NET, ghost=on_event)
    if C.E is None:
        return
    E = C.E
    c.counts["states"] = len(E.nodes)

    def bad(key, what, n):
        c.violate(key, what, c.at(E, n), c.trace(E, from_root(E, n.id)))

    kw = dict(file_only=True, file_key="secret")
    transports = keys = 0
    for n in E.nodes:
        name = getattr(n.data, "name", None)
        if type(name) is not str:
            continue
        if n.kind == "closure_ret" and name.endswith("SwarmBuilder::with_other_transport"):
            t = n.data.args[0]
            if t.op == "agg" and t.args[2] == "Err":
                continue
            transports += 1
            c.oblige(kind="transports")
            w = sec.check(E, t)
            if w:
                bad(("transport", w), "a transport is used although %s" % w, n)
        elif n.kind == "call" and name.endswith(("libp2p_swarm::Swarm::new", "libp2p_swarm::Swarm::with_tokio_executor")):
            transports += 1
            c.oblige(kind="transports")
            w = sec.check(E, n.data.args[0])
            if w:
                bad(("transport", w), "a transport is used although %s" % w, n)
        elif n.kind == "call" and name.endswith("PnetConfig::handshake"):
            keys += 1
            c.oblige(kind="keys")
            w = key_of(C, n, n.data.args[0], kw)
            if w:
                bad(("key", w), "the pre-shared key of a connection %s" % w, n)
    own, sock = matcher(OWN), matcher(SOCKETS)
    for h in m.live:
        for x in m.callees[h][1]:
            if own(x):
                c.violate(("transport", m.name(h), x), "%s uses a transport that does not require the shared secret (%s)" % (m.name(h), short(x)))
            if sock(x):
                c.violate(("socket", m.name(h), x), "%s opens a network socket of its own (%s)" % (m.name(h), short(x)))
    c.oblige(len(m.live), kind="functions_searched_for_other_sockets")
    if not transports:
        c.violate(("anchor", "transport"), "no transport found")
    if not keys:
        c.violate(("anchor", "key"), "no use of a pre-shared key found")


def key_of(C, n, t, kw):
    """What is wrong with a key, or None."""
    kdf = [x for x in t.sub if x.op in ("call", "ver") and x.args[0].startswith(KDF)]
    if not kdf:
        return "is not computed from the secret by a key derivation function"
    for k in kdf:
        args = k.args[3] if k.op == "ver" else k.args[1]
        if k.args[0].startswith("pbkdf2::") and any(a.op == "k" and a.args[0] == 0 and type(a.args[0]) is int for a in args):
            return "is derived without any rounds"
    whole = None
    for k in kdf:
        for a in k.args[3] if k.op == "ver" else k.args[1]:
            x = a
            while x.op == "call" and x.args[0].split("::")[-1] in PLAIN and x.args[1]:
                x = x.args[1][0]
            if x.op == "vfld" and x.args[1] == "Some":
                w = C.resolve(x.args[0], "passphrase", **kw)
                if w is None or C.judge(x.args[0], n.facts, "passphrase", **kw) is None:
                    return None
                if w:
                    whole = "comes from a secret that %s" % w[0]
    if whole:
        return whole
    given = [x for x in t.sub if x.op == "join" and C.resolve(x, "passphrase", **kw) is None]
    if given:
        return "does not depend on the whole secret"
    # a constant
    none = False
    for f, v in n.facts.items():
        for x in f.sub:
            if x.op == "join" and n.facts.get(x) == ("=", "None") and C.resolve(x, "passphrase", **kw) is None:
                none = True
    if not none:
        return "is a built-in one although a secret may be configured"
    if not any(is_ghost(x, "warned") for x in n.facts):
        return "is the built-in one without a warning"
    return None
