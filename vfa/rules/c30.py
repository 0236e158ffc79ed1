"""C30: command-line options win over the configuration file."""
from ..rulelib import *
from .c17 import Start
from .config import *

TECHNIQUE = "value-flow analysis over MIR from the command line and the configuration file to their uses, with the facts under which each value is chosen"
NOTE = (
    "All combinations of port and peer being given on the command line and in the file, followed from the entry point to the address that is listened on, "
    "the address that is dialled and the flag that selects hosting."
)

LISTEN, DIAL = ("::Swarm::listen_on",), ("::Swarm::dial",)
NEXT = ("::StreamExt::next", "::StreamExt::select_next_some", "::Stream::poll_next")


def run(c):
    c.rule = (
        "The port in the address that is listened on and the peer that is dialled are the ones given on the command line if given there, otherwise the ones from the file, on every path; "
        "whenever there is such a peer it is dialled before the first event of the network is handled; and the flag for hosting is set exactly if there is none."
    )
    m = Modular(c, ())
    start = Start(c, m)
    starts = {m.name(h): h for h in start.roots()}
    dial, listen, nxt = matcher(DIAL), matcher(LISTEN), matcher(NEXT)

    def on_event(st, n):
        if n.kind == "call" and dial(n.data.name):
            happened(st, ghost("dialled"))

    C = Config(c, m, LISTEN + DIAL + NEXT + tuple(starts), ghost=on_event, never=tuple(starts))
    if C.E is None:
        return
    E = C.E
    c.counts["states"] = len(E.nodes)
    F = c.facts
    count = {"dial": 0, "listen": 0, "next": 0, "start": 0}

    def bad(key, what, n, n2=None):
        c.violate(key, what, c.at(E, n), c.trace(E, from_root(E, (n2 or n).id)))

    def symbols(facts, key):
        """Symbols that stand for a setting: {symbol: None or what is wrong}."""
        out = {}
        for t in facts:
            for x in t.sub:
                if x.op == "join" and x not in memo:
                    memo[x] = {k: C.resolve(x, k) for k in ("peer", "port")}
                if x.op == "join" and memo[x][key] is None:
                    out[x] = None
        return out

    memo = {}

    def used(n, t, key, what):
        """Is the setting in force part of the value?"""
        wrong = None
        for x in t.sub:
            if x.op == "join":
                w = C.resolve(x, key)
                if w is None:
                    return True
                if w:
                    wrong = w
            elif C.is_cli(x, key) or C.is_file(x, key):
                w = C.judge(x, n.facts, key)
                if w is None:
                    return True
                wrong = (w, n)
        if wrong:
            bad((key, what), "the %s that is used to %s %s" % (key, what, wrong[0]), n, wrong[1] if wrong[1] is not n else None)
            return True
        return False

    for n in E.nodes:
        if n.kind != "call":
            continue
        name = n.data.name
        if dial(name):
            count["dial"] += 1
            c.oblige(kind="calls_that_connect_to_a_peer")
            if not used(n, n.data.args[-1], "peer", "connect"):
                bad(("peer", "connect"), "the address that is connected to is not the configured peer", n)
        elif listen(name):
            count["listen"] += 1
            c.oblige(kind="calls_that_listen")
            if not used(n, n.data.args[-1], "port", "listen"):
                none = [x for x in symbols(n.facts, "port") if n.facts.get(x) == ("=", "None")]
                if not none:
                    bad(("port", "listen"), "the configured port may not be used to listen", n)
        elif nxt(name) and any(x.op in ("call", "ver") and "Swarm" in x.args[0] for a in n.data.args for x in a.sub):
            count["next"] += 1
            c.oblige(kind="calls_that_wait_for_the_network")
            if not any(is_ghost(t, "dialled") for t in n.facts):
                none = [x for x in symbols(n.facts, "peer") if n.facts.get(x) == ("=", "None")]
                if not none:
                    bad(("peer", "not dialled"), "a configured peer may never be connected to", n)
        elif name in starts:
            count["start"] += 1
            want = C.settled(n.facts, "peer")
            b = F.bodies[starts[name]]
            flags = [a for i, a in enumerate(n.data.args) if F.types[b["locals"][i + 1]]["s"] == "bool" and not any(x.op in ("fld", "vfld") and x.args[-1] == "init" for x in a.sub)]
            c.oblige(kind="ways_to_start")
            if want is None:
                bad(("host", "unknown"), "the daemon may start before it is known whether a peer is configured", n)
                continue
            for a in flags:
                if a.op != "k" or a.args[0] is not (want == "none"):
                    bad(("host",), "the daemon may start as %s although %s" % ("host" if a.op == "k" and a.args[0] else "joining peer", "a peer is configured" if want != "none" else "no peer is configured"), n)
            if not flags:
                got = [x for a in n.data.args for x in a.sub if x.op == "agg" and C.judge(x, n.facts, "peer") is None]
                if not got:
                    bad(("host", "flag"), "it is not passed on whether a peer is configured", n)
    for k, v in count.items():
        if not v:
            c.violate(("anchor", k), "no place found where the daemon is %s" % {"dial": "connected to a peer", "listen": "made to listen", "next": "waiting for the network", "start": "set up"}[k])
