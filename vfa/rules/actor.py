"""The loop that hands messages to the document."""
from ..rulelib import *
from .common import MPSC_RECV
from .editors import arg_types, ends


def loop(c, m, what):
    """Every message of a kind that is received is handled."""
    takers = {}
    for h in m.live:
        b = c.facts.bodies[h]
        if b["kind"] == "Closure" or b.get("trait") or b.get("derived"):
            continue
        i = [i for i, t in enumerate(arg_types(c.facts, b)) if ends(t, "::DocMessage") and not t.startswith("&")]
        if len(i) == 1 and not any(n.endswith("::Sender::send") and "mpsc" in n for x in [h] + list(m.callees[h][0]) for n in m.callees[x][1]):
            takers[m.name(h)] = i[0]

    def on_event(st, n):
        name, args = carried_out(m, n)
        if name in takers:
            happened(st, ghost("taken", args[takers[name]]))

    mm = m.other(MPSC_RECV + tuple(takers), hold_fact=lambda t: True, pin_args=True, never=tuple(takers), ghost=on_event, want_back=True)
    found = 0
    for h in m.sites(MPSC_RECV):
        b = c.facts.bodies[h]
        if not any(c.facts.types[l]["s"].endswith("Option<ethersync::daemon::DocMessage>") for l in b["locals"]):
            continue
        E = mm.free(m.top(h))
        name = m.name(m.top(h))
        for n in E.nodes:
            if n.kind not in ("back", "end"):
                continue
            over = False
            for t, f in n.facts.items():
                if not (t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call" and t.args[1][0].args[0] in MPSC_RECV):
                    continue
                if f == ("=", "None"):
                    over = True
                    continue
                msg = vfld(t, "Some", "0")
                k = n.facts.get(msg)
                if k is not None and (k[0] == "=" and k[1] != what or k[0] == "!" and what in k[1]):
                    continue
                found += 1
                c.oblige(kind="messages_received", sample=name)
                if not any(is_ghost(x, "taken") and x.args[1][0] is msg for x in n.facts):
                    c.violate(("loop", name), "%s can drop a message" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
            if n.kind == "end" and not over:
                c.violate(("loop", name, "stop"), "%s can stop while there are messages" % name, c.at(E, n), c.trace(E, from_root(E, n.id)))
    if not found:
        c.violate(("anchor", "loop"), "no loop found that takes the messages to the document")
