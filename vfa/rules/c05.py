"""C05: every change of the document is followed by a notification."""
from ..rulelib import *
from .common import MUTATORS, PING, MPSC_RECV
from .c07 import PINGED, SENDS, SUBSCRIBE

TECHNIQUE = "typestate over the inter-procedural flow graph of every task (MIR dataflow)"
NOTE = (
    "All paths of the analysed abstraction of every task, in calling context; loops by fixpoint. "
    "Relies on the table of library calls that change a document."
)


def run(c):
    c.rule = (
        "Typestate over every task: after a call that changes an Automerge document, no path reaches the next receive "
        "of a message, or the end of the task, without a send on the change-notification broadcast channel. "
        "Every task that receives from that channel asks the document once between subscribing and its first wait, asks again after each notification before it waits again, and goes on until the channel is closed; "
        "one of them asks for the document to be saved, another one for what to send to a peer. The receivers belong to the channel that the notifications are sent on."
    )
    E = c.engine(MUTATORS + PING + MPSC_RECV)
    mut = is_event(MUTATORS)
    ping = is_event(PING)
    recv = is_event(MPSC_RECV)
    sites = set()
    tasks = 0
    for label, root in E.roots:
        if not label.startswith("task "):
            continue
        par = reach(E, [root])
        muts = [i for i in par if mut(E.nodes[i])]
        if not muts:
            continue
        tasks += 1
        for m in sorted(muts):
            n = E.nodes[m]
            b = E.ctx_body(n.ctx)
            sites.add((norm(b.path), n.data.name))
            c.oblige(kind="states_after_a_change")
            p2 = reach(E, [m], stop=lambda x: ping(x) or recv(x) or x.kind == "end")
            for i in p2:
                x = E.nodes[i]
                if i != m and (recv(x) or (x.kind == "end")):
                    msg = origin(E, n)
                    c.violate(
                        ("unnotified", norm(b.path), n.data.name, msg),
                        "the document is changed (%s in %s, reached through %s) and the next message is awaited without a notification"
                        % (n.data.short, norm(b.path), msg),
                        c.at(E, n),
                        c.trace(E, path_to(p2, i)),
                    )
                    break
    c.counts["mutating_call_sites"] = len(sites)
    c.samples = sorted("%s in %s" % (last2(b), a) for a, b in sites)[:12]
    if not sites:
        c.violate(("no-change",), "no task changes the document at all")
    subscribers(c, Modular(c, ()))


def kind_of(c, t):
    """Kind of a message to the document."""
    if t.op == "agg" and t.args[2] and t.args[1].rsplit("::", 1)[-1] == "DocMessage":
        return t.args[2]
    return None


def subscribers(c, m):
    sends = matcher(SENDS)

    def on_event(st, n):
        name, args = carried_out(m, n)
        if name is None:
            return
        if name in SUBSCRIBE:
            happened(st, ghost("subscribed"))
        elif name == "await " + PINGED:
            st.facts = {t: f for t, f in st.facts.items() if not is_ghost(t, "asked")}
        elif name.startswith("await ") and sends(name[6:]) or sends(name) and "blocking" in name:
            k = kind_of(c, args[1])
            if k is not None and any(is_ghost(t, "subscribed") for t in st.facts):
                happened(st, ghost("asked", const(k)))

    mm = m.other((PINGED,) + SENDS + SUBSCRIBE, hold_fact=lambda t: True, pin_args=True, want_back=True, ghost=on_event)
    saves = syncs = False
    for h in sorted({m.top(h) for h in m.sites((PINGED,))}, key=m.name):
        E = mm.free(h)
        name = m.name(h)

        def bad(key, what, n):
            c.violate((key, name), "%s: %s" % (name, what), c.at(E, n), c.trace(E, from_root(E, n.id)))

        # the document is asked between subscribing and waiting
        def asks(n):
            nm, args = carried_out(m, n)
            return nm is not None and nm.startswith("await ") and sends(nm[6:]) and kind_of(c, args[1]) is not None and any(is_ghost(t, "subscribed") for t in n.facts)

        for start in [E.roots[0][1]] + [n.id for n in E.nodes if n.kind == "call" and n.data.name in SUBSCRIBE]:
            par = reach(E, [start], stop=asks)
            for i in par:
                n = E.nodes[i]
                if n.kind in ("await", "pending") and not asks(n) and any(x.op == "call" and x.args[0] == PINGED for a in n.data.args for x in walk(a)):
                    bad("start", "changes made before it waits for notifications may be missed", n)
                    break
        c.oblige(kind="tasks_that_wait_for_notifications", sample=name)
        for n in E.nodes:
            asked = {t.args[1][0].args[0] for t in n.facts if is_ghost(t, "asked")}
            if n.kind not in ("back", "end"):
                continue
            for t, f in list(n.facts.items()):
                if not (t.op == "call" and t.args[0] == "await" and t.args[1][0].op == "call" and t.args[1][0].args[0] == PINGED):
                    continue
                c.oblige(kind="ways_to_go_on_after_a_notification", sample=name)
                if f == ("=", "Err"):
                    # the next wait returns at once unless the channel is closed
                    continue
                if not asked:
                    bad("ignored", "a notification may be ignored", n)
            saves |= "Persist" in asked
            syncs |= bool(asked - {"Persist"})
            if n.kind == "end" and n.ret is not None and not any(f == ("=", "Err") and t.op == "call" and t.args[0] == "await" for t, f in n.facts.items()):
                bad("stops", "the task may end although the channel of notifications is open", n)
    CHANNEL = ("tokio::sync::broadcast::channel", "tokio::sync::broadcast::Sender::new")
    made = []
    for h in sorted(m.sites(CHANNEL), key=m.name):
        E = m.other(CHANNEL).free(h)
        made += [(E, n) for n in {(n.ctx, n.bb): n for n in E.nodes if n.kind == "call" and n.data.name in CHANNEL}.values()]
    c.counts["channels_of_notifications"] = len(made)
    if len(made) != 1:
        for E, n in made[1:]:
            c.violate(("channels", m.name(E.ctxs[n.ctx][3])), "there is a second channel of notifications, so that tasks may wait for one that nothing is sent on", c.at(E, n), c.trace(E, from_root(E, n.id)))
        if not made:
            c.violate(("anchor", "channel"), "no channel of notifications found")
    if not saves:
        c.violate(("anchor", "saves"), "no task asks for the document to be saved when it changes")
    if not syncs:
        c.violate(("anchor", "syncs"), "no task asks for what to send to a peer when the document changes")


def origin(E, n):
    """The functions on the way to the change."""
    return " > ".join(short(norm(p)) for p, _ in E.callpath(n.ctx)[-4:-1])
