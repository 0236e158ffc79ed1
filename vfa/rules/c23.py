"""C23: a panic in any task ends the daemon."""
from ..rulelib import *

TECHNIQUE = "typestate analysis over MIR: the panic hook in force at every spawn, and all paths through the hook"
NOTE = (
    "All paths from the entry point to every place where a task or thread is started, and all paths through the function that is installed as panic hook. "
    "That the hook is called for every panic in any thread is assumed of the standard library."
)

HOOK = ("::set_hook", "::take_hook", "::update_hook")
SPAWN = ("tokio::task::spawn::spawn", "tokio::spawn", "std::thread::spawn", "::spawn_blocking", "::Builder::spawn", "std::thread::functions::spawn", "::JoinSet::spawn", "::spawn_local")
STOP = {"std::process::exit": 0, "std::process::abort": None, "std::process::exit::exit": 0, "std::intrinsics::abort": None}
REPORT = ("std::io::stdio::_eprint", "std::io::_eprint", "std::io::stdio::_print", "std::io::Write::write_fmt", "std::io::Write::write_all", "core::io::write::Write::write_fmt")


class Hook:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.memo = {}

    def body(self, E, t):
        """The function that a hook value stands for."""
        for x in t.sub:
            if x.op == "agg" and x.args[0] == "closure":
                return x.args[1]
            if x.op == "fn":
                k = E.callees[x.args[0]]
                return (k.get("r") or k)["h"]
        return None

    def wrong(self, h):
        """Why a hook does not end the process, or None."""
        if h in self.memo:
            return self.memo[h]
        c, m = self.c, self.m
        rep = matcher(REPORT)
        def ghost_of(st, n):
            if n.kind in ("log", "closure_call") or n.kind == "call" and (rep(n.data.name) or n.data.name == "indirect"):
                happened(st, ghost("reported"))

        mm = m.other(
            tuple(STOP) + REPORT,
            hold_fact=is_ghost,
            pin_args=True,
            ghost=ghost_of,
        )
        E = mm.free(h)
        out = None
        stops = 0
        for n in E.nodes:
            if n.kind == "end":
                c.oblige(kind="ways_out_of_the_hook")
                out = out or ("does not always end the process", E, n)
            elif n.kind == "exit":
                c.oblige(kind="ways_out_of_the_hook", sample="%s" % short(n.data.name))
                stops += 1
                i = STOP.get(n.data.name)
                if n.data.name.endswith("exit") and i is not None and n.data.args:
                    a = n.data.args[i]
                    if a.op != "k" or a.args[0] == 0:
                        out = out or ("ends the process with a status that may be zero", E, n)
                if not any(is_ghost(t, "reported") for t in n.facts):
                    out = out or ("ends the process without reporting the failure", E, n)
        if not stops:
            out = out or ("never ends the process", E, None)
        self.memo[h] = out
        return out


def run(c):
    c.rule = (
        "On every path from the entry point, before the first task or thread is started, a panic hook is installed whose every path reports the panic and then "
        "ends the process with a constant status other than zero; the hook is neither taken out nor replaced afterwards by one that does not."
    )
    m = Modular(c, ())
    hook = Hook(c, m)
    setter, taker = matcher(("::set_hook",)), matcher(("::take_hook",))

    def on_event(st, n):
        if n.kind != "call" or type(n.data.name) is not str:
            return
        if setter(n.data.name) or taker(n.data.name):
            st.facts = {t: f for t, f in st.facts.items() if not is_ghost(t, "hook")}
        if setter(n.data.name):
            happened(st, ghost("hook", n.data.args[0]))

    mm = m.other(HOOK + SPAWN, hold_fact=is_ghost, pin_args=True, ghost=on_event)
    roots = [h for h in m.live if m.name(h) == "ethersync::main"]
    if not roots:
        c.violate(("anchor", "main"), "the entry point was not found")
    for h in roots:
        E = mm.free(h)
        c.counts["states"] = len(E.nodes)
        # tasks that are started by tasks come later
        spawns = [n for n in E.nodes if n.kind == "spawn" and E.callpath(n.ctx)[0][0] == m.name(h)]
        if not spawns:
            c.violate(("anchor", "spawn"), "no place found where a task is started")
        seen = set()
        for n in spawns:
            fn = norm(E.ctx_body(n.ctx).path)
            c.oblige(kind="tasks_started", sample=fn)
            gs = [t for t in n.facts if is_ghost(t, "hook")]
            where = c.at(E, n)
            if not gs:
                if fn not in seen:
                    seen.add(fn)
                    c.violate(("unprotected", fn), "%s starts a task although no panic hook may be installed, so that a panic may end only that task" % fn, where, c.trace(E, from_root(E, n.id)))
                continue
            b = hook.body(E, gs[0].args[1][0])
            if b is None or b not in c.facts.bodies:
                c.violate(("hook", "unknown"), "the panic hook that is installed cannot be traced to a function", where)
                continue
            w = hook.wrong(b)
            if w is not None:
                c.violate(("hook", norm(c.facts.bodies[b]["p"])), "the panic hook %s" % w[0], c.at(w[1], w[2]) if w[2] is not None else where, c.trace(w[1], from_root(w[1], w[2].id)) if w[2] is not None else ())
    # spawns that the analysis from the entry point does not see
    f = matcher(SPAWN)
    c.counts["functions_that_start_tasks"] = sum(1 for h in m.live if any(f(x) for x in m.callees[h][1]))
    for h in m.live:
        for x in m.callees[h][1]:
            if x.endswith("panic::resume_unwind") or x.endswith("panicking::resume_unwind"):
                c.violate(("silent", m.name(h)), "%s fails without calling the panic hook" % m.name(h))
