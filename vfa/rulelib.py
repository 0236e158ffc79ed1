"""What the rules share: running the engine, queries over its graph, reporting."""
import json
import os
import time

from . import extract
from .engine import Engine, Limit, norm, last2
from .facts import Facts
from .terms import *

SPAWN = (
    "tokio::task::spawn::spawn",
    "tokio::runtime::runtime::Runtime::spawn",
    "tokio::runtime::handle::Handle::spawn",
    "tokio::task::local::spawn_local",
    "tokio::task::blocking::spawn_blocking",
    "std::thread::spawn",
    "std::thread::functions::spawn",
)


class Violation:
    def __init__(self, key, msg, where, trace):
        self.key = key
        self.msg = msg
        self.where = where
        self.trace = trace


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.violations = {}
        self.obligations = 0
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.engines = []
        self._facts = None
        self.rule = ""
        self.t0 = time.time()

    # -- input -----------------------------------------------------------------
    @property
    def facts(self):
        if self._facts is None:
            files, key, n = extract.ensure()
            self._facts = Facts(files)
            self.counts["source_files"] = n
            self.counts["bodies_extracted"] = len(self._facts.bodies)
            self.counts["facts_key"] = key
        return self._facts

    def engine(self, interest=None, fields=(), always=(), tasks=True, main=True, codecs=False, want_mem=(), max_nodes=900000, spawn=True, keep_fact=None, never=()):
        """Analyse main and the tasks it starts, looking into functions of interest."""
        E = Engine(self.facts, max_nodes=max_nodes)
        E.want_mem = set(want_mem)
        E.keep_fact = keep_fact
        E.never = frozenset(never)
        if interest is not None:
            names = matcher(interest)
            E.focus(lambda n: names(n) or (spawn and n in SPAWN), fields, always)
        self.engines.append(E)
        if main:
            ms = [b for b in self.facts.bodies.values() if b["bin"] and norm(b["p"]).endswith("::main") and b["kind"] != "Closure"]
            if len(ms) != 1:
                raise extract.ExtractError("no main function found")
            E.run(E.add_root(E.body(ms[0]["h"]), [], "main"))
        if codecs:
            for b in self.facts.bodies.values():
                if b.get("trait") in ("tokio_util::codec::encoder::Encoder", "tokio_util::codec::decoder::Decoder"):
                    run_free(E, E.body(b["h"]), b["p"])
        if tasks:
            E.run_spawned()
        return E

    # -- output -----------------------------------------------------------------
    def oblige(self, n=1, kind=None, sample=None):
        self.obligations += n
        if kind:
            self.counts[kind] = self.counts.get(kind, 0) + n
        if sample is not None and len(self.samples) < 12 and sample not in self.samples:
            self.samples.append(sample)

    def violate(self, key, msg, where=None, trace=()):
        """`key` identifies the defect without line numbers."""
        key = " | ".join(key) if isinstance(key, tuple) else key
        if key not in self.violations:
            self.violations[key] = Violation(key, msg, where, list(trace))

    def at(self, E, node):
        """Function, file and line of a node."""
        n = E.nodes[node] if isinstance(node, int) else node
        if not n.ctx:
            # the end of a root: what came before
            n = ([x for x in map(E.nodes.__getitem__, from_root(E, n.id)) if x.ctx] or [n])[-1]
            if not n.ctx:
                return None
        b = E.ctx_body(n.ctx)
        sp = b.blocks[n.bb][2]
        return {"function": norm(b.path), "file": "daemon/" + sp[0], "line": sp[1]}

    def trace(self, E, path):
        """Readable version of a path of node ids."""
        out = []
        for i in path:
            n = E.nodes[i]
            if n.kind in ("join", "root") or not n.ctx:
                continue
            b = E.ctx_body(n.ctx)
            sp = b.blocks[n.bb][2]
            what = n.kind
            if n.data is not None and hasattr(n.data, "name"):
                what = n.kind + " " + n.data.name
            line = "daemon/%s:%d %s: %s" % (sp[0], sp[1], norm(b.path), what)
            if not out or out[-1] != line:
                out.append(line)
        return out

    def coverage(self):
        c = dict(self.counts)
        fs = set()
        nodes = edges = 0
        for E in self.engines:
            fs |= {norm(E.F.bodies[h]["p"]) for h in E.inlined}
            nodes += len(E.nodes)
            edges += sum(len(s) for s in E.succ)
        if self.engines:
            c["functions_analysed"] = len(fs)
            c["program_states"] = nodes
            c["transitions"] = edges
            c["calling_contexts"] = sum(len(E.ctxs) - 1 for E in self.engines)
            c["roots"] = [l for E in self.engines for l, _ in E.roots]
            w = [x for E in self.engines for x in E.warnings]
            if w:
                c["warnings"] = sorted(set(w))
        c["obligations"] = self.obligations
        c["violations"] = len(self.violations)
        c["rule"] = self.rule
        c["samples"] = self.samples
        c["explanation"] = (
            "Static analysis of the MIR that the compiler produces for /repo on this run. "
            "An obligation is a program point (in a calling context and abstract state) at which the rule had to hold. "
            + self.rule
        )
        return c


# -- names ---------------------------------------------------------------------


def matcher(names):
    """Predicate on normalised names: a callable, or patterns.

    'a::b::c' matches exactly; '::x' matches a path that ends so; 'x*' a prefix.
    """
    if callable(names):
        return names
    exact = {n for n in names if not n.startswith("::") and not n.endswith("*")}
    suf = tuple(n for n in names if n.startswith("::"))
    pre = tuple(n[:-1] for n in names if n.endswith("*"))

    def f(n):
        return n in exact or (bool(suf) and n.endswith(suf)) or (bool(pre) and n.startswith(pre))

    return f


def run_free(E, body, label, given=None):
    """Analyse a function with unknown arguments, of which some may be given to be of a kind."""
    mem = {}

    def unknown(ty, *name):
        t = E.F.types[ty]
        s = mk("sym", "arg", label, *name)
        if t["k"] == "ref":
            root = ("arg:" + label,) + name
            mem[root] = s
            return mk("ref", root, (), "&mut" in t["s"][:6] or t.get("m", False))
        return s

    args = []
    for i in range(body.argc):
        ty = E.F.types[body.locals[i + 1]]
        if i == 0 and ty["k"] in ("closure", "coroutine"):
            vals = tuple(unknown(t, n) for n, t in enumerate(ty["a"]))
            args.append(mk("agg", ty["k"], body.h, "", tuple(str(n) for n in range(len(vals))), vals))
        elif i == 1 and body.coroutine:
            args.append(UNDEF)
        else:
            args.append(unknown(body.locals[i + 1], i))
    st = E.add_root(body, args, label, mem=mem)
    for i, v in (given or {}).items():
        E.assume_variant(st, mk("sym", "arg", label, i), v)
    E.run(st)


class Modular:
    """Analysis of functions one by one, with unknown arguments.

    A rule asks about certain calls.  What cannot be decided within the function
    that makes the call is looked at again from each of its callers.
    """

    def __init__(self, c, interest, **opts):
        self.c = c
        self.F = c.facts
        self.interest = matcher(interest)
        self.opts = opts
        self.done = {}
        probe = Engine(self.F)
        self.callees = {h: probe.static_callees(h) for h in self.F.bodies}
        self.rev = {}
        for h, (loc, _) in self.callees.items():
            for x in loc:
                self.rev.setdefault(x, set()).add(h)
        self.ids = {self.name(h): h for h in self.F.bodies}
        self.live = set()
        work = [h for h, b in self.F.bodies.items() if b["bin"] and norm(b["p"]).endswith("::main") and b["kind"] != "Closure"]
        # called by libraries
        work += [h for h, b in self.F.bodies.items() if b.get("trait") and not b.get("derived")]
        while work:
            h = work.pop()
            if h in self.live:
                continue
            self.live.add(h)
            work.extend(self.callees[h][0])

    def other(self, interest, **opts):
        """The same program, asked about something else."""
        m = object.__new__(Modular)
        m.__dict__.update(self.__dict__)
        m.interest = matcher(interest)
        m.opts = opts
        m.done = {}
        return m

    def name(self, h):
        return norm(self.F.bodies[h]["p"])

    def by_name(self, *names):
        f = matcher(names)
        return [h for h, b in self.F.bodies.items() if f(norm(b["p"]))]

    def top(self, h):
        """The function a closure belongs to; bodies of async code stay."""
        while True:
            b = self.F.bodies[h]
            if b["kind"] == "Closure" and not b.get("coroutine") and b.get("parent") in self.F.bodies:
                h = b["parent"]
            else:
                return h

    def is_wrapper(self, h):
        """async fn: it only builds the coroutine."""
        b = self.F.bodies[h]
        kids = [x for x in self.callees[h][0] if self.F.bodies[x].get("coroutine") and self.F.bodies[x].get("parent") == h]
        return len(kids) == 1 and "Fn" in str(self.F.bodies[kids[0]]["coroutine"])

    def callers(self, h):
        out = set()
        seen = set()
        work = [h]
        while work:
            x = work.pop()
            for g in self.rev.get(x, ()):
                if g in seen:
                    continue
                seen.add(g)
                if self.is_wrapper(g):
                    work.append(g)
                elif g in self.live:
                    t = self.top(g)
                    if t != h:
                        out.add(t)
        return out

    def free(self, h, target=None, chain=()):
        """Analyse a function; with a target, look only at the calls that lead to it along a chain of functions."""
        E = self.done.get((h, target, chain))
        if E is None:
            E = Engine(self.F, max_nodes=self.opts.get("max_nodes", 400000) if target is None else self.opts.get("max_climb", 30000))
            E.keep_fact = self.opts.get("keep_fact")
            E.hold_fact = self.opts.get("hold_fact")
            E.pin_args = self.opts.get("pin_args", False)
            E.ghost = self.opts.get("ghost")
            E.want_back = self.opts.get("want_back", False)
            E.elem_facts = self.opts.get("elem_facts", True)
            E.want_agg = self.opts.get("want_agg")
            open_ = {x for g in chain for x in (self.name(g), self.name(g).rsplit("::{closure", 1)[0])}
            E.never = frozenset(self.opts.get("never", ())) - open_
            E.want_mem = set(self.opts.get("want_mem", ()))
            f = self.interest
            if target is None:
                E.focus(lambda n: f(n) or n in SPAWN, self.opts.get("fields", ()), self.opts.get("always", ()))
            else:
                help = self.opts.get("helper", lambda h: False)
                rel = E.closure_over(lambda x: x == target)
                rel = {x for x in rel if x == h or self.top(x) in chain or self.top(x) == h or self.is_wrapper(x)}
                E.relevant = rel | {x for x in self.F.bodies if help(x)}
            run_free(E, E.body(h), self.name(h), self.opts.get("given"))
            if target is None:
                E.run_spawned()
            else:
                E.run_spawned(lambda x: x in E.relevant)
            self.done[(h, target, chain)] = E
            self.c.engines.append(E)
        return E

    # -- where a value comes from ------------------------------------------------
    def calling(self, g, h):
        """Analyse a caller, with calls of h left as they are."""
        key = ("calling", g, h)
        E = self.done.get(key)
        if E is None:
            E = Engine(self.F, max_nodes=self.opts.get("max_nodes", 400000))
            E.never = frozenset((self.name(h),))
            E.keep_fact = lambda t: False
            E.want_agg = lambda p: p == h
            help = self.opts.get("helper", lambda h: False)
            E.relevant = E.closure_over(lambda x: x == h) | {x for x in self.F.bodies if help(x)}
            run_free(E, E.body(g), self.name(g))
            self.done[key] = E
            self.c.engines.append(E)
        return E

    def field_values(self, field):
        """What is ever put into a field of this name: [(function, value)]."""
        key = ("field", field)
        r = self.done.get(key)
        if r is None:
            holders = {
                a["p"]
                for a in self.F.adts.values()
                for v in a["variants"]
                if a["p"].split("::")[0] == "ethersync" and any(f[0] == field for f in v[1])
            }
            r = []
            for h, b in self.F.bodies.items():
                if h not in self.live or b.get("derived"):
                    continue
                if any(
                    s[0] not in ("dead", "live", "setdisc") and s[1][0] == "agg" and s[1][1] == "adt" and s[1][3] in holders
                    for blk in b["blocks"]
                    for s in blk["s"]
                ):
                    t = self.top(h)
                    E = Engine(self.F, max_nodes=self.opts.get("max_nodes", 400000))
                    E.keep_fact = lambda x: False
                    E.want_agg = lambda p: p in holders
                    E.relevant = E.closure_over(lambda x: x == h) if t != h else {h}
                    run_free(E, E.body(t), self.name(t))
                    self.c.engines.append(E)
                    for p, aggs in E.aggs.items():
                        for a in aggs:
                            if field in a.args[3]:
                                r.append((t, E, a.args[4][a.args[3].index(field)]))
            self.done[key] = r
        return r

    def up(self, h, t):
        """The term over the arguments of h, as terms over those of its callers: [(caller, E, term)]."""
        b = self.F.bodies[h]
        label = self.name(h)
        syms = [x for x in walk(t) if x.op == "sym" and x.args[:2] == ("arg", label)]
        out = []
        if b.get("coroutine"):
            p = b["parent"]
            if self.is_wrapper(p):
                m = {s: mk("sym", "arg", self.name(p), s.args[2]) for s in syms}
                return self.up(p, subst(t, m))
            E = self.calling(self.top(p), h)
            for a in E.aggs.get(h, ()):
                out.append((self.top(p), E, subst(t, {s: a.args[4][s.args[2]] for s in syms})))
            return out
        for g in self.rev.get(h, ()):
            if g not in self.live:
                continue
            g = self.top(g)
            E = self.calling(g, h)
            for n in E.nodes:
                if n.kind == "call" and n.data is not None and n.data.name == label:
                    m = {s: n.data.args[s.args[2]] for s in syms if s.args[2] < len(n.data.args)}
                    out.append((g, E, subst(t, m)))
        return sorted(set(out), key=lambda x: (self.name(x[0]), x[2].id))

    def origins(self, h, t, leaf, E=None):
        """Follow a value back through callers and struct fields.

        `leaf(h, E, t)` says True (fine), False (bad) or None (go on).
        Returns the bad ones as [(h, t)].
        """
        bad = []
        seen = set()
        work = [(h, E, t)]
        while work:
            h, E, t = work.pop()
            if (h, t) in seen:
                continue
            seen.add((h, t))
            r = leaf(h, E, t)
            if r is True:
                continue
            if r is False:
                bad.append((h, t))
                continue
            if t.op in ("loop", "join") and E is not None and E.alts.get(t):
                work.extend((h, E, x) for x in E.alts[t])
            elif t.op in ("old", "any"):
                work.append((h, E, t.args[0]))
            elif t.op == "sym" and t.args[0] == "arg":
                ups = self.up(h, t)
                if not ups:
                    bad.append((h, t))
                work.extend(ups)
            elif t.op == "fld" or t.op == "vfld":
                vs = self.field_values(t.args[-1]) if not t.args[-1].isdigit() else ()
                if vs:
                    work.extend(vs)
                elif any(x.op == "sym" and x.args[0] == "arg" for x in walk(t)):
                    ups = self.up(h, t)
                    if not ups:
                        bad.append((h, t))
                    work.extend(ups)
                else:
                    bad.append((h, t))
            else:
                bad.append((h, t))
        return bad

    def arg_type(self, t):
        """Type of an argument symbol of a free root."""
        h = self.ids.get(t.args[1])
        if h is None:
            return ""
        b = self.F.bodies[h]
        i = t.args[2] if len(t.args) > 2 else 0
        ty = self.F.types[b["locals"][1]] if b["argc"] else None
        if ty is not None and ty["k"] in ("closure", "coroutine") and i < len(ty["a"]):
            return self.F.types[ty["a"][i]]["s"]
        return self.F.types[b["locals"][i + 1]]["s"] if i + 1 < len(b["locals"]) else ""

    def arg_types(self, t):
        return {self.arg_type(x): x for x in walk(t) if x.op == "sym" and x.args[0] == "arg"}

    def sites(self, names):
        f = matcher(names)
        return [h for h in self.F.bodies if h in self.live and any(f(n) for n in self.callees[h][1])]

    def climb(self, names, judge, depth=6, only=None, pick=None):
        """`judge(E, node)` is None if all is well, or says what is wrong.

        It is asked about the calls of these names, or about the nodes picked in the functions with such calls.

        A complaint in a list is one that no caller can settle.  Yields (E, node, complaint) for what no caller settles.
        """
        f = matcher(names)
        for h in sorted(self.sites(names), key=self.name):
            if only is not None and h not in only:
                continue
            seen = set()
            work = [(self.top(h), (), None)]
            while work:
                r, chain, below = work.pop()
                d = len(chain)
                if (r, chain) in seen or r in chain:
                    continue
                seen.add((r, chain))
                try:
                    E = self.free(r, h if d else None, chain)
                except Limit:
                    if below is None:
                        raise
                    # too large to look at from here: what was found stands
                    E, bad = below
                    for n, w in bad:
                        yield E, n, w
                    continue
                bad = []
                met = False
                for n in E.nodes:
                    if (pick(n) if pick is not None else n.kind in ("call", "await") and n.data is not None and f(n.data.name)) and n.ctx and E.ctxs[n.ctx][3] == h:
                        w = judge(E, n)
                        if type(w) is list:
                            yield E, n, w[0]
                        elif w is not None:
                            bad.append((n, w))
                    if (n.kind in ("call", "await") and n.data is not None or pick is not None and pick(n)) and n.ctx and E.ctxs[n.ctx][3] == h:
                        met = True
                if not met and d == 0 and r != h:
                    # a closure that a library calls
                    work.append((h, (h,), None))
                    continue
                if not bad:
                    continue
                up = self.callers(r)
                if up and d < depth:
                    work.extend((u, chain + (r,), (E, bad)) for u in up)
                else:
                    for n, w in bad:
                        yield E, n, w


def assuming(E, facts, t, val):
    """The facts if `t` is `val`; None if that cannot be."""

    class St:
        pass

    st = St()
    st.facts = dict(facts)
    return st.facts if E.assume(st, t, val) else None


# -- graph ---------------------------------------------------------------------


def reach(E, starts, stop=None, roots_of=None):
    """Breadth-first over the graph; `stop(node)` is reached but not left.

    Returns {node id: predecessor}.
    """
    par = {}
    work = []
    for s in starts:
        if s not in par:
            par[s] = None
            work.append(s)
    i = 0
    nodes = E.nodes
    while i < len(work):
        x = work[i]
        i += 1
        if stop is not None and par[x] is not None and stop(nodes[x]):
            continue
        for y in E.succ[x]:
            if y not in par:
                par[y] = x
                work.append(y)
    return par


def path_to(par, x):
    out = [x]
    while par[x] is not None:
        x = par[x]
        out.append(x)
    out.reverse()
    return out


def from_root(E, target):
    """A path from a root to a node."""
    par = reach(E, [r for _, r in E.roots])
    return path_to(par, target) if target in par else [target]


def events(E, names=None, kinds=("call",)):
    f = matcher(names) if names is not None else None
    for n in E.nodes:
        if n.kind in kinds and n.data is not None and (f is None or f(n.data.name)):
            yield n


def is_event(names, kinds=("call",)):
    f = matcher(names)
    return lambda n: n.kind in kinds and n.data is not None and hasattr(n.data, "name") and f(n.data.name)


def fact(n, t):
    return n.facts.get(t)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def leads_to(E, t, pred, seen=None):
    """Does the value, including what it was in earlier iterations, contain such a term?"""
    seen = set() if seen is None else seen
    for x in walk(t):
        if pred(x):
            return True
        if x.op in ("loop", "join") and x not in seen:
            seen.add(x)
            for y in E.alts.get(x, ()):
                if leads_to(E, y, pred, seen):
                    return True
    return False


def callname(t):
    return t.args[0] if t.op == "call" else None


# -- ghosts: facts about what has happened -------------------------------------


def ghost(name, *args):
    return mk("call", "ghost::" + name, args, None)


def is_ghost(t, *names):
    return t.op == "call" and t.args[0].startswith("ghost::") and (not names or t.args[0][7:] in names)


def happened(st, t):
    st.facts = dict(st.facts)
    st.facts[t] = ("=", True)


def carried_out(m, n):
    """The call that a node carries out, as (name, args): async functions run when they are awaited.

    Those of libraries are named twice, the second time as "await name".
    """
    if n.kind == "call" and type(n.data.name) is str:
        h = m.ids.get(n.data.name)
        if h is None or not m.is_wrapper(h):
            return n.data.name, n.data.args
    elif n.kind == "await" and n.data.args and n.data.args[0].op == "call":
        t = n.data.args[0]
        h = m.ids.get(t.args[0])
        if h is None:
            return "await " + t.args[0], t.args[1]
        if m.is_wrapper(h):
            return t.args[0], t.args[1]
    return None, ()


def base(t):
    while t.op in ("fld", "vfld"):
        t = t.args[0]
    return t
