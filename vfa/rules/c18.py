"""C18: the saved document stays loadable after a crash."""
from ..rulelib import *
from . import actor
from .c15 import BUILD
from .c17 import LOAD
from .c20 import READS
from .common import MUTATORS
from .own import *

TECHNIQUE = "typestate analysis over MIR: what is written where, in which order, and which state allows appending"
NOTE = (
    "All paths from taking the bytes of the document to the end of the handling, and all paths through loading. That renaming a file is atomic and that a write "
    "that was reported as successful is kept if the daemon is killed is assumed of the operating system; loss of power is not covered."
)

FULL = ("::AutoCommit::save", "::AutoCommit::save_with_options", "::AutoCommit::save_nocompress", "::AutoCommit::save_and_verify")
PART = ("::AutoCommit::save_incremental", "::AutoCommit::save_after")
FS = ("std::fs::*", "std::io::Write::*", "core::io::write::*", "tokio::fs::*")


def name_of(p):
    """(directory, constant name) of a path made of a directory and fixed names."""
    parts = []
    best = None
    for x in p.sub:
        if x.op == "call" and x.args[0].endswith("Path::join") and len(x.args[1]) > 1 and x.args[1][1].op == "k":
            if best is None or best in x.sub:
                best = x
    t = best
    while t is not None and t.op == "call" and t.args[0].endswith("Path::join") and t.args[1][1].op == "k":
        parts.append(str(t.args[1][1].args[0]))
        t = t.args[1][0]
    return "/".join(reversed(parts)) if parts else None


def folder(name):
    return name.rsplit("/", 1)[0] if "/" in name else ""


class Saving:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.full, self.part = matcher(FULL), matcher(PART)
        F = c.facts
        self.owner = {
            a["p"]: {f[0] for v in a["variants"] for f in v[1]}
            for a in F.adts.values()
            if a["p"].startswith("ethersync") and any(F.types[f[1]]["s"].endswith("document::Document") for v in a["variants"] for f in v[1])
        }
        self.flags = {
            f[0]
            for a in F.adts.values()
            if a["p"] in self.owner
            for v in a["variants"]
            for f in v[1]
            if F.types[f[1]]["s"] == "bool" or F.types[f[1]]["k"] == "adt" and F.types[f[1]]["d"] in F.adts and len(F.adts[F.types[f[1]]["d"]]["variants"]) > 1
        }
        fs, sv = matcher(FS), matcher(FULL + PART)
        w = Engine(F).closure_over(lambda h: any(fs(n) for n in m.callees[h][1]))
        s = Engine(F).closure_over(lambda h: any(sv(n) for n in m.callees[h][1]))
        self.never = set()
        for h in w - s:
            b = F.bodies[h]
            if m.top(h) != h or b.get("coroutine"):
                continue
            tys = [F.types[b["locals"][i + 1]]["s"] for i in range(b["argc"])]
            if any("ethersync::" in t and not t.endswith(("::AbsolutePath", "::Document")) and not any(t.endswith(o) for o in self.owner) for t in tys):
                self.never.add(m.name(h))

    def on_event(self, st, n):
        if n.kind == "set":
            g = const(n.data.name.rsplit("::", 1)[1])
            st.facts = {t: f for t, f in st.facts.items() if not (is_ghost(t, "state") and t.args[1][0] == g)}
            happened(st, ghost("state", g, n.data.args[0]))
        if n.kind != "call":
            return
        if self.full(n.data.name) or self.part(n.data.name):
            happened(st, ghost("took", n.data.ret))
        w = written(n)
        if w is not None:
            opened = [x for x in n.data.args[0].sub if x.op == "call" and x.args[0] in OPENS] if n.data.name in PUTS_IN else []
            app = any(self.option(x, "append") for x in opened)
            happened(st, ghost("append" if app else "write", n.data.ret, w[0], w[1]))
        if n.data.name.endswith("fs::rename") or n.data.name.endswith("fs::rename::rename"):
            happened(st, ghost("rename", n.data.ret, n.data.args[0], n.data.args[1]))

    @staticmethod
    def option(x, name):
        for y in x.sub:
            if y.op in ("call", "ver") and y.args[0].endswith("OpenOptions::" + name):
                a = (y.args[1] if y.op == "call" else y.args[3])
                if a and a[-1] == const(True):
                    return True
        return False

    def hold(self, t):
        return is_ghost(t) or base(t).op in ("sym", "call")

    # -- loading -------------------------------------------------------------------------
    def loading(self):
        c, m = self.c, self.m
        rd = matcher(READS)
        f = matcher(LOAD)
        loads = Engine(c.facts).closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
        reads = Engine(c.facts).closure_over(lambda h: any(rd(n) for n in m.callees[h][1]))
        wk = matcher(BUILD + MUTATORS)
        skip = {m.name(h) for h in Engine(c.facts).closure_over(lambda h: any(wk(n) for n in m.callees[h][1])) if h not in loads and m.top(h) == h}
        mm = m.other(LOAD + READS, hold_fact=self.hold, pin_args=True, never=skip)
        names = set()
        n_load = 0
        roots = [h for h in m.live & loads & reads if m.top(h) == h and not m.is_wrapper(h) and not any(x in loads and x in reads for x in m.callees[h][0])]
        work, seen = sorted(roots, key=m.name), set()
        while work:
            h = work.pop(0)
            if h in seen:
                continue
            seen.add(h)
            E = mm.free(h)
            for n in E.nodes:
                for t, fct in n.facts.items() if n.kind in ("panic", "exit", "end", "call") else ():
                    if not (t.op == "call" and f(t.args[0]) and not t.args[0].endswith("load_incremental")):
                        continue
                    src = [x for a in t.args[1] for x in a.sub if x.op in ("call", "ver") and rd(x.args[0])]
                    if not src:
                        continue
                    for x in src:
                        nm = name_of((x.args[1] if x.op == "call" else x.args[3])[0])
                        if nm:
                            names.add(nm)
                        else:
                            # the callers know which file it is
                            work.extend(sorted(m.callers(h), key=m.name))
                    n_load += 1
                    if n.kind in ("panic", "exit") and fct == ("=", "Err"):
                        c.oblige(kind="failures_of_loading")
                        tolerant = any(x.op in ("agg", "k", "call") and "Ignore" in str(x) for a in t.args[1] for x in a.sub if x.op == "agg")
                        again = any(u.op == "call" and u.args[0].endswith("load_incremental") and g == ("=", "Err") for u, g in n.facts.items())
                        if not tolerant and not again:
                            c.violate(
                                ("truncated", m.name(h)),
                                "%s gives up on a saved document whose end is missing" % m.name(h),
                                c.at(E, n),
                                c.trace(E, from_root(E, n.id)),
                            )
        if not names:
            c.violate(("anchor", "load"), "no place found where the saved document is read and loaded")
        c.counts["saved_documents"] = sorted(names)
        return names

    # -- saving --------------------------------------------------------------------------------
    def roots(self):
        """Functions within which bytes of the document are taken and used up."""
        m = self.m
        mm = self.mm
        out, seen = [], set()
        work = [m.top(h) for h in m.sites(FULL + PART)]
        while work:
            h = work.pop()
            if h in seen:
                continue
            seen.add(h)
            E = mm.free(h)
            up = m.callers(h)
            if up and any(n.kind == "end" and n.ret is not None and any(x.op == "call" and (self.full(x.args[0]) or self.part(x.args[0])) for x in n.ret.sub) for n in E.nodes):
                work.extend(up)
            else:
                out.append(h)
        return sorted(set(out), key=m.name)

    def field(self, n, g):
        """Value that a field of the document's owner was last set to: None if it was not."""
        for t in n.facts:
            if is_ghost(t, "state") and t.args[1][0] == const(g):
                return t.args[1][1]
        return None

    def guards(self, facts):
        """Fields of the owner that are known: {field: value}."""
        out = {}
        for t, f in facts.items():
            if t.op in ("fld", "vfld") and f[0] == "=" and any(t.args[-1] in fs for fs in self.owner.values()) and base(t).op == "sym":
                out[t.args[-1]] = f[1]
        return out

    def complete(self, facts):
        """A complete save happened: bytes written to another file, which was then renamed."""
        for t in facts:
            if is_ghost(t, "rename") and facts.get(t.args[1][0]) == ("=", "Ok") and name_of(t.args[1][2]) in self.names:
                return True
        return False

    def complaints(self, E, n, h):
        """What is wrong at this end."""
        out = []
        for t in n.facts:
            if is_ghost(t, "took"):
                s = t.args[1][0]
                if self.part(s.args[0]):
                    ok = any(
                        is_ghost(x, "append") and x.args[1][2] is s and n.facts.get(x.args[1][0]) == ("=", "Ok") and name_of(x.args[1][1]) in self.names for x in n.facts
                    )
                    ok = ok or any(s in x.sub and (f == ("=", 0) and x.op == "call" and x.args[0] in ("len",) or f == ("=", "empty") or f == ("=", True) and x.op == "call" and x.args[0].endswith("is_empty")) for x, f in n.facts.items())
                    if not ok and self.back_to_full(n):
                        ok = True
                    if not ok:
                        out.append(("lost", "the changes taken for an incremental save may not get into the file, and the next save does not contain them"))
        return out

    def back_to_full(self, n):
        for g, v in self.allow.items():
            t = self.field(n, g)
            if t is not None and t.op == "k" and t.args[0] != v:
                return True
        return False

    def unrelated(self):
        """Functions in which files are neither changed by a path that is made up there nor by one that is passed in."""
        m, F = self.m, self.c.facts
        fs, wk = matcher(FS), matcher(BUILD + MUTATORS)
        w = Engine(F).closure_over(lambda h: any(wk(n) for n in m.callees[h][1]))
        s = Engine(F).closure_over(lambda h: any(n.endswith("Path::join") for n in m.callees[h][1]))
        return {m.name(h) for h in w if m.top(h) == h and h not in s}

    def failed(self, n):
        return n.ret.op == "agg" and n.ret.args[2] == "Err" or n.facts.get(n.ret) == ("=", "Err")

    def loops(self, h):
        f = matcher(("::Receiver::recv",))
        return any(f(x) for x in self.m.callees[h][1])

    def saving(self):
        c, m = self.c, self.m
        self.mm = m.other(FULL + PART + FS, hold_fact=self.hold, pin_args=True, never=self.never, ghost=self.on_event, fields=tuple(self.flags))
        roots = self.roots()
        if not roots:
            c.violate(("anchor", "save"), "no place found where the document is saved")
        appends = 0
        fulls = 0
        fs = matcher(FS)
        touch = Engine(c.facts).closure_over(lambda h: any(fs(n) for n in m.callees[h][1]))
        # everywhere else where a path is put together and files are changed
        others = {m.top(h) for h in m.live & touch if any(n.endswith("Path::join") for n in m.callees[h][1])} - set(roots)
        plain = m.other(FS, hold_fact=self.hold, pin_args=True, ghost=self.on_event, never=self.never | self.unrelated() | {m.name(h) for h in roots})
        for h in sorted(set(roots) | others, key=m.name):
            E = (self.mm if h in roots else plain).free(h)

            def bad(key, what, n):
                c.violate((key, m.name(h)), "%s: %s" % (m.name(h), what), c.at(E, n), c.trace(E, from_root(E, n.id)))

            for n in E.nodes:
                if n.kind != "call":
                    continue
                ev = n.data
                w = writes(n)
                if w is not None and name_of(w) in self.names:
                    c.oblige(kind="accesses_to_the_saved_document", sample="%s in %s" % (short(ev.name), m.name(h)))
                    if ev.name.endswith("rename"):
                        src = [
                            t
                            for t in n.facts
                            if is_ghost(t, "write") and name_of(t.args[1][1]) == name_of(ev.args[0]) and n.facts.get(t.args[1][0]) == ("=", "Ok")
                        ]
                        if not src:
                            bad("rename", "the saved document may be replaced by a file that was not completely written", n)
                        elif not any(t.args[1][2].op == "call" and self.full(t.args[1][2].args[0]) for t in src):
                            bad("rename", "the saved document may be replaced by something that is not a complete save", n)
                        else:
                            fulls += 1
                        if folder(name_of(ev.args[0]) or "?") != folder(name_of(w)):
                            bad("folder", "the file that replaces the saved document is in another directory, so that replacing it is not a single step", n)
                    elif self.option(mk("call", "x", tuple(ev.args), None), "append") and not self.option(mk("call", "x", tuple(ev.args), None), "truncate"):
                        appends += 1
                        g = self.guards(n.facts)
                        if not g and not self.complete(n.facts):
                            bad("append", "an incremental save may be added to a file that this run has not completely written", n)
                        for k, v in g.items():
                            self.cand.setdefault(k, set()).add(v)
                        self.sites.append((h, E, n, g))
                    elif ev.name not in ("std::fs::OpenOptions::open",) or self.option(mk("call", "x", tuple(ev.args), None), "truncate") or self.option(mk("call", "x", tuple(ev.args), None), "write"):
                        bad("direct", "the saved document is overwritten in place, so that it is incomplete for a while", n)
                i = REMOVES.get(ev.name)
                if i is not None and name_of(ev.args[i]) in self.names:
                    bad("removed", "the saved document is removed", n)
                if ev.name in PUTS_IN:
                    p = written(n)
                    if p is not None and name_of(p[0]) in self.names:
                        c.oblige(kind="writes_to_the_saved_document")
                        if not (p[1].op == "call" and self.part(p[1].args[0])):
                            bad("content", "something other than the changes since the last save is added to the saved document", n)
        # which field says that a complete save happened?
        for h, E, n, g in self.sites:
            good = False
            for k, v in g.items():
                why = self.typestate(k, v)
                if why is None:
                    self.allow[k] = v
                    good = True
                else:
                    worst = (k, why)
            if not good and not self.complete(n.facts):
                c.violate(
                    ("append", m.name(h)),
                    "%s: an incremental save may be added to a file that this run has not completely written%s" % (m.name(h), " (%s)" % worst[1] if g else ""),
                    c.at(E, n),
                    c.trace(E, from_root(E, n.id)),
                )
        work = [(h, 0) for h in roots]
        while work:
            h, depth = work.pop()
            E = self.mm.free(h)
            ends = [n for n in E.nodes if n.kind == "end" and n.ret is not None]
            wrong = [(n, w) for n in ends for w in self.complaints(E, n, h)]
            up = m.callers(h)
            if wrong and depth < 2 and up and all(self.failed(n) for n, w in wrong) and not any(self.loops(u) for u in up):
                # the caller has to deal with the failure
                work.extend((u, depth + 1) for u in up)
                wrong = ()
            for n, (key, what) in wrong:
                c.violate((key, m.name(h)), "%s: %s" % (m.name(h), what), c.at(E, n), c.trace(E, from_root(E, n.id)))
            for n in ends:
                if any(f == ("=", "Persist") for f in n.facts.values()):
                    c.oblige(kind="ways_out_of_handling_a_request_to_save")
                    if not any(is_ghost(t, "took") for t in n.facts):
                        c.violate(("skipped", m.name(h)), "%s: a request to save the document can be dropped" % m.name(h), c.at(E, n), c.trace(E, from_root(E, n.id)))
        if not fulls:
            c.violate(("anchor", "full"), "no place found that completely saves the document")

    def typestate(self, g, v):
        """Does field g have value v only after a complete save of this run? None if so."""
        if (g, v) in self.memo:
            return self.memo[(g, v)]
        m = self.m
        why = None
        for h, E, t in m.field_values(g):
            self.c.oblige(kind="values_of_the_state_field")
            if not (t.op == "k" and t.args[0] != v or t.op == "agg" and t.args[2] != v):
                why = "%s starts with that state" % m.name(h)
        seen = set()
        probe = Engine(self.c.facts)
        work = [(m.top(h), ()) for h in m.live if g in probe.field_writes(h)]
        mm = m.other(FULL + PART + FS, hold_fact=self.hold, pin_args=True, never=self.never, ghost=self.on_event, fields=tuple(self.flags))
        while work and why is None:
            h, chain = work.pop()
            if h in seen:
                continue
            seen.add(h)
            E = mm.free(h)
            bad = None
            for n in E.nodes:
                if n.kind == "end" and n.ret is not None:
                    t = self.field(n, g)
                    self.c.oblige(kind="ways_out_of_functions_that_change_the_state_field")
                    if t is None or t.op == "k" and t.args[0] != v or t.op == "agg" and t.args[2] != v:
                        continue
                    if not self.complete(n.facts) and not any(self.guards(n.facts).get(k) == w for k, w in ((g, v),)):
                        bad = n
            if bad is not None:
                up = m.callers(h)
                if up and len(chain) < 4 and not any(self.loops(u) for u in up):
                    work.extend((u, chain + (h,)) for u in up)
                else:
                    why = "%s can set that state without a complete save" % m.name(h)
        self.memo[(g, v)] = why
        return why

    def run(self):
        self.memo, self.cand, self.sites, self.allow = {}, {}, [], {}
        self.names = self.loading()
        self.saving()


def run(c):
    c.rule = (
        "The file from which the document is loaded is only ever changed in two ways: replaced in one step (rename within the directory) by a file to which all bytes of a complete save were successfully written, "
        "or extended by exactly the bytes of an incremental save. Extending it needs a state of the daemon that no construction starts with and that is only reached after such a replacement succeeded; "
        "bytes taken for an incremental save are in the file before the next one is taken. Loading does not give up on a file whose end is missing."
    )
    m = Modular(c, ())
    Saving(c, m).run()
    actor.loop(c, m, "Persist")
