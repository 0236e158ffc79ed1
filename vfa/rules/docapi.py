"""What the functions that change the document do, found out by looking into them."""
from ..rulelib import *
from .common import MUTATORS

READ = ("automerge::read::ReadDoc::*",)
DIFF = ("dissimilar::diff",)
TEXT = ("str", "String")


def is_text(s):
    return s.lstrip("&").replace("mut ", "").split("::")[-1] in TEXT


def is_key(s):
    return s.endswith("::RelativePath")


def is_delta(s):
    return s.endswith("::TextDelta")


class DocApi:
    """effects: function name -> ("set", key, text), ("apply", key, delta) or ("remove", key), as argument numbers."""

    def __init__(self, c, m):
        self.c = c
        self.effects = {}
        f = matcher(MUTATORS)
        probe = Engine(c.facts)
        rel = probe.closure_over(lambda h: any(f(n) for n in m.callees[h][1]))
        todo = {}
        for h in sorted(rel & m.live, key=m.name):
            b = c.facts.bodies[h]
            if m.top(h) != h or m.is_wrapper(h) or b.get("coroutine"):
                continue
            tys = [c.facts.types[b["locals"][i + 1]]["s"] for i in range(b["argc"])]
            keys = [i for i, s in enumerate(tys) if is_key(s)]
            if len(keys) == 1:
                todo[h] = (keys[0], [i for i, s in enumerate(tys) if is_text(s)], [i for i, s in enumerate(tys) if is_delta(s)])
        while True:
            mm = m.other(MUTATORS + READ + DIFF + tuple(self.effects), hold_fact=self.hold, pin_args=True, ghost=self.on_event, never=tuple(self.effects), max_nodes=40000)
            found = {}
            for h, (k, texts, deltas) in sorted(todo.items(), key=lambda x: m.name(x[0])):
                try:
                    E = mm.free(h)
                except Limit:
                    continue
                ends = [n for n in E.nodes if n.kind == "end"]
                arg = lambda i: mk("sym", "arg", m.name(h), i)
                e = None
                if ends:
                    for t in texts:
                        if all(self.is_set(n.facts, arg(k), arg(t)) for n in ends):
                            e = ("set", k, t)
                    for t in deltas:
                        if all(self.is_applied(n.facts, arg(k), arg(t)) for n in ends):
                            e = ("apply", k, t)
                    if all(self.is_removed(n.facts, arg(k)) for n in ends):
                        e = ("remove", k)
                if e:
                    found[h] = e
                    c.oblige(len(ends), kind="ways_out_of_functions_that_change_the_document", sample="%s: %s" % (m.name(h), e[0]))
            for h, e in found.items():
                self.effects[m.name(h)] = e
                del todo[h]
            if not found:
                break

    def replacing(self, m):
        """Functions that put a text in place of one that may exist, so that what others changed in it meanwhile is lost."""
        out = set()
        while True:
            more = set()
            mm = m.other(MUTATORS + READ + DIFF + tuple(self.effects), hold_fact=self.hold, pin_args=True, never=tuple(self.effects))
            for name, e in sorted(self.effects.items()):
                if e[0] != "set" or name in out:
                    continue
                E = mm.free(m.ids[name])
                k = mk("sym", "arg", name, e[1])
                for n in E.nodes:
                    if n.kind != "call" or not (n.data.name.endswith(("::Transactable::put_object", "::Transactable::put")) or n.data.name in out):
                        continue
                    if any(k in a.sub for a in n.data.args) and not any(self.absent(t, f, k) for t, f in n.facts.items()):
                        more.add(name)
            if not more:
                return out
            out |= more

    # -- ghosts --------------------------------------------------------------------
    def hold(self, t):
        b = base(t)
        return t.op in ("forall", "idx") or b.op == "call" and (b.args[0].startswith("ghost::") or "ReadDoc::" in b.args[0]) or t.op == "bin" and any("ReadDoc::text" in x.args[0] for x in t.sub if x.op == "call") or any(x.op == "call" and x.args[0] in DIFF for x in t.sub)

    def on_event(self, st, n):
        ev = n.data
        if n.kind != "call":
            return
        e = self.effects.get(ev.name)
        if e is not None:
            happened(st, ghost(*((e[0],) + tuple(ev.args[i] for i in e[1:]))))
        elif ev.name.endswith("::Transactable::splice_text") and len(ev.args) > 4:
            obj = ev.args[1]
            new = [x for x in obj.sub if x.op == "call" and x.args[0].endswith("::Transactable::put_object")]
            if new:
                if ev.args[2] == const(0) and ev.args[3] == const(0):
                    happened(st, ghost("set", new[0].args[1][2], ev.args[4]))
            else:
                for x in obj.sub:
                    if x.op == "call" and x.args[0].endswith("ReadDoc::get") and len(x.args[1]) > 2:
                        happened(st, ghost("spliced", x.args[1][2], ev.args[4]))
        elif ev.name.endswith("::Transactable::update_text") and len(ev.args) > 2:
            for x in ev.args[1].sub:
                if x.op == "call" and x.args[0].endswith("ReadDoc::get") and len(x.args[1]) > 2:
                    happened(st, ghost("set", x.args[1][2], ev.args[2]))
        elif ev.name.endswith("::Transactable::delete") and len(ev.args) > 2:
            happened(st, ghost("remove", ev.args[2]))

    # -- what holds at an end -----------------------------------------------------------
    def diff_of(self, t, k, text):
        """Differences between what the document has for k and the text."""
        for x in t.sub:
            if x.op == "call" and x.args[0] in DIFF and x.args[1][1] is text and self.text_of(x.args[1][0], k):
                return x
        return None

    @staticmethod
    def text_of(t, k):
        b = base(t)
        return k in b.sub and b.op == "call" and b.args[0].endswith("ReadDoc::text")

    def is_set(self, facts, k, text):
        same = False
        for t, f in facts.items():
            if is_ghost(t, "set") and k in t.args[1][0].sub and t.args[1][1] is text:
                return True
            if is_ghost(t, "apply") and k in t.args[1][0].sub and self.diff_of(t.args[1][1], k, text):
                return True
            if t.op == "bin" and t.args[0] == "Eq" and f == ("=", True) and text in t.args[1:] and any(self.text_of(x, k) for x in t.args[1:]):
                same = True
            d = self.diff_of(t, k, text)
            if d is not None:
                if f == ("=", "Equal") and facts.get(mk("call", "len", (d,), None)) == ("=", 1) or t is mk("call", "len", (d,), None) and f == ("=", 0):
                    same = True
        return same

    def is_applied(self, facts, k, delta):
        for t, f in facts.items():
            if t.op == "forall" and delta in t.args[0].sub:
                if t.args[1] is BV and f == ("=", "empty"):
                    return True
                if is_ghost(t.args[1], "spliced") and k in t.args[1].args[1][0].sub and BV in t.args[1].occ:
                    return True
        return False

    def is_removed(self, facts, k):
        for t, f in facts.items():
            if is_ghost(t, "remove") and k in t.args[1][0].sub:
                return True
            if self.absent(t, f, k):
                return True
        return False

    @staticmethod
    def absent(t, f, k):
        """The document has no text of this name."""
        b = base(t)
        if b.op == "call" and "ReadDoc::" in b.args[0]:
            if f in (("=", "None"), ("=", "Err")) and (k in b.sub or any(x.op == "k" and x.args[0] == "files" for x in b.sub)):
                return True
            return f == ("=", "Scalar") or f[0] == "!"
        return False
