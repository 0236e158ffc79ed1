"""Conversions between the ways in which a change of a text is written down: what each does with each operation."""
import itertools

from ..rulelib import *
from .common import MUTATORS
from .editors import arg_types
from .ot import SEQ, bare, kind, linear, not_less, not_negative, plus, same, uncast

ROPE = "ropey::rope::Rope::"
EMPTY = const("")


def sort(s):
    """Like kind, with C for differences, P for patches, F for what a patch means."""
    k = kind(s)
    if k:
        return k
    s = bare(s)
    if s.startswith("alloc::vec::Vec<dissimilar::Chunk") or s.startswith("[dissimilar::Chunk"):
        return "C"
    if s == "automerge::patches::patch::Patch" or s.startswith("automerge::") and s.endswith("::Patch"):
        return "P"
    if s.startswith("core::result::Result<") and "::PatchEffect" in s or s.endswith("::PatchEffect"):
        return "F"
    return None


def chars(t):
    """The text whose characters are counted."""
    t = uncast(t)
    if t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "count" and t.args[1] and t.args[1][0].op == "call" and t.args[1][0].args[0] == "core::str::str::chars":
        return t.args[1][0].args[1][0]
    if t.op == "call" and t.args[0] in (ROPE + "len_chars", "ropey::slice::RopeSlice::len_chars") and t.args[1][0].op == "call" and t.args[1][0].args[0] == ROPE + "from_str":
        return t.args[1][0].args[1][0]
    return None


def length(t):
    t = uncast(t)
    return t.args[1][0] if t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "len" else None


def count(t):
    return mk("call", "characters", (t,), None)


def size(t, facts=None):
    """A number as a sum; counts of characters are written in one way."""
    out = {}
    for x, k in linear(t, facts).items():
        y = x
        if x is not None:
            s = chars(x)
            if s is not None:
                y = count(s)
            elif x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "unsigned_abs":
                y = uncast(x.args[1][0])
        out[y] = out.get(y, 0) + k
    return {x: k for x, k in out.items() if k}


def nothing(facts, kind, v):
    """Is it known that an operation of this size does nothing?"""
    if kind == "I":
        if v == EMPTY:
            return True
        for t, f in facts.items():
            if f == ("=", True) and t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "is_empty" and t.args[1][0] is v:
                return True
            if f == ("=", True) and t.op == "bin" and t.args[0] == "Eq" and v in t.args[1:] and EMPTY in t.args[1:]:
                return True
            if f == ("=", False) and t.op == "bin" and t.args[0] == "Lt" and t.args[1] == const(0) and (chars(t.args[2]) is v or length(t.args[2]) is v):
                return True
            if f == ("=", "") and t is v or f == ("=", 0) and (chars(t) is v or length(t) is v):
                return True
        return False
    if not v:
        return True
    for t, f in facts.items():
        if f == ("=", 0) and size(t) == v:
            return True
        if t.op == "bin" and t.args[0] == "Lt" and f == ("=", False) and t.args[1] == const(0) and size(t.args[2]) == v:
            return True
        if t.op == "bin" and t.args[0] == "Eq" and f == ("=", True) and plus(size(t.args[1]), size(t.args[2]), -1) in (v, plus({}, v, -1)):
            return True
        if len(v) == 1 and f == ("=", True) and t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "is_empty":
            (x, k), = v.items()
            if x is not None and x is count(t.args[1][0]):
                return True
    return same(facts, v, {})


class Conv:
    def __init__(self, c):
        self.c = c
        m = self.m = Modular(c, ())
        F = c.facts
        self.by = {}
        for h in sorted(m.live, key=m.name):
            b = F.bodies[h]
            if b["kind"] == "Closure" or b.get("derived") or m.is_wrapper(h):
                continue
            ks, k = [sort(t) for t in arg_types(F, b)], sort(F.types[b["locals"][0]]["s"])
            ops = [x for x in ks if x in ("D", "E", "O", "C", "P")]
            if len(ops) == 1 and k in ("D", "E", "O", "F") and k != ops[0] and all(x in ("D", "E", "O", "S", "C", "P") for x in ks):
                self.by.setdefault((ops[0], k), []).append(h)
            elif ks == ["D", "D"] and k == "D":
                self.by.setdefault(("D", "DD"), []).append(h)
        # the document
        calls = lambda h, f: any(f(n) for n in m.callees[h][1])
        probe = Engine(F)
        rel = probe.closure_over(lambda h: calls(h, lambda n: n.endswith("::Transactable::splice_text")))
        for h in sorted(rel & m.live, key=m.name):
            b = F.bodies[h]
            tys = arg_types(F, b)
            if b["kind"] == "Closure" or m.is_wrapper(h) or [sort(t) for t in tys].count("D") + [sort(t) for t in tys].count("E") != 1:
                continue
            # only the innermost one
            if any(g != h and g in rel and ("D" in [sort(t) for t in arg_types(F, F.bodies[g])]) for g in m.callees[h][0]):
                continue
            self.by.setdefault(("D" if "D" in [sort(t) for t in tys] else "E", "doc"), []).append(h)

    def analyse(self, h, opaque):
        F, m = self.c.facts, self.m
        out, work = set(), [h]
        while work:
            x = work.pop()
            if x not in out and (x == h or m.name(x) not in opaque):
                out.add(x)
                work.extend(m.callees[x][0])
        mm = m.other(("*Vec::push", "*VecDeque::push_back", "collect::put", SEQ + "::*", "*::Transactable::splice_text") + tuple(opaque), hold_fact=lambda t: True, pin_args=True, want_back=True, elem_facts=False, want_mem=("end", "back"), always=tuple({F.bodies[x]["p"] for x in out}), never=tuple(opaque), ghost=self.on_event, max_nodes=30000)
        return mm.free(h)

    def arg(self, h, k):
        tys = arg_types(self.c.facts, self.c.facts.bodies[h])
        for i, t in enumerate(tys):
            if sort(t) == k:
                return mk("sym", "arg", self.m.name(h), i)
        return None

    # -- what is written down ------------------------------------------------------
    def on_event(self, st, n):
        if n.kind == "back":
            # the next round begins anew
            n.ret = listed(st.facts)
            st.facts = {t: f for t, f in st.facts.items() if not is_ghost(t, "did")}
        if n.kind != "call":
            return
        for a in self.actions(n.data):
            k = sum(1 for t in st.facts if is_ghost(t, "did"))
            happened(st, ghost("did", const(k), const(a[0]), *a[1:]))

    def actions(self, ev):
        last = ev.name.rsplit("::", 1)[-1]
        if ev.name.startswith(SEQ + "::") and last in ("retain", "insert", "delete") and len(ev.args) > 1:
            return [({"retain": "R", "insert": "I", "delete": "X"}[last], ev.args[1])]
        if last in ("push", "push_back", "put") and len(ev.args) > 1:
            v = ev.args[1]
            if v.op == "agg" and v.args[1].endswith("::TextOp"):
                return [({"Retain": "R", "Insert": "I", "Delete": "X"}[v.args[2]], v.args[4][0])]
            if v.op == "agg" and v.args[1].endswith("::EditorTextOp"):
                r = getf(v, "range")
                return [("E", getf(r, "start"), getf(r, "end"), getf(v, "replacement"))]
            if v.op == "agg" and v.args[1].endswith("::PatchAction"):
                return [("?", v)]
        if last == "splice_text" and len(ev.args) > 4:
            return [("S", ev.args[2], ev.args[3], ev.args[4], ev.args[1])]
        return []

    def did(self, n):
        return n.ret if n.kind == "back" else listed(n.facts)

    def complain(self, key, text, E, n):
        self.c.violate(key, text, self.c.at(E, n), self.c.trace(E, from_root(E, n.id)))

    # -- loops ---------------------------------------------------------------------
    def rounds(self, E, is_source):
        """(node, element, later round?, operations) where one operation was dealt with."""
        backs = [n for n in E.nodes if n.kind == "back"]
        later = set()
        work = [n.id for n in backs]
        while work:
            x = work.pop()
            for y in E.succ[x]:
                if y not in later:
                    later.add(y)
                    work.append(y)
        for n in backs:
            for src, el in n.data:
                if src is not None and el is not None and is_source(src):
                    yield n, el, n.id in later

    def exhausted(self, n, is_source):
        return any(t.op == "forall" and is_source(t.args[0]) for t in n.facts) or any(f == ("=", 0) and t.op == "call" and t.args[0] == "len" and is_source(t.args[1][0]) for t, f in n.facts.items()) or any(f == ("=", True) and t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "is_empty" and is_source(t.args[1][0]) for t, f in n.facts.items())


def listed(facts):
    out = []
    for t in facts:
        if is_ghost(t, "did"):
            out.append((t.args[1][0].args[0], t.args[1][1].args[0], t.args[1][2:]))
    return [(k, a) for i, k, a in sorted(out, key=lambda x: x[0])]


def plainly(src):
    while src.op == "coll" and src.args[0] != "part" and len(src.args[1]) == 1:
        it = next(iter(src.args[1]))
        if it.args[1] is not BV:
            break
        src = it.args[0]
    return src


def value_at(n, s):
    p = s.args[1]
    if p[0] not in n.mem:
        return None
    v = n.mem[p[0]]
    for k in p[1:]:
        v = getf(v, k)
    return v


def variant(facts, el):
    f = facts.get(el)
    return f[1] if f and f[0] == "=" else None


def inner(el, v):
    return vfld(el, v, "0")


def normal(facts, ops):
    """Operations in one way of writing, without those that do nothing."""
    out = []
    for k, a in ops:
        v = a[0] if k == "I" else size(a[0], facts)
        if not nothing(facts, k, v):
            out.append((k, v))
    # inserting before or after deleting at the same place is the same
    for i in range(len(out) - 1):
        if out[i][0] == "I" and out[i + 1][0] == "X":
            out[i], out[i + 1] = out[i + 1], out[i]
    return out


def agree(facts, got, want):
    return len(got) == len(want) and all(a[0] == b[0] and (a[1] is b[1] if a[0] == "I" else a[1] == b[1] or same(facts, a[1], b[1])) for a, b in zip(got, want))


class Places:
    """A position that is kept from one operation to the next, as a sum of what loops carry along."""

    def __init__(self):
        self.forms = set()

    def see(self, d):
        """Notes the carried part of a sum."""
        f = frozenset((x, k) for x, k in d.items() if x is not None and x.op == "loop")
        if f:
            self.forms.add(f)
        return dict(f)


def offset(pos, content):
    """The number of characters before a position (a sum) in the text."""
    if pos.op != "agg":
        return None
    line, char = getf(pos, "line"), getf(pos, "character")
    line = uncast(line)
    if line.op == "call" and line.args[0] == ROPE + "char_to_line":
        r, p = line.args[1]
        if r.op == "call" and r.args[0] == ROPE + "from_str" and r.args[1][0] is content:
            if size(char) == plus(size(p), {mk("call", ROPE + "line_to_char", (r, line), None): 1}, -1):
                return size(p)
    return None


def at(pos, content):
    """The number of characters before a position that an editor sent, as a sum."""
    r = mk("call", ROPE + "from_str", (content,), None)
    return plus({mk("call", ROPE + "line_to_char", (r, getf(pos, "line")), None): 1}, {getf(pos, "character"): 1})


def orders(facts, s, e):
    """Which order may start and end of a range have, by what is known? (before, same, after)"""
    vs = [getf(s, "line"), getf(e, "line"), getf(s, "character"), getf(e, "character")]
    out = set()
    for val in itertools.product((0, 1), repeat=4):
        env = dict(zip(vs, val))
        okay = True
        for t, f in facts.items():
            if t.op == "bin" and t.args[0] in ("Lt", "Eq") and f[0] == "=":
                a, b = uncast(t.args[1]), uncast(t.args[2])
                if a in env and b in env:
                    x = env[a] < env[b] if t.args[0] == "Lt" else env[a] == env[b]
                elif {a, b} == {s, e} and t.args[0] == "Eq":
                    x = val[0] == val[1] and val[2] == val[3]
                else:
                    continue
                okay = okay and x == f[1]
            elif t.op == "call" and t.args[0].rsplit("::", 1)[-1] in ("cmp", "partial_cmp") and len(t.args[1]) == 2 and f[0] == "=":
                a, b = t.args[1]
                if a in env and b in env:
                    okay = okay and f[1] == ("Less" if env[a] < env[b] else "Equal" if env[a] == env[b] else "Greater")
        if okay:
            a, b = (val[0], val[2]), (val[1], val[3])
            out.add("before" if a < b else "same" if a == b else "after")
    return out
