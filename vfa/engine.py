"""Interprocedural data-flow analysis over the extracted MIR.

The result is an exploded supergraph: a node is a program point in a calling
context together with an abstract state (memory of value-numbered terms plus a
set of branch facts); equal states at the same point are one node.  Loops are
brought to a fixpoint by widening what changes around them.  Nothing is executed
and no constraint is solved: a branch is only pruned when the abstract value is
a constant or the opposite fact is already in the state.

Properties are queries over this graph (see rules/).
"""
import sys
import time

from .terms import *
from . import terms as _t

sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------
# names

_norm_cache = {}


def norm(p):
    """Path without generic arguments; `<impl X>` becomes X."""
    r = _norm_cache.get(p)
    if r is not None:
        return r
    out = []
    i = 0
    n = len(p)
    while i < n:
        c = p[i]
        if c == "<":
            depth = 0
            j = i
            while j < n:
                if p[j] == "<":
                    depth += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            inner = p[i + 1 : j]
            if inner.startswith("impl "):
                t = inner[5:]
                if " for " in t:
                    t = t.split(" for ", 1)[1]
                t = norm(t).split("::")[-1].strip("[]&")
                if t == "T":
                    t = "slice"
                out.append(t)
            elif " as " in inner and i == 0:
                out.append(norm(inner.split(" as ", 1)[1]))
            else:
                # generic arguments: drop a preceding '::'
                if out and out[-1] == "::":
                    out.pop()
            i = j + 1
        elif p.startswith("::", i):
            out.append("::")
            i += 2
        else:
            j = i
            while j < n and p[j] != "<" and not p.startswith("::", j):
                j += 1
            out.append(p[i:j])
            i = j
    r = "".join(out)
    _norm_cache[p] = r
    return r


def last2(name):
    parts = name.split("::")
    return "::".join(parts[-2:])


# --------------------------------------------------------------------------
# bodies


class Body:
    """A MIR body with places compiled and control-flow facts precomputed."""

    def __init__(self, facts, b):
        self.facts = facts
        self.raw = b
        self.h = b["h"]
        self.path = b["p"]
        self.argc = b["argc"]
        self.locals = b["locals"]
        self.file = b["span"][0]
        self.blocks = []
        for blk in b["blocks"]:
            stmts = []
            for s in blk["s"]:
                if s[0] in ("dead", "live", "setdisc"):
                    continue
                stmts.append((self.place(s[0]), self.rvalue(s[1]), s[2]))
            self.blocks.append((stmts, self.term(blk["t"]), blk["sp"], bool(blk.get("cl"))))
        self.is_closure = b["kind"] == "Closure"
        self.coroutine = b.get("coroutine")
        self._cfg()
        self._live()

    def place(self, p):
        if isinstance(p, int):
            return (p, ())
        out = []
        var = None
        for e in p[1]:
            if e == "*":
                out.append("*")
                var = None
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "f":
                if var is not None:
                    out.append("@%s.%s" % (var, e[1]))
                    var = None
                else:
                    out.append(str(e[1]))
            elif e[0] == "i":
                out.append(("i", e[1]))
            elif e[0] == "c":
                n = e[1] if not e[2] else -e[1]
                out.append(("c", n))
            else:
                out.append(("s", str(e[1:])))
        return (p[0], tuple(out))

    def operand(self, o):
        if o[0] in ("c", "m"):
            return (o[0], self.place(o[1]))
        return ("k", o[1])

    def rvalue(self, r):
        k = r[0]
        if k == "use":
            return ("use", self.operand(r[1]))
        if k == "repeat":
            return ("repeat", self.operand(r[1]), r[2])
        if k == "ref":
            return ("ref", r[1], self.place(r[2]))
        if k == "cast":
            return ("cast", r[1], self.operand(r[2]), r[3])
        if k == "bin":
            return ("bin", r[1], self.operand(r[2]), self.operand(r[3]))
        if k == "un":
            return ("un", r[1], self.operand(r[2]))
        if k == "disc":
            return ("disc", self.place(r[1]), tuple((a, b) for a, b in r[2]))
        if k == "agg":
            return ("agg", r[1], tuple(self.operand(o) for o in r[2]), tuple(r[3:]))
        return ("other", str(r))

    def term(self, t):
        k = t[0]
        if k == "switch":
            return ("switch", self.operand(t[1]), tuple((a, b) for a, b in t[2]), t[3], t[4] if len(t) > 4 else False)
        if k == "call":
            return ("call", self.operand(t[1]), tuple(self.operand(a) for a in t[2]), self.place(t[3]), t[4], t[5])
        if k == "drop":
            return ("goto", t[2])
        if k == "assert":
            return ("assert", self.operand(t[1]), t[2], t[3], t[4])
        if k == "goto":
            return ("goto", t[1])
        if k == "return":
            return ("return",)
        return ("end", k)

    def _succ(self, t):
        k = t[0]
        if k == "goto":
            return (t[1],)
        if k == "switch":
            return tuple(b for _, b in t[2]) + ((t[3],) if t[3] is not None else ())
        if k == "call":
            return (t[4],) if t[4] is not None else ()
        if k == "assert":
            return (t[3],)
        return ()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [self._succ(b[1]) for b in self.blocks]
        # reachable, DFS order
        order, seen, onstack = [], set(), set()
        back = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
                elif s in onstack:
                    back.append((b, s))
            else:
                onstack.discard(b)
                order.append(b)
                stack.pop()
        preds = [[] for _ in range(n)]
        for b in seen:
            for s in set(self.succ[b]):
                preds[s].append(b)
        self.preds = preds
        self.reach = seen
        self.loops = {}
        for src, head in back:
            body = self.loops.setdefault(head, {head})
            work = [src]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds[x])
        self.joins = {b for b in seen if len(preds[b]) > 1}
        self.inloops = {}
        for b in seen:
            hs = [h for h, body in self.loops.items() if b in body]
            if hs:
                hs.sort(key=lambda h: len(self.loops[h]))
                self.inloops[b] = tuple(hs)
        self.rpo = order[::-1]

    def _uses(self, x, acc):
        """Locals read by an operand/place occurrence."""
        l, pr = x
        acc.add(l)
        for e in pr:
            if type(e) is tuple and e[0] == "i":
                acc.add(e[1])

    def _op_uses(self, o, acc):
        if o[0] != "k":
            self._uses(o[1], acc)

    def _live(self):
        n = len(self.blocks)
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        for i in self.reach:
            stmts, t, _, _ = self.blocks[i]
            g, k = set(), set()
            seq = []
            for pl, rv, _ in stmts:
                u = set()
                if rv[0] in ("use",):
                    self._op_uses(rv[1], u)
                elif rv[0] == "repeat":
                    self._op_uses(rv[1], u)
                elif rv[0] == "ref":
                    self._uses(rv[2], u)
                elif rv[0] == "cast":
                    self._op_uses(rv[2], u)
                elif rv[0] == "bin":
                    self._op_uses(rv[2], u)
                    self._op_uses(rv[3], u)
                elif rv[0] == "un":
                    self._op_uses(rv[2], u)
                elif rv[0] == "disc":
                    self._uses(rv[1], u)
                elif rv[0] == "agg":
                    for o in rv[2]:
                        self._op_uses(o, u)
                d = None
                if pl[1]:
                    if "*" in pl[1]:
                        self._uses(pl, u)
                    for e in pl[1]:
                        if type(e) is tuple and e[0] == "i":
                            u.add(e[1])
                else:
                    d = pl[0]
                seq.append((u, d))
            u = set()
            d = None
            if t[0] == "switch":
                self._op_uses(t[1], u)
            elif t[0] == "assert":
                self._op_uses(t[1], u)
            elif t[0] == "call":
                self._op_uses(t[1], u)
                for o in t[2]:
                    self._op_uses(o, u)
                if t[3][1]:
                    if "*" in t[3][1]:
                        self._uses(t[3], u)
                else:
                    d = t[3][0]
            elif t[0] == "return":
                u.add(0)
            seq.append((u, d))
            for u, d in seq:
                g |= u - k
                if d is not None:
                    k.add(d)
            gen[i], kill[i] = g, k
        live_in = [set() for _ in range(n)]
        changed = True
        rev = [b for b in self.rpo][::-1]
        while changed:
            changed = False
            for b in rev:
                out = set()
                for s in self.succ[b]:
                    out |= live_in[s]
                new = gen[b] | (out - kill[b])
                if new != live_in[b]:
                    live_in[b] = new
                    changed = True
        self.live_in = [frozenset(x) for x in live_in]
        self.live_call = {}
        for i in self.reach:
            t = self.blocks[i][1]
            if t[0] == "call" and t[4] is not None:
                l = set(live_in[t[4]])
                if not t[3][1]:
                    l.discard(t[3][0])
                else:
                    l.add(t[3][0])
                self.live_call[i] = frozenset(l)


# --------------------------------------------------------------------------
# states


class St:
    __slots__ = ("stack", "bb", "mem", "own", "facts", "loops", "iters", "node", "steps")

    def __init__(self):
        self.own = True

    def fork(self):
        n = St()
        n.stack = self.stack
        n.bb = self.bb
        n.mem = self.mem
        self.own = False
        n.own = False
        n.facts = self.facts
        n.loops = self.loops
        n.iters = self.iters
        n.node = self.node
        n.steps = self.steps
        return n

    @property
    def ctx(self):
        return self.stack[-1][0]

    def get(self, root, proj=()):
        v = self.mem.get(root, UNDEF)
        for k in proj:
            if v.op == "ref":
                v = self.get(v.args[0], v.args[1])
            v = getf(v, k)
        return v

    def put(self, root, proj, val):
        if not self.own:
            self.mem = dict(self.mem)
            self.own = True
        if proj:
            self.mem[root] = setf(self.mem.get(root, UNDEF), proj, val)
        else:
            self.mem[root] = val

    def content(self, t):
        """The term with references replaced by what they point to."""
        if not t.refs:
            return t
        return self._content(t, {})

    def _content(self, t, memo):
        if type(t) is tuple:
            return tuple(self._content(x, memo) for x in t)
        if type(t) is frozenset:
            return frozenset(self._content(x, memo) for x in t)
        if type(t) is not T or not t.refs:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        memo[t] = UNDEF
        if t.op == "ref":
            r = self._content(self.get(t.args[0], t.args[1]), memo)
        else:
            r = rebuild(t.op, tuple(self._content(a, memo) for a in t.args))
        memo[t] = r
        return r

    def deref(self, t):
        """What a reference points to (one level); other terms stand for it."""
        if t.op == "ref":
            return self.get(t.args[0], t.args[1])
        return t


class Node:
    __slots__ = ("id", "kind", "ctx", "bb", "data", "facts", "mem", "stack", "loops", "ret")

    def __init__(self, id, kind, ctx, bb):
        self.id = id
        self.kind = kind
        self.ctx = ctx
        self.bb = bb
        self.data = None
        self.facts = None
        self.mem = None
        self.ret = None


class Back(tuple):
    """End of an iteration: (source, element) of what was iterated over."""

    name = ""
    args = ()


class Event:
    __slots__ = ("name", "args", "raw", "ret", "site", "extra")

    def __init__(self, name, args, ret=None, raw=None, extra=None):
        self.name = name
        self.args = args
        self.raw = raw
        self.ret = ret
        self.extra = extra

    @property
    def short(self):
        return last2(self.name)


STICKY = {"is_utf8", 
    "starts_with",
    "is_absolute",
    "is_symlink",
}


# derived implementations that are looked into; the others are what they say
INLINE_DERIVED = {
    "core::default::Default",
    "core::ops::deref::Deref",
    "core::ops::deref::DerefMut",
    "core::convert::AsRef",
    "core::convert::From",
    "core::convert::Into",
}
# functions that compute on text changes are opaque unless of interest
TEXT_TYPES = ("types::TextDelta", "types::EditorTextDelta", "OperationSeq", "ot::OTServer", "types::RevisionedEditorTextDelta")
SMALL = 12  # blocks of a loop-free function that is always looked into


class Limit(Exception):
    pass


class Engine:
    def __init__(self, facts, max_nodes=600000, trace=None):
        from . import models

        self.F = facts
        self.models = models
        self.bodies = {}
        self.callees = []
        self._callee_ix = {}
        self.ctxs = [None]  # id -> (parent ctx, bb, tag, body hash)
        self._ctx_ix = {}
        self.nodes = []
        self.succ = []
        self.visited = {}
        self.bases = []
        self.W = {}
        self.alts = {}
        self.errors = {}  # what errors say -> where
        self.spawns = {}
        self.rootq = []
        self.roots = []
        self.aggs = {}
        self.max_nodes = max_nodes
        self.warnings = {}
        self.external = {}
        self.inlined = set()
        self.stats = {"arrivals": 0, "steps": 0}
        self.want_mem = set()
        self.relevant = None
        self.set_fields = ()
        self._inl = {}
        self._impure = None
        self._callees_of = {}
        self.skipped = set()
        self._base_ix = {}

    # -- helpers ----------------------------------------------------------
    def body(self, h):
        b = self.bodies.get(h)
        if b is None:
            raw = self.F.bodies.get(h)
            if raw is None:
                return None
            b = Body(self.F, raw)
            self.bodies[h] = b
        return b

    def fnterm(self, callee):
        key = id(callee)
        ix = self._callee_ix.get(key)
        if ix is None:
            # same function, same generic arguments -> same term
            k2 = (callee["h"], callee["p"], tuple(callee.get("a", ())), (callee.get("r") or {}).get("h"))
            ix = self._callee_ix.get(k2)
            if ix is None:
                ix = len(self.callees)
                self.callees.append(callee)
                self._callee_ix[k2] = ix
            self._callee_ix[key] = ix
        return mk("fn", ix)

    def ctx(self, parent, bb, tag, h):
        key = (parent, bb, tag, h)
        c = self._ctx_ix.get(key)
        if c is None:
            c = len(self.ctxs)
            self.ctxs.append(key)
            self._ctx_ix[key] = c
        return c

    def ctx_body(self, c):
        return self.body(self.ctxs[c][3])

    def callpath(self, ctx):
        """Names and call sites from the root to a context."""
        out = []
        while ctx:
            parent, bb, tag, h = self.ctxs[ctx]
            b = self.body(h)
            where = None
            if parent:
                pb = self.ctx_body(parent)
                sp = pb.blocks[bb][2]
                where = (sp[0], sp[1])
            out.append((b.path, where))
            ctx = parent
        out.reverse()
        return out

    def span(self, ctx, bb):
        return self.ctx_body(ctx).blocks[bb][2]

    def type_s(self, tid):
        return self.F.types[tid]["s"]

    def warn(self, what, where=None):
        self.warnings.setdefault(what, where)

    # -- graph ------------------------------------------------------------
    def node(self, st, kind):
        n = Node(len(self.nodes), kind, st.ctx if st.stack else 0, st.bb)
        n.facts = st.facts
        n.stack = st.stack
        n.loops = st.loops
        self.nodes.append(n)
        self.succ.append([])
        if st.node is not None:
            self.succ[st.node].append(n.id)
        st.node = n.id
        if len(self.nodes) > self.max_nodes:
            raise Limit("more than %d states" % self.max_nodes)
        return n

    def event(self, st, name, args=(), ret=None, raw=None, kind="call", extra=None):
        n = self.node(st, kind)
        n.data = Event(name, args, ret, raw, extra)
        if name in self.want_mem or last2(name) in self.want_mem:
            n.mem = st.mem
            st.own = False
        if self.ghost is not None:
            self.ghost(st, n)
        return n

    # -- places and operands ------------------------------------------------
    def loc(self, st, ctx, pl):
        l, projs = pl
        root = (ctx, l)
        pr = ()
        for e in projs:
            if e == "*":
                v = st.get(root, pr)
                while v.op == "ref" and v.args[0] == root and v.args[1] == pr:
                    break
                if v.op == "ref":
                    root, pr = v.args[0], v.args[1]
            else:
                v = st.get(root, pr)
                if v.op == "ref":
                    root, pr = v.args[0], v.args[1]
                if type(e) is str:
                    pr = pr + (e,)
                elif e[0] == "i":
                    pr = pr + (("idx", st.get((ctx, e[1]))),)
                elif e[0] == "c":
                    pr = pr + (("idx", const(e[1], "int")),)
                else:
                    pr = pr + (("idx", mk("sym", "sub" + e[1])),)
        return root, pr

    def read(self, st, ctx, pl):
        if not pl[1]:
            return st.mem.get((ctx, pl[0]), UNDEF)
        root, pr = self.loc(st, ctx, pl)
        return st.get(root, pr)

    def konst(self, k):
        if "fn" in k:
            return self.fnterm(k["fn"])
        t = self.F.types[k["t"]]
        if "v" in k:
            v = k["v"]
            if t["k"] == "bool":
                return boolean(v in (1, True))
            c = const(v, "int" if isinstance(v, int) else type(v).__name__)
            if isinstance(v, (int, str)):
                return c
            return const(str(v), "other")
        if "str" in k:
            return const(k["str"], "str")
        if "bytes" in k:
            b = k["bytes"]
            return const(tuple(b) if isinstance(b, list) else b, "bytes")
        if "static" in k:
            return mk("call", "static", (const(k["static"]),), None)
        if t["k"] in ("closure", "coroutine"):
            return mk("agg", t["k"], t["h"], "", (), ())
        if t["k"] == "fndef":
            return self.fnterm(t["f"])
        if t["s"] == "()":
            return UNIT
        if "item" in k:
            return mk("call", "const", (const(k["item"]),), None)
        if "x" in k:
            return const(str(k["x"]), "other:" + t["s"])
        return const("zst", t["s"])

    def operand(self, st, ctx, o):
        if o[0] == "k":
            return self.konst(o[1])
        return self.read(st, ctx, o[1])

    # -- evaluation -----------------------------------------------------------
    def rvalue(self, st, ctx, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, ctx, rv[1])
        if k == "ref":
            pl = rv[2]
            root, pr = self.loc(st, ctx, pl)
            mut = "mut" in rv[1].lower()
            if not mut and pl[1] and pl[1][-1] == "*":
                # &*p of an opaque reference is that reference
                v = st.get(root, pr)
                if root[0] == ctx and root == (ctx, pl[0]) and v.op != "ref" and v is not UNDEF:
                    return v
            return mk("ref", root, pr, mut)
        if k == "agg":
            kind, ops, rest = rv[1], rv[2], rv[3]
            vals = tuple(self.operand(st, ctx, o) for o in ops)
            if kind == "tuple":
                return tup(*vals)
            if kind == "array":
                return mk("agg", "array", "", "", tuple(str(i) for i in range(len(vals))), vals)
            if kind == "adt":
                path, variant, names = rest[0], rest[1], rest[2]
                t = mk("agg", "adt", path, variant or "", tuple(str(n) for n in names), vals)
                if self.want_agg is not None and self.want_agg(path):
                    self.aggs.setdefault(path, set()).add(st.content(t))
                return t
            if kind in ("closure", "coroutine"):
                t = mk("agg", kind, rest[0], "", tuple(str(i) for i in range(len(vals))), vals)
                if self.want_agg is not None and self.want_agg(rest[0]):
                    self.aggs.setdefault(rest[0], set()).add(st.content(t))
                return t
            return mk("agg", kind, str(rest), "", tuple(str(i) for i in range(len(vals))), vals)
        if k == "bin":
            a, b = self.operand(st, ctx, rv[2]), self.operand(st, ctx, rv[3])
            return self.binop(st, rv[1], a, b)
        if k == "un":
            return self.unop(st, rv[1], self.operand(st, ctx, rv[2]))
        if k == "cast":
            v = self.operand(st, ctx, rv[2])
            if rv[1] == "IntToInt" and not is_const(v):
                ty = self.type_s(rv[3])
                return mk("call", "as:" + ty, (v,), None)
            return v
        if k == "disc":
            return mk("disc", st.deref(self.read(st, ctx, rv[1])), rv[2])
        if k == "repeat":
            v = self.operand(st, ctx, rv[1])
            return mk("call", "repeat", (v, const(rv[2]) if not isinstance(rv[2], (list, dict)) else const(str(rv[2]))), None)
        return mk("sym", "rv", str(rv[1])[:60])

    def unop(self, st, op, a):
        if op == "Not":
            return neg(a)
        if op == "PtrMetadata":
            return mk("call", "len", (st.content(a),), None)
        if op == "Neg" and is_const(a):
            return const(-a.args[0], "int")
        return mk("un", op, a)

    def binop(self, st, op, a, b):
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[: -len("WithOverflow")]
        r = self.arith(st, op, a, b)
        return tup(r, FALSE) if wo else r

    def arith(self, st, op, a, b):
        if is_const(a) and is_const(b):
            x, y = a.args[0], b.args[0]
            if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
                f = _FOLD.get(op)
                if f:
                    r = f(x, y)
                    if isinstance(r, bool):
                        return boolean(r)
                    return const(r, "int")
            if op in ("Eq", "Ne"):
                return boolean((a is b) == (op == "Eq"))
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return neg(eq(a, b))
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            return neg(mk("bin", "Lt", a, b))
        elif op == "Le":
            return neg(mk("bin", "Lt", b, a))
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and b.id < a.id:
            a, b = b, a
        if op == "Add":
            if is_const(a) and a.args[0] == 0:
                return b
            if is_const(b) and b.args[0] == 0:
                return a
        if op == "BitOr" or op == "BitAnd":
            if a in (TRUE, FALSE) or b in (TRUE, FALSE):
                c, o = (a, b) if a in (TRUE, FALSE) else (b, a)
                if op == "BitOr":
                    return TRUE if c is TRUE else o
                return o if c is TRUE else FALSE
        return mk("bin", op, a, b)

    # -- facts ---------------------------------------------------------------
    def known(self, st, t):
        """The value a term is known to have, or None."""
        if t.op == "k":
            return ("=", t.args[0])
        if t.op == "un" and t.args[0] == "Not":
            f = self.known(st, t.args[1])
            if f and f[0] == "=":
                return ("=", not f[1])
            return None
        return st.facts.get(fact_key(t))

    def assume(self, st, t, val):
        """Add `t == val` (bool or int); False if that contradicts."""
        while t.op == "un" and t.args[0] == "Not":
            t = t.args[1]
            val = not val
        if t.op == "k":
            return t.args[0] == val
        if t.op == "bin" and t.args[0] == "Eq" and isinstance(val, bool):
            a, b = t.args[1], t.args[2]
            for x, y in ((a, b), (b, a)):
                if is_const(y) and not is_const(x):
                    v = y.args[0]
                    if isinstance(v, (int, str)) or isinstance(v, bool):
                        return self._fact(st, x, v, val)
                if y.op == "agg" and y.args[0] == "adt" and y.args[2] and not y.args[4]:
                    return self._fact(st, x, y.args[2], val)
        return self._fact(st, t, val, True)

    def _fact(self, st, t, val, positive):
        t = fact_key(t)
        old = st.facts.get(t)
        if positive:
            if old is not None:
                if old[0] == "=":
                    return old[1] == val
                if val in old[1]:
                    return False
            nf = ("=", val)
        else:
            if old is not None:
                if old[0] == "=":
                    return old[1] != val
                if val in old[1]:
                    return True
                nf = ("!", old[1] | {val})
            else:
                nf = ("!", frozenset((val,)))
            if isinstance(val, bool):
                nf = ("=", not val)
                if old is not None and old != nf:
                    return False
        st.facts = dict(st.facts)
        st.facts[t] = nf
        return True

    def variant(self, st, t):
        while t.op == "upd":
            t = t.args[0]
        if t.op == "agg":
            return t.args[2]
        f = st.facts.get(fact_key(t))
        if f and f[0] == "=":
            return f[1]
        return None

    def not_variants(self, st, t):
        f = st.facts.get(fact_key(t))
        if f and f[0] == "!":
            return f[1]
        return ()

    def assume_variant(self, st, t, v, positive=True):
        while t.op == "upd":
            t = t.args[0]
        if t.op == "agg":
            return (t.args[2] == v) == positive
        return self._fact(st, t, v, positive)

    def cases(self, st, t, variants):
        """Fork on the variant of an enum value: [(state, variant)]."""
        t = st.deref(t)
        v = self.variant(st, t)
        if v is not None:
            return [(st, v)] if v in variants else [(st, variants[0])]
        nots = self.not_variants(st, t)
        left = [x for x in variants if x not in nots]
        if len(left) == 1:
            return [(st, left[0])]
        out = []
        for i, x in enumerate(left):
            s = st if i == len(left) - 1 else st.fork()
            if self.assume_variant(s, t, x):
                out.append((s, x))
        return out

    def truth(self, st, t):
        """Fork on a boolean term: [(state, bool)]."""
        f = self.known(st, t)
        if f and f[0] == "=":
            return [(st, bool(f[1]))]
        s2 = st.fork()
        out = []
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        return out

    # -- symbols that are created again -----------------------------------------
    def fresh(self, st, *key):
        k = (key[0], key[1:])
        existed = k in _t._intern
        t = mk(*key)
        if existed and self.occurs(st, t):
            self.rename(st, t, old(t))
        return t

    def occurs(self, st, t):
        for v in st.mem.values():
            if t in v.occ:
                return True
        for f in st.facts:
            if t in f.occ:
                return True
        for fr in st.stack:
            for x in kids(fr[2]):
                if t in x.occ:
                    return True
        return False

    def rename(self, st, a, b):
        m = {a: b}
        memo = {}
        mem = {}
        for r, v in st.mem.items():
            mem[r] = subst(v, m, memo) if a in v.occ else v
        st.mem = mem
        st.own = True
        nf = {}
        bad = set()
        for t, f in st.facts.items():
            t2 = subst(t, m, memo) if a in t.occ else t
            if t2 in nf and nf[t2] != f:
                bad.add(t2)
            nf[t2] = f
        for t in bad:
            del nf[t]
        st.facts = nf
        st.stack = tuple((c, h, subst(k, m, memo) if any(a in x.occ for x in kids(k)) else k) for c, h, k in st.stack)
        if st.iters:
            st.iters = subst(st.iters, m, memo)

    # -- joins, loops -----------------------------------------------------------
    def live(self, st, extra=()):
        """Roots that can still be read, closed under references."""
        roots = []
        depth = len(st.stack)
        mem = st.mem
        for i, (c, h, k) in enumerate(st.stack):
            b = self.bodies[h]
            if i == depth - 1:
                ls = b.live_call.get(st.bb, ()) if st.bb in self._incall else b.live_in[st.bb]
                pos = st.bb
            else:
                kk = st.stack[i + 1][2]
                while kk[0] != "ret":
                    kk = kk[-1]
                pos = kk[2]
                ls = b.live_call.get(pos, ())
            for l in ls:
                roots.append((c, l))
        keep = {}
        work = roots
        if self.pin_args:
            roots.extend(r for r in mem if type(r[0]) is str and r[0].startswith("arg:"))
        extra_terms = list(extra)
        for fr in st.stack:
            extra_terms.extend(kids(fr[2]))
        extra_terms.extend(kids(st.iters))
        for t in extra_terms:
            if t.refs:
                work.extend(t.refs)
        while work:
            r = work.pop()
            if r in keep:
                continue
            v = mem.get(r)
            if v is None:
                continue
            keep[r] = v
            if v.refs:
                work.extend(v.refs)
        return keep, extra_terms

    _incall = frozenset()
    # a rule can name the facts it has no use for
    keep_fact = None
    # and those that it wants to see even when their values are out of reach
    hold_fact = None
    # keep what the arguments of a free root refer to
    pin_args = False
    # values of these types are recorded where they are built
    want_agg = None
    # ghost(state, node) may add facts of its own after a call
    ghost = None
    # nodes for the steps of iterations
    want_back = False  # mark the end of each iteration
    elem_facts = True  # remember what held for all elements of a list
    # functions that a rule has dealt with separately: only their calls matter
    never = frozenset()

    def gc(self, st, extra=(), incall=False):
        self._incall = (st.bb,) if incall else ()
        mem, terms = self.live(st, extra)
        st.mem = mem
        st.own = True
        if st.facts:
            # a fact stays while its value can still be read; facts about maps and
            # paths also while what they are about can be
            held = set()
            for v in mem.values():
                held |= v.sub
            for t in terms:
                held |= t.sub
            for it in st.iters:
                if it[2] is not None:
                    held.add(it[2])
            nf = {}
            kf = self.keep_fact
            hf = self.hold_fact
            for t, f in st.facts.items():
                if hf is not None and hf(t):
                    nf[t] = f
                    continue
                if kf is not None and not kf(t):
                    continue
                if t in held:
                    nf[t] = f
                elif t.op == "mapget":
                    if t.args[0] in held and t.args[1].leaf <= held:
                        nf[t] = f
                elif t.op == "forall":
                    b = t.args[1]
                    if t.args[0] in held and (b is BV or b.op == "mapget"):
                        nf[t] = f
                elif t.op == "call" and t.args[0].rsplit("::", 1)[-1] in STICKY and t.args[1] and t.args[1][0] in held:
                    nf[t] = f
            if len(nf) != len(st.facts):
                st.facts = nf
        # leave loops
        if st.loops or st.iters:
            pos = {}
            depth = len(st.stack)
            for i, (c, h, k) in enumerate(st.stack):
                if i == depth - 1:
                    pos[c] = st.bb
                else:
                    kk = st.stack[i + 1][2]
                    while kk[0] != "ret":
                        kk = kk[-1]
                    pos[c] = kk[2]
            def inside(hk):
                c = hk[0]
                p = pos.get(c)
                if p is None:
                    return False
                if len(hk) > 2:  # virtual loop at a call
                    return p == hk[1]
                return p in self.ctx_body(c).loops[hk[1]]
            if st.loops:
                st.loops = tuple(l for l in st.loops if inside(l[0]))
            if st.iters:
                def iter_inside(site):
                    c, bb = site[0], site[1]
                    p = pos.get(c)
                    if p is None:
                        return False
                    if p == bb:
                        return True
                    hs = self.ctx_body(c).inloops.get(bb)
                    return bool(hs) and p in self.ctx_body(c).loops[hs[0]]
                st.iters = tuple(i for i in st.iters if iter_inside(i[0]))

    def arrive(self, st, point=None, hk=None, extra=()):
        """Join point.  Returns the state, or None if it was seen before."""
        self.stats["arrivals"] += 1
        self.gc(st, extra, incall=point is not None)
        if hk is not None:
            self.at_header(st, hk)
        key = (st.stack, st.bb, point, frozenset(st.mem.items()), frozenset(st.facts.items()), st.loops, st.iters)
        n = self.visited.get(key)
        if n is not None:
            self.succ[st.node].append(n)
            return None
        nd = self.node(st, "join")
        self.visited[key] = nd.id
        return st

    def at_header(self, st, hk):
        base = None
        for l in st.loops:
            if l[0] == hk:
                base = l[1]
        W = self.W.setdefault(hk, set())
        if base is None:
            if W:
                for path in sorted(W, key=str):
                    root, pr = path[0], path[1:]
                    if root not in st.mem:
                        continue
                    v = st.get(root, pr)
                    if finite(v):
                        continue
                    s = mk("loop", hk, path)
                    if self.occurs(st, s):
                        self.rename(st, s, old(s))
                        v = st.get(root, pr)
                    self.alts.setdefault(s, set()).add(v)
                    st.put(root, pr, s)
            self.bases.append((dict(st.mem), st.facts))
            st.loops = st.loops + ((hk, len(self.bases) - 1),)
            # identical entry states share a baseline
            key = (hk, frozenset(st.mem.items()), frozenset(st.facts.items()))
            known = self._base_ix.get(key)
            if known is not None:
                self.bases.pop()
                st.loops = st.loops[:-1] + ((hk, known),)
            else:
                self._base_ix[key] = len(self.bases) - 1
            return
        bmem, bfacts = self.bases[base]
        if self.want_back:
            self.back(st, ((src, cur) for site, src, cur, _ in st.iters if cur is not None and self._mine(site, hk)))
        self.collect(st, hk)
        mem = {}
        for root, v in st.mem.items():
            b = bmem.get(root)
            if b is None:
                mem[root] = v
                if root[0] == hk[0] or True:
                    mem[root] = self.widen(hk, (root,), UNDEF, v, W)
            else:
                mem[root] = self.widen(hk, (root,), b, v, W)
        st.mem = mem
        st.own = True
        nf = {}
        for t, f in st.facts.items():
            if bfacts.get(t) == f:
                nf[t] = f
        st.facts = nf
        # drop loops inside this one
        out = []
        for l in st.loops:
            out.append(l)
            if l[0] == hk:
                break
        st.loops = tuple(out)

    def widen_round(self, st, hk):
        """Another round of a loop inside a call: widen what its closures change."""
        base = next((l[1] for l in st.loops if l[0] == hk), None)
        if base is None:
            key = (hk, frozenset(st.mem.items()), frozenset())
            base = self._base_ix.get(key)
            if base is None:
                self.bases.append((dict(st.mem), {}))
                base = self._base_ix[key] = len(self.bases) - 1
            st.loops = st.loops + ((hk, base),)
            return
        bmem = self.bases[base][0]
        changed = [r for r, v in st.mem.items() if r in bmem and bmem[r] is not v]
        if changed:
            W = self.W.setdefault(hk, set())
            mem = dict(st.mem)
            for r in changed:
                mem[r] = self.widen(hk, (r,), bmem[r], mem[r], W)
            st.mem = mem
            st.own = True

    def widen(self, hk, path, b, v, W):
        if path in W:
            if finite(v):
                return v
            s = mk("loop", hk, path)
            if v is not s:
                self.alts.setdefault(s, set()).add(v)
            return s
        if b is v:
            # a part of it may have been widened before
            if W and any(p[: len(path)] == path for p in W):
                return self._widen_parts(hk, path, b, v, W)
            return v
        if finite(v):
            return v
        if b.op == "agg" and v.op == "agg" and b.args[:4] == v.args[:4] and len(v.args[4]) < 64:
            vals = tuple(
                self.widen(hk, path + (n,), x, y, W) for n, x, y in zip(v.args[3], b.args[4], v.args[4])
            )
            return mk("agg", *(v.args[:4] + (vals,)))
        if v.op == "upd" or b.op == "upd":
            bb = b.args[0] if b.op == "upd" else b
            vb = v.args[0] if v.op == "upd" else v
            if bb is vb:
                keys = [k for k, _ in b.args[1]] if b.op == "upd" else []
                for k, _ in (v.args[1] if v.op == "upd" else ()):
                    if k not in keys:
                        keys.append(k)
                if all(type(k) is str for k in keys):
                    r = v
                    for k in keys:
                        r = setf(r, (k,), self.widen(hk, path + (k,), getf(b, k), getf(v, k), W))
                    return r
        if b.op in ("coll", "comp") and v.op == "coll" and len(v.args[1]) <= 12:
            return v
        if b.op == "iter" and v.op == "iter" and b.args[0] == v.args[0]:
            pass
        W.add(path)
        s = mk("loop", hk, path)
        a = self.alts.setdefault(s, set())
        if b is not UNDEF:
            a.add(b)
        a.add(v)
        return s

    def _widen_parts(self, hk, path, b, v, W):
        if v.op == "agg" and len(v.args[4]) < 64:
            vals = tuple(self.widen(hk, path + (n,), y, y, W) for n, y in zip(v.args[3], v.args[4]))
            return mk("agg", *(v.args[:4] + (vals,)))
        for p in sorted(W, key=str):
            if p[: len(path)] == path:
                x = getp(v, p[len(path) :])
                if not finite(x):
                    s = mk("loop", hk, p)
                    if x is not s:
                        self.alts.setdefault(s, set()).add(x)
                    v = setf(v, p[len(path) :], s)
        return v

    # -- iteration facts -----------------------------------------------------------
    # st.iters: tuple of (site, source, current element or None, collected or None)
    def back(self, st, elems):
        """End of an iteration over these elements."""
        n = self.node(st, "back")
        n.data = Back(elems)
        if "back" in self.want_mem:
            n.mem = dict(st.mem)
        if self.ghost is not None:
            self.ghost(st, n)
            n.facts = st.facts

    def collect(self, st, hk):
        """End of an iteration: remember what held for its element."""
        if not st.iters:
            return
        out = []
        for site, src, cur, got in st.iters:
            if cur is not None and self._mine(site, hk):
                out.append((site, src, None, self._elem_facts(st, cur, got)))
            else:
                out.append((site, src, cur, got))
        st.iters = tuple(out)

    def _mine(self, site, hk):
        return site[0] == hk[0] and (
            site[:2] == hk[:2] if len(hk) > 2 else site[1] in self.ctx_body(hk[0]).loops.get(hk[1], ())
        )

    def _elem_facts(self, st, cur, got):
        fs = set()
        for t, f in st.facts.items():
            if cur in t.occ and self.elem_facts:
                fs.add((subst(t, {cur: BV}), f))
        return frozenset(fs) if got is None else meet(fs, got)

    def iter_begin(self, st, site, src, elem):
        out = []
        got = None
        for it in st.iters:
            if it[0] == site:
                got = it[3]
                if it[2] is not None:
                    got = self._elem_facts(st, it[2], got)
            else:
                out.append(it)
        out.append((site, src, elem, got))
        st.iters = tuple(out)

    def iter_end(self, st, site, src):
        out = []
        got = None
        seen = False
        for it in st.iters:
            if it[0] == site:
                seen = True
                got = it[3]
                if it[2] is not None:
                    got = self._elem_facts(st, it[2], got)
            else:
                out.append(it)
        st.iters = tuple(out)
        st.facts = dict(st.facts)
        if got is None:
            st.facts[mk("forall", src, BV)] = ("=", "empty")
        else:
            for t, f in got:
                st.facts[mk("forall", src, t)] = f
            if self.want_back:
                # all were looked at
                st.facts[mk("forall", src, TRUE)] = ("=", True)

    # -- calls ---------------------------------------------------------------------
    def resume(self, st, k, v):
        """Continue after a call with its value."""
        if k[0] == "ret":
            ctx, bb = k[1], k[2]
            body = self.bodies[st.stack[-1][1]]
            t = body.blocks[bb][1]
            if t[4] is None:
                self.node(st, "end")
                return []
            root, pr = self.loc(st, ctx, t[3])
            self.assign(st, root, pr, v)
            st.bb = t[4]
            return [st]
        if k[0] == "root":
            n = self.node(st, "end")
            n.ret = st.content(v)
            if "end" in self.want_mem:
                n.mem = dict(st.mem)
            return []
        return self.models.CONT[k[0]](self, st, k, v)

    def assign(self, st, root, pr, v):
        if pr:
            self.set_event(st, root, pr, v)
        st.put(root, pr, v)

    def set_event(self, st, root, pr, v):
        """A named field of a struct of this crate is overwritten."""
        last = pr[-1]
        if type(last) is not str:
            return
        ty = self.place_type(root, pr[:-1])
        name = last.split(".", 1)[1] if last[0] == "@" else last
        if ty is None:
            if name in self.set_fields:
                self.event(st, "?::" + name, (st.content(v),), raw=(root, pr), kind="set")
            return
        t = self.F.types[ty]
        if t["k"] == "adt" and t["d"] in self.F.adts:
            self.event(st, t["d"] + "::" + name, (st.content(v),), raw=(root, pr), kind="set",
                       extra=st.content(st.get(root, pr)))

    def place_type(self, root, pr):
        b = self.ctx_body(root[0]) if isinstance(root[0], int) else None
        if b is None or not isinstance(root[1], int):
            return None
        ty = b.locals[root[1]]
        for k in pr:
            ty = self.field_type(ty, k)
            if ty is None:
                return None
        return self.strip_ref(ty)

    def strip_ref(self, ty):
        t = self.F.types[ty]
        while t["k"] == "ref" or (t["k"] == "adt" and t["d"] in ("alloc::boxed::Box", "alloc::sync::Arc", "core::pin::Pin")):
            ty = t["a"][0]
            t = self.F.types[ty]
        return ty

    def field_type(self, ty, key):
        ty = self.strip_ref(ty)
        t = self.F.types[ty]
        if type(key) is tuple:
            if key[0] == "key" and t["k"] == "adt":
                a = t.get("a", [])
                return a[1] if len(a) > 1 else None
            if key[0] == "idx":
                a = t.get("a", [])
                return a[0] if a else None
            return None
        var, name = None, key
        if key[0] == "@":
            var, name = key[1:].split(".", 1)
        if t["k"] in ("tuple", "closure", "coroutine"):
            a = t.get("a", [])
            if name.isdigit() and int(name) < len(a) and t["k"] == "tuple":
                return a[int(name)]
            return None
        if t["k"] == "adt":
            ad = self.F.adts.get(t["d"])
            if ad is None:
                if var in ("Some", "Ok", "Ready") and t.get("a"):
                    return t["a"][0]
                if var == "Err" and len(t.get("a", [])) > 1:
                    return t["a"][1]
                return None
            for vn, fs in ad["variants"]:
                if var is None or vn == var:
                    for f in fs:
                        if str(f[0]) == name:
                            return f[1]
        return None

    def enter(self, st, body, args, k, tag):
        """Go into a function."""
        parent = st.ctx
        bb = st.bb
        c = self.ctx(parent, bb, tag, body.h)
        self.inlined.add(body.h)
        if not st.own:
            st.mem = dict(st.mem)
            st.own = True
        for i, a in enumerate(args):
            st.mem[(c, i + 1)] = a
        st.stack = st.stack + ((c, body.h, k),)
        st.bb = 0
        return [st]

    def leave(self, st):
        c, h, k = st.stack[-1]
        v = st.mem.get((c, 0), UNIT)
        mem = st.mem
        # references into the frame that ends are replaced by their contents
        def dying(t):
            for r in t.refs:
                if r[0] == c:
                    return True
            return False
        if dying(v):
            v = self.escape(st, v, c)
        kk = k
        if any(dying(x) for x in kids(k)):
            kk = self.escape_tuple(st, k, c)
        new = {}
        for r, x in mem.items():
            if r[0] == c:
                continue
            if x.refs and dying(x):
                x = self.escape(st, x, c)
            new[r] = x
        st.mem = new
        st.own = True
        st.stack = st.stack[:-1]
        if kk[0] != "root":
            r = kk
            while r[0] != "ret":
                r = r[-1]
            st.bb = r[2]
        return kk, v

    def escape(self, st, t, c):
        memo = {}

        def go(x):
            if type(x) is tuple:
                return tuple(go(a) for a in x)
            if type(x) is frozenset:
                return frozenset(go(a) for a in x)
            if type(x) is not T or not x.refs:
                return x
            r = memo.get(x)
            if r is not None:
                return r
            memo[x] = UNDEF
            if x.op == "ref":
                r = go(st.get(x.args[0], x.args[1])) if x.args[0][0] == c else x
            else:
                r = rebuild(x.op, tuple(go(a) for a in x.args))
            memo[x] = r
            return r

        return go(t)

    def escape_tuple(self, st, k, c):
        return self.escape(st, k, c)

    def call_fn(self, st, f, args, k, tag):
        """Call a function value (closure, function item, reference to one)."""
        g = f
        while g.op == "ref":
            g = st.get(g.args[0], g.args[1])
        if g.op == "agg" and g.args[0] == "closure":
            body = self.body(g.args[1])
            if body is not None and not self.recursive(st, body):
                return self.enter(st, body, [f if f.op == "ref" else g] + list(args), k, tag)
        if g.op == "fn":
            return self.call(st, self.callees[g.args[0]], list(args), k, tag, None)
        # unknown function value
        r = self.fresh(st, "call", "indirect", (st.content(g),) + tuple(st.content(a) for a in args), (st.ctx, st.bb, tag))
        self.event(st, "indirect", (st.content(g),) + tuple(st.content(a) for a in args), r)
        return self.resume(st, k, r)

    def recursive(self, st, body):
        return any(fr[1] == body.h for fr in st.stack)

    def call(self, st, callee, args, k, tag, rty):
        """A call to a named function."""
        name = norm(callee["p"])
        site = (st.ctx, st.bb, tag)
        if callee.get("ctor"):
            return self.resume(st, k, self.ctor(callee, args))
        ci = Call(callee, name, args, k, site, rty)
        m = self.models.early(self, st, ci)
        if m is not None:
            return m
        r = callee.get("r")
        h = r["h"] if r and r["h"] in self.F.bodies else (callee["h"] if not callee.get("tr") else None)
        raw = self.F.bodies.get(h) if h else None
        if raw is not None and (not raw.get("derived") or raw.get("trait") in INLINE_DERIVED):
            body = self.body(h)
            if not self.inlines(body) and not self.given_relevant(st, body, args):
                return self.opaque_local(st, ci, body)
            if not self.recursive(st, body):
                return self.enter(st, body, args, k, tag)
            self.warn("recursion: " + body.path)
        m = self.models.model(self, st, ci)
        if m is not None:
            return m
        return self.opaque(st, ci)

    # -- what to look into ---------------------------------------------------------
    def static_callees(self, h):
        """Functions of this crate that a body may reach directly, and the names it calls."""
        r = self._callees_of.get(h)
        if r is not None:
            return r
        b = self.F.bodies[h]
        loc, names = set(), set()

        def fn(c):
            rr = c.get("r")
            t = rr["h"] if rr and rr["h"] in self.F.bodies else c["h"]
            if t in self.F.bodies:
                loc.add(t)
            n = norm(c["p"])
            names.add(n)
            if n.endswith(("::Into::into", "::TryInto::try_into", "::From::from", "::TryFrom::try_from")):
                t = self.models.find_convert(self, c, last2(n))
                if t is not None:
                    loc.add(t)

        def op(o):
            if o[0] == "k":
                k = o[1]
                if "fn" in k:
                    fn(k["fn"])
                elif "t" in k:
                    t = self.F.types[k["t"]]
                    if t["k"] in ("closure", "coroutine") and t["h"] in self.F.bodies:
                        loc.add(t["h"])

        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] in ("dead", "live", "setdisc"):
                    continue
                rv = s[1]
                k = rv[0]
                if k in ("use", "repeat"):
                    op(rv[1])
                elif k in ("cast", "un"):
                    op(rv[2])
                elif k == "bin":
                    op(rv[2])
                    op(rv[3])
                elif k == "agg":
                    for o in rv[2]:
                        op(o)
                    if rv[1] in ("closure", "coroutine") and rv[3] in self.F.bodies:
                        loc.add(rv[3])
            t = blk["t"]
            if t[0] == "call":
                op(t[1])
                for o in t[2]:
                    op(o)
        r = (loc, names)
        self._callees_of[h] = r
        return r

    def closure_over(self, direct):
        """Bodies that satisfy `direct` or may reach one that does."""
        rev = {}
        work = []
        out = set()
        for h in self.F.bodies:
            for c in self.static_callees(h)[0]:
                rev.setdefault(c, set()).add(h)
            if direct(h):
                out.add(h)
                work.append(h)
        while work:
            for p in rev.get(work.pop(), ()):
                if p not in out:
                    out.add(p)
                    work.append(p)
        return out

    def field_writes(self, h):
        b = self.F.bodies[h]
        out = set()
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] in ("dead", "live", "setdisc"):
                    continue
                pls = [s[0]]
                if s[1][0] == "ref" and "mut" in s[1][1].lower():
                    pls.append(s[1][2])
                for pl in pls:
                    if not isinstance(pl, int):
                        for e in pl[1]:
                            if e[0] == "f":
                                out.add(str(e[1]))
            t = blk["t"]
            if t[0] == "call" and not isinstance(t[3], int):
                for e in t[3][1]:
                    if e[0] == "f":
                        out.add(str(e[1]))
        return out

    def focus(self, interest, fields=(), always=()):
        """Only look into functions that may do something of interest."""
        fields = self.set_fields = set(fields)

        def direct(h):
            b = self.F.bodies[h]
            if any(interest(n) for n in self.static_callees(h)[1]):
                return True
            if fields and not fields.isdisjoint(self.field_writes(h)):
                return True
            return any(x in b["p"] for x in always)

        self.relevant = self.closure_over(direct)
        return self.relevant

    def inlines(self, body):
        if body.h in self._inl:
            return self._inl[body.h]
        if norm(body.path) in self.never:
            r = False
        elif self.relevant is None:
            r = True
        elif body.h in self.relevant:
            r = True
        else:
            n = sum(1 for b in body.reach if not body.blocks[b][3])
            r = n <= SMALL and not body.loops and not self.is_text(body)
        self._inl[body.h] = r
        if not r:
            self.skipped.add(body.path)
        return r

    def given_relevant(self, st, body, args):
        """Is the function passed a closure that may do something of interest?"""
        if self.relevant is None or norm(body.path) in self.never or body.loops or not any(a.op == "agg" and a.args[0] == "closure" for a in args):
            return False
        return any(
            x.op == "agg" and x.args[0] == "closure" and x.args[1] in self.relevant
            for a in args
            for x in (st.content(a) if a.op == "ref" else a).sub
        )

    def is_text(self, body):
        ts = [self.type_s(t) for t in body.locals[: body.argc + 1]]
        return any(x in t for t in ts for x in TEXT_TYPES)

    def impure_bodies(self):
        if self._impure is None:
            self._impure = self.closure_over(
                lambda h: any(self.models.impure(n) for n in self.static_callees(h)[1])
            )
        return self._impure

    def opaque_local(self, st, ci, body):
        """A function of this crate that does nothing of interest."""
        name = norm(body.path)
        return self.opaque(st, ci, name=name, impure=body.h in self.impure_bodies())

    def place_path(self, root, pr):
        """Struct fields on the way to a place, innermost last."""
        out = []
        for i, k in enumerate(pr):
            if type(k) is not str:
                out.append("[]")
                continue
            ty = self.place_type(root, pr[:i])
            t = self.F.types[ty] if ty is not None else None
            name = k.split(".", 1)[1] if k[0] == "@" else k
            out.append((t["d"] + "::" if t and t["k"] == "adt" else "") + name)
        return tuple(out)

    def ctor(self, callee, args):
        c = callee["ctor"]
        if isinstance(c, (list, tuple)):
            path, variant = c[0], c[1]
        elif isinstance(c, dict):
            path, variant = c["p"], c.get("v", "")
        else:
            p = norm(callee["p"])
            parts = p.split("::")
            if p in self.F.adts:
                path, variant = p, ""
            else:
                path, variant = "::".join(parts[:-1]), parts[-1]
        if variant is None:
            variant = ""
        return mk("agg", "adt", path, variant, tuple(str(i) for i in range(len(args))), tuple(args))

    def opaque(self, st, ci, name=None, event=True, impure=None):
        """A function that is not looked into."""
        M = self.models
        name = name or ci.name
        self.external[name] = self.external.get(name, 0) + 1
        cargs = tuple(st.content(a) for a in ci.args)
        if impure is None:
            impure = M.impure(name)
        # functions handed over may be called
        outs = []
        fs = [a for a in ci.args if self.is_closure(st, a)]
        res = self.fresh(st, "call", name, cargs, ci.site) if impure else mk("call", name, cargs, None)
        if ci.rty is not None:
            s = self.type_s(ci.rty)
            if s == "()":
                res = UNIT
        muts = M.mutated(self, st, ci, name)
        node = None
        if event and not M.silent(name):
            self.event(st, name, cargs, res, raw=tuple(ci.args))
        for i, a in muts:
            self.havoc(st, name, i, a, cargs, ci.site)
        res = M.returned_ref(self, st, ci, name, res)
        if fs and not M.silent(name):
            alt = st.fork()
            outs.extend(M.maybe_called(self, alt, ci, name, fs, res))
        outs.extend(self.resume(st, ci.k, res))
        return outs

    def havoc(self, st, name, i, ref, cargs, site):
        root, pr = ref.args[0], ref.args[1]
        others = tuple(c for j, c in enumerate(cargs) if j != i)
        if self.models.keeps_old(name):
            others = (cargs[i],) + others
        else:
            others = (mk("sym", "was"),) + others
        v = self.fresh(st, "ver", name, i, site, others)
        self.assign(st, root, pr, v)

    def is_closure(self, st, a):
        while a.op == "ref":
            a = st.get(a.args[0], a.args[1])
        return (a.op == "agg" and a.args[0] == "closure") or a.op == "fn"

    # -- main loop -------------------------------------------------------------------
    def add_root(self, body, args, label, mem=None, facts=None):
        st = St()
        c = self.ctx(0, len(self.roots), label, body.h)
        st.stack = ((c, body.h, ("root",)),)
        st.bb = 0
        st.mem = dict(mem or {})
        st.own = True
        for i, a in enumerate(args):
            st.mem[(c, i + 1)] = a
        st.facts = dict(facts or {})
        st.loops = ()
        st.iters = ()
        st.node = None
        st.steps = 0
        n = self.node(st, "root")
        n.data = label
        self.roots.append((label, n.id))
        self.inlined.add(body.h)
        return st

    def run(self, st):
        work = [st]
        while work:
            s = work.pop()
            r = self.step(s)
            if r:
                work.extend(r)

    def step(self, st):
        """Run one state to its next join, fork or end."""
        while True:
            self.stats["steps"] += 1
            c, h, k = st.stack[-1]
            body = self.bodies[h]
            bb = st.bb
            stmts, term, sp, cl = body.blocks[bb]
            for pl, rv, ssp in stmts:
                v = self.rvalue(st, c, rv)
                if not pl[1]:
                    st.put((c, pl[0]), (), v)
                else:
                    root, pr = self.loc(st, c, pl)
                    self.assign(st, root, pr, v)
            t = term[0]
            if t == "goto":
                nxt = self.goto(st, body, term[1])
            elif t == "call":
                nxt = self.do_call(st, c, body, term)
                nxt = self.after(nxt, len(st.stack) if False else None, c, body)
            elif t == "switch":
                nxt = self.do_switch(st, c, body, term)
            elif t == "return":
                kk, v = self.leave(st)
                nxt = self.after(self.resume(st, kk, v), None, c, body, True)
            elif t == "assert":
                v = self.operand(st, c, term[1])
                if is_const(v) and v.args[0] != term[2]:
                    self.event(st, "assert", (), kind="panic")
                    return ()
                if not is_const(v):
                    self.assume(st, v, term[2])
                nxt = self.goto(st, body, term[3])
            else:
                self.node(st, "end")
                return ()
            if len(nxt) == 1:
                st = nxt[0]
                continue
            return nxt

    def goto(self, st, body, b):
        st.bb = b
        if b in body.loops:
            s = self.arrive(st, hk=(st.ctx, b))
            return [s] if s is not None else []
        if b in body.joins:
            s = self.arrive(st)
            return [s] if s is not None else []
        return [st]

    def after(self, states, _d, c, body, joined=False):
        """States that came out of a call; they may sit at a block that joins."""
        if len(states) == 1 and not joined:
            s = states[0]
            b = self.bodies[s.stack[-1][1]]
            if s.bb == 0 and s.stack[-1][0] != c:
                return states  # entered a function
            if s.bb in b.loops or s.bb in b.joins:
                return self.goto(s, b, s.bb)
            return states
        out = []
        for s in states:
            b = self.bodies[s.stack[-1][1]]
            if s.bb == 0:
                out.append(s)
                continue
            if s.bb in b.loops:
                out.extend(self.goto(s, b, s.bb))
            else:
                s2 = self.arrive(s)
                if s2 is not None:
                    out.append(s2)
        return out

    def do_call(self, st, c, body, term):
        fop = term[1]
        args = [self.operand(st, c, a) for a in term[2]]
        k = ("ret", c, st.bb)
        rty = None
        if not term[3][1]:
            rty = body.locals[term[3][0]]
        if fop[0] == "k" and "fn" in fop[1]:
            callee = fop[1]["fn"]
            n = callee["n"] if "n" in callee else ""
            return self.call(st, callee, args, k, "", rty)
        f = self.operand(st, c, fop)
        return self.call_fn(st, f, args, k, "")

    def do_switch(self, st, c, body, term):
        v = self.operand(st, c, term[1])
        targets, other = term[2], term[3]
        if v.op == "disc":
            t, mapping = v.args
            names = dict(mapping)
            byval = dict(targets)
            cur = self.variant(st, t)
            if cur is not None and cur != "" and cur in names.values():
                for val, b in targets:
                    if names.get(val) == cur:
                        return self.goto(st, body, b)
                return self.goto(st, body, other) if other is not None else []
            nots = self.not_variants(st, t)
            out = []
            taken = set()
            for val, b in targets:
                vn = names.get(val, val)
                taken.add(vn)
                if vn in nots:
                    continue
                s = st.fork()
                if self.assume_variant(s, t, vn):
                    out.extend(self.goto(s, body, b))
            rest = [n for n in names.values() if n not in taken and n not in nots]
            if other is not None and (rest or not names) and not self.is_unreachable(body, other):
                s = st
                okk = True
                if len(rest) == 1:
                    okk = self.assume_variant(s, t, rest[0])
                else:
                    for vn in taken:
                        okk = okk and self.assume_variant(s, t, vn, False)
                if okk:
                    out.extend(self.goto(s, body, other))
            return out
        if is_const(v):
            x = v.args[0]
            for val, b in targets:
                if val == x or (isinstance(x, bool) and int(x) == val):
                    return self.goto(st, body, b)
            return self.goto(st, body, other) if other is not None else []
        isbool = term[4]
        if isbool:
            out = []
            ts = self.truth(st, v)
            for s, x in ts:
                b = other
                for val, bb in targets:
                    if val == int(x):
                        b = bb
                if b is not None:
                    out.extend(self.goto(s, body, b))
            return out
        out = []
        vals = []
        for val, b in targets:
            s = st.fork()
            vals.append(val)
            if self._fact(s, v, val, True):
                out.extend(self.goto(s, body, b))
        if other is not None and not self.is_unreachable(body, other):
            okk = True
            for x in vals:
                okk = okk and self._fact(st, v, x, False)
            if okk:
                out.extend(self.goto(st, body, other))
        return out

    def is_unreachable(self, body, b):
        stmts, t, _, _ = body.blocks[b]
        return t[0] == "end" and t[1] == "unreachable" and not stmts

    # -- spawned tasks -----------------------------------------------------------------
    def spawn(self, st, fut, site):
        f = st.content(fut)
        key = f.args[1] if f.op == "agg" else f
        keep = {}
        sp = self.spawns.setdefault((key, self.span(st.ctx, st.bb)[0]), {"terms": [], "sites": set(), "facts": [], "key": key, "nodes": []})
        if f not in sp["terms"]:
            sp["terms"].append(f)
            sp["facts"].append(st.facts)
        sp["sites"].add((st.ctx, st.bb))
        sp["nodes"].append(st.node)

    def run_spawned(self, which=None):
        done = set()
        progress = True
        while progress:
            progress = False
            for key in list(self.spawns):
                if key in done:
                    continue
                done.add(key)
                progress = True
                sp = self.spawns[key]
                f = sp["terms"][0]
                for n, g in enumerate(sp["terms"][1:]):
                    f = self.joinval(f, g, (str(key[0]),))
                if f.op != "agg" or f.args[0] != "coroutine":
                    continue
                body = self.body(f.args[1])
                if body is None or (which is not None and not which(f.args[1])):
                    continue
                st = self.add_root(body, [f, UNDEF], "task " + body.path)
                sp["root"] = st.node
                self.run(st)

    def joinval(self, a, b, path):
        if a is b:
            return a
        if a.op == "agg" and b.op == "agg" and a.args[:4] == b.args[:4]:
            vals = tuple(self.joinval(x, y, path + (n,)) for n, x, y in zip(a.args[3], a.args[4], b.args[4]))
            return mk("agg", *(a.args[:4] + (vals,)))
        j = mk("join", path)
        self.alts.setdefault(j, set()).update((a, b))
        return j


class Call:
    __slots__ = ("callee", "name", "args", "k", "site", "rty")

    def __init__(self, callee, name, args, k, site, rty):
        self.callee = callee
        self.name = name
        self.args = args
        self.k = k
        self.site = site
        self.rty = rty


def finite(v):
    if v.op == "k":
        return v.args[1] == "bool" or v.args[1] == "unit"
    return v.op == "agg" and v.args[0] == "adt" and not v.args[4]


def meet(a, b):
    """What holds in both cases."""
    a, b = dict(a), dict(b)
    out = set()
    for t in a.keys() | b.keys():
        f, g = a.get(t), b.get(t)
        if f == g:
            out.add((t, f))
        elif f is not None and g is not None:
            if f[0] == "!" and g[0] == "!" and f[1] & g[1]:
                out.add((t, ("!", f[1] & g[1])))
            elif f[0] == "!" and g[0] == "=" and g[1] not in f[1]:
                out.add((t, f))
            elif g[0] == "!" and f[0] == "=" and f[1] not in g[1]:
                out.add((t, g))
        else:
            # a name that is not UTF-8 differs from every constant
            x, o = (f, b) if g is None else (g, a)
            if x[0] == "!" and o.get(mk("call", "is_utf8", (t,), None)) == ("=", False):
                out.add((t, x))
    return frozenset(out)


def getp(v, path):
    for k in path:
        v = getf(v, k)
    return v


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "un" and t.args[0] == "Not":
        return t.args[1]
    return mk("un", "Not", t)


def fact_key(t):
    while t.op == "upd":
        t = t.args[0]
    return t


def eq(a, b):
    """Equality of two values, decided where their shape decides it."""
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return boolean(a.args[0] == b.args[0])
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
        if a.args[2] != b.args[2]:
            return FALSE
        if len(a.args[4]) == len(b.args[4]):
            parts = [eq(x, y) for x, y in zip(a.args[4], b.args[4])]
            if any(p is FALSE for p in parts):
                return FALSE
            parts = [p for p in parts if p is not TRUE]
            if not parts:
                return TRUE
            if len(parts) == 1:
                return parts[0]
    if b.id < a.id:
        a, b = b, a
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return neg(b)
    if b is FALSE:
        return neg(a)
    return mk("bin", "Eq", a, b)


_FOLD = {
    "Add": lambda x, y: x + y,
    "Sub": lambda x, y: x - y,
    "Mul": lambda x, y: x * y,
    "Eq": lambda x, y: x == y,
    "Ne": lambda x, y: x != y,
    "Lt": lambda x, y: x < y,
    "Le": lambda x, y: x <= y,
    "Gt": lambda x, y: x > y,
    "Ge": lambda x, y: x >= y,
    "BitOr": lambda x, y: x | y,
    "BitAnd": lambda x, y: x & y,
    "BitXor": lambda x, y: x ^ y,
    "Shl": lambda x, y: x << y,
    "Shr": lambda x, y: x >> y,
    "Rem": lambda x, y: x % y if y else 0,
    "Div": lambda x, y: x // y if y else 0,
}
