"""Abstract interpretation of the editor plugins' scripts.

Values are terms over what is not known (arguments, module state, results of the editor's functions). A state is what the
variables and the fields that were written hold, what the conditions passed so far tell, and the calls and writes so far.
Loops are widened: what their bodies write is unknown at the start of an iteration, and one iteration stands for all.
Functions that are handed to the editor become entry points of their own, with all state that others change unknown.
"""
NIL, TRUE, FALSE = ("k", None), ("k", True), ("k", False)
PURE = (
    "uri_to_fname", "uri_to_bufnr", "decodeURI", "toString", "strchars", "dirname", "startsWith", "slice", "expand", "string.sub", "uri_from_fname", "nvim_buf_get_name",
    "path.join", "path.resolve", "type", "in", "Uri.parse", "lineAt", "version", "sub", "isEqual", "math.min", "math.max", "fname_to_uri", "substring", "replace", "fsPath", "toLowerCase",
)
MAX_STATES = 4000
MAX_DEPTH = 24


class Limit(Exception):
    pass


def k(v):
    return ("k", v)


def walk(t):
    yield t
    if type(t) is tuple:
        for x in t[1:]:
            if type(x) is tuple:
                if x and type(x[0]) is str and len(x) > 1 or x == ():
                    yield from walk(x)
                else:
                    for y in x:
                        yield from walk(y)


def has(t, x):
    return any(y == x for y in walk(t))


class Event:
    """kind: call, set (obj, key, old, new), cell (name, value)."""

    __slots__ = ("kind", "name", "args", "obj", "where", "loops", "excl", "cells", "term", "key")

    def __init__(self, kind, name, args, obj, where, loops, excl, cells, term):
        self.kind, self.name, self.args, self.obj, self.where = kind, name, args, obj, where
        self.loops, self.excl, self.cells, self.term = loops, excl, cells, term
        self.key = (kind, name, args, obj, where, loops, excl, cells)

    def __repr__(self):
        return "%s %s %r @%s:%s" % (self.kind, self.name, self.args, self.where[0], self.where[1])


class St:
    __slots__ = ("mem", "heap", "facts", "ev", "excl", "loops", "tried")

    def copy(self):
        s = St()
        s.mem, s.heap, s.facts, s.ev = dict(self.mem), dict(self.heap), dict(self.facts), self.ev
        s.excl, s.loops, s.tried = self.excl, self.loops, self.tried
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.heap.items()), frozenset(self.facts.items()), tuple(e.key for e in self.ev), self.excl)


def fresh():
    s = St()
    s.mem, s.heap, s.facts, s.ev, s.excl, s.loops, s.tried = {}, {}, {}, (), 0, (), 0
    return s


class Module:
    def __init__(self, name, path, tree, js):
        self.name, self.path, self.tree, self.js = name, path, tree, js


class Interp:
    def __init__(self, modules, js=False, opaque=lambda node: False, silent=lambda module: False):
        self.modules = {m.name: m for m in modules}
        self.js = js
        self.opaque = opaque
        self.silent = silent
        self.closures = {}
        self.nodes = {}
        self.names = {}
        self.loaded = {}
        self.roots = []  # (label, fn, state)
        self.rootkeys = set()
        self.label = None
        self.results = []  # (label, fn, [(kind, state, value)])
        self.assigned = {}  # (name, decl) -> [(function, line)]
        self.declared = {}
        self.fields = {}  # names of fields that are assigned -> functions
        self.stack = []
        self.steps = 0
        self.functions = set()
        for m in modules:
            self.scan(m)

    # -- who assigns what ----------------------------------------------------------------
    def scan(self, m):
        def block(b, env, fn):
            env = dict(env)
            for s in b:
                stmt(s, env, fn)

        def stmt(s, env, fn):
            kind = s[0]
            if kind == "local":
                if s[4]:
                    for n in s[2]:
                        env[n] = (n, id(s))
                        self.declared[env[n]] = fn
                for e in s[3]:
                    expr(e, env, fn)
                if not s[4]:
                    for n in s[2]:
                        env[n] = (n, id(s))
                        self.declared[env[n]] = fn
            elif kind == "assign":
                for t in s[2]:
                    if t[0] == "name":
                        d = env.get(t[2])
                        self.assigned.setdefault(d or (t[2], None), []).append((fn, s[1]))
                    else:
                        if t[0] == "index" and t[3][0] == "str":
                            self.fields.setdefault(t[3][2], []).append(fn)
                        expr(t, env, fn)
                for e in s[3]:
                    expr(e, env, fn)
            elif kind == "opassign":
                t = s[3]
                if t[0] == "name":
                    self.assigned.setdefault(env.get(t[2]) or (t[2], None), []).append((fn, s[1]))
                else:
                    if t[0] == "index" and t[3][0] == "str":
                        self.fields.setdefault(t[3][2], []).append(fn)
                    expr(t, env, fn)
                expr(s[4], env, fn)
            elif kind in ("expr", "throw", "delete"):
                expr(s[2], env, fn)
            elif kind == "if":
                expr(s[2], env, fn)
                block(s[3], env, fn)
                block(s[4], env, fn)
            elif kind == "while":
                expr(s[2], env, fn)
                block(s[3], env, fn)
                for x in s[4:]:
                    block(x, env, fn)
            elif kind == "repeat":
                env2 = dict(env)
                for x in s[2]:
                    stmt(x, env2, fn)
                expr(s[3], env2, fn)
            elif kind == "do":
                block(s[2], env, fn)
            elif kind == "fornum":
                for e in s[3]:
                    expr(e, env, fn)
                env2 = dict(env)
                env2[s[2]] = (s[2], id(s))
                self.declared[env2[s[2]]] = fn
                block(s[4], env2, fn)
            elif kind == "forin":
                for e in s[3]:
                    expr(e, env, fn)
                env2 = dict(env)
                for n in s[2]:
                    env2[n] = (n, id(s))
                    self.declared[env2[n]] = fn
                block(s[4], env2, fn)
            elif kind == "return":
                for e in s[2]:
                    expr(e, env, fn)
            elif kind == "try":
                block(s[2], env, fn)
                env2 = dict(env)
                if s[3]:
                    env2[s[3]] = (s[3], id(s))
                    self.declared[env2[s[3]]] = fn
                block(s[4] or [], env2, fn)
                block(s[5] or [], env, fn)

        def expr(e, env, fn):
            if type(e) is list:
                for x in e:
                    expr(x, env, fn)
                return
            if type(e) is not tuple or not e:
                return
            if e[0] == "func":
                env2 = dict(env)
                for p in e[2]:
                    env2[p] = (p, id(e))
                    self.declared[env2[p]] = e
                block(e[4], env2, e)
                return
            if e[0] == "assignexpr":
                stmt(("assign", e[1], [e[2]], [e[3]]), env, fn)
                return
            if type(e[0]) is str:
                for x in e[2:]:
                    expr(x, env, fn)
            else:
                for x in e:
                    expr(x, env, fn)

        block(m.tree, {}, m)

    # -- running -----------------------------------------------------------------------------
    def load(self, name):
        """The value of a module."""
        if name in self.loaded:
            return self.loaded[name]
        m = self.modules.get(name)
        if m is None:
            return None
        self.loaded[name] = ("mod", name)
        st = fresh()
        old = self.label, self.stack
        self.label, self.stack = "load " + name, [(("load", name), m)]
        env = {}
        outs = self.block_in(m.tree, st, env)
        self.label, self.stack = old
        val = ("mod", name)
        states = []
        for kind, s, v in outs:
            if kind == "return" and v:
                val = v[0]
            states.append(s)
        if m.js:
            # everything that is declared may be imported
            val = ("tab", ("exports", name), ())
            for s in states:
                for n, cell in env.items():
                    s.heap[(val, k(n))] = s.mem.get(cell, NIL)
        self.loaded[name] = val
        self.state = getattr(self, "state", None) or fresh()
        for s in states:
            self.state.mem.update(s.mem)
            self.state.heap.update(s.heap)
        self.results.append(("load " + name, None, outs))
        return val

    def run(self, entry):
        self.load(entry)
        done = 0
        while done < len(self.roots):
            label, fn, st, nargs = self.roots[done]
            done += 1
            self.run_root(label, fn, st, nargs)

    def run_root(self, label, fn, st, nargs):
        node, env, mod = self.closures[fn]
        self.label = label
        self.stack = [((label,), mod)]
        st = st.copy()
        base = self.state
        for c, v in base.mem.items():
            st.mem.setdefault(c, v)
        for c, v in base.heap.items():
            st.heap.setdefault(c, v)
        st.mem = {c: self.later(c, v, node) for c, v in st.mem.items()}
        st.heap = {c: v for c, v in st.heap.items() if self.lasting(c, v)}
        st.facts = {t: f for t, f in st.facts.items() if not any(x[0] in ("var", "tab") or x[0] == "get" and x[1][0] != "arg" for x in walk(t) if type(x) is tuple and x and type(x[0]) is str)}
        st.ev, st.excl, st.loops, st.tried = (), 0, (), 0
        args = [("arg", label, i) for i in range(max(len(node[2]), nargs))]
        outs = self.invoke(fn, args, st, (label,), root=True)
        self.results.append((label, fn, outs))

    def later(self, cell, v, node):
        """What a variable may hold when the function runs at last."""
        d = cell[:2]
        own = self.declared.get(d)
        for f, line in self.assigned.get(d, ()):
            if f is not own or line >= node[1] and own is not None or isinstance(own, Module) and f is not own:
                return ("var",) + cell[:1] + (self.line_of(d),)
        return v

    def line_of(self, d):
        own = self.declared.get(d)
        return getattr(own, "name", None) or (own[1] if own else 0)

    def lasting(self, c, v):
        obj, key = c
        if v[0] == "fn":
            return True
        if obj[0] != "tab" or key == "push":
            return False
        return key[0] == "k" and (type(key[1]) is not str or key[1] not in self.fields)

    def mutable(self, cell):
        own = self.declared.get(cell[:2])
        return any(f is not own for f, _ in self.assigned.get(cell[:2], ()))

    def where(self, line):
        return (self.stack[-1][1].path, line)

    def ctx(self):
        return self.stack[-1][0]

    def event(self, st, kind, name, args, obj, line, term=None):
        cells = frozenset((c[0], v) for c, v in st.mem.items() if self.mutable(c))
        e = Event(kind, name, args, obj, self.where(line), st.loops, st.excl, cells, term)
        st.ev = st.ev + (e,)

    # -- statements --------------------------------------------------------------------------
    def block(self, b, st, env):
        return self.block_in(b, st, dict(env))

    def hoist(self, b, st, env):
        for s in b:
            if s[0] == "local" and s[4]:
                for n in s[2]:
                    env[n] = (n, id(s), self.ctx())
        for s in b:
            if s[0] == "local" and s[4]:
                for n, e in zip(s[2], s[3]):
                    st.mem[env[n]] = self.closure(e, env, n)

    def block_in(self, b, st, env):
        if self.js:
            st = st.copy()
            self.hoist(b, st, env)
        live = [st]
        out = []
        for s in b:
            nxt = []
            for x in live:
                for o in self.stmt(s, x, env):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            live = self.dedupe(nxt)
            if not live:
                break
        return out + [("next", x, None) for x in live]

    def dedupe(self, sts):
        self.steps += len(sts)
        if self.steps > 400000:
            raise Limit("too many states")
        if len(sts) < 2:
            return sts
        seen, out = set(), []
        for s in sts:
            q = s.key()
            if q not in seen:
                seen.add(q)
                out.append(s)
        if len(out) > MAX_STATES:
            raise Limit("too many states")
        return out

    def declare(self, st, env, n, node, v):
        c = (n, id(node), self.ctx())
        env[n] = c
        st.mem[c] = v
        if v[0] == "tab":
            self.names.setdefault(v, n)

    def stmt(self, s, st, env):
        kind, line = s[0], s[1]
        if kind == "local":
            if s[4]:
                if not self.js:
                    st = st.copy()
                    for n, e in zip(s[2], s[3]):
                        c = (n, id(s), self.ctx())
                        env[n] = c
                        st.mem[c] = self.closure(e, env, n)
                return [("next", st, None)]
            out = []
            envs = []
            for vs, x in self.exprs(s[3], st, env, len(s[2])):
                if vs is None:
                    out.append(("throw", x, NIL))
                    continue
                x = x.copy()
                for n, v in zip(s[2], vs + [NIL] * len(s[2])):
                    c = (n, id(s), self.ctx())
                    x.mem[c] = v
                    envs.append((n, c))
                    if v[0] == "tab":
                        self.names.setdefault(v, n)
                out.append(("next", x, None))
            for n in s[2]:
                env[n] = (n, id(s), self.ctx())
            return out
        if kind == "assign":
            out = []
            for vs, x in self.exprs(s[3], st, env, len(s[2])):
                if vs is None:
                    out.append(("throw", x, NIL))
                    continue
                vs = vs + [NIL] * len(s[2])
                xs = [x]
                for t, v in zip(s[2], vs):
                    xs = [z for y in xs for z in self.store(t, v, y, env, line)]
                out.extend(("next", y, None) for y in xs)
            return out
        if kind == "opassign":
            out = []
            for v, x in self.expr(("bin", line, s[2], s[3], s[4]), st, env):
                out.extend(("next", y, None) for y in self.store(s[3], v, x, env, line))
            return out
        if kind == "delete":
            return [("next", y, None) for y in self.store(s[2], NIL, st, env, line)]
        if kind == "expr":
            return [("throw", x, NIL) if v == "throw" else ("next", x, None) for v, x in self.expr(s[2], st, env)]
        if kind == "throw":
            return [("throw", x, v) for v, x in self.expr(s[2], st, env)]
        if kind == "do":
            return self.block(s[2], st, env)
        if kind == "if":
            out = []
            for b, x in self.cond(s[2], st, env):
                if b == "throw":
                    out.append(("throw", x, NIL))
                else:
                    out.extend(self.block(s[3] if b else s[4], x, env))
            return out
        if kind == "return":
            out = []
            for vs, x in self.exprs(s[2], st, env, None):
                out.append(("throw", x, NIL) if vs is None else ("return", x, vs))
            return out
        if kind in ("break", "continue"):
            return [(kind, st, None)]
        if kind == "while":
            return self.loop(s, st, env, lambda x, e: self.cond(s[2], x, e), s[3], s[4] if len(s) > 4 else [])
        if kind == "repeat":
            first = self.loop(s, st, env, lambda x, e: [(True, x), (False, x)], s[2], [])
            return first
        if kind == "fornum":
            outs = []
            for vs, x in self.exprs(s[3], st, env, None):
                if vs is None:
                    continue

                def head(y, e, vs=vs):
                    y = y.copy()
                    self.declare(y, e, s[2], s, ("elem", ("range",) + tuple(vs)))
                    return [(True, y), (False, y)]

                outs.extend(self.loop(s, x, env, head, s[4], []))
            return outs
        if kind == "forin":
            outs = []
            for vs, x in self.exprs(s[3], st, env, None):
                if vs is None:
                    outs.append(("throw", x, NIL))
                    continue
                outs.extend(self.forin(s, vs, x, env))
            return outs
        if kind == "try":
            return self.attempt(s, st, env)
        raise Limit("statement %s" % kind)

    def attempt(self, s, st, env):
        st = st.copy()
        st.tried += 1
        thrown, out = [], []
        for o in self.block(s[2], st, env):
            x = o[1].copy()
            x.tried -= 1
            (thrown if o[0] == "throw" else out).append((o[0], x, o[2]))
        if s[4] is None:
            out.extend(thrown)
        else:
            for _, x, v in thrown:
                e = dict(env)
                x = x.copy()
                if s[3]:
                    self.declare(x, e, s[3], s, v if v is not None and v != NIL else ("call", "error", (), self.where(s[1])))
                out.extend(self.block(s[4], x, e))
        if s[5]:
            res = []
            for kind, x, v in out:
                for o in self.block(s[5], x, env):
                    res.append((kind, o[1], v) if o[0] == "next" else o)
            out = res
        return out

    # -- loops --------------------------------------------------------------------------------
    def loop(self, s, st, env, head, body, update):
        lid = (self.where(s[1]), self.ctx())
        unknown_mem, unknown_heap = set(), set()
        for _ in range(6):
            w = st.copy()
            for c in unknown_mem:
                w.mem[c] = ("loop", lid[0], c[0])
            for c in unknown_heap:
                if c[1] == "push":
                    continue
                w.heap[c] = ("loop", lid[0], c)
            w.facts = {t: f for t, f in w.facts.items()}
            w.loops = st.loops + (lid[0],)
            outs, exits = [], []
            e2 = dict(env)
            for b, x in head(w, e2):
                if b == "throw":
                    outs.append(("throw", x, NIL))
                elif b:
                    for o in self.block(body, x, e2):
                        if o[0] in ("next", "continue") and update:
                            outs.extend(self.block(update, o[1], e2))
                        else:
                            outs.append(o)
                else:
                    exits.append(x)
            more_mem, more_heap = set(), set()
            for o in outs:
                if o[0] not in ("next", "continue"):
                    continue
                for c, v in o[1].mem.items():
                    if c in w.mem and w.mem[c] != v and c not in unknown_mem:
                        more_mem.add(c)
                for c, v in o[1].heap.items():
                    if w.heap.get(c) != v and c not in unknown_heap and c[1] != "push":
                        if not (c[0][0] == "tab" and c[0][2] == self.ctx() and (c[0], "made") not in w.heap):
                            more_heap.add(c)
            if not more_mem and not more_heap:
                break
            unknown_mem |= more_mem
            unknown_heap |= more_heap
        outs = [(o[0], self.iterated(w, o[1], s[1], o[0]), o[2]) for o in outs]
        res = []
        for x in exits:
            # nothing done (or nothing more)
            y = st.copy()
            y.ev = x.ev
            y.facts = {t: f for t, f in x.facts.items()} if not unknown_mem and not unknown_heap else dict(st.facts)
            for c, v in x.mem.items():
                y.mem.setdefault(c, v)
            res.append(("next", y, None))
        for o in outs:
            x = o[1].copy()
            x.loops = st.loops
            if o[0] in ("next", "continue"):
                x.facts = dict(st.facts)
                res.append(("next", x, None))
            elif o[0] == "break":
                res.append(("next", x, None))
            else:
                res.append((o[0], x, o[2]))
        return [o for o in res]

    def iterated(self, before, st, line, kind):
        """Note what an iteration has appended to lists."""
        if kind not in ("next", "continue", "break"):
            return st
        st = st.copy()
        new = []
        for c, v in st.heap.items():
            if c[1] == "push":
                new += [(c[0], self.frozen(st, x)) for x in v if x not in before.heap.get(c, ())]
        self.event(st, "iter", "break" if kind == "break" else "next", tuple(new), None, line)
        return st

    def items(self, st, coll):
        """Elements that are known, or None."""
        if coll[0] != "tab":
            return None
        out = [v for (o, key), v in st.heap.items() if o == coll and key != "push" and key[0] == "k" and type(key[1]) is int]
        for v in st.heap.get((coll, "push"), ()):
            out.append(v)
        if not out and not self.closed(coll):
            return None
        return out

    def closed(self, t):
        return t[0] == "tab" and bool(t[2]) and t[2][0] == (self.label if type(self.label) is str else None) and t[1][0] != "exports"

    def forin(self, s, vs, st, env):
        v = vs[0]
        names = s[2]
        pairs = False
        if v[0] == "call" and v[1] in ("ipairs", "pairs", "vim.spairs"):
            coll, pairs = v[2][0], True
        elif v[0] == "glob" or v[0] == "call" and v[1] == "next":
            coll = vs[1] if len(vs) > 1 else v
            pairs = True
        else:
            coll = v
        known = self.items(st, coll)
        alts = [("elem", coll)] if known is None else list(dict.fromkeys(known))

        def head(y, e):
            out = []
            for a in alts:
                z = y.copy()
                if self.js and not pairs:
                    self.bind(z, e, names, s, a)
                elif len(names) > 1:
                    self.declare(z, e, names[0], s, ("key", coll))
                    self.declare(z, e, names[1], s, a)
                    for n in names[2:]:
                        self.declare(z, e, n, s, NIL)
                else:
                    self.declare(z, e, names[0], s, ("key", coll))
                out.append((True, z))
            if known is None or not all(True for _ in ()) or not alts:
                out.append((False, y))
            elif any("push" == key for (o, key) in st.heap if o == coll):
                out.append((False, y))
            return out

        return self.loop(s, st, env, head, s[4], [])

    def bind(self, st, env, names, node, v):
        if len(names) == 1:
            self.declare(st, env, names[0], node, v)
        else:
            for i, n in enumerate(names):
                self.declare(st, env, n, node, self.read(st, v, k(i)))

    # -- storing ------------------------------------------------------------------------------
    def store(self, t, v, st, env, line):
        if t[0] == "paren":
            t = t[2]
        if t[0] == "name":
            st = st.copy()
            c = env.get(t[2])
            if c is None:
                st.heap[(("glob", t[2]), "value")] = v
                return [st]
            st.mem[c] = v
            if v[0] == "tab":
                self.names.setdefault(v, t[2])
            if self.mutable(c):
                self.event(st, "cell", c[0], (v,), None, line)
            return [st]
        if t[0] == "index":
            out = []
            for o, x in self.expr(t[2], st, env):
                if o == "throw":
                    continue
                for key, y in self.expr(t[3], x, env):
                    y = y.copy()
                    old = self.read(y, o, key)
                    y.heap[(o, key)] = v
                    if o[0] == "tab" and v == NIL:
                        y.heap[(o, key)] = NIL
                    # what was known about it is over
                    g = ("get", o, key)
                    y.facts = {f: b for f, b in y.facts.items() if not has(f, g) and not (f[0] == "truthy" and f[1][0] == "call" and f[1][1] == "in" and f[1][2] == (key, o))}
                    self.event(y, "set", key[1] if key[0] == "k" else None, (key, old, v), o, line)
                    out.append(y)
            return out
        if t[0] == "table":
            out = [st]
            for i, (kk, e) in enumerate(t[2]):
                nxt = []
                for x in out:
                    if kk is None:
                        w = self.read(x, v, k(i if self.js else i + 1))
                    else:
                        w = self.read(x, v, k(kk[2]))
                    nxt.extend(self.store(e, w, x, env, line))
                out = nxt
            return out
        raise Limit("target %s" % t[0])

    def read(self, st, o, key):
        if (o, key) in st.heap:
            return st.heap[(o, key)]
        if o[0] == "mod" and o[1] in self.loaded and self.loaded[o[1]] != o:
            return self.read(st, self.loaded[o[1]], key)
        if self.closed(o) and key[0] == "k":
            if self.js and key[1] == "length" or type(key[1]) is int and (o, "push") in st.heap:
                return ("get", o, key)
            if not any(oo == o and kk != "push" and kk[0] != "k" for oo, kk in st.heap):
                return NIL
        return ("get", o, key)

    # -- expressions --------------------------------------------------------------------------
    def exprs(self, es, st, env, want):
        """All combinations of values: [([values], state)]; values None after an exception."""
        outs = [([], st)]
        for i, e in enumerate(es):
            nxt = []
            for vs, x in outs:
                if vs is None:
                    nxt.append((vs, x))
                    continue
                last = i == len(es) - 1
                for v, y in self.expr(e, x, env, many=last and not self.js):
                    if v == "throw":
                        nxt.append((None, y))
                    elif type(v) is list:
                        nxt.append((vs + v, y))
                    elif last and not self.js and want is not None and e[0] in ("call", "method") and v[0] == "call":
                        need = want - i
                        nxt.append((vs + ([v] if need <= 1 else [("ret", v, j) for j in range(need)]), y))
                    elif e[0] == "spread":
                        nxt.append((vs + [("spread", v)], y))
                    else:
                        nxt.append((vs + [v], y))
            outs = nxt
        return outs

    def closure(self, node, env, name=None):
        t = ("fn", name or "", (self.stack[-1][1].name, node[1], id(node)), self.ctx())
        self.closures[t] = (node, env if self.js else dict(env, **({name: env[name]} if name and name in env else {})), self.stack[-1][1])
        return t

    def expr(self, e, st, env, many=False):
        kind, line = e[0], e[1]
        if kind in ("num", "str"):
            return [(k(e[2]), st)]
        if kind == "nil":
            return [(NIL, st)]
        if kind in ("true", "false"):
            return [(k(kind == "true"), st)]
        if kind == "vararg":
            v = st.mem.get("...", (("varargs",),))
            return [(list(v), st)] if many else [(v[0] if v else NIL, st)]
        if kind in ("paren", "await", "spread"):
            out = []
            for v, x in self.expr(e[2], st, env):
                if kind == "await" and v != "throw":
                    if v[0] == "promise":
                        v = v[1]
                    if not x.excl:
                        x = self.interrupted(x)
                    if x.tried and v[0] == "call":
                        out.append(("throw", x.copy()))
                out.append((v, x))
            return out
        if kind == "name":
            c = env.get(e[2])
            if c is not None:
                return [(st.mem.get(c, NIL), st)]
            if e[2] == "undefined":
                return [(NIL, st)]
            g = ("glob", e[2])
            return [(st.heap.get((g, "value"), g), st)]
        if kind == "index":
            out = []
            for o, x in self.expr(e[2], st, env):
                if o == "throw":
                    out.append((o, x))
                    continue
                for key, y in self.expr(e[3], x, env):
                    out.append((self.read(y, o, key), y))
            return out
        if kind == "func":
            return [(self.closure(e, env), st)]
        if kind == "table":
            return self.table(e, st, env)
        if kind in ("and", "or", "nullish"):
            out = []
            for v, x in self.expr(e[2], st, env):
                if v == "throw":
                    out.append((v, x))
                    continue
                t = v if kind != "nullish" else ("not", ("bin", "==", v, NIL))
                for b, y in self.truth(t, x):
                    if b == (kind != "and"):
                        out.append((v if kind != "and" or b else v, y))
                    else:
                        out.extend(self.expr(e[3], y, env))
            return out
        if kind == "cond":
            out = []
            for b, x in self.cond(e[2], st, env):
                out.extend([("throw", x)] if b == "throw" else self.expr(e[3] if b else e[4], x, env))
            return out
        if kind == "un":
            out = []
            for v, x in self.expr(e[3], st, env):
                if v == "throw":
                    out.append((v, x))
                elif e[2] in ("not", "!"):
                    out.append((("not", v) if v[0] != "not" else v[1], x))
                elif e[2] == "#":
                    out.append((("len", v), x))
                elif e[2] == "-":
                    out.append((k(-v[1]) if v[0] == "k" and type(v[1]) in (int, float) else ("neg", v), x))
                else:
                    out.append((("un", e[2], v), x))
            return out
        if kind == "bin":
            out = []
            for a, x in self.expr(e[3], st, env):
                if a == "throw":
                    out.append((a, x))
                    continue
                for b, y in self.expr(e[4], x, env):
                    out.append((b if b == "throw" else self.binary(e[2], a, b), y))
            return out
        if kind == "tmpl":
            outs = []
            for vs, x in self.exprs(e[2], st, env, None):
                if vs is None:
                    outs.append(("throw", x))
                    continue
                t = k("")
                for v in vs:
                    t = self.binary("..", t, v)
                outs.append((t, x))
            return outs
        if kind == "call":
            return self.call(e, st, env, many)
        if kind == "method":
            return self.method(e, st, env, many)
        if kind == "new":
            return self.new(e, st, env)
        if kind == "assignexpr":
            out = []
            for v, x in self.expr(e[3], st, env):
                out.extend((v, y) for y in self.store(e[2], v, x, env, line))
            return out
        if kind == "opassignexpr":
            out = []
            for o in self.stmt(("opassign", line, e[2], e[3], e[4]), st, env):
                out.extend(self.expr(e[3], o[1], env))
            return out
        raise Limit("expression %s" % kind)

    def table(self, e, st, env):
        t = ("tab", self.where(e[1]) + (id(e) % 100003,), self.ctx())
        base = st.copy()
        base.heap = {c: v for c, v in base.heap.items() if c[0] != t}
        outs = [(base, 0 if self.js else 1)]
        for key, val in e[2]:
            nxt = []
            for x, i in outs:
                if key is None:
                    for v, y in self.expr(val, x, env):
                        if v == "throw":
                            continue
                        y = y.copy()
                        if val[0] == "spread":
                            y.heap[(t, "push")] = y.heap.get((t, "push"), ()) + (("elem", v),)
                        else:
                            y.heap[(t, k(i))] = v
                        nxt.append((y, i + 1))
                else:
                    for kk, y in self.expr(key, x, env):
                        for v, z in self.expr(val, y, env):
                            if v == "throw":
                                continue
                            z = z.copy()
                            z.heap[(t, kk)] = v
                            nxt.append((z, i))
            outs = nxt
        return [(t, x) for x, _ in outs]

    def binary(self, op, a, b):
        if op in ("~=", "!=", "!=="):
            return ("not", ("bin", "==", a, b))
        if op in ("==", "==="):
            return ("bin", "==", a, b)
        if op == ">":
            return ("bin", "<", b, a)
        if op == "<=":
            return ("not", ("bin", "<", b, a))
        if op == ">=":
            return ("not", ("bin", "<", a, b))
        if op == "in":
            return ("call", "in", (a, b), None)
        if op == "..":
            pa = a[1] if a[0] == "cat" else (a,)
            pb = b[1] if b[0] == "cat" else (b,)
            ps = [x for x in pa + pb if x != k("")]
            out = []
            for x in ps:
                if out and out[-1][0] == "k" and x[0] == "k":
                    out[-1] = k(str(out[-1][1]) + str(x[1]))
                else:
                    out.append(x)
            return out[0] if len(out) == 1 else ("cat", tuple(out))
        if op in ("+", "-") and self.js and (a[0] == "cat" or b[0] == "cat" or a[0] == "k" and type(a[1]) is str or b[0] == "k" and type(b[1]) is str) and op == "+":
            return self.binary("..", a, b)
        if a[0] == "k" and b[0] == "k" and type(a[1]) in (int, float) and type(b[1]) in (int, float):
            if op in "+-*":
                return k({"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[op])
        if op in ("+", "-") and b[0] == "k" and type(b[1]) is int:
            d = b[1] if op == "+" else -b[1]
            if a[0] == "bin" and a[1] == "+" and a[3][0] == "k":
                d += a[3][1]
                a = a[2]
            return a if d == 0 else ("bin", "+", a, k(d))
        if op == "+" and a[0] == "k" and type(a[1]) is int:
            return self.binary("+", b, a)
        return ("bin", op, a, b)

    # -- conditions ---------------------------------------------------------------------------
    def cond(self, e, st, env):
        if e[0] == "paren":
            return self.cond(e[2], st, env)
        if e[0] == "un" and e[2] in ("not", "!"):
            return [(b if b == "throw" else not b, x) for b, x in self.cond(e[3], st, env)]
        if e[0] in ("and", "or"):
            out = []
            for b, x in self.cond(e[2], st, env):
                if b == "throw" or b == (e[0] == "or"):
                    out.append((b, x))
                else:
                    out.extend(self.cond(e[3], x, env))
            return out
        out = []
        for v, x in self.expr(e, st, env):
            out.extend([("throw", x)] if v == "throw" else self.truth(v, x))
        return out

    @staticmethod
    def eqkey(a, b):
        return ("eq",) + tuple(sorted((a, b), key=repr))

    def known(self, facts, v):
        """True, False or None."""
        if v[0] == "k":
            return v[1] is not None and v[1] is not False and not (self.js and v[1] in (0, ""))
        if v[0] in ("tab", "fn"):
            return True
        if v[0] == "not":
            b = self.known(facts, v[1])
            return None if b is None else not b
        if v[0] == "bin" and v[1] == "==":
            a, b = v[2], v[3]
            if a == b:
                return True
            if a[0] in ("k", "tab", "fn") and b[0] in ("k", "tab", "fn"):
                return False if a[0] != b[0] or a[0] == "k" else None
            f = facts.get(self.eqkey(a, b))
            if f is not None:
                return f
            for x, y in ((a, b), (b, a)):
                if y == NIL and facts.get(("truthy", x)) is True:
                    return False
                if y[0] == "k":
                    for t, g in facts.items():
                        if g is True and t[0] == "eq" and x in t[1:]:
                            o = t[2] if t[1] == x else t[1]
                            if o[0] == "k" and o != y:
                                return False
            return None
        if v[0] == "bin" and v[1] == "<":
            if v[2] == v[3]:
                return False
            f = facts.get(("truthy", v))
            if f is None and facts.get(("truthy", ("bin", "<", v[3], v[2]))) is True:
                return False
            if f is None and facts.get(self.eqkey(v[2], v[3])) is True:
                return False
            return f
        f = facts.get(("truthy", v))
        if f is None:
            if facts.get(self.eqkey(v, NIL)) is True or facts.get(self.eqkey(v, FALSE)) is True:
                return False
            for t, g in facts.items():
                if g is True and t[0] == "eq" and v in t[1:]:
                    o = t[2] if t[1] == v else t[1]
                    if o[0] == "k":
                        return self.known(facts, o)
        return f

    def truth(self, v, st):
        b = self.known(st.facts, v)
        if b is not None:
            return [(b, st)]
        if v[0] == "not":
            return [(not b, x) for b, x in self.truth(v[1], st)]
        key = self.eqkey(v[2], v[3]) if v[0] == "bin" and v[1] == "==" else ("truthy", v)
        out = []
        for b in (True, False):
            x = st.copy()
            x.facts[key] = b
            out.append((b, x))
        return out

    def interrupted(self, st):
        """Something else may have run in between."""
        st = st.copy()
        st.heap = {c: v for c, v in st.heap.items() if self.lasting(c, v) or c[0][0] == "tab" and self.closed(c[0])}
        st.facts = {t: f for t, f in st.facts.items() if not any(type(x) is tuple and x and (x[0] == "var" or x[0] == "get" and x[1][0] == "tab") for x in walk(t))}
        st.mem = {c: ("var", c[0], self.line_of(c[:2])) if self.mutable(c) else v for c, v in st.mem.items()}
        return st

    # -- calls --------------------------------------------------------------------------------
    def nm(self, t):
        if t[0] in ("glob", "mod"):
            return t[1]
        if t[0] == "get":
            key = t[2]
            return self.nm(t[1]) + ("." + str(key[1]) if key[0] == "k" else "[]")
        if t[0] == "var":
            return t[1]
        if t[0] in ("call", "promise"):
            return (t[1] if t[0] == "call" else self.nm(t[1])) + "()"
        if t[0] == "tab":
            return self.names.get(t, "{}")
        if t[0] == "fn":
            return t[1] or "function"
        if t[0] == "elem":
            return self.nm(t[1]) + "[]"
        if t[0] == "ret":
            return self.nm(t[1])
        return t[0]

    def call(self, e, st, env, many):
        out = []
        for f, x in self.expr(e[2], st, env):
            if f == "throw":
                out.append((f, x))
                continue
            for vs, y in self.exprs(e[3], x, env, None):
                if vs is None:
                    out.append(("throw", y))
                    continue
                out.extend(self.apply(f, vs, y, e[1], many))
        return out

    def method(self, e, st, env, many):
        out = []
        for o, x in self.expr(e[2], st, env):
            if o == "throw":
                out.append((o, x))
                continue
            for vs, y in self.exprs(e[4], x, env, None):
                if vs is None:
                    out.append(("throw", y))
                    continue
                f = self.read(y, o, k(e[3]))
                if f[0] == "fn":
                    out.extend(self.apply(f, (vs if self.js else [o] + vs), y, e[1], many))
                elif self.js:
                    out.extend(self.jsmethod(o, e[3], vs, y, e[1]))
                else:
                    out.extend(self.library(self.nm(o) + ":" + e[3], [o] + vs, y, e[1], o))
        return out

    def new(self, e, st, env):
        out = []
        for f, x in self.expr(e[2], st, env):
            for vs, y in self.exprs(e[3], x, env, None):
                if vs is None:
                    out.append(("throw", y))
                elif f[0] == "class":
                    # fields with their first values
                    node = f[1]
                    t = ("tab", self.where(e[1]) + (id(e) % 100003,), self.ctx())
                    states = [y.copy()]
                    for n, init in self.nodes[node]:
                        nxt = []
                        for z in states:
                            for v, w in self.expr(init, z, env):
                                w = w.copy()
                                w.heap[(t, k(n))] = v
                                nxt.append(w)
                        states = nxt
                    out.extend((t, z) for z in states)
                elif self.nm(f) in ("Set", "Map", "Array", "Object", "WeakMap"):
                    t = ("tab", self.where(e[1]) + (id(e) % 100003,), self.ctx())
                    y = y.copy()
                    y.heap[(t, "made")] = ("call", "new " + self.nm(f), tuple(vs), None)
                    out.append((t, y))
                else:
                    out.extend(self.library("new " + self.nm(f), vs, y, e[1], None, pure=True))
        return out

    def apply(self, f, vs, st, line, many=False):
        if f[0] == "fn":
            node, env, mod = self.closures[f]
            if self.silent(mod.name):
                return [(NIL, st)]
            if any(s[0][-1] == f[2] for s in self.stack if s[0]) or len(self.stack) > MAX_DEPTH or self.opaque(node):
                if self.opaque(node):
                    out = self.library("opaque", vs, st, line, None)
                    return out + ([("throw", out[0][1].copy())] if len(out) == 1 else [])
                return self.library(self.nm(f), vs, st, line, None)
            out = []
            for kind, x, v in self.invoke(f, vs, st, self.ctx() + (line, f[2])):
                if kind == "throw":
                    out.append(("throw", x))
                elif kind == "return" and v:
                    out.append((list(v) if many else v[0], x))
                else:
                    out.append(([] if many else NIL, x))
            return out
        if f[0] == "get" and f[1][0] == "tab" and f[2][0] != "k":
            # one of the functions in a table
            out = []
            rest = st.copy()
            for (o, key), v in list(st.heap.items()):
                if o == f[1] and type(v) is tuple and v[0] == "fn" and key[0] == "k":
                    q = self.eqkey(f[2], key)
                    rest.facts[q] = False
                    if st.facts.get(q) is not False:
                        x = st.copy()
                        x.facts[q] = True
                        out.extend(self.apply(v, vs, x, line, many))
            return out + self.library(self.nm(f), vs, rest, line, f[1])
        return self.library(self.nm(f), vs, st, line, f[1] if f[0] == "get" else None)

    def invoke(self, f, vs, st, ctx, root=False):
        node, env, mod = self.closures[f]
        self.functions.add((mod.path, node[1]))
        st = st.copy()
        env = dict(env)
        self.stack.append((ctx, mod))
        try:
            for i, p in enumerate(node[2]):
                c = (p, id(node), ctx)
                env[p] = c
                st.mem[c] = vs[i] if i < len(vs) else NIL
            old = st.mem.get("...")
            if node[3]:
                st.mem["..."] = tuple(vs[len(node[2]) :]) or ((("varargs",),) if root else ())
            outs = []
            for kind, x, v in self.block_in(node[4], st, env):
                x = x.copy()
                if node[3]:
                    x.mem.pop("...", None)
                    if old is not None:
                        x.mem["..."] = old
                if kind == "next":
                    kind, v = "return", []
                if len(node) > 5 and node[5] and kind == "return":
                    v = [("promise", v[0])] if v and v[0][0] != "promise" else v or [("promise", NIL)]
                outs.append((kind, x, v))
            if not root:
                seen, res = set(), []
                for kind, x, v in outs:
                    q = (kind, x.key(), tuple(v) if v else None)
                    if q not in seen:
                        seen.add(q)
                        res.append((kind, x, v))
                outs = res
            return outs
        finally:
            self.stack.pop()

    def functions_in(self, st, t, label, depth=0):
        """Functions that are handed over in a value."""
        if t[0] == "fn":
            yield label, t
        elif t[0] == "tab" and depth < 3:
            for (o, key), v in list(st.heap.items()):
                if o == t and key != "push" and type(v) is tuple:
                    yield from self.functions_in(st, v, "%s.%s" % (label, key[1] if key[0] == "k" else "[]"), depth + 1)

    def add_root(self, st, label, fn, nargs=0):
        node, env, mod = self.closures[fn]
        key = (label, fn, frozenset((n, st.mem.get(c)) for n, c in env.items() if c in st.mem and not self.mutable(c)))
        if key in self.rootkeys:
            return
        self.rootkeys.add(key)
        self.roots.append((label, fn, st.copy(), nargs))

    def library(self, name, vs, st, line, obj, pure=False):
        # what the language itself does
        if name == "require" and vs and vs[0][0] == "k":
            v = self.load(vs[0][1])
            return [(v if v is not None else ("mod", vs[0][1]), st)]
        if name == "vim.schedule" and vs and vs[0][0] == "fn":
            return [(v if v == "throw" else NIL, x) for v, x in self.apply(vs[0], [], self.interrupted(st), line)]
        if name == "vim.schedule_wrap" and vs and vs[0][0] == "fn":
            return [(vs[0], st)]
        if name in ("pcall", "xpcall") and vs and vs[0][0] == "fn":
            args = vs[1:] if name == "pcall" else vs[2:]
            x = st.copy()
            x.tried += 1
            out = []
            for v, y in self.apply(vs[0], args, x, line):
                y = y.copy()
                y.tried -= 1
                out.append(([FALSE, ("call", "error", (), self.where(line))], y) if v == "throw" else ([TRUE, v], y))
            return out
        if name == "error" and not self.js:
            return [("throw", st)]
        if name == "assert" and not self.js and vs:
            return [(vs[0] if b else "throw", x) for b, x in self.truth(vs[0], st)]
        if name == "table.insert" and len(vs) == 2:
            return [(NIL, self.push(st, vs[0], vs[1]))]
        if name == "unpack" and vs:
            return [([("get", vs[0], k(i)) for i in range(1, 7)], st)]
        if name == "type" and vs:
            t = {"tab": "table", "fn": "function"}.get(vs[0][0])
            if t:
                return [(k(t), st)]
        if name in ("vim.tbl_map", "vim.tbl_filter") and len(vs) == 2 and vs[0][0] == "fn":
            return self.mapped(vs[0], vs[1], st, line, name.endswith("map"))
        if name in ("ipairs", "pairs", "in", "next", "tostring", "tonumber"):
            return [(("call", name, tuple(vs), None), st)]
        st = st.copy()
        quiet = pure or any(name == p or name.endswith("." + p) or name.endswith(":" + p) for p in PURE)
        args = tuple(self.frozen(st, v) for v in vs)
        term = ("call", name, tuple(vs) if obj is None or not quiet else (obj,) + tuple(vs), None if quiet else self.where(line) + (len(st.loops),) + ((self.ctx()[1:],) if len(self.ctx()) > 1 else ()))
        for i, v in enumerate(vs):
            for lab, f in self.functions_in(st, v, "%s#%d" % (self.labelled(name, vs), i)):
                self.add_root(st, lab, f)
        self.event(st, "call", name, args, obj, line, term)
        return [(term, st)] + ([("throw", st.copy())] if st.tried and not quiet else [])

    @staticmethod
    def labelled(name, vs):
        """The library function with the fixed text that it was given first."""
        return name + ("(%s)" % vs[0][1] if vs and vs[0][0] == "k" and type(vs[0][1]) is str else "")

    def frozen(self, st, v, depth=0):
        """A value with what its fields hold at this time."""
        if v[0] == "tab" and depth < 4 and self.closed(v):
            items = []
            for (o, key), x in st.heap.items():
                if o == v:
                    if key == "push":
                        items.append((("push",), tuple(self.frozen(st, y, depth + 1) for y in x)))
                    else:
                        items.append((key if type(key) is tuple else (key,), self.frozen(st, x, depth + 1)))
            return ("obj", v, tuple(sorted(items, key=repr)))
        if v[0] == "promise":
            return self.frozen(st, v[1], depth)
        return v

    def push(self, st, t, v):
        st = st.copy()
        st.heap[(t, "push")] = st.heap.get((t, "push"), ()) + ((v,) if v not in st.heap.get((t, "push"), ()) else ())
        return st

    def mapped(self, f, coll, st, line, keep=True):
        """A function called for each element."""
        known = self.items(st, coll)
        alts = [("elem", coll)] if known is None else list(dict.fromkeys(known))
        t = ("tab", self.where(line) + ("map",), self.ctx())
        out = []
        zero = st.copy()
        zero.heap = {c: v for c, v in zero.heap.items() if c[0] != t}
        out.append((t, zero))
        for a in alts:
            x = st.copy()
            x.loops = st.loops + (self.where(line),)
            for v, y in self.apply(f, [a], x, line) if f[0] == "fn" else [(("call", self.nm(f), (a,), None), x)]:
                if v == "throw":
                    out.append((v, y))
                    continue
                y = y.copy()
                y.loops = st.loops
                y.facts = dict(st.facts)
                y.heap[(t, "push")] = (v if keep else a,)
                out.append((t, self.iterated(x, y, line, "next")))
        return out

    def jsmethod(self, o, name, vs, st, line):
        f = vs[0] if vs else None
        if o[0] == "promise":
            if name in ("then", "finally", "catch") and f is not None and f[0] == "fn":
                if name == "then":
                    x = self.interrupted(st)
                    return [(v if v == "throw" or v[0] == "promise" else ("promise", v), y) for v, y in self.apply(f, [o[1]], x, line)]
                if name == "catch":
                    self.add_root(st, "catch", f)
                return [(o, st)]
        if name == "runExclusive" and f is not None and f[0] == "fn":
            x = st.copy()
            x.excl += 1
            out = []
            for v, y in self.apply(f, [], x, line):
                y = y.copy()
                y.excl -= 1
                out.append((v if v == "throw" or v[0] == "promise" else ("promise", v), y))
            return out
        if name == "push" and len(vs) == 1:
            return [(NIL, self.push(st, o, vs[0]))]
        if name in ("map", "forEach", "flatMap", "filter") and f is not None and f[0] == "fn":
            outs = self.mapped(f, o, st, line, name != "filter")
            return outs
        if name in ("then", "catch", "finally") and f is not None and f[0] == "fn" and o[0] == "call":
            self.add_root(st, "%s.%s" % (self.labelled(o[1], ()) + ("(%s)" % self.text(o[2][0]) if o[2] else ""), name), f)
            return [(o, st)]
        return self.library(self.nm(o) + "." + name, vs, st, line, o)

    def text(self, t):
        """A short name for a term."""
        if t[0] == "k":
            return str(t[1])
        if t[0] == "call":
            return "%s(%s)" % (t[1], ", ".join(self.text(x) for x in t[2][:2]))
        return self.nm(t)
