"""Abstract values.

An abstract value is an interned tree.  Equality is identity.  The kinds are:

  k     (value, tag)                constant
  fn    (n)                         function item, n indexes the callee table
  sym   (name, ...)                 unknown input
  call  (name, args, site)          result of a call that is not looked into; a
                                    site makes it distinct per program point,
                                    without one it is a function of its args
  ver   (name, argno, site, args)   what a value became when handed out as &mut
  fld   (base, name)                field of an unknown value
  vfld  (base, variant, name)       field of an unknown value of an enum type
  idx   (base, index)               element by position
  mapval(map, key)                  value stored under a key
  mapget(map, key)                  the Option<value> of a lookup
  agg   (kind, path, variant, names, values)
  upd   (base, ((key, value), ...)) unknown value with some parts overwritten
  ref   (root, projections, mut)    reference to a place
  bin/un/disc                       operators
  loop  (header, path)              unknown value carried around a loop
  elem  (source, site)              some element met while iterating over source
  coll  (kind, items, nonempty)     collection with these (kinds of) elements
  item  (source, body)              one element per element of source, or (unit
                                    source) a single one
  iter  (kind, inner, extra)        iterator
  old/any (sym)                     a symbol of an earlier / of some iteration
  forall(source, body)              body holds/evaluates so for all elements
  bv                                bound variable of forall
"""

_intern = {}
_EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "id", "occ", "leaf", "refs", "size", "_sub")

    @property
    def sub(self):
        """All subterms, including the term itself."""
        s = self._sub
        if s is None:
            s = frozenset(walk(self))
            self._sub = s
        return s

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __reduce__(self):
        return (_unpickle, (self.op, self.args))


def _unpickle(op, args):
    return mk(op, *args)


def kids(x):
    """All terms directly inside an argument tuple."""
    for a in x:
        if type(a) is T:
            yield a
        elif type(a) is tuple or type(a) is frozenset:
            yield from kids(a)


def mk(op, *args):
    key = (op, args)
    t = _intern.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = len(_intern)
    t._sub = None
    occ = _EMPTY
    leaf = _EMPTY
    refs = _EMPTY
    size = 1
    for c in kids(args):
        occ = occ | c.occ if c.occ else occ
        leaf = leaf | c.leaf if c.leaf else leaf
        refs = refs | c.refs if c.refs else refs
        size += c.size
    if op in ("sym", "ver", "loop", "elem", "old", "any", "join") or (
        op == "call" and args[2] is not None
    ):
        occ = occ | {t}
        leaf = frozenset((t,))
    if op == "bv":
        occ = frozenset((t,))
    if op == "ref":
        refs = refs | {args[0]}
    t.occ = occ
    t.leaf = leaf
    t.refs = refs
    t.size = size
    _intern[key] = t
    return t


def const(v, tag=None):
    # True == 1 in Python; the tag keeps them apart.
    if tag is None:
        tag = type(v).__name__
    return mk("k", v, tag)


UNIT = const((), "unit")
TRUE = const(True, "bool")
FALSE = const(False, "bool")
UNDEF = mk("sym", "undef")
BV = mk("bv")

OPTION = "core::option::Option"
RESULT = "core::result::Result"
POLL = "core::task::poll::Poll"
CFLOW = "core::ops::control_flow::ControlFlow"


def boolean(b):
    return TRUE if b else FALSE


def adt(path, variant, names, vals):
    return mk("agg", "adt", path, variant, tuple(names), tuple(vals))


def tup(*vals):
    if not vals:
        return UNIT
    return mk("agg", "tuple", "", "", tuple(str(i) for i in range(len(vals))), tuple(vals))


def some(v):
    return adt(OPTION, "Some", ("0",), (v,))


NONE = adt(OPTION, "None", (), ())


def ok(v):
    return adt(RESULT, "Ok", ("0",), (v,))


def err(v):
    return adt(RESULT, "Err", ("0",), (v,))


def ready(v):
    return adt(POLL, "Ready", ("0",), (v,))


PENDING = adt(POLL, "Pending", (), ())


def is_const(t):
    return t.op == "k"


def getf(v, key):
    """Project one step out of a value."""
    op = v.op
    if op == "agg":
        kind, path, variant, names, vals = v.args
        if type(key) is str:
            name = key
            if key[0] == "@":
                var, name = key[1:].split(".", 1)
                if variant and var != variant:
                    return UNDEF
            if name in names:
                return vals[names.index(name)]
        elif key[0] == "idx" and is_const(key[1]) and kind == "array":
            n = key[1].args[0]
            if 0 <= n < len(vals):
                return vals[n]
    elif op == "upd":
        for k, x in v.args[1]:
            if k == key:
                return x
        return getf(v.args[0], key)
    elif op == "old" and v.args[0].op == "agg":
        return getf(v.args[0], key)
    if type(key) is str:
        if key[0] == "@":
            var, name = key[1:].split(".", 1)
            return vfld(v, var, name)
        return mk("fld", v, key)
    if key[0] == "key":
        return mapval(v, key[1])
    return mk("idx", v, key[1])


_LOOKUP = {"Some": "0", "Ok": "0"}


def vfld(v, var, name):
    if v.op == "mapget" and var == "Some":
        return mapval(*v.args)
    return mk("vfld", v, var, name)


def map_base(m):
    """Overwriting values in a map does not change which keys it has."""
    while m.op == "upd" and all(type(k) is tuple and k[0] == "key" for k, _ in m.args[1]):
        m = m.args[0]
    return m


def mapval(m, k):
    if m.op == "upd":
        for kk, x in m.args[1]:
            if type(kk) is tuple and kk[0] == "key" and kk[1] is k:
                return x
    b = map_base(m)
    if k.op == "fld" and k.args[1] == "0" and k.args[0].op == "elem" and k.args[0].args[0] is b:
        return mk("fld", k.args[0], "1")
    return mk("mapval", b, k)


def mapget(m, k):
    return mk("mapget", map_base(m), k)


def setf(v, path, val):
    """Value with the part at the projection path replaced."""
    if not path:
        return val
    key, rest = path[0], path[1:]
    new = setf(getf(v, key), rest, val) if rest else val
    if v.op == "agg":
        kind, p, variant, names, vals = v.args
        name = None
        if type(key) is str:
            name = key
            if key[0] == "@":
                var, name = key[1:].split(".", 1)
                if variant and var != variant:
                    name = None
        elif key[0] == "idx" and is_const(key[1]) and kind == "array":
            name = str(key[1].args[0])
        if name is not None and name in names:
            i = names.index(name)
            if vals[i] is new:
                return v
            return mk("agg", kind, p, variant, names, vals[:i] + (new,) + vals[i + 1 :])
    base, over = v, ()
    if v.op == "upd":
        base, over = v.args
    if not (type(key) is tuple) and getf(base, key) is new:
        over = tuple((k, x) for k, x in over if k != key)
        return mk("upd", base, over) if over else base
    out = []
    done = False
    for k, x in over:
        if k == key:
            out.append((k, new))
            done = True
        else:
            out.append((k, x))
    if not done:
        out.append((key, new))
        out.sort(key=lambda e: repr_key(e[0]))
    return mk("upd", base, tuple(out))


def repr_key(k):
    if type(k) is str:
        return (0, k)
    return (1, k[0], k[1].id if type(k[1]) is T else str(k[1]))


def subst(t, mapping, memo=None):
    """Replace symbols; only descends where one of them occurs."""
    if memo is None:
        memo = {}
    keys = mapping.keys()

    def go(x):
        if type(x) is T:
            r = mapping.get(x)
            if r is not None:
                return r
            if x.occ.isdisjoint(keys):
                return x
            r = memo.get(x)
            if r is None:
                r = rebuild(x.op, tuple(go(a) for a in x.args))
                memo[x] = r
            return r
        if type(x) is tuple:
            return tuple(go(a) for a in x)
        if type(x) is frozenset:
            return frozenset(go(a) for a in x)
        return x

    return go(t)


def rebuild(op, args):
    if op == "fld":
        return getf(args[0], args[1])
    if op == "vfld":
        return getf(args[0], "@%s.%s" % (args[1], args[2]))
    if op == "mapval":
        return mapval(*args)
    if op == "mapget":
        return mapget(*args)
    if op in ("old", "any") and args[0].op not in ("sym", "ver", "loop", "elem", "call", "join"):
        return args[0]
    return mk(op, *args)


def old(t):
    if t.op in ("old", "any"):
        return t
    return mk("old", t)


def walk(t, seen=None):
    """All subterms, each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(kids(x.args))


def short(name):
    parts = name.split("::")
    return "::".join(parts[-2:])


def show(t, depth=7):
    if depth == 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "k":
        return repr(a[0]) if a[1] != "unit" else "()"
    if op == "fn":
        return "fn#%s" % a[0]
    if op == "sym":
        return "$" + "/".join(str(x) for x in a)
    if op == "call":
        s = "" if a[2] is None else "@%s" % (sitestr(a[2]),)
        return "%s(%s)%s" % (short(a[0]), ", ".join(show(x, d) for x in a[1]), s)
    if op == "ver":
        return "%s!%s(%s)@%s" % (short(a[0]), a[1], ", ".join(show(x, d) for x in a[3]), sitestr(a[2]))
    if op == "fld":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "vfld":
        return "%s<%s>.%s" % (show(a[0], d), a[1], a[2])
    if op == "agg":
        kind, path, variant, names, vals = a
        if kind == "tuple":
            return "(%s)" % ", ".join(show(x, d) for x in vals)
        if kind == "array":
            return "[%s]" % ", ".join(show(x, d) for x in vals[:8])
        n = short(path)
        if variant:
            n = path.split("::")[-1] + "::" + variant
        return "%s{%s}" % (n, ", ".join("%s:%s" % (m, show(x, d)) for m, x in zip(names, vals)))
    if op == "upd":
        return "%s with {%s}" % (show(a[0], d), ", ".join("%s:%s" % (k if type(k) is str else "[" + show(k[1], d) + "]", show(x, d)) for k, x in a[1]))
    if op == "ref":
        return "&%s%s%s" % ("mut " if a[2] else "", a[0], "".join("." + (k if type(k) is str else "[" + show(k[1], d) + "]") for k in a[1]))
    if op == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "un":
        return "%s(%s)" % (a[0], show(a[1], d))
    if op == "disc":
        return "disc(%s)" % show(a[0], d)
    if op == "loop":
        return "loop%s%s" % (sitestr(a[0]), list(a[1]))
    if op == "elem":
        return "elem(%s)@%s" % (show(a[0], d), sitestr(a[1]))
    if op == "coll":
        return "%s{%s}" % (a[0], ", ".join(sorted(show(x, d) for x in a[1])))
    if op == "item":
        return show(a[1], d) if a[0] is UNIT else "%s for · in %s" % (show(a[1], d), show(a[0], d))
    if op == "iter":
        return "iter.%s(%s)" % (a[0], ", ".join(show(x, d) for x in kids(a[1:])))
    if op in ("old", "any"):
        return "%s(%s)" % (op, show(a[0], d))
    if op == "forall":
        return "∀%s: %s" % (show(a[0], d), show(a[1], d))
    if op == "mapval":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "mapget":
        return "%s.get(%s)" % (show(a[0], d), show(a[1], d))
    if op == "bv":
        return "·"
    return "%s%s" % (op, a)


def sitestr(s):
    if type(s) is tuple:
        return ".".join(sitestr(x) for x in s)
    return str(s)
