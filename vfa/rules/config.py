"""Where the settings in force come from: command line and configuration file."""
from ..rulelib import *

FILE = ("ini::*", "::load_from_file", "::from_config_file")
CLI = "from_arg_matches"


def at_path(t, path):
    for k in path:
        t = getf(t, k)
        if t is None:
            return None
    return t


class Config:
    def __init__(self, c, m, interest, also=(), **opts):
        self.c, self.m = c, m
        F = c.facts
        holders = {a["p"] for a in F.adts.values() if a["p"].startswith("ethersync") and {"peer", "port"} <= {f[0] for v in a["variants"] for f in v[1]}}
        for _ in range(2):
            holders |= {a["p"] for a in F.adts.values() if a["p"].startswith("ethersync") and any(F.types[f[1]]["s"].split("<")[0] in holders for v in a["variants"] for f in v[1])}

        def helper(h):
            # works on the settings
            b = F.bodies[h]
            return any(F.types[t]["s"].replace("&", "").replace("mut ", "").strip() in holders for t in b["locals"][: b["argc"] + 1])

        always = tuple(b["p"] for h, b in F.bodies.items() if h in m.live and m.top(h) == h and not b.get("derived") and helper(h))
        also = tuple(also(helper)) if callable(also) else tuple(also)
        o = dict(always=always + also, hold_fact=lambda t: True, pin_args=True)
        o.update(opts)
        self.mm = m.other(FILE + tuple(interest), **o)
        roots = [h for h in m.live if m.name(h) == "ethersync::main"]
        self.E = self.mm.free(roots[0]) if roots else None
        if self.E is None:
            c.violate(("anchor", "main"), "the entry point was not found")
            return
        self.spawns = {}
        for n in self.E.nodes:
            if n.kind == "spawn":
                for a in n.data.args:
                    for x in a.sub:
                        if x.op == "agg" and x.args[0] in ("closure", "coroutine"):
                            self.spawns.setdefault(x.args[1], []).append((n, x))

    def is_cli(self, t, key):
        return t.op in ("fld", "vfld") and t.args[-1] == key and any(x.op == "call" and CLI in x.args[0] for x in t.sub)

    def is_file(self, t, key):
        return t.op == "call" and t.args[0].startswith("ini::") and any(a == const(key) for a in t.args[1])

    def settled(self, facts, key, file_only=False, file_key=None):
        """What command line and file say: "cli", "file", "none", or None if it is not known."""
        if not file_only:
            cli = {f[1] for t, f in facts.items() if f[0] == "=" and self.is_cli(t, key)}
            if "Some" in cli:
                return "cli"
            if "None" not in cli:
                return None
        got = {f[1] for t, f in facts.items() if f[0] == "=" and self.is_file(t, file_key or key)}
        if "Some" in got:
            return "file"
        if "None" in got:
            return "none"
        if any(t.op == "call" and t.args[0].endswith("exists") and f == ("=", False) and "config" in str(t) for t, f in facts.items()):
            return "none"
        if any(t.op == "call" and t.args[0].endswith("load_from_file") and f == ("=", "Err") for t, f in facts.items()):
            return "none"
        return None

    def source(self, t, key, file_key=None):
        """Which setting a value comes from: "cli", "file", "none", or None."""
        if t.op == "agg" and t.args[2] == "None":
            return "none"
        if any(self.is_cli(x, key) for x in t.sub):
            return "cli"
        if any(self.is_file(x, file_key or key) for x in t.sub):
            return "file"
        return None

    def judge(self, t, facts, key, file_only=False, file_key=None):
        """None if the value is the setting in force, or what is wrong with it."""
        want = self.settled(facts, key, file_only, file_key)
        got = self.source(t, key, file_key)
        if got == "cli" and facts.get(t) == ("=", "None"):
            got = "none"
        if got == want:
            return None
        if got == "cli" and want is None:
            # passed on as it is: fine if nothing is in the file
            rest = self.settled({**facts, **{x: ("=", "None") for x in t.sub if self.is_cli(x, key)}}, key, file_only, file_key)
            if rest == "none":
                return None
        if got == "file" and want is None and file_only:
            return None
        return "is %s although %s" % (
            {"cli": "the one from the command line", "file": "the one from the file", "none": "not set", None: "something else"}[got],
            {"cli": "it is given on the command line", "file": "it is only given in the file", "none": "it is given nowhere", None: "it is not known where it is given"}[want],
        )

    def resolve(self, t, key, seen=None, **kw):
        """Judge a symbol for a value that was passed to a task. None if right; False if it is not such a symbol."""
        if t.op not in ("join", "loop"):
            return False
        k = t.args[0]
        if isinstance(k, tuple) and k and k[0] in self.spawns:
            for n, x in self.spawns[k[0]]:
                v = at_path(x, k[1:])
                if v is None:
                    return False
                w = self.judge(v, n.facts, key, **kw)
                if w is not None:
                    return (w, n)
            return None
        return False
