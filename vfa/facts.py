"""Loading and printing of the MIR facts written by the driver."""
import json


class Facts:
    def __init__(self, files):
        self.types = []
        self.bodies = {}      # def hash -> body
        self.adts = {}        # path -> adt
        self.crates = []
        self.missed = []
        for f in files:
            with open(f, encoding="utf-8") as fh:
                d = json.load(fh)
            off = len(self.types)
            self._shift(d, off)
            self.types.extend(d["types"])
            self.crates.append(d["crate"] + ("-bin" if d["bin"] else "-lib"))
            self.missed.extend(d["missed"])
            for a in d["adts"]:
                self.adts[a["p"]] = a
            for b in d["bodies"]:
                b["crate"] = d["crate"]
                b["bin"] = d["bin"]
                # A binary and a library of the same name share paths, not hashes.
                self.bodies[b["h"]] = b
        if self.missed:
            raise ValueError("functions without facts: " + ", ".join(sorted(self.missed)[:5]))

    # Type ids are local to a file; make them global.
    def _shift(self, d, off):
        if off == 0:
            return
        for t in d["types"]:
            self._shift_type(t, off)
        for a in d["adts"]:
            for v in a["variants"]:
                for f in v[1]:
                    f[1] += off
        for b in d["bodies"]:
            b["locals"] = [x + off for x in b["locals"]]
            if "self_ty" in b:
                b["self_ty"] += off
            for blk in b["blocks"]:
                for st in blk["s"]:
                    if st[0] in ("dead", "live", "setdisc"):
                        continue
                    self._shift_rv(st[1], off)
                t = blk["t"]
                if t[0] == "switch":
                    self._shift_op(t[1], off)
                elif t[0] == "call":
                    self._shift_op(t[1], off)
                    for a in t[2]:
                        self._shift_op(a, off)
                    t[5] += off
                elif t[0] == "assert":
                    self._shift_op(t[1], off)
                elif t[0] == "yield":
                    self._shift_op(t[1], off)

    def _shift_type(self, t, off):
        if "a" in t:
            t["a"] = [x + off for x in t["a"]]
        if "f" in t:
            self._shift_callee(t["f"], off)

    def _shift_callee(self, c, off):
        if "a" in c:
            c["a"] = [x + off for x in c["a"]]
        if "st" in c:
            c["st"] += off

    def _shift_op(self, o, off):
        if o[0] == "k":
            k = o[1]
            if "fn" in k:
                self._shift_callee(k["fn"], off)
            elif "t" in k:
                k["t"] += off

    def _shift_rv(self, r, off):
        k = r[0]
        if k in ("use", "repeat"):
            self._shift_op(r[1], off)
        elif k == "cast":
            self._shift_op(r[2], off)
            r[3] += off
        elif k == "bin":
            self._shift_op(r[2], off)
            self._shift_op(r[3], off)
        elif k == "un":
            self._shift_op(r[2], off)
        elif k == "agg":
            for o in r[2]:
                self._shift_op(o, off)

    # ---- printing -------------------------------------------------------
    def place_str(self, p):
        if isinstance(p, int):
            return f"_{p}"
        out = f"_{p[0]}"
        for e in p[1]:
            if e == "*":
                out = f"(*{out})"
            elif e[0] == "f":
                out += f".{e[1]}"
            elif e[0] == "v":
                out = f"({out} as {e[1]})"
            elif e[0] == "i":
                out += f"[_{e[1]}]"
            else:
                out += str(e)
        return out

    def op_str(self, o):
        if o[0] in "cm":
            return ("move " if o[0] == "m" else "") + self.place_str(o[1])
        k = o[1]
        if "fn" in k:
            return "fn " + k["fn"]["p"]
        for x in ("v", "str", "static", "bytes", "x"):
            if x in k:
                it = (k["item"] + "=") if "item" in k else ""
                return "const " + it + repr(k[x])
        return "const ()"

    def rv_str(self, r):
        k = r[0]
        if k == "use":
            return self.op_str(r[1])
        if k == "ref":
            return r[1] + " " + self.place_str(r[2])
        if k == "cast":
            return f"{self.op_str(r[2])} as {self.types[r[3]]['s']} ({r[1]})"
        if k == "bin":
            return f"{r[1]}({self.op_str(r[2])}, {self.op_str(r[3])})"
        if k == "un":
            return f"{r[1]}({self.op_str(r[2])})"
        if k == "disc":
            return f"discriminant({self.place_str(r[1])})"
        if k == "agg":
            ops = ", ".join(self.op_str(o) for o in r[2])
            if r[1] == "adt":
                return f"{r[3]}{'::' + r[4] if r[4] else ''} {{{ops}}}"
            if r[1] in ("closure", "coroutine"):
                return f"{r[1]} {r[4]} [{ops}]"
            return f"{r[1]}({ops})"
        return str(r)

    def dump(self, b):
        print(f"== {b['p']} {b['h'][:8]} kind={b['kind']} argc={b['argc']} parent={b.get('parent','')[:8]} upvars={b.get('upvars')} {b['span']}")
        for n, t in enumerate(b["locals"]):
            print(f"   _{n}: {self.types[t]['s'][:160]}")
        print("   vars", [(v[0], self.place_str(v[1])) for v in b["vars"]])
        for n, blk in enumerate(b["blocks"]):
            print(f" bb{n}:{' (cleanup)' if blk.get('cl') else ''}")
            for st in blk["s"]:
                if st[0] in ("dead", "live", "setdisc"):
                    continue
                print(f"    {self.place_str(st[0])} = {self.rv_str(st[1])}   // {st[2][1:]}")
            t = blk["t"]
            if t[0] == "call":
                c = t[1]
                r = ""
                if c[0] == "k" and "fn" in c[1] and "r" in c[1]["fn"]:
                    r = " => " + c[1]["fn"]["r"]["p"] + " " + c[1]["fn"]["r"]["k"]
                print(f"    {self.place_str(t[3])} = {self.op_str(c)}({', '.join(self.op_str(a) for a in t[2])}) -> {t[4]}{r}  // {blk['sp'][1:]}")
            elif t[0] == "switch":
                print(f"    switch {self.op_str(t[1])} {t[2]} else {t[3]} // {blk['sp'][1:]}")
            elif t[0] == "drop":
                print(f"    drop {self.place_str(t[1])} -> {t[2]}")
            elif t[0] == "assert":
                print(f"    assert {self.op_str(t[1])}=={t[2]} -> {t[3]} {t[4]}")
            else:
                print("   ", t, blk["sp"][1:])


if __name__ == "__main__":
    import sys
    f = Facts([x for x in sys.argv[1].split(",")])
    pat = sys.argv[2] if len(sys.argv) > 2 else None
    for b in f.bodies.values():
        if pat is None:
            print(b["h"][:8], b["kind"], b["p"], len(b["blocks"]), b["span"][:2], "derived" if b.get("derived") else "")
        elif pat in b["p"]:
            f.dump(b)
