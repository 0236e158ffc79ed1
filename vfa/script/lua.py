"""Parser for Lua 5.1 (LuaJIT) into the common tree of the script analyses.

Nodes are tuples: kind, line, then what belongs to it.
Expressions: num str nil true false vararg name index call method func table bin un and or paren
Statements: local assign expr if while repeat fornum forin return break do throw
"""
import re

KEYWORDS = set(
    "and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split()
)
TOKEN = re.compile(
    r"(?P<ws>[ \t\r\n]+)|(?P<comment>--(?!\[=*\[)[^\n]*)|(?P<name>[A-Za-z_][A-Za-z0-9_]*)"
    r"|(?P<num>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)"
    r"|(?P<op>\.\.\.|\.\.|==|~=|<=|>=|::|//|[-+*/%^#<>=(){}\[\];:,.&|~])"
)
ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "\\": "\\", '"': '"', "'": "'", "\n": "\n"}


class SyntaxError_(Exception):
    pass


def lex(text):
    out = []
    i, line = 0, 1
    while i < len(text):
        ch = text[i]
        if ch in "\"'":
            j, s, l0 = i + 1, [], line
            while text[j] != ch:
                if text[j] == "\\":
                    j += 1
                    m = re.match(r"\d{1,3}", text[j:])
                    if m:
                        s.append(chr(int(m.group())))
                        j += len(m.group())
                        continue
                    if text[j] == "z":
                        j += 1
                        while text[j].isspace():
                            j += 1
                        continue
                    if text[j] == "x":
                        s.append(chr(int(text[j + 1 : j + 3], 16)))
                        j += 3
                        continue
                    s.append(ESC.get(text[j], text[j]))
                else:
                    s.append(text[j])
                j += 1
            line += text.count("\n", i, j)
            out.append(("str", "".join(s), l0))
            i = j + 1
            continue
        m = re.match(r"(--)?\[(=*)\[", text[i:])
        if m:
            close = "]" + m.group(2) + "]"
            a = i + len(m.group())
            j = text.find(close, a)
            if j < 0:
                raise SyntaxError_("unfinished long bracket in line %d" % line)
            if not m.group(1):
                s = text[a:j]
                out.append(("str", s[1:] if s.startswith("\n") else s, line))
            line += text.count("\n", i, j)
            i = j + len(close)
            continue
        m = TOKEN.match(text, i)
        if not m:
            raise SyntaxError_("unexpected %r in line %d" % (ch, line))
        k = m.lastgroup
        if k == "name":
            v = m.group()
            out.append(("kw" if v in KEYWORDS else "name", v, line))
        elif k == "num":
            v = m.group()
            out.append(("num", int(v, 16) if v[:2].lower() == "0x" else float(v) if re.search(r"[.eE]", v) else int(v), line))
        elif k == "op":
            out.append(("op", m.group(), line))
        line += m.group().count("\n")
        i = m.end()
    out.append(("eof", None, line))
    return out


BINARY = {
    "or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
    "..": (5, 4), "+": (6, 6), "-": (6, 6), "*": (7, 7), "/": (7, 7), "%": (7, 7), "^": (10, 9),
}
UNARY = 8


class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0

    def peek(self, *vals):
        k, v, _ = self.t[self.i]
        return k in ("kw", "op") and v in vals

    def line(self):
        return self.t[self.i][2]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, *vals):
        if self.peek(*vals):
            return self.next()[1]
        return None

    def expect(self, v):
        if not self.accept(v):
            k, got, l = self.t[self.i]
            raise SyntaxError_("%s expected in line %d, not %r" % (v, l, got))

    def ident(self):
        k, v, l = self.next()
        if k != "name":
            raise SyntaxError_("name expected in line %d, not %r" % (l, v))
        return v

    # -- statements --------------------------------------------------------------------
    def chunk(self):
        b = self.block()
        if self.t[self.i][0] != "eof":
            raise SyntaxError_("end of file expected in line %d" % self.line())
        return b

    def block(self):
        out = []
        while True:
            if self.accept(";"):
                continue
            if self.t[self.i][0] == "eof" or self.peek("end", "else", "elseif", "until"):
                return out
            l = self.line()
            if self.accept("return"):
                es = []
                if not (self.t[self.i][0] == "eof" or self.peek("end", "else", "elseif", "until", ";")):
                    es = self.exprs()
                self.accept(";")
                out.append(("return", l, es))
                return out
            if self.accept("break"):
                out.append(("break", l))
                continue
            out.append(self.statement())

    def statement(self):
        l = self.line()
        if self.accept("if"):
            arms = []
            c = self.expr()
            self.expect("then")
            arms.append((c, self.block()))
            other = []
            while True:
                if self.accept("elseif"):
                    c = self.expr()
                    self.expect("then")
                    arms.append((c, self.block()))
                elif self.accept("else"):
                    other = self.block()
                    self.expect("end")
                    break
                else:
                    self.expect("end")
                    break
            for c, b in reversed(arms):
                other = [("if", l, c, b, other)]
            return other[0]
        if self.accept("while"):
            c = self.expr()
            self.expect("do")
            b = self.block()
            self.expect("end")
            return ("while", l, c, b)
        if self.accept("do"):
            b = self.block()
            self.expect("end")
            return ("do", l, b)
        if self.accept("repeat"):
            b = self.block()
            self.expect("until")
            return ("repeat", l, b, self.expr())
        if self.accept("for"):
            names = [self.ident()]
            if self.accept("="):
                es = self.exprs()
                self.expect("do")
                b = self.block()
                self.expect("end")
                return ("fornum", l, names[0], es, b)
            while self.accept(","):
                names.append(self.ident())
            self.expect("in")
            es = self.exprs()
            self.expect("do")
            b = self.block()
            self.expect("end")
            return ("forin", l, names, es, b)
        if self.accept("function"):
            t = ("name", l, self.ident())
            selfp = False
            while self.peek(".", ":"):
                if self.next()[1] == ":":
                    selfp = True
                t = ("index", l, t, ("str", l, self.ident()))
                if selfp:
                    break
            return ("assign", l, [t], [self.func(l, selfp)])
        if self.accept("local"):
            if self.accept("function"):
                n = self.ident()
                return ("local", l, [n], [self.func(l)], True)
            names = [self.ident()]
            self.attrib()
            while self.accept(","):
                names.append(self.ident())
                self.attrib()
            es = self.exprs() if self.accept("=") else []
            return ("local", l, names, es, False)
        e = self.suffixed()
        if self.peek("=", ","):
            ts = [e]
            while self.accept(","):
                ts.append(self.suffixed())
            self.expect("=")
            return ("assign", l, ts, self.exprs())
        if e[0] not in ("call", "method"):
            raise SyntaxError_("statement expected in line %d" % l)
        return ("expr", l, e)

    def attrib(self):
        if self.accept("<"):
            self.ident()
            self.expect(">")

    # -- expressions -------------------------------------------------------------------
    def exprs(self):
        out = [self.expr()]
        while self.accept(","):
            out.append(self.expr())
        return out

    def func(self, l, selfp=False):
        ps = ["self"] if selfp else []
        va = False
        self.expect("(")
        while not self.peek(")"):
            if self.accept("..."):
                va = True
            else:
                ps.append(self.ident())
            if not self.accept(","):
                break
        self.expect(")")
        b = self.block()
        self.expect("end")
        return ("func", l, ps, va, b)

    def primary(self):
        k, v, l = self.next()
        if k == "name":
            return ("name", l, v)
        if (k, v) == ("op", "("):
            e = self.expr()
            self.expect(")")
            return ("paren", l, e)
        raise SyntaxError_("unexpected %r in line %d" % (v, l))

    def args(self):
        k, v, l = self.t[self.i]
        if k == "str":
            self.next()
            return [("str", l, v)]
        if self.peek("{"):
            return [self.table()]
        self.expect("(")
        out = [] if self.peek(")") else self.exprs()
        self.expect(")")
        return out

    def suffixed(self):
        e = self.primary()
        while True:
            l = self.line()
            if self.accept("."):
                e = ("index", l, e, ("str", l, self.ident()))
            elif self.accept("["):
                k = self.expr()
                self.expect("]")
                e = ("index", l, e, k)
            elif self.accept(":"):
                n = self.ident()
                e = ("method", l, e, n, self.args())
            elif self.peek("(", "{") or self.t[self.i][0] == "str":
                e = ("call", l, e, self.args())
            else:
                return e

    def table(self):
        l = self.line()
        self.expect("{")
        items = []
        while not self.peek("}"):
            if self.accept("["):
                k = self.expr()
                self.expect("]")
                self.expect("=")
                items.append((k, self.expr()))
            elif self.t[self.i][0] == "name" and self.t[self.i + 1][:2] == ("op", "="):
                n = self.ident()
                self.expect("=")
                items.append((("str", l, n), self.expr()))
            else:
                items.append((None, self.expr()))
            if not self.accept(",", ";"):
                break
        self.expect("}")
        return ("table", l, items)

    def simple(self):
        k, v, l = self.t[self.i]
        if k in ("num", "str"):
            self.next()
            return (k, l, v)
        if k == "kw" and v in ("nil", "true", "false"):
            self.next()
            return (v, l)
        if self.accept("..."):
            return ("vararg", l)
        if self.accept("function"):
            return self.func(l)
        if self.peek("{"):
            return self.table()
        return self.suffixed()

    def expr(self, limit=0):
        l = self.line()
        if self.peek("not", "-", "#"):
            op = self.next()[1]
            e = ("un", l, op, self.expr(UNARY))
        else:
            e = self.simple()
        while True:
            k, v, l = self.t[self.i]
            if k not in ("kw", "op") or v not in BINARY or BINARY[v][0] <= limit:
                return e
            self.next()
            r = self.expr(BINARY[v][1])
            e = (v, l, e, r) if v in ("and", "or") else ("bin", l, v, e, r)


def parse(text):
    return Parser(text).chunk()
