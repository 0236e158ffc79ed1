"""C12: secrets are not disclosed."""
from ..rulelib import *
from .c18 import name_of
from .common import MUTATORS
from .config import *
from .own import *

TECHNIQUE = "taint analysis over MIR: terms that contain the secret or the private key at every place where text leaves the process"
NOTE = (
    "All values that contain the secret of the configuration file, the private key or the key derived from the secret, followed from the entry point through all functions and tasks, "
    "at every log message, panic, error, output, file write, message and change of the document. Length and equality of secrets are not treated as secret; neither are values computed by libraries, except for copies and encodings."
)

COPIES = (
    "format",
    "to_string",
    "clone",
    "cloned",
    "as_bytes",
    "as_str",
    "into_bytes",
    "as_deref",
    "as_ref",
    "trim",
    "trim_end",
    "trim_start",
    "to_vec",
    "to_owned",
    "into",
    "from",
    "from_utf8",
    "from_utf8_lossy",
    "to_string_lossy",
    "concat",
    "join",
    "add",
    "new_display",
    "new_debug",
    "new_lower_hex",
    "new_upper_hex",
    "new",
    "from_str",
    "encode",
    "encode_string",
    "to_hex",
    "to_hex_string",
    "to_lowercase",
    "to_uppercase",
    "unwrap_or",
    "unwrap_or_default",
    "unwrap_or_else",
    "value_set",
    "debug",
    "display",
    "to_value",
    "push_str",
    "push",
    "insert_str",
    "extend",
    "extend_from_slice",
    "write_fmt",
    "write_str",
    "replace",
    "repeat",
    "get",
    "index",
    "part_of",
    "chars",
    "bytes",
    "take",
    "rev",
    "collect",
    "split_at",
    "lines",
    "get_unchecked",
    "secret",
    "to_bytes",
    "to_key_file",
)
STOPPED_BY = ("libp2p", "ini::")
KEYS = ("::Keypair::to_protobuf_encoding", "::Keypair::secret", "::Keypair::to_bytes", "::PreSharedKey::new", "::SecretKey::*", "::pbkdf2_hmac", "::SecretKey::as_bytes", "::SecretKey::to_bytes")
PRINT = ("std::io::stdio::_print", "std::io::stdio::_eprint", "std::io::_print", "std::io::_eprint", "::write_fmt", "::write_str")
ERRORS = ("std::io::error::Error::new", "std::io::error::Error::other")
SENDS = ("::SinkExt::send", "::SinkExt::feed", "::Sender::send", "::Sender::try_send", "::UnboundedSender::send", "::AsyncWriteExt::write_all", "::AsyncWriteExt::write")
ARGS = ("::Command::arg", "::Command::args", "::Command::env", "std::env::set_var")


TERM = type(TRUE)


class Taint:
    def __init__(self, C):
        self.C = C
        self.memo = {}

    def source(self, x):
        C = self.C
        if x.op in ("call", "ver"):
            n = x.args[0]
            a = x.args[1] if x.op == "call" else x.args[3]
            if n.startswith("ini::"):
                if n.endswith("load_from_file"):
                    return "the configuration file"
                if any(y == const("secret") for y in a):
                    return "the secret"
                return "the configuration file" if not n.endswith(("get", "get_from", "get_from_or", "contains_key", "len", "is_empty")) else None
            if n.endswith(("fs::read", "fs::read_to_string", "Read::read_to_end", "Read::read_to_string")) and a and (name_of(a[0]) or "").endswith("key"):
                return "the private key"
            if n.endswith(("::Keypair::to_protobuf_encoding", "::Keypair::secret", "ed25519::Keypair::to_bytes")):
                return "the private key"
            if n.endswith(("::PreSharedKey::new", "::pbkdf2_hmac")):
                return "the key derived from the secret"
        return None

    def __call__(self, t):
        """What secret a value contains, or None."""
        r = self.memo.get(t, 0)
        if r != 0:
            return r
        self.memo[t] = None
        r = self.look(t)
        self.memo[t] = r
        return r

    def look(self, t):
        s = self.source(t)
        if s:
            return s
        if t.op == "agg":
            for v in t.args[4] if t.args[0] == "adt" else t.args[-1]:
                r = self.any(v)
                if r:
                    return r
            return None
        if t.op in ("fld", "vfld"):
            if t.op == "vfld" and t.args[1] == "Err":
                return None
            return self(t.args[0])
        if t.op in ("join", "loop"):
            for v in self.C.E.alts.get(t, ()):
                r = self(v)
                if r:
                    return r
            k = t.args[0]
            if isinstance(k, tuple) and k and k[0] in self.C.spawns:
                for n, x in self.C.spawns[k[0]]:
                    v = at_path(x, k[1:])
                    r = v is not None and self(v)
                    if r:
                        return r
            return None
        if t.op in ("call", "ver"):
            n = t.args[0]
            if n.startswith(STOPPED_BY):
                return None
            if n.split("::")[-1] in COPIES or "format" in n or n.startswith(("core::str::", "alloc::str", "alloc::string::String::", "core::fmt::", "base64", "hex", "tracing")):
                if n.split("::")[-1] in ("len", "is_empty", "eq", "ne", "cmp", "parse", "starts_with", "contains", "capacity"):
                    return None
                for a in t.args[1] if t.op == "call" else t.args[3]:
                    r = self.any(a)
                    if r:
                        return r
            return None
        if t.op in ("coll", "item", "elem", "tuple", "arr", "list", "upd", "ref", "slice", "cat", "old"):
            for x in t.args:
                r = self.any(x)
                if r:
                    return r
        return None

    def any(self, x):
        if isinstance(x, TERM):
            return self(x)
        if isinstance(x, (tuple, list, frozenset)):
            for y in x:
                r = self.any(y)
                if r:
                    return r
        return None


def from_cli(t):
    """Is a part of it given on the command line (other than the directory of the configuration file)?"""
    if t.op in ("call", "ver"):
        if t.args[0].startswith("ini::"):
            return False
        if CLI in t.args[0] or "ArgMatches::" in t.args[0]:
            return True
    return any(from_cli(x) for x in kids(t.args))


def run(c):
    c.rule = (
        "No value that contains the secret of the configuration file, the key derived from it, or the private key (also inside structures, formatted, encoded or concatenated) is an argument of a log message, a panic, an error, "
        "output, a message to an editor or another task's channel, a change of the document, an argument or environment of another process, or the content of a file other than the key file. "
        "No part of the secret comes from the command line."
    )
    m = Modular(c, ())
    F = c.facts

    def holds(s):
        return any(x in s for x in ("str", "String", "u8", "Keypair", "PreSharedKey", "Ini", "Properties"))

    def among(helper):
        """Functions that may be handed a secret by one that has it."""
        got = {h for h in m.live if m.top(h) == h and (helper(h) or m.name(h) == "ethersync::main")}
        work = list(got)
        while work:
            for g in m.callees[work.pop()][0]:
                b = F.bodies[g]
                inner = b.get("parent") in got
                if g in got or g not in m.live or b.get("derived") or not inner and not any(holds(F.types[t]["s"]) for t in b["locals"][1 : b["argc"] + 1]):
                    continue
                got.add(g)
                work.append(g)
        names = sorted(F.bodies[h]["p"] for h in got)
        c.counts["looked_into"] = len(names)
        return names

    C = Config(c, m, ("libp2p_pnet*", "pbkdf2*", "::Keypair::*"), also=among)
    if C.E is None:
        return
    T = Taint(C)
    E = C.E
    c.counts["states"] = len(E.nodes)
    pr, er, se, ar, mu = (matcher(x) for x in (PRINT, ERRORS, SENDS, ARGS, MUTATORS))
    found = set()

    def bad(key, what, n):
        c.violate((key, norm(E.ctx_body(n.ctx).path)), "%s: %s" % (norm(E.ctx_body(n.ctx).path), what), c.at(E, n), c.trace(E, from_root(E, n.id)))

    for n in E.nodes:
        if n.data is None or not hasattr(n.data, "args"):
            continue
        name, args = n.data.name, n.data.args
        for a in args:
            r = T.any(a)
            if r:
                found.add(r)
        if n.kind == "log":
            c.oblige(kind="log_messages", sample=norm(E.ctx_body(n.ctx).path))
            for a in args:
                r = T.any(a)
                if r:
                    bad("log", "%s may appear in a log message" % r, n)
        elif n.kind == "panic":
            c.oblige(kind="panics")
            for i, a in enumerate(args):
                if name == "unwrap" and i == 0:
                    if a.op == "agg" and a.args[2] == "Err" and T.any(a.args[4]):
                        bad("panic", "%s may appear in the message of a failure" % T.any(a.args[4]), n)
                    continue
                r = T.any(a)
                if r:
                    bad("panic", "%s may appear in the message of a failure" % r, n)
        elif n.kind in ("call", "await") and type(name) is str:
            for f, key, what in (
                (pr, "print", "may be printed"),
                (er, "error", "may become part of an error message"),
                (se, "sent", "may be sent away"),
                (ar, "argument", "may be passed to another process"),
                (mu, "document", "may get into the shared document"),
            ):
                if f(name):
                    c.oblige(kind="places_where_text_leaves")
                    for a in args:
                        r = T.any(a)
                        if r:
                            bad(key, "%s %s" % (r, what), n)
            w = written(n)
            if w is not None:
                c.oblige(kind="file_writes")
                r = T.any(w[1])
                if r:
                    p = name_of(w[0]) or ""
                    if not (r == "the private key" and p.endswith("key")):
                        bad("file", "%s may be written to a file other than its own" % r, n)
            if name.endswith("::pbkdf2_hmac") or name.endswith("::PreSharedKey::new"):
                c.oblige(kind="uses_of_the_secret")
                for x in list(args[0].sub):
                    if x.op == "join":
                        k = x.args[0]
                        for sn, ag in C.spawns.get(k[0], ()) if isinstance(k, tuple) else ():
                            v = at_path(ag, k[1:])
                            if v is not None and from_cli(v):
                                bad("command-line", "the secret may come from the command line, where other users can see it", n)
    for t, ctx in E.errors.items():
        c.oblige(kind="error_messages")
        r = T(t)
        if r:
            f = norm(E.ctx_body(ctx).path)
            c.violate(("error", f), "%s: %s may become part of an error message" % (f, r))
    c.counts["kinds_of_secrets_seen"] = sorted(found)
    for want in ("the secret", "the private key", "the key derived from the secret"):
        if want not in found:
            c.violate(("anchor", want), "%s was not found in the program" % want)
