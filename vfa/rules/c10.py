"""C10: the private key is never accessible to others."""
from ..rulelib import *
from . import perms
from .own import PUTS_IN, written

TECHNIQUE = "value dataflow over MIR: permissions of every file that the key is read from or written to, decided on all permission bits"
NOTE = (
    "All places where a key is made from the content of a file or written to one, on all paths. "
    "Changes of the permissions by other programs between check and use are not considered."
)
DECODE = ("libp2p_identity::keypair::Keypair::from_protobuf_encoding", "libp2p_identity::keypair::Keypair::ed25519_from_bytes")
ENCODE = ("::Keypair::to_protobuf_encoding", "::Keypair::to_bytes", "::SecretKey::to_bytes")
READS = ("std::fs::read", "std::fs::read_to_string", "std::fs::File::open", "tokio::fs::read::read", "tokio::fs::file::File::open", "std::io::Read::read_to_end", "ethersync::sandbox::read_file")
SETS = ("std::fs::set_permissions", "std::fs::File::set_permissions", "tokio::fs::set_permissions")
PUTS = ("std::fs::write", "tokio::fs::write::write") + tuple(PUTS_IN)


def run(c):
    c.rule = (
        "Where a key is made from the content of a file, the permissions of that very file were found to exclude others, for all values that permissions can have. "
        "A file that a key is written to was opened with permissions that exclude others and did not exist before; its permissions are not extended."
    )
    m = Modular(c, DECODE + ENCODE + SETS + PUTS + perms.INTEREST + ("std::fs::read",), hold_fact=lambda t: True, pin_args=True)
    enc = matcher(ENCODE)
    met = {"read": 0, "write": 0}

    def secret(t):
        return any(x.op == "call" and enc(x.args[0]) for x in t.sub)

    def reads(E, n):
        met["read"] += 1
        c.oblige(kind="uses_of_a_stored_key", sample=norm(E.ctx_body(n.ctx).path))
        t = n.data.args[0]
        files = [x.args[1][0] for x in t.sub if x.op == "call" and x.args[1] and (x.args[0] in READS or x.args[0].endswith("OpenOptions::open"))]
        files += [x.args[1][1] for x in t.sub if x.op == "call" and x.args[0].endswith("OpenOptions::open")]
        if not files and base(t).op == "sym":
            return "a key is used from an unknown file"
        if perms.private(n.facts, lambda p: p in files or p in t.sub and p.op == "vfld"):
            return None
        return "a key is used although others may have access to the file"

    for E, n, w in m.climb(DECODE, reads):
        c.violate(("read", norm(E.ctx_body(n.ctx).path)), "%s: %s" % (norm(E.ctx_body(n.ctx).path), w), c.at(E, n), c.trace(E, from_root(E, n.id)))

    def puts(E, n):
        p, what = written(n) or (None, None)
        if what is None:
            what = n.data.args[-1]
        if not secret(what):
            return None
        met["write"] += 1
        c.oblige(kind="keys_stored", sample=norm(E.ctx_body(n.ctx).path))
        f = n.data.args[0]
        opens = [x for x in f.sub if x.op == "call" and x.args[0].endswith("OpenOptions::open")]
        if any(x.op == "call" and x.args[0].startswith("tempfile::") for x in f.sub):
            return None
        if n.data.name in PUTS[:2] or not opens:
            return ["the key is stored in a file that others may have access to"] if base(f).op != "sym" or n.data.name in PUTS[:2] else "the key is stored in an unknown file"
        for x in opens:
            mode = perms.given_mode(x.args[1][0])
            if mode is None or mode & perms.OTHERS:
                return ["the key is stored in a file that others may have access to"]
            if not perms.option(x.args[1][0], "create_new") and not perms.absent(n.facts, x.args[1][1]):
                return "the key may be stored in a file that others already have access to"
        return None

    for E, n, w in m.climb(PUTS, puts):
        c.violate(("write", norm(E.ctx_body(n.ctx).path)), "%s: %s" % (norm(E.ctx_body(n.ctx).path), w), c.at(E, n), c.trace(E, from_root(E, n.id)))

    def sets(E, n):
        mode = perms.given_mode(n.data.args[1])
        keys = [x.data.args[0] for x in E.nodes if x.kind == "call" and (matcher(DECODE)(x.data.name) or matcher(PUTS)(x.data.name) and secret(x.data.args[-1]))]
        if any(n.data.args[0] in k.sub for k in keys) and (mode is None or mode & perms.OTHERS):
            return ["others are given access to the key"]
        return None

    for E, n, w in m.climb(SETS, sets):
        c.violate(("set", norm(E.ctx_body(n.ctx).path)), "%s: %s" % (norm(E.ctx_body(n.ctx).path), w), c.at(E, n), c.trace(E, from_root(E, n.id)))
    for k, v in met.items():
        if not v:
            c.violate(("anchor", k), "no place found where a key is %s" % {"read": "read from a file", "write": "stored in a file"}[k])
