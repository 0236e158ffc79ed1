"""What the analysis knows about permissions of files."""
from ..rulelib import *

MODES = ("PermissionsExt::mode", "MetadataExt::mode", "MetadataExt::st_mode")
METADATA = ("std::fs::metadata", "std::fs::symlink_metadata", "std::path::Path::metadata", "std::path::Path::symlink_metadata", "std::fs::File::metadata")
OTHERS = 0o77
INTEREST = tuple("::" + x for x in MODES) + METADATA

OPS = {
    "BitAnd": lambda a, b: a & b,
    "BitOr": lambda a, b: a | b,
    "BitXor": lambda a, b: a ^ b,
    "Add": lambda a, b: a + b,
    "Rem": lambda a, b: a % b if b else None,
    "Div": lambda a, b: a // b if b else None,
    "Shr": lambda a, b: a >> b,
    "Shl": lambda a, b: (a << b) & 0xFFFFFFFF,
    "Eq": lambda a, b: a == b,
    "Lt": lambda a, b: a < b,
}


def is_mode(t):
    return t.op == "call" and t.args[0].endswith(MODES)


def subject(t):
    """The path whose permissions these are."""
    for x in t.sub:
        if x.op == "call" and x.args[0] in METADATA and x.args[1]:
            return x.args[1][0]
    return None


def value(t, m, v):
    """A term with the permissions set to some value, or None."""
    if t is m:
        return v
    if is_const(t):
        return t.args[0]
    if t.op == "bin" and t.args[0] in OPS:
        a, b = value(t.args[1], m, v), value(t.args[2], m, v)
        return None if a is None or b is None else OPS[t.args[0]](a, b)
    if t.op == "un" and t.args[0] == "Not":
        a = value(t.args[1], m, v)
        return None if a is None else (not a if type(a) is bool else ~a & 0xFFFFFFFF)
    if t.op == "call" and t.args[0].startswith("as:") and len(t.args[1]) == 1:
        return value(t.args[1][0], m, v)
    return None


def private(facts, about):
    """Do the facts exclude all permissions for others of a file that `about(path)` accepts?

    Decided on all values that permissions can have.
    """
    ms = {}
    for t, f in facts.items():
        for m in t.sub:
            if is_mode(m):
                ms.setdefault(m, []).append((t, f))
    for m, fs in ms.items():
        p = subject(m)
        if p is None or not about(p):
            continue
        for v in range(1 << 16):
            if not v & OTHERS:
                continue
            if all(allows(value(t, m, v), f) for t, f in fs):
                break
        else:
            return True
    return False


def allows(x, f):
    if x is None:
        return True
    return x == f[1] if f[0] == "=" else x not in f[1]


def given_mode(t):
    """The permissions that something sets, if they are constant."""
    while True:
        if t.op == "call" and t.args[0].endswith(("::mode", "PermissionsExt::from_mode")):
            x = t.args[1][-1]
            return x.args[0] if is_const(x) else None
        if t.op == "ver" and t.args[0].endswith(("::mode", "::set_mode")):
            x = t.args[3][-1]
            return x.args[0] if is_const(x) else None
        if t.op == "call" and t.args[1] and t.args[0].startswith("std::fs::OpenOptions::"):
            t = t.args[1][0]
        elif t.op == "ver" and len(t.args[3]) > 1:
            t = t.args[3][0]
        else:
            return None


def option(t, name):
    """Is an option switched on?"""
    while True:
        if t.op == "call" and t.args[0].endswith("::" + name):
            return t.args[1][-1] is TRUE
        if t.op == "ver" and t.args[0].endswith("::" + name):
            return t.args[3][-1] is TRUE
        if t.op == "call" and t.args[1] and t.args[0].startswith(("std::fs::OpenOptions::", "std::os::unix::fs::OpenOptionsExt::")):
            t = t.args[1][0]
        elif t.op == "ver" and len(t.args[3]) > 1:
            t = t.args[3][0]
        else:
            return False


def absent(facts, path):
    """Is it known that there is no such file?"""
    for t, f in facts.items():
        if f != ("=", False):
            continue
        x = t
        while x.op in ("vfld", "fld"):
            x = x.args[0]
        if x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("exists", "try_exists", "is_file") and path in x.args[1]:
            return True
    return False
