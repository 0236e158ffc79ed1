"""What the analysis assumes about functions of other crates.

Everything not listed here is opaque: it returns an unknown value, may change
what it is given by `&mut`, and may call a closure that it is given.
"""
import re

from .terms import *
from . import engine as _e

CONT = {}
MODELS = {}


def cont(name):
    def f(g):
        CONT[name] = g
        return g

    return f


STD = ("core", "alloc", "std")


def arg_type(E, ci, i=0):
    a = ci.callee.get("a") or ()
    return E.F.types[a[i]] if i < len(a) else None


def adt_of(t):
    return t.get("d") if t and t["k"] == "adt" else None


# --------------------------------------------------------------------------
# classification

IMPURE = (
    "std::fs",
    "std::env",
    "std::time",
    "std::io",
    "std::process",
    "std::net",
    "std::thread",
    "std::os::unix::fs",
    "core::io::",
    "core::sync::atomic",
    "std::sync",
    "tokio",
    "rand",
    "libp2p",
    "notify",
    "futures",
    "tempfile",
    "automerge::autocommit::AutoCommit::save",
    "automerge::autocommit::AutoCommit::make_patches",
    "automerge::sync",
    "automerge::transaction",
)
# pure values that live under an impure prefix
PURE = (
    "std::fs::OpenOptions::new",
    "std::fs::OpenOptions::append",
    "std::fs::OpenOptions::create",
    "std::fs::OpenOptions::create_new",
    "std::fs::OpenOptions::truncate",
    "std::fs::OpenOptions::write",
    "std::fs::OpenOptions::read",
    "std::os::unix::fs::OpenOptionsExt::mode",
    "std::os::unix::fs::OpenOptionsExt::custom_flags",
    "std::os::unix::fs::PermissionsExt::from_mode",
    "std::os::unix::fs::PermissionsExt::mode",
    "std::os::unix::fs::DirBuilderExt::mode",
    "std::fs::DirBuilder::new",
    "std::fs::DirBuilder::recursive",
    "std::fs::Metadata::permissions",
    "std::fs::FileType::is_file",
    "automerge::sync::Message::encode",
    "automerge::sync::Message::decode",
    "tokio::io::split::split",
    "libp2p_pnet::PreSharedKey::new",
    "libp2p_pnet::PnetConfig::new",
    "libp2p_pnet::PnetConfig::handshake",
    "libp2p_noise::Config::new",
    "libp2p_core::transport",
    "libp2p_tcp",
    "libp2p_identity::keypair::Keypair::to_protobuf_encoding",
    "libp2p_identity::keypair::Keypair::from_protobuf_encoding",
)
PATH_IO = {"exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata", "canonicalize", "read_link", "read_dir", "try_exists"}
# what these are given by &mut is a resource, not a value
RESOURCE = ("tokio", "futures", "tokio_util", "libp2p", "notify", "tracing", "rand", "std::io", "core::io", "std::fs", "ignore")
SILENT = (
    "core::fmt",
    "alloc::fmt",
    "anyhow::__private",
    "anyhow::error::Error::msg",
    "core::hint",
    "tracing",
    "core::any",
)


def impure(name):
    if name.startswith(PURE):
        return False
    if name.startswith(IMPURE):
        return True
    if name.startswith("std::path::Path") and name.rsplit("::", 1)[1] in PATH_IO:
        return True
    return False


def silent(name):
    return name.startswith(SILENT)


def keeps_old(name):
    return name.startswith(("std", "alloc", "core", "bytes", "operational_transform", "serde_json"))


# what these are given besides the source is filled
READS = tuple(
    a + b
    for a in ("AsyncReadExt::", "AsyncBufReadExt::", "Read::", "BufRead::")
    for b in ("read", "read_exact", "read_to_end", "read_to_string", "read_until", "read_line", "read_buf")
)


def mutated(E, st, ci, name):
    if name.endswith(READS):
        out = []
        for i, a in enumerate(ci.args[1:], 1):
            r = None
            while True:
                if a.op == "ref":
                    r = a
                    a = st.get(a.args[0], a.args[1])
                elif a.op == "call" and a.args[0] == "slice" and a.args[1][0].op == "ref":
                    a = a.args[1][0]
                else:
                    break
            if r is not None:
                out.append((i, r))
        return out
    if name.startswith(RESOURCE) and not name.startswith(PURE):
        return []
    out = []
    for i, a in enumerate(ci.args):
        if a.op == "ref" and a.args[2] and not E.is_closure(st, a):
            # a reference to a mutable reference: what it finally points to changes
            r = a
            while True:
                v = st.get(r.args[0], r.args[1])
                if v.op == "ref" and v.args[2]:
                    r = v
                else:
                    break
            if v.op == "iter":
                continue
            out.append((i, r))
    return out


def returned_ref(E, st, ci, name, res):
    return res


def maybe_called(E, st, ci, name, fs, res):
    """A closure handed to an unknown function may be called by it."""
    f = fs[0]
    g = f
    while g.op == "ref":
        g = st.get(g.args[0], g.args[1])
    if g.op == "fn":
        callee = E.callees[g.args[0]]
        h = (callee.get("r") or callee)["h"]
        if h not in E.F.bodies:
            return []
        n = E.F.bodies[h]["argc"]
    else:
        b = E.body(g.args[1])
        if b is None:
            return []
        n = b.argc - 1
    args = []
    for i in range(n):
        args.append(E.fresh(st, "sym", "cb", name, i, ci.site))
    E.event(st, name, tuple(args), kind="closure_call")
    return E.call_fn(st, f, args, ("after_closure", name, res, ci.k), "cb")


@cont("after_closure")
def _(E, st, k, v):
    E.event(st, k[1], (st.content(v),), kind="closure_ret")
    return E.resume(st, k[3], k[2])


@cont("const")
def _(E, st, k, v):
    return E.resume(st, k[-1], k[1])


@cont("wrap")
def _(E, st, k, v):
    kind = k[1]
    return E.resume(st, k[-1], WRAP[kind](v))


WRAP = {"Some": some, "Ok": ok, "Err": err, "Ready": ready}


def panic(E, st, what, args=()):
    E.event(st, what, tuple(st.content(a) for a in args), kind="panic")
    return []


# --------------------------------------------------------------------------
# before looking into local functions


def early(E, st, ci):
    n = ci.name
    if n.startswith("tracing"):
        return tracing(E, st, ci)
    if n.startswith("core::future"):
        if n.endswith("IntoFuture::into_future"):
            return E.resume(st, ci.k, ci.args[0])
        if n.endswith("Future::poll"):
            return poll(E, st, ci)
        if n.endswith("get_context"):
            return E.resume(st, ci.k, UNIT)
        if n.endswith("poll_fn"):
            return E.resume(st, ci.k, mk("call", "poll_fn", (ci.args[0],), None))
    if n.startswith("core::pin::Pin::"):
        if n.rsplit("::", 1)[1] in ("new_unchecked", "new", "as_mut", "get_mut", "into_inner", "get_unchecked_mut"):
            return E.resume(st, ci.k, ci.args[0])
    return None


def tracing(E, st, ci):
    n = ci.name
    last = n.rsplit("::", 1)[1]
    if last == "dispatch":
        sp = E.span(st.ctx, st.bb)
        E.event(st, sp[3] if len(sp) > 3 else "log", tuple(st.content(a) for a in ci.args), kind="log")
        return E.resume(st, ci.k, UNIT)
    if last == "__is_enabled":
        return E.resume(st, ci.k, TRUE)
    if last == "is_never":
        return E.resume(st, ci.k, FALSE)
    if last == "set_global_default":
        return None
    return E.resume(st, ci.k, mk("call", n, tuple(st.content(a) for a in ci.args), None))


# -- futures ---------------------------------------------------------------


def poll(E, st, ci):
    p = ci.args[0]
    fut = p
    while fut.op == "ref":
        fut = st.get(fut.args[0], fut.args[1])
    return poll_value(E, st, fut, ("wrap", "Ready", ci.k), ci.site, ci.k)


def in_select(E, st):
    return any(fr[2] and has_tag(fr[2], "select") for fr in st.stack[1:])


def has_tag(k, tag):
    while k[0] not in ("ret", "root"):
        if k[0] == tag:
            return True
        k = k[-1]
    return False


def poll_value(E, st, fut, k, site, kp):
    sel = in_select(E, st)
    if fut.op == "agg" and fut.args[0] == "coroutine":
        body = E.body(fut.args[1])
        if body is not None and not E.inlines(body):
            return poll_opaque(E, st, fut, body, k, site, kp, sel)
        if body is not None and not E.recursive(st, body):
            outs = []
            if sel:
                alt = st.fork()
                E.event(alt, "pending", (st.content(fut),), kind="pending")
                outs.extend(E.resume(alt, kp, PENDING))
            outs.extend(E.enter(st, body, [fut, UNDEF], k, "poll"))
            return outs
    if fut.op == "call" and fut.args[0] == "poll_fn":
        E.event(st, "select", (), kind="select")
        return E.call_fn(st, fut.args[1][0], [UNIT], ("select", k, kp, k), "select")
    outs = []
    c = st.content(fut)
    if sel:
        alt = st.fork()
        E.event(alt, "pending", (c,), kind="pending")
        outs.extend(E.resume(alt, kp, PENDING))
    r = E.fresh(st, "call", "await", (c,), site)
    E.event(st, "await", (c,), r, kind="await")
    outs.extend(E.resume(st, k, r))
    return outs


def poll_opaque(E, st, fut, body, k, site, kp, sel):
    """An async function that does nothing of interest."""
    outs = []
    c = st.content(fut)
    if sel:
        alt = st.fork()
        E.event(alt, "pending", (c,), kind="pending")
        outs.extend(E.resume(alt, kp, PENDING))
    r = E.fresh(st, "call", "await", (c,), site)
    E.event(st, "await", (c,), r, kind="await")
    for i, v in enumerate(fut.args[4]):
        if v.op == "ref" and v.args[2] and not E.is_closure(st, v):
            E.havoc(st, _e.norm(body.path), i, v, tuple(st.content(x) for x in fut.args[4]), site)
    outs.extend(E.resume(st, k, r))
    return outs


@cont("select")
def _(E, st, k, v):
    outs = []
    for s, var in E.cases(st, v, ["Ready", "Pending"]):
        if var == "Pending":
            E.node(s, "end")
            continue
        outs.extend(E.resume(s, k[1], getf(v, "@Ready.0")))
    return outs


# --------------------------------------------------------------------------
# dispatch of models

IDENT = {
    "Component::as_os_str",
    "Deref::deref",
    "DerefMut::deref_mut",
    "AsRef::as_ref",
    "AsMut::as_mut",
    "Borrow::borrow",
    "BorrowMut::borrow_mut",
    "String::as_str",
    "String::as_bytes",
    "String::as_mut_str",
    "str::as_bytes",
    "str::as_str",
    "str::trim_ascii_",
    "Vec::as_slice",
    "Vec::as_mut_slice",
    "Path::new",
    "Path::as_os_str",
    "PathBuf::as_path",
    "OsStr::new",
    "Path::as_path",
    "Box::new",
    "Arc::new",
    "Rc::new",
    "hint::must_use",
    "hint::black_box",
    "String::into_bytes",
    "String::into_boxed_str",
    "Vec::into_boxed_slice",
    "PathBuf::into_os_string",
    "Box::pin",
    "Box::leak",
    "AutoCommit::sync",
    "convert::identity",
    "Cow::into_owned",
    "Option::as_deref_",
    "IntoIterator::into_iter_",
    "Iterator::by_ref",
    "OsString::as_os_str",
    "Context::from_waker_",
    "array::as_slice",
    "slice::as_ref",
    "BytesMut::freeze",
}
# value of what the reference points to
COPY = {
    "Clone::clone",
    "ToOwned::to_owned",
    "Path::to_path_buf",
    "slice::to_vec",
    "slice::into_vec",
    "Arc::clone",
    "str::to_owned",
    "str::to_string",
    "Cow::to_owned",
    "Path::into_path_buf",
    "PathBuf::into_boxed_path",
    "OsStr::to_os_string",
}
OPT = {OPTION: ("Some", "None"), RESULT: ("Ok", "Err")}


def model_name(ci):
    return _e.last2(ci.name)


def reg(*names):
    def f(g):
        for n in names:
            MODELS[n] = g
        return g

    return f


def find_convert(E, callee, n):
    """The local implementation behind into(), from(), try_into() or try_from()."""
    ix = getattr(E, "_from_ix", None)
    if ix is None:
        ix = {}
        for b in E.F.bodies.values():
            if b.get("trait") in ("core::convert::From", "core::convert::TryFrom") and not b.get("derived"):
                ix[(b["trait"], strip_lt(E.F.types[b["self_ty"]]["s"]), strip_lt(E.F.types[b["locals"][1]]["s"]))] = b["h"]
        E._from_ix = ix
    ts = callee.get("a") or ()
    if len(ts) < 2:
        return None
    s0, s1 = (strip_lt(E.F.types[t]["s"]) for t in ts[:2])
    src, dst = (s0, s1) if n.startswith(("Into", "TryInto")) else (s1, s0)
    tr = "core::convert::TryFrom" if "Try" in n else "core::convert::From"
    return ix.get((tr, dst, src))


def convert(E, st, ci, n):
    h = find_convert(E, ci.callee, n)
    if h is not None:
        body = E.body(h)
        if not E.inlines(body):
            return E.opaque_local(st, ci, body)
        if not E.recursive(st, body):
            return E.enter(st, body, ci.args, ci.k, "")
    ts = ci.callee.get("a") or ()
    if len(ts) < 2:
        return None
    s0, s1 = (E.F.types[t]["s"] for t in ts[:2])
    src, dst = (s0, s1) if n.startswith(("Into", "TryInto")) else (s1, s0)
    if "Try" in n:
        return E.resume(st, ci.k, mk("call", "try_into:" + dst, (st.content(ci.args[0]),), None))
    if is_stringy(src) and is_stringy(dst):
        return E.resume(st, ci.k, st.deref(ci.args[0]))
    if dst == "anyhow::Error":
        return E.resume(st, ci.k, ERROR)
    return E.resume(st, ci.k, mk("call", "into:" + dst, (st.content(ci.args[0]),), None))


# what an error says does not matter
ERROR = const("error", "error")


@reg("anyhow::__private::format_err", "anyhow::__private::must_use", "anyhow::error::Error::msg", "anyhow::error::Error::new",
     "anyhow::Error::msg", "anyhow::Error::new", "anyhow::error::Error::context", "anyhow::Error::context")
def _(E, st, ci):
    for a in ci.args:
        E.errors.setdefault(st.content(a), st.ctx)
    return E.resume(st, ci.k, ERROR)


def strip_lt(s):
    import re

    return re.sub(r"'[a-z_]+ ?", "", s)


STRINGY = ("str", "String", "Path", "PathBuf", "OsStr", "OsString", "u8")


def is_stringy(s):
    s = s.replace("&mut ", "").replace("&", "").strip()
    s = s.replace("alloc::vec::Vec<u8>", "u8").replace("alloc::boxed::Box<str>", "str")
    if s.startswith("[u8"):
        return True
    return s.split("::")[-1] in STRINGY


# -- Option and Result -------------------------------------------------------


def kind_of(E, st, ci, v):
    """('Some','None') or ('Ok','Err') for the receiver."""
    n = ci.name
    if "::option::Option" in n:
        return ("Some", "None")
    if "::result::Result" in n:
        return ("Ok", "Err")
    t = arg_type(E, ci)
    d = adt_of(t)
    if d in OPT:
        return OPT[d]
    if v.op == "agg" and v.args[1] in OPT:
        return OPT[v.args[1]]
    return ("Ok", "Err")


def opt(names):
    def deco(g):
        def run(E, st, ci):
            v = ci.args[0]
            base = v
            while v.op == "ref":
                base, v = v, st.get(v.args[0], v.args[1])
            kd = kind_of(E, st, ci, v)
            outs = []
            for s, var in E.cases(st, v, list(kd)):
                good = var == kd[0]
                pay = getf(v, "@%s.0" % var) if (good or kd[1] == "Err") else UNIT
                ref = None
                if base.op == "ref" and (good or kd[1] == "Err"):
                    ref = mk("ref", base.args[0], base.args[1] + ("@%s.0" % var,), base.args[2])
                outs.extend(g(E, s, ci, kd, good, pay, v, ref))
            return outs

        for n in names:
            MODELS["Option::" + n] = run
            MODELS["Result::" + n] = run
        return run

    return deco


@opt(["expect", "unwrap", "unwrap_unchecked"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, pay)
    return panic(E, st, "unwrap", [v] + list(ci.args[1:]))


@opt(["expect_err", "unwrap_err"])
def _(E, st, ci, kd, good, pay, v, ref):
    if not good:
        return E.resume(st, ci.k, pay)
    return panic(E, st, "unwrap", [v] + list(ci.args[1:]))


@opt(["unwrap_or"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, pay if good else ci.args[1])


@opt(["unwrap_or_default"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, pay if good else default_of(E, ci.rty))


@opt(["unwrap_or_else"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, pay)
    return E.call_fn(st, ci.args[1], [pay] if kd[1] == "Err" else [], ci.k, "uoe")


@opt(["map"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[1], [pay], ("wrap", kd[0], ci.k), "map")
    return E.resume(st, ci.k, NONE if kd[1] == "None" else err(pay))


@opt(["map_err"])
def _(E, st, ci, kd, good, pay, v, ref):
    if not good:
        return E.call_fn(st, ci.args[1], [pay], ("wrap", "Err", ci.k), "map_err")
    return E.resume(st, ci.k, ok(pay))


@opt(["map_or"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[2], [pay], ci.k, "map")
    return E.resume(st, ci.k, ci.args[1])


@opt(["map_or_else"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[2], [pay], ci.k, "map")
    return E.call_fn(st, ci.args[1], [pay] if kd[1] == "Err" else [], ci.k, "else")


@opt(["and_then"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[1], [pay], ci.k, "and_then")
    return E.resume(st, ci.k, NONE if kd[1] == "None" else err(pay))


@opt(["and"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, ci.args[1])
    return E.resume(st, ci.k, NONE if kd[1] == "None" else err(pay))


@opt(["or"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, WRAP[kd[0]](pay))
    return E.resume(st, ci.k, ci.args[1])


@opt(["or_else"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, WRAP[kd[0]](pay))
    return E.call_fn(st, ci.args[1], [pay] if kd[1] == "Err" else [], ci.k, "or_else")


@opt(["ok"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, some(pay) if good else NONE)


@opt(["err"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, NONE if good else some(pay))


@opt(["ok_or"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, ok(pay) if good else err(ci.args[1]))


@opt(["ok_or_else"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, ok(pay))
    return E.call_fn(st, ci.args[1], [], ("wrap", "Err", ci.k), "ooe")


@opt(["is_some", "is_ok"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, boolean(good))


@opt(["is_none", "is_err"])
def _(E, st, ci, kd, good, pay, v, ref):
    return E.resume(st, ci.k, boolean(not good))


@opt(["is_some_and", "is_ok_and"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[1], [pay], ci.k, "isa")
    return E.resume(st, ci.k, FALSE)


@opt(["is_none_or"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[1], [pay], ci.k, "ino")
    return E.resume(st, ci.k, TRUE)


@opt(["as_ref", "as_mut", "as_deref", "as_deref_mut"])
def _(E, st, ci, kd, good, pay, v, ref):
    x = ref if ref is not None else pay
    if good:
        return E.resume(st, ci.k, WRAP[kd[0]](x))
    return E.resume(st, ci.k, NONE if kd[1] == "None" else err(x))


@opt(["cloned", "copied"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, WRAP[kd[0]](st.deref(pay)))
    return E.resume(st, ci.k, NONE if kd[1] == "None" else err(pay))


@opt(["inspect"])
def _(E, st, ci, kd, good, pay, v, ref):
    w = WRAP[kd[0]](pay) if good else (NONE if kd[1] == "None" else err(pay))
    if good:
        return E.call_fn(st, ci.args[1], [pay], ("const", w, ci.k), "inspect")
    return E.resume(st, ci.k, w)


@opt(["inspect_err"])
def _(E, st, ci, kd, good, pay, v, ref):
    if not good:
        return E.call_fn(st, ci.args[1], [pay], ("const", err(pay), ci.k), "inspect")
    return E.resume(st, ci.k, ok(pay))


@opt(["flatten"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.resume(st, ci.k, pay)
    return E.resume(st, ci.k, NONE if kd[1] == "None" else err(pay))


@opt(["filter"])
def _(E, st, ci, kd, good, pay, v, ref):
    if good:
        return E.call_fn(st, ci.args[1], [pay], ("opt_filter", pay, ci.k), "filter")
    return E.resume(st, ci.k, NONE)


@cont("opt_filter")
def _(E, st, k, v):
    outs = []
    for s, b in E.truth(st, v):
        outs.extend(E.resume(s, k[-1], some(k[1]) if b else NONE))
    return outs


@reg("Option::take")
def _(E, st, ci):
    r = ci.args[0]
    if r.op != "ref":
        return None
    v = st.deref(r)
    E.assign(st, r.args[0], r.args[1], NONE)
    return E.resume(st, ci.k, v)


@reg("Option::replace")
def _(E, st, ci):
    r = ci.args[0]
    if r.op != "ref":
        return None
    v = st.deref(r)
    E.assign(st, r.args[0], r.args[1], some(ci.args[1]))
    return E.resume(st, ci.k, v)


@reg("Option::insert")
def _(E, st, ci):
    r = ci.args[0]
    if r.op != "ref":
        return None
    E.assign(st, r.args[0], r.args[1], some(ci.args[1]))
    return E.resume(st, ci.k, mk("ref", r.args[0], r.args[1] + ("@Some.0",), True))


@reg("Try::branch")
def _(E, st, ci):
    v = ci.args[0]
    kd = kind_of(E, st, ci, v)
    if arg_type(E, ci) and adt_of(arg_type(E, ci)) not in OPT:
        return None
    outs = []
    for s, var in E.cases(st, v, list(kd)):
        if var == kd[0]:
            r = adt(CFLOW, "Continue", ("0",), (getf(v, "@%s.0" % var),))
        else:
            res = NONE if var == "None" else err(getf(v, "@Err.0"))
            r = adt(CFLOW, "Break", ("0",), (res,))
        outs.extend(E.resume(s, ci.k, r))
    return outs


@reg("FromResidual::from_residual")
def _(E, st, ci):
    v = ci.args[0]
    t = arg_type(E, ci)
    d = adt_of(t)
    if d == OPTION:
        return E.resume(st, ci.k, NONE)
    if d == RESULT:
        e = getf(v, "@Err.0")
        a = t.get("a") or ()
        if len(a) > 1 and E.F.types[a[1]]["s"] == "anyhow::Error":
            e = ERROR
        return E.resume(st, ci.k, err(e))
    return None


@reg("Try::from_output")
def _(E, st, ci):
    d = adt_of(arg_type(E, ci))
    if d == OPTION:
        return E.resume(st, ci.k, some(ci.args[0]))
    if d == RESULT:
        return E.resume(st, ci.k, ok(ci.args[0]))
    return None


@reg("anyhow::Context::context", "anyhow::Context::with_context")
def _(E, st, ci):
    v = ci.args[0]
    kd = kind_of(E, st, ci, v)
    outs = []
    for s, var in E.cases(st, v, list(kd)):
        if var == kd[0]:
            outs.extend(E.resume(s, ci.k, ok(getf(v, "@%s.0" % var))))
        else:
            for a in ci.args[1:]:
                E.errors.setdefault(s.content(a), s.ctx)
            outs.extend(E.resume(s, ci.k, err(ERROR)))
    return outs


# -- small std functions -------------------------------------------------------


def default_of(E, ty):
    if ty is None:
        return mk("call", "Default::default", (), None)
    t = E.F.types[ty]
    s = t["s"]
    if t["k"] == "int":
        return const(0, "int")
    if t["k"] == "bool":
        return FALSE
    if adt_of(t) == OPTION:
        return NONE
    if s.startswith(("alloc::vec::Vec<", "std::collections::hash::set::HashSet<", "alloc::collections::vec_deque::VecDeque<")):
        return EMPTY
    if s in ("alloc::string::String", "&str"):
        return const("", "str")
    return mk("call", "Default::default", (const(s),), None)


EMPTY = mk("coll", "vec", frozenset(), False)


@reg("Default::default", "core::default::Default::default")
def _(E, st, ci):
    a = ci.callee.get("a") or ()
    return E.resume(st, ci.k, default_of(E, a[0] if a else ci.rty))


@reg("HashMap::new", "HashMap::with_capacity")
def _(E, st, ci):
    return E.resume(st, ci.k, mk("call", "Default::default", (const("HashMap"),), None))


@reg("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "HashSet::new", "HashSet::with_capacity", "BTreeSet::new")
def _(E, st, ci):
    return E.resume(st, ci.k, EMPTY)


@reg("String::new", "String::with_capacity")
def _(E, st, ci):
    return E.resume(st, ci.k, const("", "str"))


@reg("mem::take")
def _(E, st, ci):
    r = ci.args[0]
    if r.op != "ref":
        return None
    v = st.deref(r)
    a = ci.callee.get("a") or ()
    E.assign(st, r.args[0], r.args[1], default_of(E, a[0] if a else None))
    return E.resume(st, ci.k, v)


@reg("mem::replace")
def _(E, st, ci):
    r = ci.args[0]
    if r.op != "ref":
        return None
    v = st.deref(r)
    E.assign(st, r.args[0], r.args[1], ci.args[1])
    return E.resume(st, ci.k, v)


@reg("mem::swap")
def _(E, st, ci):
    r, q = ci.args
    if r.op != "ref" or q.op != "ref":
        return None
    v, w = st.deref(r), st.deref(q)
    E.assign(st, r.args[0], r.args[1], w)
    E.assign(st, q.args[0], q.args[1], v)
    return E.resume(st, ci.k, UNIT)


@reg("mem::drop", "mem::forget")
def _(E, st, ci):
    E.event(st, ci.name, tuple(st.content(a) for a in ci.args))
    return E.resume(st, ci.k, UNIT)


@reg("ToString::to_string")
def _(E, st, ci):
    t = arg_type(E, ci)
    if t and is_stringy(t["s"]):
        return E.resume(st, ci.k, st.content(ci.args[0]))
    return E.resume(st, ci.k, mk("call", "to_string", (st.content(ci.args[0]),), None))


def peel(t):
    """Look through the path newtypes of this crate."""
    while t.op == "agg" and t.args[0] == "adt" and t.args[3] == ("0",) and t.args[2] in ("",) and not t.args[1].startswith(("core::", "std::", "alloc::")):
        t = t.args[4][0]
    return t


@reg("PartialEq::eq")
def _(E, st, ci):
    a, b = (st.content(x) for x in ci.args[:2])
    return E.resume(st, ci.k, _e.eq(a, b))


@reg("PartialEq::ne")
def _(E, st, ci):
    a, b = (st.content(x) for x in ci.args[:2])
    return E.resume(st, ci.k, _e.neg(_e.eq(a, b)))


@reg("PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt")
def _(E, st, ci):
    t = arg_type(E, ci)
    if t and t["s"].startswith("tracing_core"):
        return E.resume(st, ci.k, TRUE)
    a, b = (st.content(x) for x in ci.args[:2])
    op = {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt"}[ci.name.rsplit("::", 1)[1]]
    return E.resume(st, ci.k, E.arith(st, op, a, b))


@reg("Not::not")
def _(E, st, ci):
    return E.resume(st, ci.k, _e.neg(st.content(ci.args[0])))


@reg("bool::then")
def _(E, st, ci):
    outs = []
    for s, b in E.truth(st, ci.args[0]):
        if b:
            outs.extend(E.call_fn(s, ci.args[1], [], ("wrap", "Some", ci.k), "then"))
        else:
            outs.extend(E.resume(s, ci.k, NONE))
    return outs


@reg("bool::then_some")
def _(E, st, ci):
    outs = []
    for s, b in E.truth(st, ci.args[0]):
        outs.extend(E.resume(s, ci.k, some(ci.args[1]) if b else NONE))
    return outs


@reg("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(E, st, ci):
    f, a = ci.args[0], ci.args[1]
    n = 0
    t = arg_type(E, ci, 1)
    if t and t["k"] == "tuple":
        n = len(t.get("a", ()))
    args = [getf(a, str(i)) for i in range(n)] if a is not UNIT else []
    return E.call_fn(st, f, args, ci.k, "call")


@reg(
    "panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::assert_failed",
    "panicking::panic_nounwind", "panicking::panic_explicit", "panicking::unreachable_display",
    "panicking::panic_str_2015", "rt::begin_panic", "panicking::begin_panic", "panicking::assert_failed_inner",
)
def _(E, st, ci):
    return panic(E, st, "panic", ci.args)


@reg("process::exit", "process::abort")
def _(E, st, ci):
    E.event(st, ci.name, tuple(st.content(a) for a in ci.args), kind="exit")
    return []


@reg("clap_builder::error::Error::exit")
def _(E, st, ci):
    E.event(st, ci.name, (), kind="exit")
    return []


def path_op(E, st, ci):
    n = ci.name
    args = tuple(peel(st.content(a)) for a in ci.args)
    if impure(n):
        r = E.fresh(st, "call", n, args, ci.site)
    else:
        r = mk("call", n, args, None)
    E.event(st, n, args, r, raw=tuple(ci.args))
    return E.resume(st, ci.k, r)


for _n in ("join", "starts_with", "strip_prefix", "is_absolute", "exists", "is_dir", "is_file", "is_symlink",
           "canonicalize", "components", "file_name", "parent", "display", "iter", "metadata", "symlink_metadata",
           "ends_with", "extension", "with_extension", "with_file_name", "is_relative", "has_root", "to_str",
           "to_string_lossy", "try_exists", "read_link", "file_stem"):
    MODELS["Path::" + _n] = path_op
for _n in ("read", "write", "rename", "remove_file", "create_dir", "create_dir_all", "exists", "metadata",
           "set_permissions", "read_to_string", "copy", "hard_link", "remove_dir", "remove_dir_all", "canonicalize",
           "symlink_metadata", "read_dir", "read_link"):
    MODELS["std::fs::" + _n] = path_op
MODELS["std::path::absolute"] = path_op
MODELS["path_clean::PathClean::clean"] = path_op
MODELS["path_clean::clean"] = path_op


@reg("OsStr::to_str", "Path::to_str", "OsString::to_str", "OsString::into_string")
def _(E, st, ci):
    x = st.content(ci.args[0])
    outs = []
    for s, b in E.truth(st, mk("call", "is_utf8", (x,), None)):
        outs.extend(E.resume(s, ci.k, (some(x) if ci.name.endswith("to_str") else ok(x)) if b else (NONE if ci.name.endswith("to_str") else err(x))))
    return outs


@reg("slice::contains", "Vec::contains", "array::contains")
def _(E, st, ci):
    v = st.content(ci.args[0])
    if v.op != "agg" or v.args[0] != "array" or len(v.args[4]) > 8:
        return None
    x = st.content(ci.args[1])
    outs = []
    left = [st]
    for y in v.args[4]:
        nxt = []
        for s in left:
            for s2, b in E.truth(s, _e.eq(x, s.content(y))):
                if b:
                    outs.extend(E.resume(s2, ci.k, TRUE))
                else:
                    nxt.append(s2)
        left = nxt
    for s in left:
        outs.extend(E.resume(s, ci.k, FALSE))
    return outs


@reg("PathBuf::new")
def _(E, st, ci):
    return E.resume(st, ci.k, const("", "str"))


# options of a builder that is passed along by &mut
BUILDER = ("std::fs::OpenOptions::", "std::os::unix::fs::OpenOptionsExt::", "ignore::walk::WalkBuilder::",
           "std::fs::DirBuilder::", "std::os::unix::fs::DirBuilderExt::")


def builder(E, st, ci):
    n = ci.name
    last = n.rsplit("::", 1)[1]
    if last in ("new", "open", "build", "create") and not (last == "create" and "OpenOptions" in n):
        return None
    r = ci.args[0]
    if r.op != "ref":
        return None
    root, pr = r.args[0], r.args[1]
    v = st.get(root, pr)
    while v.op == "ref":
        root, pr = v.args[0], v.args[1]
        v = st.get(root, pr)
    nv = mk("call", n, (st.content(v),) + tuple(st.content(a) for a in ci.args[1:]), None)
    ret = mk("ref", root, pr, True)
    fs = [a for a in ci.args[1:] if E.is_closure(st, a)]
    outs = []
    st.put(root, pr, nv)
    if fs:
        outs.extend(maybe_called(E, st.fork(), ci, n, fs, ret))
    outs.extend(E.resume(st, ci.k, ret))
    return outs


def builder_lookup(n):
    return builder if n.startswith(BUILDER) else None


# -- concurrency ----------------------------------------------------------------


@reg("tokio::task::spawn::spawn", "tokio::task::local::spawn_local", "tokio::runtime::handle::Handle::spawn",
     "tokio::runtime::runtime::Runtime::spawn")
def _(E, st, ci):
    fut = ci.args[-1]
    h = E.fresh(st, "call", "spawn", (), ci.site)
    E.event(st, "spawn", (st.content(fut),), h, kind="spawn")
    E.spawn(st, fut, ci.site)
    return E.resume(st, ci.k, h)


@reg("tokio::task::blocking::spawn_blocking", "std::thread::spawn", "std::thread::functions::spawn")
def _(E, st, ci):
    h = E.fresh(st, "call", "spawn", (), ci.site)
    E.event(st, "spawn", (st.content(ci.args[0]),), h, kind="spawn")
    alt = st.fork()
    outs = E.call_fn(alt, ci.args[0], [], ("after_closure", ci.name, h, ci.k), "cb")
    return outs + E.resume(st, ci.k, h)


@reg("tokio::runtime::runtime::Runtime::block_on", "futures_executor::local_pool::block_on", "tokio::runtime::handle::Handle::block_on")
def _(E, st, ci):
    fut = ci.args[-1]
    while fut.op == "ref":
        fut = st.get(fut.args[0], fut.args[1])
    return poll_value(E, st, fut, ci.k, ci.site, ci.k)


# -- maps -------------------------------------------------------------------------


def map_target(st, r):
    """Place of the map, or None if it is only known as a value."""
    while r.op == "ref":
        v = st.get(r.args[0], r.args[1])
        if v.op != "ref":
            return r, v
        r = v
    return None, r


@reg("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def _(E, st, ci):
    r, m = map_target(st, ci.args[0])
    k = st.content(ci.args[1])
    g = mapget(m, k)
    E.event(st, ci.name, (st.content(m), k), g, raw=tuple(ci.args))
    outs = []
    for s, var in E.cases(st, g, ["Some", "None"]):
        if var == "None":
            outs.extend(E.resume(s, ci.k, NONE))
        elif r is not None:
            outs.extend(E.resume(s, ci.k, some(mk("ref", r.args[0], r.args[1] + (("key", k),), r.args[2]))))
        else:
            outs.extend(E.resume(s, ci.k, some(mapval(m, k))))
    return outs


@reg("HashMap::contains_key", "BTreeMap::contains_key")
def _(E, st, ci):
    r, m = map_target(st, ci.args[0])
    k = st.content(ci.args[1])
    g = mapget(m, k)
    E.event(st, ci.name, (st.content(m), k), g, raw=tuple(ci.args))
    outs = []
    for s, var in E.cases(st, g, ["Some", "None"]):
        outs.extend(E.resume(s, ci.k, boolean(var == "Some")))
    return outs


@reg("HashMap::insert", "BTreeMap::insert")
def _(E, st, ci):
    r, m = map_target(st, ci.args[0])
    k = st.content(ci.args[1])
    if r is None:
        return None
    v = ci.args[2]
    E.event(st, ci.name, (st.content(m), k, st.content(v)), UNIT, raw=tuple(ci.args), extra=E.place_path(r.args[0], r.args[1]))
    nm = E.fresh(st, "ver", ci.name, 0, ci.site, (map_base(m), k))
    k = st.content(ci.args[1])
    st.put(r.args[0], r.args[1], setf(nm, (("key", k),), v))
    E._fact(st, mapget(nm, k), "Some", True)
    return E.resume(st, ci.k, mk("call", "previous", (mapget(m, k),), None))


@reg("HashMap::remove", "BTreeMap::remove", "HashMap::remove_entry")
def _(E, st, ci):
    r, m = map_target(st, ci.args[0])
    k = st.content(ci.args[1])
    if r is None:
        return None
    E.event(st, ci.name, (st.content(m), k), UNIT, raw=tuple(ci.args), extra=E.place_path(r.args[0], r.args[1]))
    g = mapget(m, k)
    nm = E.fresh(st, "ver", ci.name, 0, ci.site, (map_base(m), k))
    k = st.content(ci.args[1])
    st.put(r.args[0], r.args[1], nm)
    E._fact(st, mapget(nm, k), "None", True)
    return E.resume(st, ci.k, g)


@reg("HashMap::clear", "Vec::clear", "HashSet::clear", "VecDeque::clear", "String::clear")
def _(E, st, ci):
    r, m = map_target(st, ci.args[0])
    if r is None:
        return None
    E.event(st, ci.name, (st.content(m),), UNIT, raw=tuple(ci.args), extra=E.place_path(r.args[0], r.args[1]))
    st.put(r.args[0], r.args[1], EMPTY if "Map" not in ci.name else E.fresh(st, "ver", ci.name, 0, ci.site, ()))
    return E.resume(st, ci.k, UNIT)


# -- collections -------------------------------------------------------------------


def make_item(E, st, x):
    """A collection item; the loop element it came from is abstracted."""
    x = st.content(x)
    for site, src, cur, got in reversed(st.iters):
        if cur is not None and cur in x.occ:
            return mk("item", src, subst(x, {cur: BV}))
    return mk("item", UNIT, x)


def add_item(E, st, ci, x):
    r, v = map_target(st, ci.args[0])
    if r is None:
        return None
    E.event(st, ci.name, (st.content(v), st.content(x)), UNIT, raw=tuple(ci.args), extra=E.place_path(r.args[0], r.args[1]))
    if v.op == "coll" and len(v.args[1]) < 24:
        nv = mk("coll", "vec", v.args[1] | {make_item(E, st, x)}, True)
    else:
        nv = E.fresh(st, "ver", ci.name, 0, ci.site, (st.content(v), st.content(x)))
    st.put(r.args[0], r.args[1], nv)
    return UNIT


@reg("Vec::push", "VecDeque::push_back", "VecDeque::push_front")
def _(E, st, ci):
    r = add_item(E, st, ci, ci.args[1])
    if r is None:
        return None
    return E.resume(st, ci.k, r)


@reg("Vec::insert")
def _(E, st, ci):
    r = add_item(E, st, ci, ci.args[2])
    if r is None:
        return None
    return E.resume(st, ci.k, r)


@reg("HashSet::insert", "BTreeSet::insert")
def _(E, st, ci):
    x = st.content(ci.args[1])
    r0, v0 = map_target(st, ci.args[0])
    c = st.content(v0)
    r = add_item(E, st, ci, ci.args[1])
    if r is None:
        return None
    return E.resume(st, ci.k, mk("call", "was_new", (c, x), None))


@reg("Vec::is_empty", "VecDeque::is_empty", "HashSet::is_empty", "HashMap::is_empty", "slice::is_empty")
def _(E, st, ci):
    v = st.content(ci.args[0])
    if v.op == "coll":
        if not v.args[1]:
            return E.resume(st, ci.k, TRUE)
        if v.args[2]:
            return E.resume(st, ci.k, FALSE)
    return E.resume(st, ci.k, mk("call", "is_empty", (v,), None))


@reg("Vec::len", "slice::len", "VecDeque::len", "HashSet::len", "HashMap::len")
def _(E, st, ci):
    v = st.content(ci.args[0])
    if v.op == "coll" and not v.args[1]:
        return E.resume(st, ci.k, const(0, "int"))
    if v.op == "agg" and v.args[0] == "array":
        return E.resume(st, ci.k, const(len(v.args[4]), "int"))
    n = array_len(E, st, ci.args[0])
    if n is not None:
        return E.resume(st, ci.k, const(n, "int"))
    return E.resume(st, ci.k, mk("call", "len", (v,), None))


def array_len(E, st, a):
    """The length of an array, known from its type."""
    while a.op == "ref":
        v = st.get(a.args[0], a.args[1])
        if v.op != "ref":
            ty = E.place_type(a.args[0], a.args[1])
            m = re.match(r"\[.*; (\d+)(?:_usize)?\]$", E.F.types[ty]["s"]) if ty is not None else None
            return int(m.group(1)) if m else None
        a = v
    return None


@reg("String::len", "str::len")
def _(E, st, ci):
    return E.resume(st, ci.k, mk("call", "str::len", (st.content(ci.args[0]),), None))


@reg("VecDeque::pop_front", "VecDeque::pop_back", "Vec::pop")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    if r is None:
        return None
    c = st.content(v)
    E.event(st, ci.name, (c,), UNIT, raw=tuple(ci.args), extra=E.place_path(r.args[0], r.args[1]))
    outs = []
    if c.op == "coll":
        alt = st.fork()
        if not c.args[2] or not c.args[1]:
            outs.extend(E.resume(alt, ci.k, NONE))
        for it in sorted(c.args[1], key=lambda t: t.id):
            s = st.fork()
            el = E.fresh(s, "elem", it.args[0], ci.site)
            x = subst(it.args[1], {BV: el}) if it.args[0] is not UNIT else it.args[1]
            s.put(r.args[0], r.args[1], mk("coll", "vec", c.args[1], False))
            outs.extend(E.resume(s, ci.k, some(x)))
        return outs
    alt = st.fork()
    outs.extend(E.resume(alt, ci.k, NONE))
    el = E.fresh(st, "elem", c, ci.site)
    nv = mk("call", "rest_of", (c,), None) if c.op != "call" or c.args[0] != "rest_of" else c
    st.put(r.args[0], r.args[1], nv)
    outs.extend(E.resume(st, ci.k, some(el)))
    return outs


@reg("Vec::drain", "HashMap::drain", "HashSet::drain")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    if r is None:
        return None
    c = st.content(v)
    rg = tuple(st.content(a) for a in ci.args[1:])
    E.event(st, ci.name, (c,) + rg, UNIT, raw=tuple(ci.args), extra=E.place_path(r.args[0], r.args[1]))
    st.put(r.args[0], r.args[1], mk("call", "undrained", (c,) + rg, None))
    return E.resume(st, ci.k, mk("call", "drained", (c,) + rg, None))


@reg("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(E, st, ci):
    b = st.content(ci.args[0])
    v = getf(getf(b, "value"), "value")
    if v.op == "agg" and v.args[0] == "array":
        items = frozenset(make_item(E, st, x) for x in v.args[4])
        return E.resume(st, ci.k, mk("coll", "vec", items, bool(items)))
    return E.resume(st, ci.k, v)


@reg("Index::index", "IndexMut::index_mut")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    i = st.content(ci.args[1])
    t = arg_type(E, ci)
    if i.op == "agg" or (t and not (t["s"].startswith(("alloc::vec::Vec", "[", "alloc::collections::vec_deque")))):
        if t and "HashMap" in t["s"]:
            out = []
            for s, var in E.cases(st, mapget(v, i), ["Some", "None"]):
                out.extend(E.resume(s, ci.k, mapval(v, i)) if var == "Some" else panic(E, s, "unwrap", [mapget(v, i)]))
            return out
        return E.resume(st, ci.k, mk("call", "slice", (r if r is not None and ci.name.endswith("_mut") else st.content(v), i), None))
    if r is not None:
        return E.resume(st, ci.k, mk("ref", r.args[0], r.args[1] + (("idx", i),), r.args[2]))
    return E.resume(st, ci.k, getf(v, ("idx", i)))


@reg("slice::first", "slice::get", "slice::last", "Vec::first", "Vec::get", "Vec::last")
def _(E, st, ci):
    v = st.content(ci.args[0])
    rest = tuple(st.content(a) for a in ci.args[1:])
    return E.resume(st, ci.k, mk("call", model_name(ci), (v,) + rest, None))


# -- iterators -----------------------------------------------------------------------
# iter(kind, inner, function)


def as_iter(E, st, v):
    """The iterator behind a value (by reference, too)."""
    r = v
    while r.op == "ref":
        r = st.get(r.args[0], r.args[1])
    return r


ITER_SRC = {
    "slice::iter", "Vec::iter", "HashMap::iter", "HashSet::iter", "VecDeque::iter", "BTreeMap::iter",
    "IntoIterator::into_iter", "slice::into_iter", "HashMap::into_iter", "Vec::into_iter", "Option::iter_",
}


def to_src(E, st, ci):
    v = ci.args[0]
    r = as_iter(E, st, v)
    if r.op == "iter":
        return E.resume(st, ci.k, v if v.op == "iter" else r)
    t = arg_type(E, ci)
    if r.op == "agg" and r.args[0] == "adt" and r.args[1] == OPTION:
        return E.resume(st, ci.k, mk("iter", "option", r, UNIT))
    return E.resume(st, ci.k, mk("iter", "src", map_base(st.content(r)), UNIT))


for _n in ITER_SRC:
    MODELS[_n] = to_src


@reg("HashMap::values", "HashMap::into_values", "BTreeMap::values", "HashMap::values_mut", "BTreeMap::values_mut")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    kind = "values"
    return E.resume(st, ci.k, mk("iter", kind, mk("iter", "src", map_base(st.content(v)), UNIT), UNIT if r is None else r))


@reg("HashMap::keys", "HashMap::into_keys", "BTreeMap::keys")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    return E.resume(st, ci.k, mk("iter", "keys", mk("iter", "src", map_base(st.content(v)), UNIT), UNIT))


@reg("HashMap::iter_mut", "BTreeMap::iter_mut")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    return E.resume(st, ci.k, mk("iter", "pairs_mut", mk("iter", "src", map_base(st.content(v)), UNIT), UNIT if r is None else r))


ADAPT = {
    "map": "map", "filter": "filter", "filter_map": "filter_map", "cloned": "copy", "copied": "copy", "rev": "rev",
    "enumerate": "enumerate", "take": "part", "skip": "part", "step_by": "part", "take_while": "take_while",
    "skip_while": "filterish", "inspect": "inspect", "peekable": "copy", "fuse": "copy", "flat_map": "opaque",
    "chain": "opaque", "zip": "opaque", "scan": "opaque", "map_while": "opaque", "flatten": "opaque",
}


def adaptor(E, st, ci):
    n = ci.name.rsplit("::", 1)[1]
    kind = ADAPT[n]
    it = ci.args[0]
    if it.op == "ref":
        it = as_iter(E, st, it)
    if kind == "opaque" or kind in ("take_while", "filterish"):
        return None
    if it.op != "iter":
        it = mk("iter", "src", st.content(it), UNIT)
    if kind == "part":
        it = part_of(it)
    if kind == "rev" and E.want_back:
        E.event(st, ci.name, (root_src(it),), UNIT)
    return E.resume(st, ci.k, mk("iter", kind, it, ci.args[1] if len(ci.args) > 1 else UNIT))


def part_of(it):
    """What is known about all that comes out of this is not known about the source."""
    kind, inner, f = it.args
    if inner.op == "iter":
        return mk("iter", kind, part_of(inner), f)
    if kind == "option":
        return it
    if inner.op == "coll":
        return mk("iter", kind, mk("coll", "part", inner.args[1], False), f)
    return mk("iter", kind, mk("call", "part_of", (inner,), None), f)


for _n in ADAPT:
    MODELS["Iterator::" + _n] = adaptor


def full_chain(it):
    while it.op == "iter":
        if it.args[0] in ("filter", "filter_map", "part"):
            return False
        it = it.args[1]
    return True


def pull(E, st, it, site, k, depth=0):
    """Ask an iterator for its next element; continues with Some(x) or None."""
    kind = it.args[0] if it.op == "iter" else "src"
    if it.op != "iter":
        it = mk("iter", "src", st.content(it), UNIT)
    inner, f = it.args[1], it.args[2]
    if kind == "src":
        return pull_src(E, st, inner, site + (depth,), k)
    if kind == "option":
        outs = []
        begun = any(i[0] == site + (depth,) for i in st.iters)
        for s, var in E.cases(st, inner, ["Some", "None"]):
            if var == "None" or begun:
                E.iter_end(s, site + (depth,), inner)
                outs.extend(E.resume(s, k, NONE))
            else:
                E.iter_begin(s, site + (depth,), inner, None)
                outs.extend(E.resume(s, k, some(getf(inner, "@Some.0"))))
        return outs
    return pull(E, st, inner, site, ("it_" + kind, f, it, site, k), depth + 1)


def pull_src(E, st, src, site, k):
    outs = []
    begun = any(i[0] == site for i in st.iters)
    items = None
    if src.op == "agg" and src.args[0] == "array" and len(src.args[4]) <= 8:
        # one after the other
        pos = next((i[3][1] for i in st.iters if i[0] == site and i[3] and i[3][0] == "pos"), 0)
        rest = tuple(i for i in st.iters if i[0] != site)
        if pos == len(src.args[4]):
            st.iters = rest
            return E.resume(st, k, NONE)
        st.iters = rest + ((site, src, None, ("pos", pos + 1)),)
        return E.resume(st, k, some(src.args[4][pos]))
    if src.op == "coll":
        items = sorted(src.args[1], key=lambda t: t.id)
    elif src.op == "agg" and src.args[0] == "array":
        items = [mk("item", UNIT, x) for x in src.args[4]]
    # finished
    can_end = True
    if items is not None and not begun and items:
        can_end = not (src.op != "coll" or src.args[2])
    fact = st.facts.get(mk("forall", src, BV))
    empty = fact == ("=", "empty")
    if can_end or empty:
        s = st.fork()
        E.iter_end(s, site, src)
        outs.extend(E.resume(s, k, NONE))
    if empty:
        return outs
    if items is not None:
        for n, it in enumerate(items):
            s = st.fork()
            if it.args[0] is UNIT:
                E.iter_begin(s, site, src, None)
                outs.extend(E.resume(s, k, some(it.args[1])))
            else:
                el = new_elem(E, s, it.args[0], site)
                E.iter_begin(s, site, src, el)
                outs.extend(E.resume(s, k, some(subst(it.args[1], {BV: el}))))
        return outs
    el = new_elem(E, st, src, site)
    E.iter_begin(st, site, src, el)
    outs.extend(E.resume(st, k, some(el)))
    return outs


def new_elem(E, st, src, site):
    # what was known about the previous element is collected before it is renamed
    for it in st.iters:
        if it[0] == site and it[2] is not None:
            E.iter_begin(st, site, it[1], None)
            break
    el = mk("elem", src, site)
    if E.occurs(st, el):
        E.rename(st, el, old(el))
    return el


@reg("Iterator::next", "DoubleEndedIterator::next_back")
def _(E, st, ci):
    t = arg_type(E, ci)
    if t and t["s"].startswith("tracing_core"):
        return E.resume(st, ci.k, some(mk("sym", "field")))
    it = as_iter(E, st, ci.args[0])
    return pull(E, st, it, ci.site, ci.k)


def each(E, st, v, k, on_none, on_some):
    outs = []
    for s, var in E.cases(st, v, ["Some", "None"]):
        if var == "None":
            outs.extend(on_none(s))
        else:
            outs.extend(on_some(s, getf(v, "@Some.0")))
    return outs


@cont("it_values")
def _(E, st, k, v):
    r = k[1]

    def go(s, x):
        if r.op == "ref" and r.args[2]:
            return E.resume(s, k[-1], some(mk("ref", r.args[0], r.args[1] + (("key", getf(x, "0")),), True)))
        return E.resume(s, k[-1], some(getf(x, "1")))

    return each(E, st, v, k, lambda s: E.resume(s, k[-1], NONE), go)


@cont("it_pairs_mut")
def _(E, st, k, v):
    r = k[1]

    def go(s, x):
        y = mk("ref", r.args[0], r.args[1] + (("key", getf(x, "0")),), True) if r.op == "ref" else getf(x, "1")
        return E.resume(s, k[-1], some(tup(getf(x, "0"), y)))

    return each(E, st, v, k, lambda s: E.resume(s, k[-1], NONE), go)


@cont("it_keys")
def _(E, st, k, v):
    return each(E, st, v, k, lambda s: E.resume(s, k[-1], NONE), lambda s, x: E.resume(s, k[-1], some(getf(x, "0"))))


@cont("it_copy")
def _(E, st, k, v):
    return each(E, st, v, k, lambda s: E.resume(s, k[-1], NONE), lambda s, x: E.resume(s, k[-1], some(s.deref(x))))


CONT["it_rev"] = lambda E, st, k, v: E.resume(st, k[-1], v)
CONT["it_part"] = lambda E, st, k, v: E.resume(st, k[-1], v)


@cont("it_enumerate")
def _(E, st, k, v):
    site = k[3]
    return each(
        E, st, v, k, lambda s: E.resume(s, k[-1], NONE),
        lambda s, x: E.resume(s, k[-1], some(tup(mk("call", "position_of", (s.content(x),), None), x))),
    )


@cont("it_map")
def _(E, st, k, v):
    return each(
        E, st, v, k, lambda s: E.resume(s, k[-1], NONE),
        lambda s, x: E.call_fn(s, k[1], [x], ("wrap", "Some", k[-1]), "it_map"),
    )


@cont("it_inspect")
def _(E, st, k, v):
    return each(
        E, st, v, k, lambda s: E.resume(s, k[-1], NONE),
        lambda s, x: E.call_fn(s, k[1], [x], ("const", some(x), k[-1]), "it_inspect"),
    )


@cont("it_filter")
def _(E, st, k, v):
    return each(
        E, st, v, k, lambda s: E.resume(s, k[-1], NONE),
        lambda s, x: E.call_fn(s, k[1], [x], ("it_filter2", x, k[2], k[3], k[-1]), "it_filter"),
    )


def again(E, st, it, site, k):
    """Another round of an iterator loop inside a call."""
    if E.want_back:
        E.back(st, ((src, cur) for i, src, cur, _ in st.iters if cur is not None and i[: len(site)] == site))
    E.widen_round(st, (st.ctx, st.bb, "pull"))
    s = E.arrive(st, point=("pull", k), extra=list(kids(k)) + [it])
    if s is None:
        return []
    return pull(E, s, it, site, k, depth_of(it, k))


def depth_of(it, k):
    # adaptors further out were counted first
    d = 0
    while k[0].startswith("it_") and k[0] not in ("it_filter2",):
        if k[0][3:] in ("values", "keys", "copy", "rev", "part", "enumerate", "map", "inspect", "filter", "filter_map", "pairs_mut"):
            d += 1
            k = k[-1]
        else:
            break
    return d


@cont("it_filter2")
def _(E, st, k, v):
    outs = []
    for s, b in E.truth(st, v):
        if b:
            outs.extend(E.resume(s, k[-1], some(k[1])))
        else:
            outs.extend(again(E, s, k[2], k[3], k[-1]))
    return outs


@cont("it_filter_map")
def _(E, st, k, v):
    return each(
        E, st, v, k, lambda s: E.resume(s, k[-1], NONE),
        lambda s, x: E.call_fn(s, k[1], [x], ("it_filter_map2", k[2], k[3], k[-1]), "it_fmap"),
    )


@cont("it_filter_map2")
def _(E, st, k, v):
    return each(
        E, st, v, k, lambda s: again(E, s, k[1], k[2], k[-1]), lambda s, x: E.resume(s, k[-1], some(x))
    )


def consumer(name, *extra_names):
    def deco(start):
        def run(E, st, ci):
            it = as_iter(E, st, ci.args[0])
            return pull(E, st, it, ci.site, start(E, st, ci, it))

        for n in (name,) + extra_names:
            MODELS["Iterator::" + n] = run
        return start

    return deco


def find_like(name, f_done, f_hit, hit_when=True):
    """any / all / find / position: call a predicate until it decides."""
    MODELS["Iterator::" + name] = lambda E, st, ci: pull(
        E, st, as_iter(E, st, ci.args[0]), ci.site, ("it_" + name + "_", as_iter(E, st, ci.args[0]), ci.args[1], ci.site, ci.k)
    )

    @cont("it_" + name + "_")
    def first(E, st, k, v):
        return each(
            E, st, v, k, lambda s: E.resume(s, k[-1], f_done(E, s, k)),
            lambda s, x: E.call_fn(s, k[2], [x], ("it_" + name + "2", x) + k[1:], "it_" + name),
        )

    @cont("it_" + name + "2")
    def second(E, st, k, v):
        outs = []
        if name == "find_map":
            return each(
                E, st, v, k,
                lambda s: again(E, s, k[2], k[4], ("it_" + name + "_",) + k[2:]),
                lambda s, x: E.resume(s, k[-1], some(x)),
            )
        for s, b in E.truth(st, v):
            if b == hit_when:
                outs.extend(E.resume(s, k[-1], f_hit(E, s, k)))
            else:
                outs.extend(again(E, s, k[2], k[4], ("it_" + name + "_",) + k[2:]))
        return outs


find_like("any", lambda E, s, k: FALSE, lambda E, s, k: TRUE)
find_like("all", lambda E, s, k: TRUE, lambda E, s, k: FALSE, False)
find_like("find", lambda E, s, k: NONE, lambda E, s, k: some(k[1]))
find_like("find_map", lambda E, s, k: NONE, lambda E, s, k: UNIT)
find_like("position", lambda E, s, k: NONE, lambda E, s, k: some(mk("call", "position_of", (s.content(k[1]),), None)))


@reg("Iterator::for_each")
def _(E, st, ci):
    it = as_iter(E, st, ci.args[0])
    hk = (st.ctx, st.bb, "for_each")
    k = ("it_for_each_", it, ci.args[1], ci.site, hk, ci.k)
    return loop_pull(E, st, it, ci.site, hk, k)


def loop_pull(E, st, it, site, hk, k):
    """Loop header of a consumer whose closure changes things."""
    # what the iterator and closure refer to is reached through the continuation
    s = E.arrive(st, point=("loop", k), hk=hk, extra=list(kids(k)))
    if s is None:
        return []
    return pull(E, s, it, site, k)


@cont("it_for_each_")
def _(E, st, k, v):
    def done(s):
        s.loops = tuple(l for l in s.loops if l[0] != k[4])
        return E.resume(s, k[-1], UNIT)

    return each(
        E, st, v, k, done,
        lambda s, x: E.call_fn(s, k[2], [x], ("it_for_each2",) + k[1:], "for_each"),
    )


@cont("it_for_each2")
def _(E, st, k, v):
    return loop_pull(E, st, k[1], k[3], k[4], ("it_for_each_",) + k[1:])


@reg("Iterator::fold")
def _(E, st, ci):
    it = as_iter(E, st, ci.args[0])
    hk = (st.ctx, st.bb, "fold")
    acc = mk("ref", ("fold", st.ctx, st.bb), ())
    st.put(acc.args[0], (), ci.args[1])
    k = ("it_fold_", it, ci.args[2], ci.site, hk, acc, ci.k)
    return loop_pull(E, st, it, ci.site, hk, k)


@cont("it_fold_")
def _(E, st, k, v):
    acc = k[5]

    def done(s):
        s.loops = tuple(l for l in s.loops if l[0] != k[4])
        return E.resume(s, k[-1], s.get(acc.args[0], ()))

    return each(
        E, st, v, k, done,
        lambda s, x: E.call_fn(s, k[2], [s.get(acc.args[0], ()), x], ("it_fold2",) + k[1:], "fold"),
    )


@cont("it_fold2")
def _(E, st, k, v):
    st.put(k[5].args[0], (), v)
    return loop_pull(E, st, k[1], k[3], k[4], ("it_fold_",) + k[1:])


@reg("Iterator::try_for_each")
def _(E, st, ci):
    return None


@reg("Iterator::collect", "FromIterator::from_iter")
def _(E, st, ci):
    it = as_iter(E, st, ci.args[0])
    if it.op != "iter":
        it = mk("iter", "src", st.content(it), UNIT)
    ty = E.F.types[ci.callee["a"][-1]]["s"] if ci.callee.get("a") else ""
    k = ("it_collect_", it, ci.site, frozenset(), ty, ci.k)
    return pull(E, st, it, ci.site, k)


def root_src(it):
    while it.op == "iter":
        it = it.args[1]
    return it


@cont("it_collect_")
def _(E, st, k, v):
    it, site, acc, ty = k[1], k[2], k[3], k[4]

    def done(s):
        src = root_src(it)
        if ty.startswith("core::result::Result"):
            return E.resume(s, k[-1], ok(mk("coll", "vec", acc, False)))
        c = mk("coll", "vec", acc, False)
        if full_chain(it) and len(acc) == 1:
            c = mk("coll", "all", acc, False)
        if "HashMap" in ty or "BTreeMap" in ty:
            c = mk("call", "collected_map", (c,), None)
        return E.resume(s, k[-1], c)

    def one(s, x):
        item = make_item(E, s, x)
        if E.want_back:
            E.event(s, "collect::put", (mk("coll", "vec", acc, False), s.content(x)), UNIT)
        nk = ("it_collect_", it, site, acc | {item}, ty, k[-1])
        return again(E, s, it, site, nk)

    return each(E, st, v, k, done, one)


@reg("Vec::extend", "Extend::extend", "HashSet::extend", "Vec::append", "VecDeque::extend")
def _(E, st, ci):
    r, v = map_target(st, ci.args[0])
    if r is None:
        return None
    it = as_iter(E, st, ci.args[1])
    if it.op != "iter":
        it = mk("iter", "src", st.content(it), UNIT)
    k = ("it_extend", r, ci.name, ci.args[0], ci.site, ci.k)
    return pull(E, st, it, ci.site, ("it_collect_", it, ci.site, frozenset(), "", k))


@cont("it_extend")
def _(E, st, k, v):
    r = k[1]
    cur = st.get(r.args[0], r.args[1])
    E.event(st, k[2], (st.content(cur), st.content(v)), UNIT, raw=(k[3],), extra=E.place_path(r.args[0], r.args[1]))
    if cur.op == "coll" and v.op == "coll":
        nv = mk("coll", "vec", cur.args[1] | v.args[1], cur.args[2] or v.args[2])
    else:
        nv = E.fresh(st, "ver", k[2], 0, k[4], (st.content(cur), st.content(v)))
    st.put(r.args[0], r.args[1], nv)
    return E.resume(st, k[-1], UNIT)


@reg("Iterator::count")
def _(E, st, ci):
    return E.resume(st, ci.k, mk("call", "count", (st.content(as_iter(E, st, ci.args[0])),), None))


def lookup(E, ci):
    """The model of a function, if there is one."""
    m = MODELS.get(ci.name)
    if m is None and ci.name.split("::", 1)[0] in STD:
        m = MODELS.get(model_name(ci))
    if m is None:
        m = builder_lookup(ci.name)
    return m


def model(E, st, ci):
    n = model_name(ci)
    crate = ci.name.split("::", 1)[0]
    a = ci.args
    if n in IDENT and (crate in STD or crate in ("automerge", "bytes")):
        return E.resume(st, ci.k, a[0])
    if (n in COPY and crate in STD) or n == "Clone::clone":
        return E.resume(st, ci.k, st.deref(a[0]))
    m = lookup(E, ci)
    if m is not None:
        r = m(E, st, ci)
        if r is not None:
            return r
    if n in ("Into::into", "TryInto::try_into", "From::from", "TryFrom::try_from"):
        return convert(E, st, ci, n)
    return None
