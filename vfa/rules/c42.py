"""C42: merging a changed file into the document yields exactly the file's text."""
from ..rulelib import *
from .c31 import document, plain
from .conv import Conv
from .c15 import from_walk
from .c22 import WALK
from .docapi import DIFF, READ, DocApi
from .common import MUTATORS

TECHNIQUE = "disjunctive abstract interpretation of the functions that set a text: what is compared, how differences become operations, and where each is applied, with positions as sums carried through loops"
NOTE = "All ways through setting a text, turning differences into a change and applying it. That the library for differences returns chunks that make up both texts, and that splicing a text of the document counts characters, is assumed."


def run(c):
    c.rule = (
        "Every function that compares texts to change the document compares the document's text of that file with the new one, in this order, and applies the differences to the same file, or does nothing if there are none. "
        "Every chunk of the differences becomes one operation with its number of characters or its text; every operation is applied once, at the position that the ones before it have left. "
        "Outside of start-up, a new text is put in only where the document is known not to have one for that file."
    )
    k = Conv(c)
    m = k.m
    api = DocApi(c, m)
    sites = [h for h in sorted(m.live, key=m.name) if any(n in DIFF for n in m.callees[h][1])]
    for h in sites:
        name = m.name(m.top(h))
        c.oblige(kind="functions_that_compare_texts", sample=name)
        if not any(e[0] == "set" for n, e in api.effects.items() if n == name or reaches(m, n, m.top(h))):
            c.violate(("set", name), "%s: does not make the document's text of a file equal to the given one" % name)
    if not sites and not any(n.endswith("::Transactable::update_text") for h in m.live for n in m.callees[h][1]):
        c.violate(("anchor", "diff"), "nothing compares texts in order to change the document")
    setters = [n for n, e in api.effects.items() if e[0] == "set"]
    if len(setters) < 2:
        c.violate(("anchor", "set"), "functions that set a text were not found")
    for h in k.by.get(("C", "D"), []):
        plain(c, k, h, "C", lambda a: a)
    if sites and not k.by.get(("C", "D")):
        c.violate(("anchor", "chunks"), "no function found that turns differences into a change")
    for h in k.by.get(("D", "doc"), []) + k.by.get(("E", "doc"), []):
        document(c, k, h)
    if not k.by.get(("D", "doc")) and not k.by.get(("E", "doc")):
        c.violate(("anchor", "doc"), "no function found that applies a change to the document")
    kept(c, m, api)


def kept(c, m, api):
    """A text that exists is changed, not replaced by a new one."""
    names = tuple(api.replacing(m))
    c.counts["functions_that_replace_a_text"] = sorted(names)
    mm = m.other(names + READ + WALK, hold_fact=api.hold, pin_args=True, never=tuple(api.effects))

    def judge(E, n):
        k = n.data.args[api.effects[n.data.name][1]]
        if any(from_walk(x) for x in k.sub):
            return None  # start of the daemon
        k = next((x for x in (k,) + tuple(kids(k.args)) if x.op in ("sym", "fld", "vfld", "call", "elem")), k)
        c.oblige(kind="places_that_put_in_a_new_text", sample=m.name(m.top(E.ctxs[n.ctx][3])))
        if not any(api.absent(t, f, k) for t, f in n.facts.items()):
            return "%s may put a new text in place of one that exists, so that what others change in it meanwhile is lost" % m.name(m.top(E.ctxs[n.ctx][3]))
        return None

    skip = {m.ids[n] for n in api.effects}
    for E, n, w in mm.climb(names, judge, only={h for h in m.sites(names) if h not in skip}):
        c.violate(("replaced", m.name(m.top(E.ctxs[n.ctx][3]))), w, c.at(E, n), c.trace(E, from_root(E, n.id)))


def reaches(m, n, h):
    seen, work = set(), list(m.by_name(n))
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work.extend(m.callees[x][0])
    return h in seen
