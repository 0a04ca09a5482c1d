"""C27: composite propagation is the composition of its parts; the convenience entry points use the current context"""
from checks.assume import *
from checks.c15 import bare
from checks.c17 import called
from checks.c25 import ARG, ans, current, forward, of, plain
from checks.util import PARTIAL_IT

TITLE = "A composite propagator is the composition of its parts, in their order"
FLOOR = 18
PR = "opentelemetry::propagation::"
PROP = PR + "text_map_propagator::TextMapPropagator"
COMP = PR + "composite::TextMapCompositePropagator"
PARTS = ("fld", ARG(0), "propagators")
PICKY = (PARTIAL_IT | {"rev"}) - {"drain"}


def part(e, of_=PARTS):
    """an element of the list of propagators"""
    e = bare(norm(e))
    while e[0] == "fld" and e[2] == "0" or e[0] == "call" and e[2] and last(e[1]) in ("deref", "as_ref", "borrow"):
        e = e[1] if e[0] == "fld" else e[2][0]
    return e == ("elem", of_) or e[0] == "nth" and e[1] == of_ or e[0] == "call" and last(e[1]) == "index" and norm(e[2][0]) == of_ and not any(x[0] == "call" and last(x[1]) == "rev" for x in walk(e[2][1]))


def picky(g, ns):
    """adaptors that leave elements out or change their order"""
    return [last(x[1]) for n in ns for x in walk(g.ev(n.d.args[0], n.i)) if x[0] == "call" and last(x[1]) in PICKY]


def iters(q, B):
    return [n for n in q.calls(lambda c: c.args and (c.m in ("next", "fold", "for_each", "try_for_each", "map", "flat_map") or c.clo)) if has(norm(q.g.ev(n.d.args[0], n.i)), lambda x: x == B)]


def check(ck):
    p = ck.program("all")
    ck.rule("injecting: every part injects the given context into the given carrier, in order; extracting: every part extracts from the given carrier into what the parts before it made of the given context, and the last result is returned")
    ck.rule("the fields of a composite are those of all its parts; inject and extract without a context use the current one")
    f = ck.one(p.method(COMP, "inject_context"), "composite injection")
    q = Q(ck.graph(f))
    g = q.g
    C = q.calls(of([PROP], "inject_context"))
    w = forall(q, q.entry(), C, B={PARTS}, strict=True) if C else "never"
    ck.ob("inject:every", w is None, "not every part injects: %s" % w, loc(f))
    pk = picky(g, iters(q, PARTS))
    ck.ob("inject:order", not pk, "parts are left out or reordered by %s" % pk, loc(f))
    for n in C:
        v = [norm(g.ev(a, n.i)) for a in n.d.args]
        ck.ob("inject:part", part(v[0]), "injects with %s" % show_(v[0]), g.loc(n.i))
        ck.ob("inject:context", plain(v[1]) == ARG(1), "injects %s" % show_(v[1]), g.loc(n.i))
        ck.ob("inject:carrier", plain(v[2]) == ARG(2), "injects into %s" % show_(v[2]), g.loc(n.i))
    sets = q.calls(lambda c: c.m == "set" and (c.tr or "").endswith("Injector"))
    ck.ob("inject:nothing-else", not sets, "the composite writes headers itself", g.loc(sets[0].i) if sets else loc(f))
    f = ck.one(p.method(COMP, "extract_with_context"), "composite extraction")
    q = Q(ck.graph(f))
    g = q.g
    C = q.calls(of([PROP], "extract_with_context"))
    w = forall(q, q.entry(), C, B={PARTS}, strict=True) if C else "never"
    ck.ob("extract:every", w is None, "not every part extracts: %s" % w, loc(f))
    pk = picky(g, iters(q, PARTS))
    ck.ob("extract:order", not pk, "parts are left out or reordered by %s" % pk, loc(f))

    def made(x):
        return called(x, "extract_with_context") or x == ("unk", "rec")
    for n in C:
        v = [norm(g.ev(a, n.i)) for a in n.d.args]
        ck.ob("extract:part", part(v[0]), "extracts with %s" % show_(v[0]), g.loc(n.i))
        ck.ob("extract:carrier", plain(v[2]) == ARG(2), "extracts from %s" % show_(v[2]), g.loc(n.i))
        xs = [plain(a) for a in flat(v[1])]
        ck.ob("extract:given", ARG(1) in xs, "the first part does not start from the context given, but from %s" % [show_(x) for x in xs], g.loc(n.i))
        ck.ob("extract:through", any(made(x) for x in xs) and all(made(x) or x == ARG(1) for x in xs), "a part does not start from what the one before it made: %s" % [show_(x) for x in xs], g.loc(n.i))
    xs = []
    for a in flat(q.results()):
        a = norm(a)
        if a[0] == "call" and last(a[1]) == "fold":
            xs += [plain(a[2][1])] + [plain(y) for x in a[2] if x[0] == "clo" for y in flat(x[1])]
        else:
            xs.append(plain(a))
    init = ARG(1) in xs or any(plain(g.ev(n.d.args[1], n.i)) == ARG(1) for n in q.calls(lambda c: c.m == "fold"))
    ck.ob("extract:result", any(called(x, "extract_with_context") for x in xs) and init and all(made(x) or x == ARG(1) for x in xs), "returns %s" % [show_(x) for x in xs], loc(f))
    # fields
    f = ck.one(p.method(COMP, "new"), "composite constructor")
    q = Q(ck.graph(f))
    g = q.g
    vs = [plain(x) for x in flat(under(q, (("f", "propagators"),)))]
    ck.ob("new:parts", vs == [ARG(0)], "keeps %s" % [show_(x) for x in vs], loc(f))
    lose = [n for n in q.calls(lambda c: last(c.name) in LOSING + ("reverse", "sort_by_key", "sort_by", "swap", "rotate_left") and c.args) if norm(g.ev(n.d.args[0], n.i)) == ARG(0)]
    ck.ob("new:whole", not lose, "parts are removed or reordered", g.loc(lose[0].i) if lose else loc(f))
    F = q.calls(of([PROP], "fields"))
    w = forall(q, q.entry(), F, B={ARG(0)}, strict=True) if F else "never"
    ck.ob("fields:every", w is None, "the fields of some part are not taken: %s" % w, loc(f))
    ck.ob("fields:of-part", bool(F) and all(part(g.ev(n.d.args[0], n.i), ARG(0)) for n in F), "fields of something else", loc(f))
    from_f = lambda e: has(norm(e), lambda x: called(x, "fields"))
    sink = [n for n in q.calls(lambda c: c.m in ("extend", "insert", "push", "extend_from_slice", "append") and len(c.args) > 1) if from_f(g.ev(n.d.args[1], n.i))]
    fv = flat(under(q, (("f", "fields"),)))
    if sink:
        for n in sink:
            B = {x for x in walk(norm(g.ev(n.d.args[1], n.i))) if called(x, "fields")}
            if n.d.m in ("extend", "extend_from_slice", "append"):
                w = q.can_follow(F, q.calls(lambda c: c.m == "next" and plain(q.g.ev(c.args[0], n.i)) == ARG(0)), avoid=[n])
                w = w or q.not_after(F, [n])
            else:
                w = forall(q, q.after(q.S(F)), [n], B=B, exits=q.S([m for m in q.calls(lambda c: c.m == "next") if norm(g.ev(m.d.args[0], m.i)) in (ARG(0), ("call", "iter", (ARG(0),)))]) or q.exits())
            ck.ob("fields:kept", w is None, "fields of a part are not kept: %s" % w, g.loc(n.i))
            c = norm(g.ev(n.d.args[0], n.i))
            ck.ob("fields:same", any(has(norm(x), lambda y: y == c) for x in fv), "the fields are collected into something else", g.loc(n.i))
            lose = [m for m in q.calls(lambda k: last(k.name) in LOSING and k.args) if norm(g.ev(m.d.args[0], m.i)) == c and not (last(m.d.name) in ("dedup", "drain"))]
            ck.ob("fields:none-lost", not lose, "collected fields are removed", loc(f))
    else:
        ck.ob("fields:kept", bool(fv) and all(from_f(x) for x in fv), "the fields are %s" % [show_(x) for x in fv], loc(f))
    pk = [x[1] for n in sink for x in walk(g.ev(n.d.args[1], n.i)) if x[0] == "call" and last(x[1]) in PICKY - {"filter"}] + [last(x[1]) for v in fv for x in walk(v) if x[0] == "call" and last(x[1]) in PICKY - {"rev", "filter"}]
    pk += [last(n.d.name) for n in q.calls(lambda c: c.m == "filter" and not c.inlined)]
    ck.ob("fields:all", not pk, "fields are left out by %s" % pk, loc(f))
    f = ck.one(p.method(COMP, "fields"), "composite fields")
    vs = flat(Q(ck.graph(f)).results())
    src = lambda x: has(norm(x), lambda y: y == ("fld", ARG(0), "fields"))
    ck.ob("fields:returned", bool(vs) and all(src(x) and not [y for y in walk(x) if y[0] == "call" and last(y[1]) in PICKY] for x in vs), "returns %s" % [show_(x) for x in vs], loc(f))
    FI = PR + "text_map_propagator::FieldIter"
    f = ck.one(p.method(FI, "new"), "FieldIter::new")
    vs = flat(under(Q(ck.graph(f)), (("f", "0"),)))
    ck.ob("iter:all", bool(vs) and all(has(norm(x), lambda y: y == ARG(0)) and not [y for y in walk(x) if y[0] == "call" and last(y[1]) in PICKY] for x in vs), "iterates over %s" % [show_(x) for x in vs], loc(f))
    f = ck.one(p.method(FI, "next"), "FieldIter::next")
    q = Q(ck.graph(f))
    C = q.calls(lambda c: c.m == "next")
    ck.ob("iter:next", bool(C) and q.skipped(C) is None and q.can_follow(C, C) is None, "a field is skipped", loc(f))
    end = lambda l: l[0] == "v" and called(l[1], "next") and l[3] == ("None",)
    vs = [norm(x) for x in flat(under(q, (), end))]
    ck.ob("iter:some", bool(vs) and all(x[0] != "agg" or x[2] == "Some" for x in vs), "ends before the last field", loc(f))
    # the current context
    m = lambda n: ck.one([x for x in p.fns.values() if x.name == PROP + "::" + n], n)
    f = m("inject")
    forward(ck, "default:inject", Q(ck.graph(f)), f, of([PROP], "inject_context"), [ARG(0), current, ARG(1)])
    f = m("extract")
    forward(ck, "default:extract", Q(ck.graph(f)), f, of([PROP], "extract_with_context"), [ARG(0), current, ARG(1)], res=lambda v: has(v, ans("extract_with_context")))
