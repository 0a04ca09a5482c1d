"""Attach/detach discipline of the context stack; futures run under their context."""
from checks.util import *

TITLE = "Attached context is current until its guard drops; futures run under theirs"
FLOOR = 30
STACK = "ContextStack"


def on_stack(e, fld):
    """<thread-local context stack>.<fld>"""
    return e[0] == "fld" and e[2] == fld and rooted(e, lambda r: r[0] in ("static", "const"))


def cur_writes(q):
    g = q.g
    return [n for n in g.nodes if n.k == "as" and n.i in q.ex.by_node and on_stack(g.place_expr(n.d[0], n.i), "current_cx")
            and "*" in n.d[0][2]]


def is_len(e):
    e = strip_cast(e)
    return e[0] == "call" and e[1].endswith("Vec::len") and on_stack(e[2][0], "stack")


def is_len1(e):
    e = strip_cast(e)
    return e[0] == "bin" and e[1] == "Add" and is_len(e[2]) and intval(e[3]) == 1


def is_max(e):
    return intval(e) == 65535


def is_pos(e):
    return strip_cast(e) == ("fld", ("arg", 0), "cx_pos")


def check(ck):
    p = ck.program("all")
    attach(ck, p)
    detach(ck, p)
    owners(ck, p)
    futures(ck, p)


def attach(ck, p):
    ck.rule("attach: on every path on which there is room, the given context replaces the current one, the displaced one is pushed, and the guard gets position (stack length before the push)+1; with no room the stack is untouched and the guard is the overflow position")
    fn = ck.one(p.method("context::Context", "attach", inherent=True), "Context::attach")
    q = Q(ck.graph(fn))
    g = q.g
    W = cur_writes(q)
    ck.ob("attach:sets-current", len(W) >= 1, "attach never writes the current context", loc(fn))
    for n in W:
        v = g.ev_def(n.i, (), 0)
        ck.ob("attach:sets-given", flat(v) == [("arg", 0)], "current is set to %s" % show(v)[:100], g.loc(n.i))
        w = q.unguarded([n], lambda l: cmp_lit(l, ("Lt",), is_len1, is_max) or cmp_lit(l, ("Le",), is_len1, lambda e: intval(e) == 65534)
                        or cmp_lit(l, ("Lt",), is_len, lambda e: intval(e) == 65534))
        ck.ob("attach:room", w is None, "the context is attached without checking that a position is left: %s" % w, g.loc(n.i))
    push = [n for n in q.calls(lambda c: c.name.endswith("Vec::push")) if on_stack(g.ev(n.d.args[0], n.i), "stack")]
    for n in push:
        v = g.ev(n.d.args[1], n.i)
        ok = all(a[0] == "agg" and a[2] == "Some" and all(on_stack(z, "current_cx") for z in flat(dict(a[3])["0"])) for a in flat(v))
        ck.ob("attach:saves-displaced", ok, "the stack gets %s, not the displaced context" % show(v)[:120], g.loc(n.i))
    w = q.not_after(W, push) if push else "no push"
    w2 = q.not_before(W, push) and q.not_after(push, W) if push else None
    ck.ob("attach:push-with-write", (w is None or q.not_before(push, W) is None), "current is replaced without saving the displaced context: %s" % w, loc(fn))
    ck.ob("attach:write-with-push", w2 is None, "the stack grows without replacing the current context: %s" % w2, loc(fn))
    ck.ob("attach:one-push", all(q.can_follow([a], [b]) is None for a in push for b in push), "two pushes on one path", loc(fn))
    for st, kind in ((q.S(W), "room"), (None, "overflow")):
        if kind == "room":
            r = q.result_from(st)
            pos = [dict(a[3]).get("cx_pos") for a in flat(r) if a[0] == "agg"]
            xs = [x for e in pos for x in flat(e)]
            ck.ob("attach:position", bool(xs) and all(is_len1(x) for x in xs), "the guard's position is %s" % [show(x)[:80] for x in xs], loc(fn))
            lens = {x[3] for e in xs for x in walk(e) if x[0] == "call" and x[1].endswith("Vec::len")}
            late = [i for i in lens if q.can_follow(push, [i])]
            ck.ob("attach:position-before-push", not late, "the length is read after the push", loc(fn))
        else:
            av = q.S(W)
            reach = q.reach(q.entry(), avoid=av)
            ex = q.exits() & reach
            r = q.pv(g.result_place, ex, reach) if ex else ("never",)
            pos = [dict(a[3]).get("cx_pos") for a in flat(r) if a[0] == "agg"]
            xs = [x for e in pos for x in flat(e) if x != ("never",)]
            ck.ob("attach:overflow-position", bool(xs) and all(is_max(x) for x in xs), "when nothing was attached the guard's position is %s" % [show(x)[:80] for x in xs], loc(fn))
            ck.ob("attach:overflow-no-push", not (q.S(push) & reach & q.reach(q.entry(), avoid=av)) or all(q.not_after([n], W) is None for n in push), "the stack grows on the overflow path", loc(fn))


def detach(ck, p):
    ck.rule("dropping a guard: the current context is replaced only when the guard is the topmost position, by the newest context still on the stack (already released positions are skipped); any other guard only releases the slot of its own position")
    fn = ck.one(p.method("context::ContextGuard", "drop"), "ContextGuard::drop")
    q = Q(ck.graph(fn))
    g = q.g
    W = cur_writes(q)
    ck.ob("detach:restores", len(W) >= 1, "no guard ever restores a context", loc(fn))

    def top(l, op="Eq"):
        return l[0] == "cmp" and l[1] == op and (is_pos(l[2]) and is_len(l[3]) or is_pos(l[3]) and is_len(l[2]))

    def is_pop(e):
        return e[0] == "call" and e[1].endswith("Vec::pop") and on_stack(e[2][0], "stack")

    def pop_some(e):
        return e[0] == "fld" and e[2] == "Some.0" and is_pop(e[1])

    def last(e):
        return e[0] == "call" and e[1].split("::")[-1] in ("last", "last_mut") and on_stack(e[2][0], "stack")

    def last_some(e):
        return e[0] == "fld" and e[2] == "Some.0" and last(e[1])

    for n in W:
        v = g.ev_def(n.i, (), 0)
        ok = all(a[0] == "fld" and a[2] == "Some.0" and pop_some(a[1]) for a in flat(v))
        ck.ob("detach:restored-value", ok, "current becomes %s, not the popped context" % show(v)[:120], g.loc(n.i))
        w = q.unguarded([n], top)
        ck.ob("detach:only-top", w is None, "a guard that is not on top replaces the current context: %s" % w, g.loc(n.i))
    tops = edges(q, top)
    ck.ob("detach:top-branch", bool(tops), "no comparison of the guard's position with the stack length", loc(fn))
    pops = [n for n in q.calls(lambda c: c.name.endswith("Vec::pop")) if on_stack(g.ev(n.d.args[0], n.i), "stack")]

    def live(l):  # the newest slot is known not to be a released one
        return variant_lit(l, "None", last) or variant_lit(l, "Some", last_some)

    def empty(l):
        return variant_lit(l, "None", is_pop)
    # phase 1: before the newest slot is known to be live, a released slot must not end the search
    r1 = q.reach(tops, avoid=q.S(W), cut=lambda l: live(l) or empty(l) or variant_lit(l, "None", last))
    w = (q.exits() & r1)
    ck.ob("detach:skips-released", not w, "the topmost guard can be dropped without restoring a context although a live one is on the stack", loc(fn))
    # phase 2
    lv = edges(q, live)
    r2 = q.reach(lv, avoid=q.S(W), cut=lambda l: empty(l) or variant_lit(l, "None", pop_some))
    ck.ob("detach:restores-live", not (q.exits() & r2 & q.reach(tops)), "the topmost guard can be dropped without restoring the live context below it", loc(fn))
    for n in pops:
        guarded = q.unguarded([n], lambda l: variant_lit(l, "None", last_some)) is None
        w = None if guarded else q.not_after([n], W, excuse=lambda l: empty(l) or variant_lit(l, "None", pop_some))
        ck.ob("detach:pop-only-released-or-restored", w is None, "a live context is discarded from the stack: %s" % w, g.loc(n.i))
        w = q.unguarded([n], top)
        ck.ob("detach:pop-only-top", w is None, "a guard that is not on top removes stack slots: %s" % w, g.loc(n.i))
    # not on top: release exactly the own slot
    low = edges(q, lambda l: top(l, "Ne") or cmp_lit(l, ("Lt",), is_pos, is_len))
    takes = []
    for n in g.nodes:
        if n.k == "as" and n.i in q.ex.by_node and n.d[1][0] == "agg" and n.d[1][1].get("v") == "None" and "*" in n.d[0][2]:
            e = g.place_expr(n.d[0], n.i)
            if e[0] == "call" and e[1].split("::")[-1] in ("index_mut",) and on_stack(e[2][0], "stack") or e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and e[1][1].endswith("get_mut"):
                c = e if e[0] == "call" else e[1]
                takes.append((n, c[2][1]))
    for n, ix in takes:
        ck.ob("detach:own-slot", is_pos(ix), "releases slot %s instead of the guard's own" % show(ix)[:80], g.loc(n.i))
    w = q.skipped([n for n, _ in takes] + W, start=low, excuse=lambda l: cmp_lit(l, ("Le",), is_len, is_pos) or (l[0] == "v" and l[3] == ("None",) and has_call(l[1], "get_mut"))) if takes else "no slot is ever released"
    ck.ob("detach:releases-slot", w is None, "an out-of-order guard does not release its context: %s" % w, loc(fn))
    # every guard that stands for an attached context takes part
    w = q.skipped(set(), start=q.entry(), exits=q.exits(), excuse=lambda l: top(l) or top(l, "Ne") or cmp_lit(l, ("Lt", "Le"), is_pos, is_len) or cmp_lit(l, ("Lt", "Le"), is_len, is_pos)
                  or cmp_lit(l, ("Le",), is_pos, lambda e: intval(e) == 0) or cmp_lit(l, ("Le",), is_max, is_pos)
                  or cmp_lit(l, ("Eq",), is_pos, lambda e: intval(e) in (0, 65535)) or cmp_lit(l, ("Eq",), lambda e: intval(e) in (0, 65535), is_pos)
                  or cmp_lit(l, ("Lt",), is_pos, lambda e: intval(e) == 1))
    ck.ob("detach:always", w is None, "a guard of an attached context can be dropped without touching the stack: %s" % w, loc(fn))


def owners(ck, p):
    ck.rule("only attach and guard drop borrow the stack mutably; the guard cannot leave its thread (it holds a raw pointer marker and nothing implements Send for it)")
    att = {"attach", "drop"}
    n = 0
    for f in p.fns.values():
        if f.crate != "opentelemetry" or not f.d.get("bb"):
            continue
        for b in f.d["bb"]:
            if b and b[1][0] == "call" and "n" in b[1][1]:
                c = b[1][1]
                if c["n"].split("::")[-1] in ("borrow_mut", "try_borrow_mut", "replace", "get_mut", "with_borrow_mut", "as_ptr", "swap", "take") and c["g"] and STACK in p.ty(f.crate, c["g"][0]).s and ("RefCell" in c["n"] or "LocalKey" in c["n"]):
                    n += 1
                    o = f
                    while o.parent and o.parent in p.fns:
                        o = p.fns[o.parent]
                    ck.ob("stack-owner:%s" % o.name, o.item in att and o.self_adt in (CX, "opentelemetry::context::ContextGuard"), "the context stack is modified outside attach/guard drop", loc(f))
    ck.count("mutable_borrows", n)
    ck.floor("mutable_borrows", 2)
    gd = p.adts["opentelemetry::context::ContextGuard"]
    tys = [p.ty(gd["crate"], f[1]).s for f in gd["v"][0]["f"]]
    ck.ob("guard:not-send", any("*const" in t or "*mut" in t or "Rc<" in t for t in tys), "the guard's fields %s let it be sent to another thread" % tys)
    bad = [im["trait"] for im in p.impls if im["self_ty"].adt == "opentelemetry::context::ContextGuard" and im.get("trait", "").split("::")[-1] in ("Send", "Clone", "Copy")]
    ck.ob("guard:no-send-impl", not bad, "guard implements %s" % bad)


def futures(ck, p):
    ck.rule("every poll of a future, stream or sink wrapped with a context happens between attaching that context and dropping the guard; the wrapper stores the given (or the current) context")
    ims = [im for im in p.impls if im["self_ty"].adt == "opentelemetry::context::future_ext::WithContext" and im.get("trait", "").split("::")[-1] in ("Future", "Stream", "Sink")]
    ck.ob("wrapper-impls", len(ims) == 3, "impls of the wrapper: %s" % [im["trait"] for im in ims])
    for im in ims:
        tr = im["trait"].split("::")[-1]
        need = {"Future": ["poll"], "Stream": ["poll_next"], "Sink": ["poll_ready", "start_send", "poll_flush", "poll_close"]}[tr]
        for m in need:
            fn = p.fns.get(im["items"].get(m))
            if fn is None:
                ck.ob("%s:%s" % (tr, m), False, "not forwarded")
                continue
            q = Q(ck.graph(fn, opaque=lambda f: f.item == "attach"))
            g = q.g
            inner = [n for n in q.calls(lambda c: (c.tr or "").split("::")[-1] == tr and c.m == m)]
            inner = [n for n in inner if has(g.ev(n.d.args[0], n.i), lambda e: e[0] == "fld" and e[2] == "inner")]
            att = [n for n in q.calls(lambda c: c.m == "attach" and c.name.endswith("Context::attach"))]
            ok = all(flat(g.ev(n.d.args[0], n.i)) and all(is_otel_cx(a) for a in flat(g.ev(n.d.args[0], n.i))) for n in att)
            ck.ob("%s:%s:attaches-own" % (tr, m), att and ok, "attaches %s" % [show(g.ev(n.d.args[0], n.i)) for n in att], loc(fn))
            ck.ob("%s:%s:forwards" % (tr, m), inner and q.skipped(inner) is None, "the wrapped object is not polled on some path", loc(fn))
            drops = [n for n in g.nodes if n.k == "drop" and n.i in q.ex.by_node and n.d[1].adt == "opentelemetry::context::ContextGuard"]
            drops += [n for n in q.calls(lambda c: c.m in ("drop", "forget") and c.f["g"] and "ContextGuard" in g.p.ty(c.fr.fn.crate, c.f["g"][0]).s)]
            w = q.not_before(att, inner)
            ck.ob("%s:%s:attached-before" % (tr, m), w is None, "polled before its context is attached: %s" % w, loc(fn))
            w = q.can_follow(drops, inner, avoid=att)
            ck.ob("%s:%s:attached-during" % (tr, m), w is None, "polled after the guard is dropped: %s" % w, loc(fn))
            forget = [n for n in drops if n.k == "call" and n.d.m == "forget"]
            w = q.not_after(att, [n for n in drops if n not in forget])
            ck.ob("%s:%s:detached-after" % (tr, m), w is None and not forget, "the context stays attached after the poll: %s" % w, loc(fn))
            ck.count("polls", len(inner))
            for n in inner:
                rest = [g.ev(a, n.i) for a in n.d.args[1:]]
                ck.ob("%s:%s:same-args" % (tr, m), rest == [("arg", i + 1) for i in range(len(rest))], "polled with %s" % [show(x) for x in rest], g.loc(n.i))
            res = flat(q.results())
            ck.ob("%s:%s:returns-inner" % (tr, m), all(r[0] == "call" and r[3] in [n.i for n in inner] for r in res), "returns %s" % [show(r)[:80] for r in res], loc(fn))
    ck.floor("polls", 6)
    for name in ("with_context", "with_current_context"):
        fn = ck.one([f for f in p.fns.values() if f.item == name and f.kind == "fn" and f.name.endswith("future_ext::FutureExt::" + name)], name)
        q = Q(ck.graph(fn))
        for r in flat(q.results()):
            d = dict(r[3]) if r[0] == "agg" else {}
            if r[0] == "call" and r[1].endswith("FutureExt::with_context"):
                d = {"inner": r[2][0], "otel_cx": r[2][1]}
            cx = flat(d.get("otel_cx", ("unk", "")))
            if name == "with_context":
                ok = cx == [("arg", 1)]
            else:
                ok = all(c[0] == "fld" and c[2] == "current_cx" for c in cx)
            ck.ob("%s:stores-context" % name, ok and d.get("inner") == ("arg", 0), "stores %s" % show(r)[:160], loc(fn))


def is_otel_cx(e):
    return e[0] == "fld" and e[2] == "otel_cx" and rooted(e, lambda r: r == ("arg", 0))
