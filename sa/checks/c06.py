"""Providers: shutdown once, of everything, and inert afterwards."""
from checks.util import *
from checks.c04 import SDK, testing

TITLE = "A provider shuts all its components down exactly once and is inert afterwards"
FLOOR = 30
COMP = {"SpanProcessor": "trace", "LogProcessor": "logs", "MetricReader": "metrics"}
DOWN = ("shutdown", "shutdown_with_timeout")


def comp_calls(q, items):
    return q.calls(lambda c: c.m in items and c.tr is not None and last(c.tr) in COMP)


def first_rmw(l):
    """the condition `this call is the one that set the flag`"""
    if l[0] == "v" and l[3] == ("Ok",) and l[1][0] == "call" and last(l[1][1]) in ("compare_exchange",):
        a = l[1][2]
        return a[1][:2] == ("const", False) and a[2][:2] == ("const", True)
    if l[0] == "b" and l[2] is False and l[1][0] == "call" and last(l[1][1]) in ("swap", "fetch_or"):
        return l[1][2][1][:2] == ("const", True)
    return False


def flag_of(e):
    for x in walk(e):
        if x[0] == "call" and last(x[1]) in ("compare_exchange", "swap", "fetch_or", "load"):
            return x[2][0]
    return None


def fld_name(e):
    return e[2] if e and e[0] == "fld" else None


def is_flag(l, name, val):
    return l[0] == "b" and l[2] is val and l[1][0] == "call" and last(l[1][1]) == "load" and fld_name(l[1][2][0]) == name


def was_shut(l, names):
    return any(is_flag(l, n, True) for n in names)


def providers(p):
    """sdk types with an inherent shutdown that reach the components' shutdown, and the provider traits they implement"""
    for im in p.impls:
        t = last(im.get("trait") or "")
        if t in ("TracerProvider", "LoggerProvider", "MeterProvider") and im["crate"] == SDK and im["self_ty"].adt and "testing" not in im["self_ty"].adt:
            yield im["self_ty"].adt, t, im


def inherent(p, adt, name):
    return [f for f in p.fns.values() if f.crate == SDK and f.kind == "fn" and f.item == name and f.name == adt + "::" + name]


def check(ck):
    p = ck.program("all")
    ck.rule("every call of a component's shutdown is dominated by winning the atomic flip of the provider's shutdown flag (or, in Drop, by the flag being clear); from there every path visits every element of the component list")
    ck.rule("the losing side returns AlreadyShutdown and calls no component; Ok is returned only if every component returned Ok; force_flush likewise visits all")
    ck.rule("with the flag set, tracers / loggers / meters handed out carry nothing of the provider; spans are neither started nor handed to processors")
    flags = set()
    n = 0
    for adt, t, im in providers(p):
        tag = adt.replace("opentelemetry_sdk::", "")
        n += 1
        for item in DOWN:
            for f in inherent(p, adt, item):
                g = ck.graph(f)
                q = Q(g)
                C = comp_calls(q, DOWN)
                tg = "%s:%s" % (tag, item)
                ck.ob(tg + ":reaches", bool(C), "no component is shut down", loc(f))
                w = q.unguarded(C, first_rmw)
                ck.ob(tg + ":once", w is None, "components are shut down without winning the shutdown flag: %s" % w, loc(f))
                won = edges(q, first_rmw)
                for s, lab, tt, l in q.literals():
                    if first_rmw(l):
                        fl = flag_of(l[1])
                        ck.ob(tg + ":flag", rooted(fl, lambda x: x == ("arg", 0)), "the flag is not the provider's", loc(f))
                        flags.add(fld_name(fl))
                w = forall(q, won, C)
                ck.ob(tg + ":all", w is None, str(w), loc(f))
                w = ok_only_if_all_ok(q, C)
                ck.ob(tg + ":ok", w is None, str(w), loc(f))
                r = q.reach(q.entry(), cut=first_rmw)
                v = q.pv(g.result_place, q.exits() & r, r) if q.exits() & r else ("never",)
                ck.ob(tg + ":second", all(a[0] == "agg" and a[2] == "Err" and has(a, lambda x: x[0] == "agg" and x[2] == "AlreadyShutdown") for a in flat(v) if a[0] != "never") and v[0] != "never",
                      "a later shutdown returns %s" % show_(v), loc(f))
        ffs = inherent(p, adt, "force_flush")
        ck.ob(tag + ":force_flush", bool(ffs), "no force_flush", "")
        for f in ffs:
            g = ck.graph(f)
            q = Q(g)
            C = comp_calls(q, ("force_flush",))
            shut = lambda l: l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "load" and fld_name(l[1][2][0]) in flags
            w = forall(q, q.entry(), C, cut=shut)
            ck.ob(tag + ":force_flush:all", w is None, str(w), loc(f))
            w = ok_only_if_all_ok(q, C)
            ck.ob(tag + ":force_flush:ok", w is None, str(w), loc(f))
            es = edges(q, shut)
            if es:
                bad = [a for a in flat(q.result_from(es)) if not (a[0] == "agg" and a[2] == "Err")]
                ck.ob(tag + ":force_flush:after-shutdown", not bad, "flushing a shut down provider reports %s" % (show_(bad[0]) if bad else ""), loc(f))
        # --- inert afterwards
        for item in ("tracer_with_scope", "logger_with_scope", "meter_with_scope"):
            if item not in im["items"]:
                continue
            f = p.fns[im["items"][item]]
            g = ck.graph(f)
            q = Q(g)
            es = edges(q, lambda l: was_shut(l, flags))
            ck.ob("%s:%s:looks" % (tag, item), bool(es), "does not look at the shutdown flag", loc(f))
            w = None
            live = [a for a in flat(q.result_from(es))] if es else []
            bad = [a for a in live if has(a, lambda x: x == ("arg", 0))]
            ck.ob("%s:%s:inert" % (tag, item), bool(live) and not bad, "hands out %s after shutdown" % (show_(bad[0]) if bad else "nothing"), loc(f))
            r = q.reach(q.entry(), cut=lambda l: is_flag_any(l, flags, False) or was_shut(l, flags))
            ck.ob("%s:%s:always-looks" % (tag, item), not (q.exits() & r), "can return without looking at the shutdown flag", loc(f))
        for item in ("tracer", "logger", "meter"):
            if item in im["items"]:
                f = p.fns[im["items"][item]]
                g = ck.graph(f)
                q = Q(g)
                r = q.reach(q.entry(), cut=lambda l: is_flag_any(l, flags, False) or was_shut(l, flags))
                ck.ob("%s:%s:always-looks" % (tag, item), not (q.exits() & r), "can return without looking at the shutdown flag", loc(f))
    ck.count("providers", n)
    ck.floor("providers", 3)
    # --- Drop
    drops = 0
    for im in p.impls:
        if not (im.get("trait") or "").endswith("ops::drop::Drop") or im["crate"] != SDK or not im["self_ty"].adt:
            continue
        f = p.fns.get(im["items"].get("drop"))
        if f is None or testing(f) or "provider" not in f.file:
            continue
        tag = im["self_ty"].adt.replace("opentelemetry_sdk::", "") + ":drop"
        g = ck.graph(f)
        q = Q(g)
        C = comp_calls(q, DOWN)
        drops += 1
        set_ = lambda l: was_shut(l, flags) or l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "swap" or l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and last(l[1][1]) == "compare_exchange"
        w = forall(q, q.entry(), C, cut=set_)
        ck.ob(tag + ":all", w is None, str(w), loc(f))
        on = edges(q, lambda l: was_shut(l, flags))
        r = q.reach(on)
        ck.ob(tag + ":not-again", not (q.S(C) & r), "shuts the components of a shut down provider down again", loc(f))
        w = q.unguarded(C, lambda l: is_flag_any(l, flags, False) or first_rmw(l))
        ck.ob(tag + ":guarded", w is None, "shuts components down without looking at the flag: %s" % w, loc(f))
    ck.count("drops", drops)
    ck.floor("drops", 3)
    # --- the flag is only ever raised
    writes = 0
    for f in p.fns.values():
        if f.crate != SDK or testing(f) or "provider" not in f.file:
            continue
        g = ck.graph(f, max_depth=0)
        q = Q(g)
        for nd in q.calls(lambda c: last(c.name) in ("store", "swap", "compare_exchange", "fetch_and", "fetch_or", "fetch_xor", "compare_exchange_weak", "fetch_update", "fetch_not") and "atomic" in c.name):
            e = g.ev(nd.d.args[0], nd.i)
            if fld_name(e) in flags:
                writes += 1
                m = last(nd.d.name)
                a = [g.ev(x, nd.i) for x in nd.d.args[1:]]
                v = a[1] if m == "compare_exchange" else a[0]
                ck.ob("flag-only-raised:%s" % f.name, m in ("store", "swap", "compare_exchange", "fetch_or") and v[:2] == ("const", True), "the shutdown flag can be cleared", g.loc(nd.i))
    ck.ob("flag-writes", writes >= 3, "found %d places that raise the flag" % writes, "")
    # --- spans of a provider that was shut down
    for im in p.impls:
        t = im.get("trait") or ""
        if t.endswith("trace::tracer::Tracer") and im["crate"] == SDK:
            f = p.fns[im["items"]["build_with_context"]]
            g = ck.graph(f)
            q = Q(g)
            C = q.calls(lambda c: c.tr is not None and last(c.tr) in ("SpanProcessor", "ShouldSample", "IdGenerator"))
            ck.ob("tracer:components", bool(C), "the tracer calls no component", loc(f))
            w = q.unguarded(C, lambda l: is_flag_any(l, flags, False))
            ck.ob("tracer:starts-nothing-after-shutdown", w is None, "a span may be started without looking at the shutdown flag: %s" % w, loc(f))
            es = edges(q, lambda l: was_shut(l, flags))
            bad = [a for a in flat(q.result_from(es)) if recording(a)] if es else ["?"]
            ck.ob("tracer:inert-span", not bad, "a recording span is created after shutdown", loc(f))
        if (t.endswith("ops::drop::Drop") or t.endswith("trace::span::Span")) and im["crate"] == SDK and (im["self_ty"].adt or "").endswith("trace::span::Span"):
            for item in ("drop", "end_with_timestamp"):
                if item in im["items"]:
                    f = p.fns[im["items"][item]]
                    g = ck.graph(f)
                    q = Q(g)
                    C = q.calls(lambda c: c.tr is not None and last(c.tr) == "SpanProcessor")
                    ck.ob("span:%s:ends" % item, bool(C), "reaches no processor", loc(f))
                    w = q.unguarded(C, lambda l: is_flag_any(l, flags, False))
                    ck.ob("span:%s:nothing-after-shutdown" % item, w is None, "a span may reach a processor without looking at the shutdown flag: %s" % w, loc(f))


def is_flag_any(l, names, val):
    return any(is_flag(l, n, val) for n in names)


def recording(a):
    """the span's data is present"""
    d = dict(a[3]).get("data") if a[0] == "agg" else None
    return d is None or not (d[0] == "agg" and d[2] == "None")
