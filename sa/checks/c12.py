"""C12: identity and parentage of spans"""
from checks.spans import *

TITLE = "A new span takes its identity, parent and data from context and builder"
FLOOR = 90
SC = "opentelemetry::trace::span_context::SpanContext"
BUILDER = "opentelemetry::trace::tracer::SpanBuilder"
ALL = ("RecordAndSample", "RecordOnly", "Drop")


def accessors(ck, p):
    """public accessor -> component of the span context it reads"""
    out = {}
    for m in ("trace_id", "span_id", "trace_flags", "is_remote", "trace_state"):
        f = ck.one(p.method(SC, m), "SpanContext::" + m)
        v = flat(under(Q(ck.graph(f)), ()))
        root, pr = proj_of(v[0])
        ck.ob("SpanContext::%s" % m, len(v) == 1 and root == ("arg", 0) and len(pr) == 1, "is not a component of the span context", loc(f))
        out[m] = pr
    ck.ob("SpanContext:distinct", len(set(out.values())) == 5, "two accessors read the same component")
    f = ck.one(p.method(SC, "new"), "SpanContext::new")
    q = Q(ck.graph(f))
    for i, m in enumerate(("trace_id", "span_id", "trace_flags", "is_remote", "trace_state")):
        v = [norm(a) for a in flat(under(q, out[m]))]
        ck.ob("SpanContext::new:%s" % m, v == [("arg", i)], "stores %s as %s" % (show_(v[0]), m), loc(f))
    return out


def parent_cuts(acc):
    """(valid parent, no parent, invalid parent) as cuts over branches"""
    P = lambda e: rooted(e, lambda r: r == ("arg", 2))

    def has_span(l, name):
        if l[0] != "v" or not l[2].endswith("option::Option") or l[3] != (name,):
            return False
        # the option itself, or one rebuilt from it (`cx.has_active_span().then(..)`, a filter, ...)
        held = [x for a in alts(l[1]) if a[0] == "agg" and a[2] == "Some" for _, x in a[3]]
        return P(l[1]) or bool(held) and all(has(x, P) for x in held) and all(a[0] == "agg" or P(a) for a in alts(l[1]))

    def invalid(l, want):
        """branch that shows an id of the parent to be (not) the invalid one"""
        for m in ("trace_id", "span_id"):
            r = eq_lit(l, lambda e: any(P(a) and a[0] == "fld" and (("f", a[2]),) == acc[m] for a in alts(e)), lambda e: e[0] == "const" and e[2] and str(e[2]).endswith("INVALID"))
            if r is not None and r is want:
                return True
        return l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "is_valid" and any(P(a) for a in alts(l[1][2][0])) and l[2] is (not want)
    return has_span, invalid


def some(root, k):
    """cuts the branches on which builder field k is absent / present"""
    at = ("fld", ("arg", root), k)
    return (lambda l: l[0] == "v" and norm(l[1]) == at and l[3] == ("None",)), (lambda l: l[0] == "v" and norm(l[1]) == at and l[3] == ("Some",))


def check(ck):
    p = ck.program("all")
    ck.rule("span creation: trace id = the valid active parent's, else the builder's, else the id generator's; parent id = the valid parent's span id, else the invalid one; span id = the builder's or the generator's; never remote")
    ck.rule("name, kind, status, start and end time are the builder's, with Internal, the present and the start time as defaults")
    ck.rule("the active span of the context given (or the current one) is the parent; every builder setter sets its own field and keeps the others; the tracer's scope is the one it was asked for")
    acc = accessors(ck, p)
    F, OPT, fx = layout(ck, p)
    f = ck.one(p.method(TRACER, "build_with_context"), "SdkTracer::build_with_context")
    q = Q(ck.graph(f))
    base = recording(ALL)
    rec = recording()
    has_span, invalid = parent_cuts(acc)
    sc = path_to(F, "span_context")
    isp = lambda a, m: a[0] == "fld" and (("f", a[2]),) == acc[m] and rooted(a, lambda r: r == ("arg", 2))
    gen = lambda a, m: a[0] == "call" and last(a[1]) == m
    b = lambda k: ("fld", ("fld", ("arg", 1), k), "Some.0")
    tid, sid, psid = sc + acc["trace_id"], sc + acc["span_id"], path_to(F, "parent_span_id")

    def expect(key, proj, cut, ok, what, starts=None):
        v = [a for a in flat(under(q, proj, cut=cut, starts=starts)) if a != ("never",)]
        bad = [a for a in v if not ok(a)]
        ck.ob(key, bool(v) and not bad, "%s: %s" % (what, show_(bad[0]) if bad else "never produced"), loc(f))
        ck.count("identity facts")
    tid_none, tid_some = some(1, "trace_id")
    no_parent = both(base, lambda l: has_span(l, "Some"))
    valid = both(base, lambda l: has_span(l, "None") or invalid(l, True))
    expect("trace-id:parent", tid, valid, lambda a: isp(a, "trace_id"), "a child span's trace id is not its parent's")
    expect("trace-id:builder", tid, both(no_parent, tid_none), lambda a: norm(a) == b("trace_id"), "a root span's trace id is not the given one")
    expect("trace-id:generated", tid, both(no_parent, tid_some), lambda a: gen(a, "new_trace_id"), "a root span's trace id is not a generated one")
    inv = edges(q, lambda l: invalid(l, True))
    ck.ob("invalid-parent:tested", bool(inv), "the active parent's validity is never examined", loc(f))
    expect("trace-id:invalid-parent", tid, base, lambda a: gen(a, "new_trace_id") or norm(a) == b("trace_id"), "a span whose parent is invalid gets trace id", starts=inv)
    expect("parent-id:parent", psid, both(rec, valid), lambda a: isp(a, "span_id"), "a child span's parent id is not its parent's span id")
    nil = lambda a: a[0] == "const" or a[0] == "fld" and a[1][0] == "const" and (("f", a[2]),) == acc["span_id"]
    expect("parent-id:root", psid, both(rec, no_parent), nil, "a root span has a parent id")
    expect("parent-id:invalid-parent", psid, rec, nil, "a span whose parent is invalid has a parent id", starts=inv)
    s_none, s_some = some(1, "span_id")
    expect("span-id:builder", sid, both(base, s_none), lambda a: norm(a) == b("span_id"), "the span id is not the given one")
    expect("span-id:generated", sid, both(base, s_some), lambda a: gen(a, "new_span_id"), "the span id is not a generated one")
    expect("not-remote", sc + acc["is_remote"], base, lambda a: a[:2] == ("const", False), "a local span claims to be remote")
    expect("name", path_to(F, "name"), rec, lambda a: norm(a) == ("fld", ("arg", 1), "name"), "the name is not the builder's")
    expect("status", path_to(F, "status"), rec, lambda a: norm(a) == ("fld", ("arg", 1), "status"), "the status is not the builder's")
    n_, s_ = some(1, "span_kind")
    expect("kind:given", path_to(F, "span_kind"), both(rec, n_), lambda a: norm(a) == b("span_kind"), "the kind is not the given one")
    expect("kind:default", path_to(F, "span_kind"), both(rec, s_), lambda a: a[0] == "agg" and a[2] == "Internal", "the kind of a span without one is not Internal")
    n_, s_ = some(1, "start_time")
    en, es = some(1, "end_time")
    st, et = path_to(F, "start_time"), path_to(F, "end_time")
    expect("start-time:given", st, both(rec, n_), lambda a: norm(a) == b("start_time"), "the start time is not the given one")
    expect("start-time:default", st, both(rec, s_), is_now, "the start time is not the present")
    expect("end-time:given", et, both(rec, en), lambda a: norm(a) == b("end_time"), "the end time is not the given one")
    expect("end-time:default", et, both(rec, es, n_), lambda a: norm(a) == b("start_time"), "the provisional end time is not the start time")
    now_s = {a[3] for a in flat(under(q, st, cut=both(rec, s_))) if a[0] == "call"}
    expect("end-time:default-now", et, both(rec, es, s_), lambda a: a[0] == "call" and a[3] in now_s, "the provisional end time is not the start time")
    expect("scope", path_to(F, "instrumentation_scope"), base, lambda a: rooted(a, lambda r: r == ("arg", 0)), "the span's scope is not its tracer's")
    scp = under(q, path_to(F, "instrumentation_scope"), cut=base)
    # the tracer's scope
    f = ck.one(p.method("SdkTracerProvider", "tracer_with_scope"), "SdkTracerProvider::tracer_with_scope")
    q2 = Q(ck.graph(f))
    v = [norm(a) for a in flat(under(q2, proj_of(flat(scp)[0])[1]))]
    ck.ob("tracer:scope", v == [("arg", 1)], "a tracer's scope is not the requested one: %s" % show_(v[0]), loc(f))
    f = ck.one(p.method("SdkTracerProvider", "tracer"), "SdkTracerProvider::tracer")
    q2 = Q(ck.graph(f))
    v = flat(under(q2, proj_of(flat(scp)[0])[1] + (("f", "name"),)))
    ck.ob("tracer:name", [norm(a) for a in v] == [("arg", 1)], "a tracer's name is not the requested one: %s" % show_(v[0]), loc(f))
    # on_start sees the new span and the context
    for n in q.calls(lambda c: c.m == "on_start"):
        cx = norm(q.g.ev(n.d.args[2], n.i))
        ck.ob("on_start:context", cx == ("arg", 2), "processors are given another parent context", q.g.loc(n.i))
    # the API's ways of starting a span
    def is_cur(a):
        """the thread's current context"""
        return all(x[0] == "fld" and any(y[0] in ("static", "const") and "CURRENT_CONTEXT" in str(y) for y in walk(x)) for x in flat(a))
    forms = {"Tracer::build": ("build_with_context", [0, 1, "cur"]), "Tracer::start_with_context": ("build_with_context", [0, "named", 2]), "Tracer::start": (None, [0, "named", "cur"]),
             "SpanBuilder::start": ("build_with_context", [1, 0, "cur"]), "SpanBuilder::start_with_context": ("build_with_context", [1, 0, 2])}
    for name, (m, want) in sorted(forms.items()):
        fn = ck.one([x for x in p.fns.values() if x.name == "opentelemetry::trace::tracer::" + name], name)
        q3 = Q(ck.graph(fn))
        C = q3.calls(lambda c: c.m in ("build_with_context", "start_with_context", "build") and c.tr is not None and c.tr.endswith("Tracer"))
        w = q3.skipped(C)
        ck.ob(name + ":starts", bool(C) and w is None, "no span is started: %s" % w, loc(fn))
        for n in C:
            a = [q3.g.ev(x, n.i) for x in n.d.args]
            ok = norm(a[0]) == ("arg", want[0])
            if want[1] == "named":
                ok = ok and all(norm(x) == ("arg", 1) for x in flat(opnd(q3, n, n.d.args[1], rest=(("f", "name"),) if n.d.m != "start_with_context" else ())))
            else:
                ok = ok and norm(a[1]) == ("arg", want[1])
            if n.d.m != "build":
                ok = ok and (is_cur(a[2]) if want[2] == "cur" else norm(a[2]) == ("arg", want[2]))
            ck.ob(name + ":arguments", ok, "starts a span from something else than its arguments%s" % (" and the current context" if want[2] == "cur" else ""), q3.g.loc(n.i))
        v = [x for x in flat(under(q3, ()))]
        ck.ob(name + ":result", bool(v) and all(x[0] == "call" and any(x[3] == n.i for n in C) for x in v), "does not return the span it started", loc(fn))
    fn = ck.one([x for x in p.fns.values() if x.name == "opentelemetry::trace::tracer::Tracer::in_span"], "in_span")
    q3 = Q(ck.graph(fn))
    run = q3.calls(lambda c: c.m in ("call_once", "call_mut", "call"))
    run = [n for n in run if norm(q3.g.ev(n.d.args[0], n.i)) == ("arg", 2)]
    st_ = q3.calls(lambda c: c.m in ("start", "start_with_context", "build", "build_with_context") and c.tr is not None and c.tr.endswith("Tracer"))
    ids = {n.i for n in st_}
    ck.ob("in_span:runs", bool(run) and q3.skipped(run) is None and q3.not_before(st_, run) is None, "the function is not run within a started span", loc(fn))
    for n in run:
        cxs = [a for x in flat(q3.g.ev(n.d.args[1], n.i)) for a in flat(x[1][0] if x[0] == "tuple" else x)]
        good = [a for a in cxs if a[0] == "agg" and any(k == "span" and has(v, lambda y: y[0] == "call" and y[3] in ids) for k, v in a[3])]
        ck.ob("in_span:context", bool(cxs) and len(good) == len(cxs), "the function's context does not hold the span", q3.g.loc(n.i))
    full = lambda l: l[0] == "cmp" and l[1] in ("Le", "Lt", "Ge", "Gt") and any(x[0] == "const" for x in l[2:]) and any(has(x, lambda y: y[0] in ("un", "call", "len") and "en" in str(y[1])) for x in l[2:])
    w = q3.not_before([n for n in q3.calls(lambda c: True) if last(n.d.name) in ("replace", "attach") and any(has(q3.g.ev(a, n.i), lambda y: y[0] == "call" and y[3] in ids) for a in n.d.args[-1:])], run, cut=full)
    if w is None:
        gone = [n for n in q3.g.nodes if n.k == "drop" and n.i in q3.ex.by_node and (n.d[1].adt or "").endswith("ContextGuard")]
        gone += q3.calls(lambda c: c.m == "drop" and c.f.get("g") and "ContextGuard" in q3.g.p.ty(c.fr.fn.crate, c.f["g"][0]).s)
        w = q3.can_follow(gone, run)
    ck.ob("in_span:current", w is None, "the span is not current while the function runs: %s" % w, loc(fn))
    # builder setters
    fields = ("trace_id", "span_id", "span_kind", "name", "start_time", "end_time", "attributes", "events", "links", "status", "sampling_result")
    own = {"with_kind": "span_kind"}
    for x in sorted(p.fns.values(), key=lambda x: x.name):
        if x.self_adt == BUILDER and x.kind == "fn" and not x.trait and x.item.startswith("with_"):
            k0 = own.get(x.item, x.item[5:])
            q4 = Q(ck.graph(x))
            for k in fields:
                vs = flat(under(q4, (("f", k),)))
                if k != k0:
                    ck.ob("%s:keeps:%s" % (x.item, k), [norm(a) for a in vs] == [("fld", ("arg", 0), k)], "also changes %s" % k, loc(x))
                    continue
                good = bool(vs)
                for a in vs:
                    a = dict(a[3])["0"] if a[0] == "agg" and a[2] == "Some" else a
                    while a[0] == "call" and last(a[1]) in ("collect", "into_iter", "into", "to_vec") and len(a[2]) == 1:
                        a = a[2][0]
                    good = good and norm(a) == ("arg", 1)
                lose = [n for n in q4.calls(lambda c: last(c.name) in LOSING and c.args) if norm(q4.g.ev(n.d.args[0], n.i)) == ("arg", 1) and not (k == "links" and last(n.d.name) == "retain")]
                ck.ob("%s:sets" % x.item, good and not lose, "does not set %s to what was given: %s" % (k, show_(vs[0])), loc(x))
            ck.count("builder setters")
    ck.floor("builder setters", 10)
    ck.floor("identity facts", 20)
