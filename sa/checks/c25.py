"""C25: the API layer forwards to the implementation behind it, unchanged and once"""
from checks.assume import *
from checks.c15 import bare
from checks.c17 import called
from checks.flags import iszero
from checks.util import PARTIAL_IT

TITLE = "The API hands every call on to the installed implementation once, unchanged"
FLOOR = 120
T = "opentelemetry::trace::"
GL = "opentelemetry::global::trace::"
ARG = lambda i: ("arg", i)
SPANM = {"add_event_with_timestamp": 3, "span_context": 0, "is_recording": 0, "set_attribute": 1, "set_status": 1, "update_name": 1, "add_link": 2, "end_with_timestamp": 1}
KINDS = ("u64_counter", "f64_counter", "u64_observable_counter", "f64_observable_counter", "i64_up_down_counter", "f64_up_down_counter", "i64_observable_up_down_counter", "f64_observable_up_down_counter",
         "u64_gauge", "f64_gauge", "i64_gauge", "u64_observable_gauge", "i64_observable_gauge", "f64_observable_gauge", "f64_histogram", "u64_histogram")


def inner(e, root=ARG(0)):
    """self, or what it wraps"""
    e = bare(norm(e))
    while e[0] == "fld" or e[0] == "call" and e[2] and last(e[1]) in ("deref", "as_ref", "deref_mut", "as_mut", "lock", "borrow", "into_inner"):
        if e[0] == "fld" and e == root:
            break
        e = e[1] if e[0] == "fld" else e[2][0]
    return e == root


def plain(e):
    """a value through conversions that keep it"""
    e = norm(e)
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in ("into", "from", "clone", "into_iter", "collect", "to_vec", "as_ref", "deref"):
        e = norm(e[2][0])
    return e


def values(g, n, op):
    return [plain(a) for a in flat(norm(g.ev(op, n.i)))]


def deps(e, want):
    return want(e) if callable(want) else plain(e) == want


def forward(ck, key, q, f, pred, args, cut=None, res=None, what=None, others=None):
    """on every path (but those cut) exactly one of the calls `pred` is made, with these arguments; its answer is the result"""
    g = q.g
    C = [n for n in q.calls(lambda c: pred(c))]
    at = loc(f)
    if not C:
        ck.ob(key + ":once", False, "%s calls no %s" % (f.name, what or "implementation"), at)
        return []
    w = q.skipped(C, excuse=cut)
    ck.ob(key + ":always", w is None, "%s can return without calling %s: %s" % (f.name, last(C[0].d.name), w), at)
    live = q.reach(q.entry(), cut=cut)
    C2 = [n for n in C if q.S([n]) & live]
    w = q.can_follow(C2, C2, cut=cut)
    ck.ob(key + ":once", w is None, "%s calls %s more than once: %s" % (f.name, last(C[0].d.name), w), at)
    for n in C2:
        for i, want in enumerate(args):
            if want is None:
                continue
            vs = values(g, n, n.d.args[i]) if i < len(n.d.args) else []
            if cut is not None and not all(deps(v, want) for v in vs):
                vs = [plain(a) for a in flat(opnd(q, n, n.d.args[i], cut))]
            ck.ob("%s:arg%d" % (key, i), bool(vs) and all(deps(v, want) for v in vs), "%s is called with %s" % (last(n.d.name), [show_(v) for v in vs]), g.loc(n.i))
            lose = [m for m in q.calls(lambda c: last(c.name) in LOSING and c.args) if not callable(want) and norm(g.ev(m.d.args[0], m.i)) == want]
            ck.ob("%s:arg%d:whole" % (key, i), not lose, "part of it is thrown away before", g.loc(lose[0].i) if lose else at)
    if res is not None:
        vs = [norm(a) for a in flat(under(q, (), cut))]
        ck.ob(key + ":result", bool(vs) and all(res(v) for v in vs), "%s returns %s" % (f.name, [show_(v) for v in vs]), at)
    ck.count("forwarders")
    return C2


def is_m(*ms):
    return lambda c: c.m in ms and c.fn_trait_like


def of(suffixes, m):
    """call of method m of one of these traits"""
    return lambda c: any(c.name.endswith("%s::%s" % (s, m)) for s in suffixes)


def ans(m):
    return lambda v: called(v, m)


def some_ok(l):
    """edges on which there is no span to talk to"""
    return l[0] == "v" and (l[3] == ("None",) and inner(l[1]) or l[3] == ("Err",) and has(l[1], lambda x: x[0] == "call" and last(x[1]) == "lock"))


def now(v):
    return is_now(v)


def spans(ck, p):
    SP = [T + "span::Span", GL + "ObjectSafeSpan"]
    for adt, nm, tr in ((None, "ObjectSafeSpan", GL + "ObjectSafeSpan"), (GL + "BoxedSpan", "BoxedSpan", T + "span::Span")):
        for m, k in SPANM.items():
            fs = [x for x in p.fns.values() if x.item == m and x.trait == tr and x.self_adt == adt and x.parent is None and x.crate == "opentelemetry" and x.kind == "fn"]
            f = ck.one(fs, "%s::%s" % (nm, m))
            q = Q(ck.graph(f))
            forward(ck, "%s:%s" % (nm, m), q, f, of([SP[1]] if adt else [SP[0]], m), [inner] + [ARG(i + 1) for i in range(k)], res=ans(m) if m in ("span_context", "is_recording") else None)
    # default methods
    span = lambda m: ck.one([x for x in p.fns.values() if x.name == T + "span::Span::" + m], "Span::" + m)
    IS = lambda val: (lambda l: l[0] == "b" and called(l[1], "is_recording") and l[2] is val)
    f = span("add_event")
    forward(ck, "default:add_event", Q(ck.graph(f)), f, of(SP, "add_event_with_timestamp"), [ARG(0), ARG(1), now, ARG(2)])
    f = span("end")
    forward(ck, "default:end", Q(ck.graph(f)), f, of(SP, "end_with_timestamp"), [ARG(0), now])
    f = ck.one([x for x in p.fns.values() if x.name == GL + "ObjectSafeSpan::end"], "ObjectSafeSpan::end")
    forward(ck, "default:ObjectSafeSpan:end", Q(ck.graph(f)), f, of(SP, "end_with_timestamp"), [ARG(0), now])
    f = span("record_error")
    q = Q(ck.graph(f))
    forward(ck, "default:record_error", q, f, of(SP, "add_event_with_timestamp") if q.calls(of(SP, "add_event_with_timestamp")) else of(SP, "add_event"),
            [ARG(0), lambda v: const_str(v) == "exception"], cut=IS(False))
    ev = q.calls(of(SP, "add_event_with_timestamp")) or q.calls(of(SP, "add_event"))
    uses = [n for n in q.calls(lambda c: True) if any(plain(q.g.ev(a, n.i)) == ARG(1) for a in n.d.args)]
    text = [n for n in uses if n.d.m == "to_string" or "fmt::" in n.d.name and n.d.m == "new_display"]
    uses = [n for n in uses if n in text or n.d.m not in ("into", "from", "must_use", "format", "deref")]
    ck.ob("default:record_error:message", bool(text) and text == uses and q.not_before(text, ev) is None and not any(x[0] == "call" and last(x[1]) in PARTIAL_IT for n in ev for x in walk(q.g.ev(n.d.args[-1], n.i))),
          "the event does not carry the error's own text", loc(f))
    ck.ob("default:record_error:key", any(const_str(x) == "exception.message" for n in q.calls(lambda c: True) for a in n.d.args for x in walk(norm(q.g.ev(a, n.i)))), "the text is not kept under exception.message", loc(f))
    f = span("set_attributes")
    q = Q(ck.graph(f))
    C = q.calls(of(SP, "set_attribute"))
    w = forall(q, q.entry(), C, B={ARG(1)}, cut=IS(False))
    ck.ob("default:set_attributes:every", bool(C) and w is None, "not every attribute is set: %s" % w, loc(f))
    for n in C:
        ck.ob("default:set_attributes:self", [norm(x) for x in flat(q.g.ev(n.d.args[0], n.i))] == [ARG(0)], "set on something else", q.g.loc(n.i))
        v = [bare(norm(x)) for x in flat(q.g.ev(n.d.args[1], n.i))]
        ck.ob("default:set_attributes:value", v == [("elem", ARG(1))], "sets %s" % [show_(x) for x in v], q.g.loc(n.i))
    # span references
    R = T + "context::SpanRef"
    ref = lambda m: ck.one(p.method(R, m), "SpanRef::" + m)
    locked = lambda v: inner(v)
    for m, tm, args in (("add_event", "add_event_with_timestamp", [locked, ARG(1), now, ARG(2)]), ("add_event_with_timestamp",) * 2 + ([locked, ARG(1), ARG(2), ARG(3)],),
                        ("set_attribute",) * 2 + ([locked, ARG(1)],), ("set_status",) * 2 + ([locked, ARG(1)],), ("update_name",) * 2 + ([locked, ARG(1)],),
                        ("end", "end_with_timestamp", [locked, now]), ("end_with_timestamp",) * 2 + ([locked, ARG(1)],)):
        f = ref(m)
        forward(ck, "SpanRef:" + m, Q(ck.graph(f)), f, of(SP, tm), args, cut=some_ok)
    f = ref("is_recording")
    q = Q(ck.graph(f))
    forward(ck, "SpanRef:is_recording", q, f, of(SP, "is_recording"), [locked], cut=some_ok, res=ans("is_recording"))
    none = lambda l: l[0] == "v" and l[3] == ("Some",) and norm(l[1]) == ("fld", ("fld", ARG(0), "0"), "inner")
    vs = flat(under(q, (), none))
    ck.ob("SpanRef:is_recording:none", bool(vs) and all(x[0] == "const" and x[1] is False or iszero(x) for x in vs), "a context without a span is said to record: %s" % [show_(x) for x in vs], loc(f))
    f = ref("span_context")
    vs = [norm(x) for x in flat(under(Q(ck.graph(f)), ()))]
    ck.ob("SpanRef:span_context", vs == [("fld", ("fld", ARG(0), "0"), "span_context")], "returns %s" % [show_(x) for x in vs], loc(f))
    f = ref("record_error")
    q = Q(ck.graph(f))
    cut = lambda l: some_ok(l) or IS(False)(l)
    forward(ck, "SpanRef:record_error", q, f, of(SP, "add_event_with_timestamp"), [locked, lambda v: const_str(v) == "exception"], cut=cut)
    f = ref("set_attributes")
    q = Q(ck.graph(f))
    C = q.calls(of(SP, "set_attribute"))
    w = forall(q, q.entry(), C, B={ARG(1)}, cut=cut)
    ck.ob("SpanRef:set_attributes:every", bool(C) and w is None, "not every attribute is set: %s" % w, loc(f))
    # a span put into a context
    fs = [x for x in p.fns.values() if x.trait == "core::convert::From" and x.self_adt == T + "context::SynchronizedSpan"]
    for f in fs:
        q = Q(ck.graph(f))
        sc = [plain(x) for x in flat(under(q, (("f", "span_context"),)))]
        inn = [norm(x) for x in flat(under(q, (("f", "inner"),)))]
        if all(x[0] == "agg" and x[2] == "None" for x in inn):
            ck.ob("synchronized:remote", sc == [ARG(0)], "a remote context is kept as %s" % [show_(x) for x in sc], loc(f))
        else:
            ck.ob("synchronized:context", bool(sc) and all(called(x, "span_context") and plain(x[2][0]) == ARG(0) for x in sc), "the context of a span is kept as %s" % [show_(x) for x in sc], loc(f))
            ck.ob("synchronized:span", bool(inn) and all(x[0] == "agg" and x[2] == "Some" and has(x, lambda y: y == ARG(0)) for x in inn), "the span itself is not kept", loc(f))
        ck.count("conversions")
    ck.floor("conversions", 2)
    X = T + "context::TraceContextExt"
    ext = lambda m: ck.one([x for x in p.fns.values() if x.trait == X and x.item == m and x.kind == "fn" and x.parent is None], m)
    f = ext("span")
    q = Q(ck.graph(f))
    SPANF = ("fld", ARG(0), "span")
    has_ = lambda v: (lambda l: l[0] == "v" and norm(l[1]) == SPANF and l[3] == (v,))
    vs = [plain(x) for x in flat(under(q, (("f", "0"),), has_("None")))]
    ck.ob("context:span", vs == [("fld", SPANF, "Some.0")], "the span of a context with a span is %s" % [show_(x) for x in vs], loc(f))
    vs = [plain(x) for x in flat(under(q, (("f", "0"),), has_("Some")))]
    ck.ob("context:nospan", bool(vs) and not any(has(x, lambda y: y == ARG(0)) for x in vs), "the span of a context without one is %s" % [show_(x) for x in vs], loc(f))
    f = ext("has_active_span")
    q = Q(ck.graph(f))
    for v, want in (("Some", 1), ("None", 0)):
        def env(e, v=v, want=want):
            e = norm(e)
            if e == SPANF:
                return V(v)
            return None
        vs = {val(x, env, p) for x in flat(under(q, (), under_env(env, p)))}
        ok = vs <= {bool(want), want} and bool(vs)
        if not ok:
            r = flat(under(q, ()))
            ok = all(called(norm(x), "is_some") and norm(norm(x)[2][0]) == SPANF for x in r)
        ck.ob("context:has_active_span:" + v, ok, "says %s for a context whose span is %s" % (vs, v), loc(f))


def current(v):
    """the calling thread's current context"""
    return has(v, lambda x: x[0] == "fld" and x[2] == "current_cx")


def is_call_once(a):
    return lambda c: c.m in ("call_once", "call", "call_mut") and True


def tracers(ck, p):
    TR = T + "tracer::Tracer"
    BW = [TR, GL + "ObjectSafeTracer"]
    tr = lambda m: ck.one([x for x in p.fns.values() if x.name == TR + "::" + m], "Tracer::" + m)

    def named(v):
        """a span builder with nothing but the name given"""
        v = norm(v)
        if v[0] == "call" and last(v[1]) in ("from_name", "span_builder"):
            return plain(v[2][-1]) == ARG(1)
        return v[0] == "agg" and v[1].endswith("SpanBuilder") and all(plain(x) == ARG(1) if k == "name" else not has(x, lambda y: y == ARG(1)) for k, x in v[3])
    f = tr("start")
    q = Q(ck.graph(f))
    if q.calls(of([TR], "start_with_context")):
        forward(ck, "tracer:start", q, f, of([TR], "start_with_context"), [ARG(0), ARG(1), current])
    else:
        forward(ck, "tracer:start", q, f, of([TR], "build_with_context"), [ARG(0), named, current])
    f = tr("start_with_context")
    forward(ck, "tracer:start_with_context", Q(ck.graph(f)), f, of([TR], "build_with_context"), [ARG(0), named, ARG(2)], res=ans("build_with_context"))
    f = tr("build")
    forward(ck, "tracer:build", Q(ck.graph(f)), f, of([TR], "build_with_context"), [ARG(0), ARG(1), current])
    f = tr("span_builder")
    vs = flat(under(Q(ck.graph(f)), ()))
    ck.ob("tracer:span_builder", bool(vs) and all(named(x) for x in vs), "the builder is %s" % [show_(x) for x in vs], loc(f))
    B = T + "tracer::SpanBuilder"
    f = ck.one(p.method(B, "start"), "SpanBuilder::start")
    forward(ck, "builder:start", Q(ck.graph(f)), f, of([TR], "build_with_context"), [ARG(1), ARG(0), current])
    f = ck.one(p.method(B, "start_with_context"), "SpanBuilder::start_with_context")
    forward(ck, "builder:start_with_context", Q(ck.graph(f)), f, of([TR], "build_with_context"), [ARG(1), ARG(0), ARG(2)], res=ans("build_with_context"))
    f = ck.one(p.method(GL + "BoxedTracer", "build_with_context"), "BoxedTracer::build_with_context")
    forward(ck, "BoxedTracer:build_with_context", Q(ck.graph(f)), f, of(BW, "build_with_context_boxed"), [inner, ARG(1), ARG(2)], res=lambda v: has(v, ans("build_with_context_boxed")))
    f = ck.one([x for x in p.fns.values() if x.item == "build_with_context_boxed" and x.trait == GL + "ObjectSafeTracer"], "ObjectSafeTracer")
    forward(ck, "ObjectSafeTracer:build", Q(ck.graph(f)), f, of(BW, "build_with_context"), [ARG(0), ARG(1), ARG(2)], res=lambda v: has(v, ans("build_with_context")))
    f = ck.one([x for x in p.fns.values() if x.item == "boxed_tracer" and x.trait == GL + "ObjectSafeTracerProvider"], "ObjectSafeTracerProvider")
    forward(ck, "ObjectSafeTracerProvider", Q(ck.graph(f)), f, of([T + "tracer_provider::TracerProvider"], "tracer_with_scope"), [ARG(0), ARG(1)], res=lambda v: has(v, ans("tracer_with_scope")))
    f = ck.one(p.method(GL + "GlobalTracerProvider", "tracer_with_scope"), "GlobalTracerProvider::tracer_with_scope")
    forward(ck, "GlobalTracerProvider", Q(ck.graph(f)), f, of([GL + "ObjectSafeTracerProvider"], "boxed_tracer"), [inner, ARG(1)], res=lambda v: has(v, ans("boxed_tracer")))


def scope(v, a):
    """an instrumentation scope with nothing but this name"""
    v = norm(v)
    return v[0] == "agg" and v[1].endswith("InstrumentationScope") and all(plain(x) == a if k == "name" else not has(x, lambda y: y[0] == "arg") for k, x in v[3])


def held(v, static, how):
    """what the global registry holds"""
    v = norm(v)
    while v[0] in ("fld", "elem") or v[0] == "agg" and len(v[3]) == 1 or v[0] == "tuple" and len(v[1]) == 1 or v[0] == "call" and v[2] and last(v[1]) in ("deref", "deref_mut", "as_ref", "as_mut", "clone", "cloned", "borrow") + MEMR:
        v = norm(v[3][0][1] if v[0] == "agg" else v[1][0] if v[0] == "tuple" else v[1] if v[0] != "call" else v[2][0])
    return v[0] == "call" and last(v[1]) == how and has(v, lambda y: y[0] in ("const", "static") and static in str(y))


MEMR = ("replace", "take")


def globals_(ck, p):
    TP, MP = T + "tracer_provider::TracerProvider", "opentelemetry::metrics::meter::MeterProvider"
    for key, name, tr, m in (("tracer", TP + "::tracer", TP, "tracer_with_scope"), ("meter", MP + "::meter", MP, "meter_with_scope"),
                             ("logger", "opentelemetry::logs::logger::LoggerProvider::logger", "opentelemetry::logs::logger::LoggerProvider", "logger_with_scope")):
        f = ck.one([x for x in p.fns.values() if x.name == name], name)
        forward(ck, "provider:" + key, Q(ck.graph(f)), f, of([tr], m), [ARG(0), lambda v: scope(v, ARG(1))], res=ans(m))
    GT, GM, GP = "GLOBAL_TRACER_PROVIDER", "GLOBAL_METER_PROVIDER", "GLOBAL_TEXT_MAP_PROPAGATOR"
    bad = lambda l: l[0] == "v" and l[3] == ("Err",)
    fn = lambda n: ck.one([x for x in p.fns.values() if x.name == "opentelemetry::global::" + n], n)
    for n, st, m, tr in (("trace::tracer", GT, "boxed_tracer", GL + "ObjectSafeTracerProvider"), ("trace::tracer_with_scope", GT, "boxed_tracer", GL + "ObjectSafeTracerProvider"),
                         ("metrics::meter", GM, None, MP), ("metrics::meter_with_scope", GM, "meter_with_scope", MP)):
        f = fn(n)
        q = Q(ck.graph(f))
        sc = ARG(0) if n.endswith("scope") else (lambda v: scope(v, ARG(0)))
        if m is None:
            m = "meter" if q.calls(of([tr], "meter")) else "meter_with_scope"
            sc = ARG(0) if m == "meter" else sc
        extra = [x for x in q.calls(lambda c: c.m in ("get_or_init", "get_or_try_init", "call_once", "force")) if not has(q.g.ev(x.d.args[0], x.i), lambda y: y[0] == "static" and y[1].endswith(st))]
        ck.ob("global:%s:installed" % n, not extra, "uses something kept elsewhere instead of what is installed", q.g.loc(extra[0].i) if extra else loc(f))
        forward(ck, "global:" + n, q, f, of([tr], m), [lambda v, st=st: held(v, st, "read"), sc], cut=bad, res=lambda v, m=m: has(v, ans(m)))
    for n, st in (("trace::tracer_provider", GT), ("metrics::meter_provider", GM)):
        f = fn(n)
        vs = flat(under(Q(ck.graph(f)), (), bad))
        ck.ob("global:" + n, bool(vs) and all(held(x, st, "read") for x in vs), "hands out %s" % [show_(x) for x in vs], loc(f))
    for n, st in (("trace::set_tracer_provider", GT), ("metrics::set_meter_provider", GM), ("propagation::set_text_map_propagator", GP)):
        f = fn(n)
        q = Q(ck.graph(f))
        g = q.g
        w = []
        for x in q.calls(lambda c: c.m in ("replace", "swap") and "mem::" in c.name):
            if held(g.ev(x.d.args[0], x.i), st, "write"):
                w.append((x, norm(g.ev(x.d.args[1], x.i))))
        for x, pth, v in stores(q):
            if held(pth, st, "write"):
                w.append((x, norm(v)))
        ck.ob("global:%s:stores" % n, bool(w) and all(has(v, lambda y: y == ARG(0)) for _, v in w), "stores %s" % [show_(v) for _, v in w], loc(f))
        s = q.skipped([x for x, _ in w], excuse=bad) if w else "never"
        ck.ob("global:%s:always" % n, s is None, "can return without installing it: %s" % s, loc(f))
        if n.startswith("trace"):
            vs = flat(under(q, (), bad))
            swapped = any(x.k == "call" and x.d.m == "swap" for x, _ in w)  # the value of a swapped variable is the one before the swap
            ck.ob("global:%s:returns" % n, bool(vs) and all(has(norm(x), lambda y: y == ARG(0)) for x in vs) if swapped else bool(vs) and all(held(x, st, "write") and not has(norm(x), lambda y: y == ARG(0)) for x in vs), "does not return the one installed before", loc(f))
    f = fn("propagation::get_text_map_propagator")
    q = Q(ck.graph(f))
    C = [n for n in q.calls(lambda c: c.m in ("call_once", "call", "call_mut")) if has(q.g.ev(n.d.args[0], n.i), lambda x: x == ARG(0))]
    ck.ob("global:propagator:used", bool(C) and q.skipped(C) is None and q.can_follow(C, C) is None, "the function is not called exactly once", loc(f))
    live = q.reach(q.entry(), cut=bad)
    vs = [x for n in C if q.S([n]) & live for x in flat(opnd(q, n, n.d.args[1], bad))]
    ck.ob("global:propagator:held", bool(vs) and all(held(x, GP, "read") for x in vs), "the function gets %s" % [show_(x) for x in vs], loc(f))
    vs = flat(under(q, (), bad))
    ck.ob("global:propagator:result", bool(vs) and all(has(x, lambda y: y[0] == "call" and last(y[1]) in ("call_once", "call", "call_mut")) for x in vs), "its answer is not returned: %s" % [show_(x) for x in vs], loc(f))
    # running code with the current context, its span
    f = ck.one([x for x in p.fns.values() if x.name == T + "context::get_active_span"], "get_active_span")
    q = Q(ck.graph(f))
    forward(ck, "get_active_span", q, f, lambda c: c.m in ("call_once", "call", "call_mut") and "FnOnce" in c.name or c.m == "call_once", [None])
    for n in q.calls(lambda c: c.m == "call_once"):
        v = norm(q.g.ev(n.d.args[1], n.i))
        if has(q.g.ev(n.d.args[0], n.i), lambda x: x == ARG(0)):
            ck.ob("get_active_span:span", has(v, lambda x: x[0] == "fld" and x[2] == "span" and current(x)), "it is given %s" % show_(v), q.g.loc(n.i))


def meters(ck, p):
    M = "opentelemetry::metrics::"
    IP = M + "InstrumentProvider"
    n = 0
    for k in KINDS:
        f = ck.one(p.method(M + "meter::Meter", k, inherent=True), "Meter::" + k)
        q = Q(ck.graph(f))
        pr = [plain(x) for x in flat(under(q, (("f", "instrument_provider"),)))]
        nm = [plain(x) for x in flat(under(q, (("f", "name"),)))]
        ck.ob("meter:%s:provider" % k, pr == [("fld", ARG(0), "instrument_provider")], "builds with %s" % [show_(x) for x in pr], loc(f))
        ck.ob("meter:%s:name" % k, nm == [ARG(1)], "names it %s" % [show_(x) for x in nm], loc(f))
        b = [x for x in flat(under(q, ()))]
        for x in b:
            for fl, v in x[3] if x[0] == "agg" else ():
                if fl in ("description", "unit", "cardinality_limit", "boundaries"):
                    ck.ob("meter:%s:%s" % (k, fl), norm(v)[0] == "agg" and norm(v)[2] == "None", "%s is set although nobody asked for it" % fl, loc(f))
                if fl == "callbacks":
                    ck.ob("meter:%s:callbacks" % k, is_default(norm(v)) or norm(v)[0] == "call" and last(norm(v)[1]) in ("new", "default", "with_capacity") or norm(v)[0] == "const", "starts with callbacks", loc(f))
        n += 1
    ck.count("constructors", n)
    # builders: build
    seen = {}
    for adt in ("InstrumentBuilder", "AsyncInstrumentBuilder", "HistogramBuilder"):
        for f in p.fns.values():
            if f.self_adt == M + "instruments::" + adt and f.item == "build" and f.parent is None and f.kind == "fn":
                q = Q(ck.graph(f))
                C = q.calls(lambda c: any(c.name.endswith("InstrumentProvider::" + k) for k in KINDS))
                kind = last(C[0].d.name) if C else "?"
                want = {"Counter": "counter", "UpDownCounter": "up_down_counter", "Gauge": "gauge", "Histogram": "histogram", "ObservableCounter": "observable_counter", "ObservableUpDownCounter": "observable_up_down_counter",
                        "ObservableGauge": "observable_gauge"}
                t = f.local_ty(0)
                ret = (t.adt or '?').split('::')[-1], (t.args() or [t])[0].s
                nm = ret[1] + "_" + want.get(ret[0], "?")
                ck.ob("build:%s:%s" % (adt, nm), kind == nm, "a %s<%s> is built as %s" % (ret[0], ret[1], kind), loc(f))
                forward(ck, "build:%s:%s" % (adt, nm), q, f, lambda c: "InstrumentProvider::" in c.name, [lambda v: plain(v) == ("fld", ARG(0), "instrument_provider"), ARG(0)], res=ans(nm))
                seen[nm] = 1
        own = {"with_callback": "callbacks"}
        fields = [x for x in field_names(p, M + "instruments::" + adt) if not x.startswith("_")]
        for f in p.fns.values():
            if f.self_adt == M + "instruments::" + adt and f.item.startswith("with_") and f.parent is None and f.kind == "fn":
                q = Q(ck.graph(f))
                k0 = own.get(f.item, f.item[5:])
                for k in fields:
                    vs = flat(under(q, (("f", k),)))
                    if k != k0:
                        ck.ob("%s:%s:keeps:%s" % (adt, f.item, k), [norm(a) for a in vs] == [("fld", ARG(0), k)], "also changes %s" % k, loc(f))
                    elif f.item == "with_callback":
                        C = [n_ for n_ in q.calls(lambda c: c.m == "push") if norm(q.g.ev(n_.d.args[0], n_.i)) == ("fld", ARG(0), k)]
                        ck.ob("%s:%s" % (adt, f.item), bool(C) and q.skipped(C) is None and q.can_follow(C, C) is None and all(plain(q.g.ev(n_.d.args[1], n_.i)) == ARG(1) for n_ in C), "the callback is not added once", loc(f))
                    else:
                        ok = bool(vs) and all(a[0] == "agg" and a[2] == "Some" and plain(dict(a[3])["0"]) == ARG(1) for a in map(norm, vs))
                        lose = [m for m in q.calls(lambda c: last(c.name) in LOSING and c.args) if norm(q.g.ev(m.d.args[0], m.i)) == ARG(1)]
                        ck.ob("%s:%s" % (adt, f.item), ok and not lose, "sets %s to %s" % (k, [show_(x) for x in vs]), loc(f))
                ck.count("instrument setters")
    ck.floor("instrument setters", 11)
    ck.ob("build:all", set(seen) == set(KINDS), "no builder builds %s" % sorted(set(KINDS) - set(seen)))
    # the instruments
    for adt, m in (("counter::Counter", "add"), ("up_down_counter::UpDownCounter", "add"), ("gauge::Gauge", "record"), ("histogram::Histogram", "record")):
        f = ck.one(p.method(M + "instruments::" + adt, m), adt)
        forward(ck, "instrument:%s" % adt, Q(ck.graph(f)), f, of([M + "instruments::SyncInstrument"], "measure"), [inner, ARG(1), ARG(2)])
        f = ck.one(p.method(M + "instruments::" + adt, "new"), adt)
        vs = [norm(x) for x in flat(under(Q(ck.graph(f)), (("f", "0"),)))]
        ck.ob("instrument:%s:new" % adt, vs == [ARG(0)], "wraps %s" % [show_(x) for x in vs], loc(f))


def field_names(p, adt):
    return [x["n"] if isinstance(x, dict) else x[0] for x in p.adts[adt]["v"][0]["f"]]


def scopes(ck, p):
    B = "opentelemetry::common::InstrumentationScopeBuilder"
    fields = field_names(p, B)
    for f in p.fns.values():
        if f.self_adt == B and f.item.startswith("with_") and f.parent is None and f.kind == "fn":
            q = Q(ck.graph(f))
            for k in fields:
                vs = flat(under(q, (("f", k),)))
                if k != f.item[5:]:
                    ck.ob("scope:%s:keeps:%s" % (f.item, k), [norm(a) for a in vs] == [("fld", ARG(0), k)], "also changes %s" % k, loc(f))
                else:
                    ok = bool(vs) and all(a[0] == "agg" and a[2] == "Some" and plain(dict(a[3])["0"]) == ARG(1) for a in map(norm, vs))
                    ck.ob("scope:%s" % f.item, ok, "sets %s to %s" % (k, [show_(x) for x in vs]), loc(f))
            ck.count("scope setters")
    ck.floor("scope setters", 3)
    f = ck.one(p.method(B, "build"), "InstrumentationScopeBuilder::build")
    q = Q(ck.graph(f))
    for k in fields:
        vs = [norm(x) for x in flat(under(q, (("f", k),)))]
        ok = vs == [("fld", ARG(0), k)] if k != "attributes" else bool(vs) and any(has(x, lambda y: y == ("fld", ARG(0), k)) for x in vs) and all(has(x, lambda y: y == ("fld", ARG(0), k)) or is_default(x) or x[0] in ("unk",) for x in vs)
        ck.ob("scope:build:" + k, ok, "the scope's %s is %s" % (k, [show_(x) for x in vs]), loc(f))
    f = ck.one(p.method("opentelemetry::common::InstrumentationScope", "builder"), "InstrumentationScope::builder")
    q = Q(ck.graph(f))
    vs = [plain(x) for x in flat(under(q, (("f", "name"),)))]
    ck.ob("scope:builder", vs == [ARG(0)], "names it %s" % [show_(x) for x in vs], loc(f))
    for k in ("name", "version", "schema_url", "attributes"):
        f = ck.one(p.method("opentelemetry::common::InstrumentationScope", k), "InstrumentationScope::" + k)
        vs = flat(under(Q(ck.graph(f)), ()))
        ok = bool(vs) and all(a[0] == "agg" and a[2] == "None" or has(norm(a), lambda y: y == ("fld", ARG(0), k)) and not [y for y in walk(norm(a)) if y[0] == "fld" and y[1] == ARG(0) and y[2] != k] for a in vs)
        ck.ob("scope:get:" + k, ok and any(has(norm(a), lambda y: y == ("fld", ARG(0), k)) for a in vs), "returns %s" % [show_(x) for x in vs], loc(f))


def check(ck):
    p = ck.program("all")
    ck.rule("every wrapper method makes exactly one call of the same method of what it wraps, on every path, with its own arguments in order, and returns its answer")
    ck.rule("convenience methods add only what they are named for (the current time, the current context, the name)")
    ck.rule("the global registries hand out what was installed last and install what they are given")
    ck.rule("meter constructors and instrument builders: the name, description, unit, limit, boundaries and callbacks given reach the provider's constructor of the same kind and number type; instruments hand measurements on")
    spans(ck, p)
    tracers(ck, p)
    globals_(ck, p)
    meters(ck, p)
    scopes(ck, p)
