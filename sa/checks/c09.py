"""C09: the sampling decision is honoured"""
from checks.spans import *
from checks.flags import *
from checks.c12 import accessors, some, ALL

TITLE = "The sampling decision determines what is recorded, flagged and exported"
FLOOR = 40


def check(ck):
    p = ck.program("all")
    ck.rule("the decision is the builder's sampling result's, else the provider's sampler's, asked about this very span (context, trace id, name, kind, attributes, links)")
    ck.rule("record-and-sample: records, sampled flag set; record-only: records, flag clear; drop: records nothing, flag clear; trace state and extra attributes are the sampling result's")
    ck.rule("processors that export pass on exactly the spans whose sampled flag is set")
    acc = accessors(ck, p)
    F, OPT, fx = layout(ck, p)
    sc = path_to(F, "span_context")
    # reading and setting the flag
    f = ck.one(p.method(FLAGS, "is_sampled"), "TraceFlags::is_sampled")
    me = lambda e: norm(e) in (("arg", 0), ("fld", ("arg", 0), "0"))
    r = flat(under(Q(ck.graph(f)), ()))
    ck.ob("is_sampled", bool(r) and all(sampled_test(x, me) is True for x in r), "is not the lowest bit of the flags: %s" % show_(r[0]), loc(f))
    f = ck.one(p.method("opentelemetry::trace::span_context::SpanContext", "is_sampled"), "SpanContext::is_sampled")
    mysc = lambda e: norm(e) in (("fld", ("arg", 0), acc["trace_flags"][0][1]), ("fld", ("fld", ("arg", 0), acc["trace_flags"][0][1]), "0"))
    r = flat(under(Q(ck.graph(f)), ()))
    ck.ob("SpanContext::is_sampled", bool(r) and all(sampled_test(x, mysc) is True for x in r), "is not the span context's sampled flag: %s" % show_(r[0]), loc(f))
    f = ck.one(p.method(FLAGS, "with_sampled"), "TraceFlags::with_sampled")
    q = Q(ck.graph(f))
    for want in (True, False):
        v = under(q, (), cut=lambda l: l[0] == "b" and norm(l[1]) == ("arg", 1) and l[2] is not want)
        ck.ob("with_sampled:%s" % want, bit0(v, me) is want, "yields %s" % show_(v), loc(f))
    # creation
    f = ck.one(p.method(TRACER, "build_with_context"), "SdkTracer::build_with_context")
    q = Q(ck.graph(f))
    g = q.g
    given = ("fld", ("fld", ("arg", 1), "sampling_result"), "Some.0")
    asks = q.calls(lambda c: c.m == "should_sample" and (c.tr or "").endswith("ShouldSample"))
    is_given = lambda a, k: norm(a) == ("fld", given, k)
    is_asked = lambda a, k: a[0] == "fld" and a[2] == k and a[1][0] == "call" and last(a[1][1]) == "should_sample"
    none, smm = some(1, "sampling_result")
    DEC = lambda l: l[0] == "v" and l[2].endswith("SamplingDecision")
    dec = [a for s, lab, t, l in q.literals() if DEC(l) for a in flat(l[1])]
    ck.ob("decision:used", bool(dec), "no decision is examined", loc(f))
    bad = [a for a in dec if not (is_given(a, "decision") or is_asked(a, "decision"))]
    ck.ob("decision:source", not bad, "a decision that is neither the given one nor the sampler's is used: %s" % show_(bad[0]) if bad else "", loc(f))
    w = q.unguarded(asks, lambda l: l[0] == "v" and l[3] == ("None",) and norm(l[1]) == ("fld", ("arg", 1), "sampling_result"))
    ck.ob("decision:given-wins", w is None, "the sampler is asked although a sampling result was given: %s" % w, loc(f))
    ck.ob("decision:once", single(q, asks), "the sampler is asked twice about a span", loc(f))
    for n in asks:
        a = n.d.args
        e = [g.ev(x, n.i) for x in a]
        ck.ob("sampler:the-provider's", e[0][0] == "fld" and rooted(e[0], lambda r_: r_ == ("arg", 0)), "another sampler is asked: %s" % show_(e[0]), g.loc(n.i))
        cx = [norm(dict(x[3])["0"]) if x[0] == "agg" and x[2] == "Some" else x for x in flat(e[1])]
        ck.ob("sampler:context", cx == [("arg", 2)], "the sampler is not given the parent context", g.loc(n.i))
        st = q.S([n])
        tid = {norm(x) for x in flat(opnd(q, n, a[2]))}
        own = {norm(x) for x in flat(under(q, sc + acc["trace_id"], cut=recording(ALL)))}
        ck.ob("sampler:trace-id", tid == own, "the sampler is given another trace id", g.loc(n.i))
        ck.ob("sampler:name", [norm(x) for x in flat(e[3])] == [("fld", ("arg", 1), "name")], "the sampler is given another name", g.loc(n.i))
        for i, k, dflt in ((4, "span_kind", lambda x: x[0] == "agg" and x[2] == "Internal"), (5, "attributes", lambda x: is_default(x) or x[0] in ("array", "const") and not has(x, lambda y: y[0] == "arg")),
                           (6, "links", lambda x: is_default(x) or x[0] in ("array", "const") and not has(x, lambda y: y[0] == "arg"))):
            n_, s_ = some(1, k)
            b = ("fld", ("fld", ("arg", 1), k), "Some.0")
            vs = [x for x in flat(opnd(q, n, a[i], cut=n_)) if x != ("never",)]
            ck.ob("sampler:%s:given" % k, bool(vs) and all(norm(x) == b for x in vs), "the sampler is not given the span's %s: %s" % (k, show_(vs[0]) if vs else ""), g.loc(n.i))
            vs = [x for x in flat(opnd(q, n, a[i], cut=s_)) if x != ("never",)]
            ck.ob("sampler:%s:default" % k, all(dflt(x) for x in vs), "without %s the sampler is given %s" % (k, show_(vs[0]) if vs else ""), g.loc(n.i))
        # nothing is taken from the builder before the sampler has seen it
        early = [m for m in q.calls(lambda c: last(c.name) in LOSING and c.args) if norm(g.ev(m.d.args[0], m.i)) in {("fld", ("arg", 1), k) for k in ("span_kind", "attributes", "links")}]
        w = q.can_follow(early, [n])
        ck.ob("sampler:before-taking", w is None, "the builder's data is taken before the sampler sees it: %s" % w, g.loc(n.i))
        ck.count("sampler calls")
    opt = proj_of(OPT)[1]
    for d, rec, flag in (("RecordAndSample", "Some", True), ("RecordOnly", "Some", False), ("Drop", "None", False)):
        cut = recording((d,))
        v = [a for a in flat(under(q, opt, cut=cut)) if a != ("never",)]
        ck.ob("%s:records" % d, bool(v) and all(a[0] == "agg" and a[2] == rec for a in v), "%s, yet the span is %srecorded" % (d, "" if rec == "None" else "not "), loc(f))
        v = under(q, sc + acc["trace_flags"], cut=cut)
        ck.ob("%s:flag" % d, bit0(v) is flag, "%s, yet the sampled flag is %s" % (d, show_(v)), loc(f))
        ck.count("decisions")
        for own_cut, src, isx in ((none, "given", is_given), (smm, "asked", is_asked)):
            c2 = both(cut, own_cut)
            v = [a for a in flat(under(q, sc + acc["trace_state"], cut=c2)) if a != ("never",)]
            ck.ob("%s:%s:trace-state" % (d, src), bool(v) and all(isx(a, "trace_state") for a in v), "the trace state is not the sampling result's: %s" % (show_(v[0]) if v else ""), loc(f))
            if rec == "None":
                continue
            r = q.reach(q.entry(), cut=c2)
            C, B = [], set()
            for n in q.calls(lambda c: last(c.name) in ("push", "extend", "append", "extend_from_slice", "chain") and len(c.args) == 2):
                here = bool(q.S([n]) & r)
                e = opnd(q, n, n.d.args[1], cut=c2 if here else None)
                if last(n.d.name) == "push":
                    bs = bases(e)
                    if bs and all(is_given(x, "attributes") or is_asked(x, "attributes") for b in bs for x in flat(b)):
                        C.append(n)
                        B |= bs if here else set()
                elif here and all(isx(x, "attributes") for x in flat(e)) or here and whole(e, {norm(x) for x in walk(e) if isx(x, "attributes")}):
                    C.append(n)
            ex = q.exits() & r
            pushes = [n for n in C if last(n.d.name) == "push"]
            bulk = [n for n in C if last(n.d.name) != "push"]
            par = {}
            rr = q.reach(q.entry(), cut=c2, avoid=q.S(bulk), back=par)
            left = [s for s in ex if s in rr]
            w = None if bulk and not left else forall(q, q.entry(), pushes, exits=ex, B=B or None, cut=c2)
            ck.ob("%s:%s:attributes" % (d, src), w is None, "an attribute of the sampling result is not added: %s" % w, loc(f))
            V = {norm(x) for x in flat(under(q, path_to(F, "attributes"), cut=c2))}
            to = {norm(x) for n in C if last(n.d.name) != "chain" for x in flat(g.ev(n.d.args[0], n.i))}
            ck.ob("%s:%s:attributes-kept" % (d, src), bool(V) and (not to or bool(V & to)), "the sampling result's attributes do not become the span's", loc(f))
    f = method(ck, p, "is_recording")
    q = Q(ck.graph(f))
    for want in ("Some", "None"):
        v = [a for a in flat(under(q, (), cut=lambda l: l[0] == "v" and norm(l[1]) == OPT and l[3] != (want,)))]
        if any(a[0] == "call" for a in v):
            v = [("const", want == "Some") for a in v if last(a[1]) == ("is_some") and norm(a[2][0]) == OPT]
        ck.ob("is_recording:%s" % want, bool(v) and all(a[:2] == ("const", want == "Some") for a in v), "%s" % [show_(a) for a in v], loc(f))
    # processors
    SEND = ("try_send", "send", "unbounded_send", "start_send", "export")
    for im in sorted(p.impls_of("SpanProcessor"), key=lambda x: x["self_ty"].s):
        fn = p.fns.get(im["items"].get("on_end"))
        if fn is None or fn.crate != "opentelemetry_sdk" or "testing" in fn.name:
            continue
        q = Q(ck.graph(fn))
        g = q.g
        span = lambda e: norm(e) == ("arg", 1)
        outs = [n for n in q.calls(lambda c: c.m in SEND and len(c.args) == 2) if has(g.ev(n.d.args[1], n.i), span)]
        if not outs:
            continue
        ck.count("exporting processors")
        tag = (im["self_ty"].adt or im["self_ty"].s).replace("opentelemetry_sdk::trace::", "")
        fl = lambda e: e[0] == "fld" and norm(e) in (("fld", ("fld", ("arg", 1), "span_context"), acc["trace_flags"][0][1]), ("fld", ("fld", ("fld", ("arg", 1), "span_context"), acc["trace_flags"][0][1]), "0"))
        w = q.unguarded(outs, lambda l: sampled_lit(l, fl) is True)
        ck.ob("%s:only-sampled" % tag, w is None, "a span that is not sampled is passed on for export: %s" % w, loc(fn))
        def excuse(l):
            if sampled_lit(l, fl) is False:
                return True
            if l[0] == "v" and l[3] == ("Err",) and has(l[1], lambda x: x[0] == "call" and last(x[1]) == "lock"):
                return True
            # shut down already
            return l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "load" and "Atomic" in l[1][1]
        w = q.skipped(outs, excuse=excuse)
        ck.ob("%s:every-sampled" % tag, w is None, "a sampled span is not passed on: %s" % w, loc(fn))
    ck.floor("exporting processors", 3)
    ck.floor("decisions", 3)
    ck.floor("sampler calls", 1)
