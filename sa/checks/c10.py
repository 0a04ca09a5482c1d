"""C10: a recorded span is exported once, with exactly its data"""
from checks.spans import *
TITLE = "A recorded span reaches every processor once, with exactly its data"
FLOOR = 60

WRITES = ("set_attribute", "add_event_with_timestamp", "add_link", "set_status", "update_name")
PURE = {"len", "deref", "deref_mut", "is_empty", "clone", "eq", "ne", "gt", "lt", "ge", "le", "partial_cmp", "cmp", "iter", "as_ref", "as_mut", "as_slice", "capacity", "borrow", "fmt", "to_owned", "into", "from", "as_deref", "index"}


def check(ck):
    p = ck.program("all")
    ck.rule("ending (explicitly or by dropping) hands the span to on_end of every processor, exactly once, only if it was recording, unless the provider is shut down; the recorded data is taken out, and nothing puts data back")
    ck.rule("what is handed over is, field by field, what the span has recorded, its own span context and its tracer's scope; the end time is the one given to end, else the builder's, else the present")
    ck.rule("each mutator changes what it is named for and nothing else: the attribute / event / link is appended, the name replaced, the status only raised")
    F, OPT, fx = layout(ck, p)
    # is_recording and span_context
    f = method(ck, p, "is_recording")
    q = Q(ck.graph(f))
    for name, want in (("Some", True), ("None", False)):
        other = "None" if name == "Some" else "Some"
        v = under(q, (), cut=lambda l: is_opt(l, OPT, other))
        good = all(a[:2] == ("const", want) or a[0] == "call" and last(a[1]) == "is_some" and norm(a[2][0]) == OPT or a[0] == "is" for a in flat(v))
        ck.ob("is_recording:%s" % name, good, "is_recording is not whether data is recorded: %s" % show_(v), loc(f))
    f = method(ck, p, "span_context")
    q = Q(ck.graph(f))
    v = [norm(a) for a in flat(under(q, ()))]
    ck.ob("span_context:exported", v == [F.get("span_context")], "the exported span context is not the span's", loc(f))
    # ending
    ends = [("end_with_timestamp", method(ck, p, "end_with_timestamp")), ("drop", ck.one(p.method(SPAN, "drop", trait="Drop"), "Drop for Span"))]
    own = p.method(SPAN, "end", trait="Span")
    if own:
        ends.append(("end", own[0]))
    else:
        d = ck.one([x for x in p.fns.values() if x.name.endswith("trace::span::Span::end")], "Span::end")
        q = Q(ck.graph(d))
        es = q.calls(lambda c: c.m == "end_with_timestamp")
        ck.ob("end:ends", q.skipped(es) is None and all(norm(q.g.ev(n.d.args[0], n.i)) == ("arg", 0) and all(is_now(a) for a in flat(q.g.ev(n.d.args[1], n.i))) for n in es), "end() does not end the span at the present time", loc(d))
    conts = set()
    for name, f in ends:
        q = Q(ck.graph(f))
        g = q.g
        C = q.calls(lambda c: c.m == "on_end" and c.tr is not None and c.tr.endswith("SpanProcessor"))

        def excuse(l):
            return is_opt(l, OPT, "None") or l[0] == "b" and l[2] is True and l[1][0] == "call" and "::Atomic" in l[1][1] and last(l[1][1]) == "load" and has(l[1][2][0], lambda x: x[0] == "fld" and "shutdown" in x[2])
        w = forall(q, q.entry(), C, cut=excuse)
        ck.ob("%s:every-processor" % name, w is None, "a processor is not told that the span ended: %s" % w, loc(f))
        w = q.unguarded(C, lambda l: is_opt(l, OPT, "Some"))
        ck.ob("%s:only-recorded" % name, w is None, "a span without recorded data is handed to a processor: %s" % w, loc(f))
        nx = q.calls(lambda c: last(c.name) in ("next", "next_back"))
        r = q.reach(q.after(q.S(C)), avoid=q.S(nx) | closure_ends(q))
        w = "after the first time" if q.S(C) & r else None
        ck.ob("%s:once-each" % name, w is None, "a processor gets the span twice: %s" % w, loc(f))
        takes = []
        for n, pth, v in stores(q):
            if pth == OPT and v[0] == "agg" and v[2] == "None":
                takes.append(n)
        w = q.not_before(takes, C) and q.not_after(C, takes)
        ck.ob("%s:taken" % name, bool(takes) and w is None, "the recorded data stays in the span and can be exported again: %s" % w, loc(f))
        for n in C:
            conts |= {proj_of(b)[1] for b in bases(g.ev(n.d.args[0], n.i))}
            for k, path in F.items():
                if k == "end_time":
                    continue
                v = opnd(q, n, n.d.args[1], rest=(("f", k),))
                ck.ob("%s:exports:%s" % (name, k), [norm(a) for a in flat(v)] == [path], "the exported %s is %s, not what the span recorded" % (k, show_(v)), g.loc(n.i))
                ck.count("exported fields")
            et, st = F.get("end_time"), F.get("start_time")

            def same(l):
                return eq_lit(l, lambda x: norm(x) == et, lambda x: norm(x) == st)
            if name == "end_with_timestamp":
                v = flat(opnd(q, n, n.d.args[1], rest=(("f", "end_time"),)))
                ck.ob("%s:end-time" % name, [norm(a) for a in v] == [("arg", 1)], "the exported end time is %s, not the given one" % show_(v[0]), g.loc(n.i))
            elif name == "drop":
                v = flat(opnd(q, n, n.d.args[1], rest=(("f", "end_time"),), cut=lambda l: same(l) is True))
                ck.ob("%s:end-time-kept" % name, [norm(a) for a in v] == [et], "the configured end time is not used: %s" % show_(v[0]), g.loc(n.i))
                v = flat(opnd(q, n, n.d.args[1], rest=(("f", "end_time"),), cut=lambda l: same(l) is False))
                ck.ob("%s:end-time-now" % name, bool(v) and all(is_now(a) for a in v), "the end time of a dropped span is %s" % show_(v[0]), g.loc(n.i))
    # the same processors are told of the start
    f = ck.one(p.method(TRACER, "build_with_context"), "SdkTracer::build_with_context")
    q = Q(ck.graph(f))
    st = {proj_of(b)[1] for n in q.calls(lambda c: c.m == "on_start" and c.tr is not None and c.tr.endswith("SpanProcessor")) for b in bases(q.g.ev(n.d.args[0], n.i))}
    ck.ob("same-processors", len(conts) == 1 and len(st) == 1 and list(conts)[0][-len(list(st)[0]):] == list(st)[0], "spans end at other processors than they start at", loc(f))
    # mutators
    def effects(f, want_stores, want_calls):
        """everything written to / done to the span's state is expected"""
        q = Q(ck.graph(f))
        g = q.g
        paths = set(F.values())
        inside = lambda e: any(has(e, lambda x: norm(x) == w) for w in paths) or norm(e) == OPT
        for n, pth, v in stores(q):
            if pth == ("arg", 0) or has(pth, lambda x: x == ("arg", 0)):
                if not want_stores(n, pth, v):
                    return q, g.loc(n.i), "writes %s := %s" % (show_(pth), show_(v))
        for n in q.calls(lambda c: c.args and last(c.name) not in PURE):
            if by_mut(q, n.d.args[0]) and inside(g.ev(n.d.args[0], n.i)) and norm(g.ev(n.d.args[0], n.i)) not in (OPT,) and not want_calls(n):
                a = norm(g.ev(n.d.args[0], n.i))
                if rooted(a, lambda r: r == ("arg", 0)):
                    return q, g.loc(n.i), "calls %s on %s" % (n.d.name, show_(a))
        return q, None, None

    def dropped(paths):
        return lambda n, pth, v: pth in paths and plus_one(v, pth)
    ev_, li = F.get("events"), F.get("links")
    for m, target, dp in (("set_attribute", F.get("attributes"), F.get("dropped_attributes_count")),
                          ("add_event_with_timestamp", ("fld", ev_, "events"), ("fld", ev_, "dropped_count")),
                          ("add_link", ("fld", li, "links"), ("fld", li, "dropped_count"))):
        f = method(ck, p, m)
        push = lambda n: last(n.d.name) == "push" and norm(n_ev(n)) == target
        cur = []

        def n_ev(n):
            return cur[0].ev(n.d.args[0], n.i)
        q0 = Q(ck.graph(f))
        cur.append(q0.g)
        pushes = [n for n in q0.calls(lambda c: last(c.name) == "push" and c.args) if norm(q0.g.ev(n.d.args[0], n.i)) == target]
        q, where, what = effects(f, dropped({dp}), lambda n: last(n.d.name) == "push")
        ck.ob("%s:only-that" % m, where is None, "%s" % what, where or loc(f))
        w = q0.can_follow(pushes, pushes)
        ck.ob("%s:appended" % m, bool(pushes) and w is None, "not appended exactly once: %s" % w, loc(f))
        others = [n for n in q.calls(lambda c: last(c.name) == "push" and c.args) if norm(q.g.ev(n.d.args[0], n.i)) != target and rooted(norm(q.g.ev(n.d.args[0], n.i)), lambda r: r == ("arg", 0))]
        ck.ob("%s:nothing-else" % m, not others, "appends to something else", loc(f))
        dn = [n for n, pth, v in stores(q0) if pth == dp]
        w = q0.skipped(pushes + dn, excuse=lambda l: is_opt(l, OPT, "None"))
        ck.ob("%s:recorded-or-counted" % m, w is None, "neither recorded nor counted as dropped: %s" % w, loc(f))
        w = q0.can_follow(pushes, dn) or q0.can_follow(dn, pushes) or q0.can_follow(dn, dn)
        ck.ob("%s:not-both" % m, w is None, "recorded and counted as dropped, or counted twice: %s" % w, loc(f))
        for n in pushes:
            v = q0.g.ev(n.d.args[1], n.i)
            fl = {"set_attribute": {None: 1}, "add_event_with_timestamp": {"name": 1, "timestamp": 2, "attributes": 3}, "add_link": {"span_context": 1, "attributes": 2}}[m]
            for k, a in fl.items():
                got = v if k is None else opnd(q0, n, n.d.args[1], rest=(("f", k),))
                ck.ob("%s:value:%s" % (m, k or "attribute"), [norm(x) for x in flat(got)] == [("arg", a)], "what is recorded is %s, not what was given" % show_(got), q0.g.loc(n.i))
    # name and status
    f = method(ck, p, "update_name")
    q, where, what = effects(f, lambda n, pth, v: pth == F.get("name") and norm(v) == ("arg", 1), lambda n: False)
    ck.ob("update_name:only-that", where is None, "%s" % what, where or loc(f))
    w = q.skipped([n for n, pth, v in stores(q) if pth == F.get("name")], excuse=lambda l: is_opt(l, OPT, "None"))
    ck.ob("update_name:replaces", w is None, "the name is not replaced: %s" % w, loc(f))
    f = method(ck, p, "set_status")
    q, where, what = effects(f, lambda n, pth, v: pth == F.get("status") and norm(v) == ("arg", 1), lambda n: False)
    ck.ob("set_status:only-that", where is None, "%s" % what, where or loc(f))

    def higher(l, want):
        """the new status outranks the present one (want) or not"""
        new, old = ("arg", 1), F.get("status")
        if l[0] == "cmp":
            a, b = norm(l[2]), norm(l[3])
            return (l[1] in ("Lt", "Le") and (a, b) == (old, new)) if want else (l[1] in ("Lt", "Le") and (a, b) == (new, old))
        if l[0] == "b" and l[1][0] == "call" and len(l[1][2]) == 2:
            a, b = map(norm, l[1][2])
            m = last(l[1][1])
            # replacing a status by an equal one changes nothing
            if (m, a, b) in (("gt", new, old), ("lt", old, new), ("ge", new, old), ("le", old, new)):
                return l[2] is want
            if (m, a, b) in (("le", new, old), ("ge", old, new), ("lt", new, old), ("gt", old, new)):
                return l[2] is (not want)
        return False
    sets = [n for n, pth, v in stores(q) if pth == F.get("status")]
    w = q.unguarded(sets, lambda l: higher(l, True))
    ck.ob("set_status:only-raised", bool(sets) and w is None, "a status is replaced by one that does not outrank it: %s" % w, loc(f))
    w = q.skipped(sets, excuse=lambda l: is_opt(l, OPT, "None") or higher(l, False))
    ck.ob("set_status:raised", w is None, "a higher status is not recorded: %s" % w, loc(f))
    vs = p.variants(next(iter(p.adt_path("trace::span::Status"))))
    ck.ob("status:order", [v["n"] for v in vs] == ["Unset", "Error", "Ok"], "statuses are not ordered Unset < Error < Ok: %s" % [v["n"] for v in vs])
    pc = [x for x in p.fns.values() if x.kind == "fn" and x.item == "partial_cmp" and x.self_adt and x.self_adt.endswith("trace::span::Status")]
    ck.ob("status:derived-order", all(x.derived for x in pc) and bool(pc), "the order of statuses is not the order of the variants")
    # nobody refills a span
    for x in sorted(p.fns.values(), key=lambda x: x.name):
        if x.kind != "fn" or x.crate != "opentelemetry_sdk" or x.derived or not any(x.local_ty(i + 1).peel().adt == SPAN and x.local_ty(i + 1).k == "ref" for i in range(x.argc)):
            continue
        if not x.name.startswith("opentelemetry_sdk::trace::span::") and not (x.self_adt == SPAN):
            continue
        q = Q(ck.graph(x))
        bad = None
        for i in range(x.argc):
            if x.local_ty(i + 1).peel().adt != SPAN:
                continue
            sub = lambda e: ("arg", i) if e == ("arg", 0) else tuple(sub(y) if isinstance(y, tuple) else y for y in e) if isinstance(e, tuple) else e
            opt = sub(OPT)
            for n, pth, v in stores(q):
                if pth == opt and not (v[0] == "agg" and v[2] == "None") or pth in (("arg", i),):
                    bad = n
            for n in q.calls(lambda c: c.args and last(c.name) in ("insert", "replace", "get_or_insert", "get_or_insert_with", "swap")):
                if norm(q.g.ev(n.d.args[0], n.i)) in (opt, ("arg", i)) and not (len(n.d.args) > 1 and all(a[0] == "agg" and a[2] == "None" for a in flat(q.g.ev(n.d.args[1], n.i)))):
                    bad = n
        ck.ob("%s:never-refills" % (x.item or x.name), bad is None, "gives an ended span data again", q.g.loc(bad.i) if bad else "")
        ck.count("span methods")
    ck.floor("span methods", 9)
    ck.floor("exported fields", 20)
