"""C38: log records, from the logger to the exporters"""
from checks.assume import *
from checks.c15 import bare
from checks.c24 import plain, shown
from checks.util import PARTIAL_IT

TITLE = "A log record reaches every processor once, with all that was set on it"
FLOOR = 60
SDK = "opentelemetry_sdk::"
REC = SDK + "logs::record::SdkLogRecord"
GA = SDK + "growable_array::GrowableArray"
A0, A1, A2 = ("arg", 0), ("arg", 1), ("arg", 2)
FIELDS = ("event_name", "target", "timestamp", "observed_timestamp", "trace_context", "severity_text", "severity_number", "body")
PICKY = (PARTIAL_IT | {"rev", "dedup", "sort", "sort_by"})


def F(e, *fs):
    for f in fs:
        e = ("fld", e, f)
    return e


def some(e):
    e = norm(e)
    return plain(e[3][0][1]) if e[0] == "agg" and e[2] == "Some" else None


def opt(e):
    """an optional value read through as_ref, clone and the like"""
    e = plain(e)
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in ("as_ref", "cloned", "copied", "as_deref"):
        e = plain(e[2][0])
    return e


def written(q, root):
    """what is stored below root"""
    return [(n, pth, v) for n, pth, v in stores(q) if has(pth, lambda x: x == root)]


def record(ck, p):
    one_value = {"set_event_name": "event_name", "set_target": "target", "set_timestamp": "timestamp", "set_observed_timestamp": "observed_timestamp", "set_severity_text": "severity_text",
                 "set_severity_number": "severity_number", "set_body": "body", "set_trace_context": "trace_context"}
    for m, fld in one_value.items():
        f = ck.one(p.method(REC, m), m)
        q = Q(ck.graph(f))
        q.deep = True
        W = written(q, A0)
        ws = [n for n, pth, v in W if pth == F(A0, fld)]
        ck.ob("set:%s:always" % fld, bool(ws) and not q.reach(q.entry(), avoid=q.S(ws)) & q.exits(), "what is given may not be set", loc(f))
        ck.ob("set:%s:only" % fld, all(pth == F(A0, fld) for _, pth, _ in W), "it changes %s" % [show_(x[1]) for x in W], loc(f))
        for n, pth, v in W:
            for x in flat(v) if some(v) is None else [v]:
                x = some(x)
                if fld == "trace_context":
                    d = dict(x[3]) if x is not None and x[0] == "agg" else {}
                    ok = [plain(d.get(k, ("unk",))) for k in ("trace_id", "span_id", "trace_flags")] == [A1, A2, ("arg", 3)]
                else:
                    ok = x == A1
                ck.ob("set:%s" % fld, ok, "it is set to %s" % show_(v), q.g.loc(n.i))
    for fld in FIELDS:
        f = ck.one(p.method(REC, fld), fld)
        v = [opt(x) for x in flat(Q(ck.graph(f)).results())]
        ck.ob("get:" + fld, v == [F(A0, fld)], "it answers %s" % [show_(x) for x in v], loc(f))
    # attributes
    OWN = lambda fn: fn.item in ("push", "add_attribute") and fn.crate == "opentelemetry_sdk"
    f = ck.one(p.method(REC, "add_attribute"), "add_attribute")
    q = Q(ck.graph(f, opaque=OWN))
    q.deep = True
    P = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2)]
    ck.ob("attribute:kept", bool(P) and not q.reach(q.entry(), avoid=q.S(P)) & q.exits() and q.can_follow(P, P) is None, "an attribute may not be kept once", loc(f))
    ck.ob("attribute:only", not written(q, A0), "it changes more than the attributes", loc(f))
    for n in P:
        ck.ob("attribute:list", norm(q.g.ev(n.d.args[0], n.i)) == F(A0, "attributes"), "it is kept elsewhere", q.g.loc(n.i))
        for x in flat(q.g.ev(n.d.args[1], n.i)):
            x = some(x) or x
            ck.ob("attribute", x[0] == "tuple" and [plain(y) for y in x[1]] == [A1, A2], "what is kept is %s" % show_(x), q.g.loc(n.i))
    f = ck.one(p.method(REC, "add_attributes"), "add_attributes")
    q = Q(ck.graph(f, opaque=OWN))
    q.deep = True
    P = [n for n in q.calls(lambda c: c.m in ("add_attribute", "push"))]
    w = forall(q, q.entry(), P, B={A1}) if P else "never"
    pk = {last(x[1]) for n in q.calls(lambda c: c.args and c.m in ("next", "for_each")) for x in walk(q.g.ev(n.d.args[0], n.i)) if x[0] == "call"} & PICKY
    ck.ob("attributes:every", w is None and not pk, "not every attribute is added: %s" % (w or pk), loc(f))
    for n in P:
        v = [norm(q.g.ev(a, n.i)) for a in n.d.args]
        part = [plain(x) for x in v[1:]] if n.d.m == "add_attribute" else [plain(y) for y in (some(v[1]) or ("tuple", ()))[1]]
        ok = len(part) == 2 and all(x[0] == "fld" and x[2] == str(i) and whole_elem(x[1], A1) for i, x in enumerate(part))
        ck.ob("attributes:each", ok, "what is added is %s" % [show_(x) for x in part], q.g.loc(n.i))
    f = ck.one(p.method(REC, "attributes_iter"), "attributes_iter")
    q = Q(ck.graph(f, opaque=lambda fn: fn.item in ("iter", "into_iter") and fn.crate == "opentelemetry_sdk"))
    v = [norm(x) for x in flat(q.results())]
    bad = []
    for x in v:
        y = norm(bare(x))
        while y[0] == "elem" or y[0] == "call" and y[2] and last(y[1]) in ("filter_map", "flatten", "filter") and all(keeps(z) for z in y[2][1:]):
            y = norm(bare(y[1] if y[0] == "elem" else y[2][0]))
        if y[0] != "call" or last(y[1]) not in ("iter", "into_iter") or plain(y[2][0]) != F(A0, "attributes"):
            bad.append(x)
    ck.ob("attributes:read", bool(v) and not bad, "reading the attributes gives %s" % [show_(x) for x in bad or v], loc(f))


def whole_elem(e, B):
    e = plain(e)
    return e == ("elem", B) or e[0] == "elem" and plain(e[1]) == B or e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and last(e[1][1]) == "next" and plain(e[1][2][0]) == B


def first_part(e, ARR):
    """the first `count` of the array's places"""
    e = plain(e)
    if e[0] == "call" and last(e[1]) in ("iter", "into_iter") and len(e[2]) == 1:
        return first_part(e[2][0], ARR)
    if e[0] == "call" and len(e[2]) == 2 and last(e[1]) == "take":
        return (plain(e[2][0]) == F(ARR, "inline") or first_part(e[2][0], ARR)) and norm(e[2][1]) == F(ARR, "count")
    if e[0] == "call" and len(e[2]) == 2 and last(e[1]) in ("index", "get"):
        r = norm(e[2][1])
        return plain(e[2][0]) == F(ARR, "inline") and r[0] == "agg" and last(r[1]) in ("RangeTo", "Range") and dict(r[3])["end"] == F(ARR, "count") and norm(dict(r[3]).get("start", ("const", 0, None)))[1] == 0
    return False


def read(ck, q, f, key, ARR):
    """iterating: the places in use, then everything that did not fit"""
    OV = F(ARR, "overflow")
    q.deep = True
    for there, empty in ((True, False), (False, True)):
        def env(e):
            if norm(e) == OV:
                return V("Some" if there else "None")
            if e[0] == "call" and e[2] and has(e[2][0], lambda x: x == OV):
                m = last(e[1])
                if m == "is_empty":
                    return empty
                if m in ("is_some", "is_none"):
                    return there == (m == "is_some")
            return None
        v = [x for x in flat(q.result_from(q.entry(), cut=under_env(env, ck.program("all"))))]
        bad = []
        for x in v:
            x = norm(bare(x))
            while x[0] == "call" and last(x[1]) in ("filter_map", "flatten", "map", "into_iter") and x[2] and has(x[2][0], lambda y: y[0] == "call" and last(y[1]) == "chain"):
                if last(x[1]) == "filter_map" and not all(keeps(y) for y in x[2][1:]):
                    bad.append(x)
                x = [norm(bare(z)) for z in flat(x[2][0])]
                x = x[0] if len(x) == 1 else ("phi", tuple(x))
            for y in flat(x):
                y = norm(bare(y))
                if y[0] != "call" or last(y[1]) != "chain" or len(y[2]) != 2 or not first_part(y[2][0], ARR):
                    bad.append(y)
                    continue
                adapt = {last(z[1]) for z in walk(y[2][1]) if z[0] == "call"} & PICKY
                rest = has(y[2][1], lambda z: z == OV)
                if adapt or there and not rest:
                    bad.append(y)
        ck.ob("%s:%s" % (key, "overflow" if there else "inline"), bool(v) and not bad, "iterating gives %s" % [show_(x) for x in bad or v], loc(f))


def keeps(e):
    """a filter that only leaves out what is not there"""
    if e[0] != "clo":
        return True
    return all(opt(y)[0] == "elem" or (some(y) is not None and some(y)[0] == "fld") or y[0] == "agg" and y[2] == "None" for y in flat(e[1])) if len(e) > 1 and e[1] else True


def places_of(q):
    """(node, index) of the places of a list that are touched by index"""
    g = q.g
    out = []
    for n in g.nodes:
        if n is None or n.k != "assert" or "BoundsCheck" not in str(n.d[2]):
            if n is not None and n.k == "call" and n.d.m in ("get", "get_mut", "get_unchecked", "index", "index_mut") and len(n.d.args) == 2:
                out.append((n, norm(g.ev(n.d.args[1], n.i)), norm(g.ev(n.d.args[0], n.i))))
            continue
        for x in flat(norm(g.ev(n.d[0], n.i))):
            if x[0] == "bin" and x[1] == "Lt":
                out.append((n, norm(x[2]), None))
    return out


def array(ck, p):
    f = ck.one(p.method(GA, "push"), "push")
    q = Q(ck.graph(f))
    q.deep = True
    g = q.g
    IN, OV, N = F(A0, "inline"), F(A0, "overflow"), F(A0, "count")
    slot = lambda e: e[0] == "elem" and norm(e[1]) == IN or e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and last(e[1][1]) == "get_mut" and norm(e[1][2][0]) == IN
    st = [n for n, pth, v in stores(q) if slot(pth) and norm(v) == A1]
    pu = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if norm(g.ev(n.d.args[1], n.i)) == A1 and all(norm(x) == F(OV, "Some.0") or x[0] == "call" and last(x[1]) in ("new", "with_capacity") for x in flat(g.ev(n.d.args[0], n.i)))]
    both = st + pu
    ck.ob("push:kept", bool(both) and not q.reach(q.entry(), avoid=q.S(both)) & q.exits() and q.can_follow(both, both) is None, "a value may not be kept once", loc(f))
    cn = [(n, v) for n, pth, v in stores(q) if pth == N]
    ck.ob("push:count", bool(cn) and all(plus_one(v, N) for _, v in cn), "the count becomes %s" % [show_(v) for _, v in cn], loc(f))
    cns = [n for n, _ in cn]
    r = q.reach(q.after(q.S(st)), avoid=q.S(cns)) & q.exits() and (q.not_before(cns, st) is not None)
    ck.ob("push:counted", not r and q.can_follow(cns, cns) is None, "a value put into a place may not be counted once", loc(f))
    ck.ob("push:counted-only", q.can_follow(pu, cns) is None and q.can_follow(cns, pu) is None, "a value that did not fit is counted as one in a place", loc(f))
    room = lambda l: l[0] == "cmp" and l[1] == "Lt" and norm(l[2]) == N or l[0] == "v" and l[3] == ("Some",) and has(l[1], lambda x: x == IN)
    full = lambda l: l[0] == "cmp" and l[1] == "Le" and norm(l[3]) == N or l[0] == "cmp" and l[1] in ("Eq", "Lt") and any(has(z, lambda x: x == N) for z in l[2:4]) and not (l[1] == "Lt" and norm(l[2]) == N) or l[0] == "v" and l[3] == ("None",) and has(l[1], lambda x: x == IN)
    ck.ob("push:fits", q.unguarded(st, room) is None, "a place is used without comparing the count with the number of places", loc(f))
    ck.ob("push:order", q.unguarded(pu, full) is None, "a value is put behind although there are places left", loc(f))
    bad = [(n, i) for n, i, _ in places_of(q) if i != N]
    early = [n for n, _, _ in places_of(q)]
    ck.ob("push:place", bool(early) and not bad and q.can_follow(cns, early) is None, "the place used is %s, not the next free one" % [show_(i) for _, i in bad], loc(f))
    ov = [(n, v) for n, pth, v in stores(q) if pth == OV]
    for n, v in ov:
        none = lambda l: l[0] == "v" and norm(l[1]) == OV and l[3] == ("None",)
        ck.ob("push:overflow-kept", q.unguarded([n], none) is None, "what did not fit before is thrown away", g.loc(n.i))
    for t, m, key in ((GA, "iter", "iter"), (GA + "IntoIter", "get_iterator", "into_iter")):
        fs = p.method(t, m)
        if not fs:
            continue
        q = Q(ck.graph(fs[0]))
        read(ck, q, fs[0], key, A0)
    f = ck.one(p.method(GA, "len"), "len")
    q = Q(ck.graph(f))
    v = [x for x in flat(q.results())]
    ok = all(x[0] == "bin" and x[1] == "Add" and norm(x[2]) == N and all(y[0] == "const" and y[1] == 0 or y[0] == "call" and last(y[1]) in ("len", "map_or", "unwrap_or") and has(y, lambda z: z == OV) for y in flat(x[3])) for x in v)
    ck.ob("len", bool(v) and ok, "the length is %s" % [show_(x) for x in v], loc(f))
    f = ck.one(p.method(GA, "default"), "default")
    v = [norm(x) for x in flat(Q(ck.graph(f)).results())]
    ck.ob("empty", bool(v) and all(x[0] == "agg" and norm(dict(x[3])["count"])[:2] == ("const", 0) and norm(dict(x[3])["overflow"])[2:3] == ("None",) for x in v), "it starts as %s" % [show_(x) for x in v], loc(f))


def at_store(q, n, r):
    """the values stored at n on the paths in r"""
    live = lambda x: not (x[0] == "agg" and len(x) > 4 and isinstance(x[4], int) and not q.S([q.g.nodes[x[4]]]) & r)

    def expand(e):
        c = [y for y in e[2] if y[0] == "clo"] if e[0] == "call" and last(e[1]) in ("with", "call", "call_once", "map_current") else []
        return [z for y in c for w in alts(y[1]) for z in expand(w)] if c else [e]
    return [y for x in alts(q._pv_rv(n, (), q.S([n]) & r, r, 0)) for y in expand(x) if live(y)]


def emit(ck, p):
    LG = SDK + "logs::logger::SdkLogger"
    f = ck.one(p.method(LG, "create_log_record"), "create_log_record")
    v = [norm(x) for x in flat(Q(ck.graph(f)).results())]
    for fld in FIELDS:
        ck.ob("new:" + fld, bool(v) and all(x[0] == "agg" and norm(dict(x[3])[fld])[2:3] == ("None",) for x in v), "a new record starts with a %s" % fld, loc(f))
    f = ck.one(p.method(LG, "emit"), "emit")
    q = Q(ck.graph(f))
    q.deep = True
    g = q.g
    C = [n for n in q.calls(lambda c: c.m == "emit" and (c.tr or "").endswith("LogProcessor"))]
    supp = lambda l: l[0] == "b" and l[2] is True and has(l[1], lambda x: x[0] == "fld" and x[2] == "suppress_telemetry")
    PROC = F(A0, "provider", "inner", "processors")
    w = forall(q, q.entry(), C, cut=supp) if C else "never"
    ck.ob("emit:every", w is None, "a processor may not get the record: %s" % w, loc(f))
    nx = q.calls(lambda c: last(c.name) in ("next", "next_back"))
    r = q.S(C) & q.reach(q.after(q.S(C)), avoid=q.S(nx) | closure_ends(q))
    ck.ob("emit:once", not r, "a processor gets the record twice", loc(f))
    for n in C:
        pk = {last(x[1]) for x in walk(g.ev(n.d.args[0], n.i)) if x[0] == "call"} & PICKY
        ck.ob("emit:processors", {norm(b) for b in bases(g.ev(n.d.args[0], n.i))} == {PROC} and not pk, "the record goes to %s" % show_(g.ev(n.d.args[0], n.i)), g.loc(n.i))
        v = [x for x in flat(g.ev(n.d.args[1], n.i)) if x[0] != "part"]
        ck.ob("emit:record", [norm(x) for x in v] == [A1], "what they get is %s" % [show_(x) for x in v], g.loc(n.i))
        ck.ob("emit:scope", norm(g.ev(n.d.args[2], n.i)) == F(A0, "scope"), "the scope they get is %s" % show_(g.ev(n.d.args[2], n.i)), g.loc(n.i))
    W = written(q, A1)
    ok = {F(A1, "trace_context"), F(A1, "observed_timestamp")}
    ck.ob("emit:changes", all(pth in ok for _, pth, _ in W), "it changes %s" % [show_(x[1]) for x in W], loc(f))

    def env_of(fld, there, span=True):
        def env(e):
            if norm(e) == F(A1, fld):
                return V("Some" if there else "None")
            if e[0] == "fld" and e[2] == "suppress_telemetry":
                return False
            if fld == "trace_context" and e[0] == "fld" and e[2] == "span" and has(e, lambda x: x[0] == "fld" and x[2] == "current_cx"):
                return V("Some" if span else "None")
            if e[0] == "call" and last(e[1]) in ("is_some", "is_none") and len(e[2]) == 1:
                x = env(norm(e[2][0]))
                return (x.name == "Some") == (last(e[1]) == "is_some") if isinstance(x, V) else None
            if e[0] == "call" and last(e[1]) == "has_active_span":
                return span if fld == "trace_context" else None
            return None
        return env
    for fld in ("trace_context", "observed_timestamp"):
        for there, span in ((True, True), (True, False), (False, True), (False, False)):
            if fld == "observed_timestamp" and not span:
                continue
            cut = under_env(env_of(fld, there, span), p)
            r = q.reach(q.entry(), cut=cut)
            ws = [(n, v) for n, pth, v in W if pth == F(A1, fld) and q.S([n]) & r]
            key = "emit:%s:%s" % (fld, "given" if there else "missing" if span else "no-span")
            if there or not span:
                real = [v for n, _ in ws for v in at_store(q, n, r) if not (norm(v) == F(A1, fld) or some(v) == F(A1, fld, "Some.0") and there or v[0] == "agg" and v[2] == "None" and not there)]
                ck.ob(key, not real, "it is replaced by %s" % [show_(v) for v in real], loc(f))
                continue
            miss = q.S(C) & q.reach(q.entry(), avoid=q.S([n for n, _ in ws]), cut=cut)
            ck.ob(key, bool(ws) and not miss, "it may be left out", loc(f))
            for n, v in ws:
                for x in at_store(q, n, r):
                    y = some(x)
                    if fld == "observed_timestamp":
                        good = y is not None and is_now(y)
                    else:
                        d = dict(y[3]) if y is not None and y[0] == "agg" else {}

                        def of_span(e, k):
                            vs = [plain(z) for z in flat(e)]
                            vs = [z for z in vs if not has(z, lambda s: s[0] in ("const", "static") and "SynchronizedSpan" in str(s))]
                            return bool(vs) and all(z[0] == "fld" and z[2] == k and has(z, lambda s: s[0] == "fld" and s[2] == "span_context") and has(z, lambda s: s[0] == "fld" and s[2] == "current_cx") for z in vs)
                        fl = some(d.get("trace_flags", ("unk",)))
                        good = of_span(d.get("trace_id", ("unk",)), "trace_id") and of_span(d.get("span_id", ("unk",)), "span_id") and any(z[0] == "agg" and z[2] == "Some" and of_span(z[3][0][1], "trace_flags") for z in [norm(d.get("trace_flags", ("unk",)))])
                    ck.ob(key + ":value", good, "it becomes %s" % show_(x), g.loc(n.i))
    # loggers
    LP = SDK + "logs::logger_provider::SdkLoggerProvider"
    f = ck.one(p.method(LP, "logger_with_scope"), "logger_with_scope")
    q = Q(ck.graph(f))
    down = lambda l: l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "load"
    v = [norm(x) for x in flat(q.result_from(q.entry(), cut=down))]
    ck.ob("logger", bool(v) and all(x[0] == "agg" and plain(dict(x[3])["scope"]) == A1 and plain(dict(x[3])["provider"]) == A0 for x in v), "the logger is %s" % [show_(x) for x in v], loc(f))
    # who wants records
    f = p.method(LG, "event_enabled")
    if f:
        q = Q(ck.graph(f[0]))
        C = [n for n in q.calls(lambda c: c.m == "event_enabled" and (c.tr or "").endswith("LogProcessor"))]
        for n in C:
            v = [norm(q.g.ev(a, n.i)) for a in n.d.args]
            ck.ob("enabled:asks", {norm(b) for b in bases(v[0])} == {PROC} and [plain(x) for x in v[1:]] == [A1, A2, ("arg", 3)], "asks %s" % [show_(x) for x in v], q.g.loc(n.i))
        rs = q.results()
        names = {last(x[1]) for x in walk(rs) if x[0] == "call"}
        yes = {t for s, lab, t, l in q.literals() if l[0] == "b" and l[2] is True and any(x[0] == "call" and last(x[1]) == "event_enabled" for x in flat(l[1]))}
        ok = bool(C) and not names & (PICKY | {"all", "not"}) and not any(x[0] == "un" for x in walk(rs))
        if "any" not in names:
            ok = ok and bool(yes) and all(x[:2] == ("const", True) for x in flat(q.result_from(yes)))
        ck.ob("enabled:any", ok, "the answer is %s" % show_(rs), loc(f[0]))


def processors(ck, p):
    for f in p.fns.values():
        if f.item == "emit" and (f.trait or "").endswith("LogProcessor") and f.crate == "opentelemetry_sdk" and "promoted" not in f.name:
            kind = last(f.self_adt or f.name) + (":async" if "async" in f.name else "")
            q = Q(ck.graph(f))
            q.deep = True
            g = q.g
            X = [n for n in q.calls(lambda c: c.m == "export" and (c.tr or "").endswith("LogExporter"))]
            S = [n for n in q.calls(lambda c: c.m == "try_send" and len(c.args) == 2) if any(pair(y) for x in flat(g.ev(n.d.args[1], n.i)) for y in walk(x))]
            if X:
                down = lambda l: l[0] == "b" and l[2] is True and has(l[1], lambda x: x[0] == "fld" and "shutdown" in x[2]) or l[0] == "v" and l[3] == ("Err",) and has(l[1], lambda x: x[0] == "call" and last(x[1]) == "lock")
                ck.ob(kind + ":exported", not q.reach(q.entry(), avoid=q.S(X), cut=down) & q.exits() and q.can_follow(X, X) is None, "a record may not be exported once", loc(f))
                for n in X:
                    v = [norm(bare(x)) for x in flat(g.ev(n.d.args[1], n.i))]
                    ok = bool(v) and all(batch(x) == ("array", 1) for x in v)
                    ck.ob(kind + ":record", ok, "what is exported is %s" % [show_(x) for x in v], g.loc(n.i))
            else:
                down = lambda l: l[0] == "b" and l[2] is True and has(l[1], lambda x: x[0] == "fld" and "shutdown" in x[2])
                ck.ob(kind + ":queued", bool(S) and not q.reach(q.entry(), avoid=q.S(S), cut=down) & q.exits() and q.can_follow(S, S) is None, "a record may not be queued once", loc(f))
    for f in p.fns.values():
        if f.crate == "opentelemetry_sdk" and last(f.name.split("::{closure")[0]) in ("export_batch_sync", "export_with_timeout") and ("::logs::" in f.name) and any(b and b[1][0] == "call" and b[1][1].get("m") == "export" for b in f.d["bb"]):
            q = Q(ck.graph(f))
            q.deep = True
            for n in q.calls(lambda c: c.m == "export" and (c.tr or "").endswith("LogExporter")):
                v = [norm(bare(x)) for x in flat(q.g.ev(n.d.args[1], n.i))]
                v = [built(q, x) or x for x in v]
                ck.ob("batch:%s" % last(f.name.split("::{closure")[0]), bool(v) and all(batch(x) in (("all", 0),) for x in v), "what is exported is %s" % [show_(x) for x in v], q.g.loc(n.i))
    # reading a batch
    fs = [f for f in p.fns.values() if f.item == "next" and (f.self_adt or "").endswith("LogBatchDataIter")]
    if fs:
        f = fs[0]
        q = Q(ck.graph(f))
        q.deep = True
        g = q.g
        IX, D = F(A0, "index"), F(A0, "data")
        for var, inner in (("SliceOfOwnedData.0", True), ("SliceOfBorrowedData.0", False)):
            name = var.split(".")[0]
            env = lambda e: V(name) if norm(e) == D else None
            left = lambda l: l[0] == "cmp" and l[1] in ("Le", "Eq") and any(has(z, lambda x: x == IX) for z in l[2:4]) and not (l[1] == "Le" and norm(l[2]) == IX) or l[0] == "v" and l[3] == ("None",)
            cu = under_env(env, p)
            cut = lambda l: cu(l) or left(l)
            v = [norm(x) for x in alts(q.result_from(q.entry(), cut=cut))]
            bad = [x for x in v if not item(x, F(D, var))]
            ck.ob("batch:next:" + name, bool(v) and not bad, "the next record is %s" % [show_(x) for x in bad or v], loc(f))
            r = q.reach(q.entry(), cut=cut)
            up = [n for n, pth, w in stores(q) if pth == IX and plus_one(w, IX) and q.S([n]) & r]
            ck.ob("batch:next:%s:goes-on" % name, bool(up) and not q.reach(q.entry(), avoid=q.S(up), cut=cut) & q.exits() and q.can_follow(up, up) is None, "the position does not move on by one", loc(f))
        pl = places_of(q)
        allup = [n for n, pth, w in stores(q) if pth == IX]
        ck.ob("batch:next:place", bool(pl) and all(i == IX for _, i, _ in pl) and q.can_follow(allup, [n for n, _, _ in pl]) is None, "the record is not taken from the position", loc(f))
        ck.ob("batch:next:position", all(plus_one(w, IX) for n, pth, w in stores(q) if pth == IX), "the position is changed otherwise", loc(f))
        it = ck.one(p.method(SDK + "logs::export::LogBatch", "iter"), "LogBatch::iter")
        v = [norm(bare(x)) for x in flat(Q(ck.graph(it)).results())]
        ck.ob("batch:iter", bool(v) and all(x[0] == "agg" and plain(dict(x[3])["data"]) == F(A0, "data") and norm(dict(x[3])["index"])[:2] == ("const", 0) for x in v), "reading a batch starts as %s" % [show_(x) for x in v], loc(it))
    # the exporter that keeps what it gets
    f = ck.one(p.method(SDK + "logs::in_memory_exporter::InMemoryLogExporter", "export"), "InMemoryLogExporter::export")
    for f in [f] + [x for x in p.fns.values() if x.parent == f.name]:
        q = Q(ck.graph(f))
        P = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2)]
        if not P:
            continue
        w = forall(q, q.entry(), P, B={y for n in P for x in walk(q.g.ev(n.d.args[1], n.i)) if x[0] == "elem" for y in [x[1], norm(x[1])]}, cut=lambda l: l[0] == "v" and l[3] == ("Err",))
        ck.ob("in-memory:every", w is None, "a record may not be kept: %s" % w, loc(f))
        for n in P:
            v = [norm(x) for x in flat(q.g.ev(n.d.args[1], n.i))]
            ok = all(x[0] == "agg" and all(plain(dict(x[3])[k])[0] == "fld" and plain(dict(x[3])[k])[2] == str(i) and plain(dict(x[3])[k])[1][0] == "elem" for i, k in enumerate(("record", "instrumentation"))) for x in v)
            ck.ob("in-memory:record", bool(v) and ok, "what is kept is %s" % [show_(x) for x in v], q.g.loc(n.i))


def pair(e):
    """(record, scope) as given to emit"""
    return e[0] == "tuple" and len(e[1]) == 2 and [plain(x) for x in e[1]] == [A1, A2]


def batch(e):
    """what a LogBatch holds: one given record, or all of a list"""
    e = norm(bare(e))
    while e[0] == "agg" and last(e[1]) in ("LogBatch", "LogBatchData") and len(e[3]) == 1:
        e = norm(bare(e[3][0][1]))
    if e[0] == "array" and len(e[1]) == 1 and pair(norm(bare(e[1][0]))):
        return ("array", 1)
    if e[0] in ("arg", "fld"):
        return ("all", 0)
    if e[0] == "call" and last(e[1]) == "collect" and not {last(x[1]) for x in walk(e) if x[0] == "call"} & PICKY:
        for x in walk(e):
            if x[0] == "clo" and len(x) > 1:
                ys = [norm(bare(y)) for y in flat(x[1])]
                if not all(y[0] == "tuple" and len(y[1]) == 2 and all(z[0] == "fld" and z[2] == str(i) and z[1][0] == "elem" for i, z in enumerate(plain(w) for w in y[1])) for y in ys):
                    return None
        return ("all", 0)
    return None


def inside(e):
    e = norm(bare(e))
    while e[0] == "agg" and last(e[1]) in ("LogBatch", "LogBatchData") and len(e[3]) == 1:
        e = norm(bare(e[3][0][1]))
    return e


def built(q, e):
    """the list, if e is a vector that gets (record, scope) of each of its elements"""
    e = inside(e)
    if e[0] != "call" or last(e[1]) not in ("new", "with_capacity"):
        return None
    P = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if norm(q.g.ev(n.d.args[0], n.i)) == e]
    src = set()
    for n in P:
        for y in (norm(bare(x)) for x in flat(q.g.ev(n.d.args[1], n.i))):
            z = [plain(w) for w in y[1]] if y[0] == "tuple" else []
            if len(z) != 2 or not all(w[0] == "fld" and w[2] == str(i) and w[1][0] == "elem" for i, w in enumerate(z)):
                return None
            src.add(z[0][1][1])
    empty = lambda l: l[0] == "b" and l[2] is True and has(l[1], lambda x: x[0] == "call" and last(x[1]) == "is_empty")
    return src.pop() if len(src) == 1 and forall(q, q.entry(), P, B=set(src), cut=empty) is None and q.can_follow(P, [n for n in P if len(P) > 1]) is None else None


def item(e, SL):
    """Some((record, scope)) of one element of the slice"""
    x = e[3][0][1] if e[0] == "agg" and e[2] == "Some" else None
    x = norm(bare(x)) if x is not None else None
    if x is None or x[0] != "tuple" or len(x[1]) != 2:
        return False
    ok = []
    for i, y in enumerate(x[1]):
        y = plain(y)
        ok.append(y[0] == "fld" and y[2].split(".")[-1] == str(i) and has(y, lambda z: z[0] == "elem" and norm(z[1]) == SL or z[0] == "call" and last(z[1]) in ("get", "index") and norm(z[2][0]) == SL))
    return all(ok)


def check(ck):
    p = ck.program("all")
    ck.rule("each setter of a log record sets its field to what is given and nothing else, each attribute is kept once, in order, and read back; emitting hands the record with the logger's scope to every processor once, adding the current span's ids and the present only where they are missing")
    ck.rule("processors export or queue exactly the record and scope they get; batches are read from first to last; event_enabled asks the processors")
    record(ck, p)
    array(ck, p)
    emit(ck, p)
    processors(ck, p)
