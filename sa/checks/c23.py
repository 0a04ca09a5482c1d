"""C23: an export succeeds exactly when the collector accepted it"""
from checks.assume import *
from checks import c05
from checks.c15 import bare

TITLE = "An export reports success exactly when the collector accepted the whole batch"
FLOOR = 60
OTLP = [
    ("opentelemetry_otlp::span::SpanExporter", "SpanExporter", "traces"),
    ("opentelemetry_otlp::logs::LogExporter", "LogExporter", "logs"),
    ("opentelemetry_otlp::metric::MetricExporter", "PushMetricExporter", "metrics"),
]
ZIPKIN = "opentelemetry_zipkin::exporter::ZipkinExporter"
BATCH = ("arg", 1)
ACCEPTED, REFUSED = (200, 202, 204, 299), (100, 199, 300, 304, 400, 404, 429, 500, 503, 599)
THIN = ("filter", "take", "skip", "step_by", "take_while", "skip_while", "truncate", "dedup", "retain", "filter_map", "first", "last", "split_at", "split_off", "get", "pop")


def await_root(e, mine):
    """e = poll(sink) followed by projections -> the projections, else None"""
    pr = []
    while e[0] in ("fld", "var", "cast"):
        if e[0] == "fld":
            pr.append(e[2])
        elif e[0] == "var":
            pr.append(e[2])
        e = e[1]
    if e[0] == "call" and last(e[1]) == "poll" and e[2]:
        x = e[2][0]
        while not mine(x):
            if x[0] == "call" and x[2] and last(x[1]) in ("pin", "new", "new_unchecked", "into_future", "as_mut", "get_unchecked_mut", "timeout", "map_unchecked_mut", "into_pin"):
                x = x[2][-1]
            elif x[0] == "agg" and x[3]:
                x = x[3][-1][1]
            elif x[0] == "fld":
                x = x[1]
            else:
                return None
        return tuple(reversed(pr))
    if mine(e):
        return ("Ready.0",) + tuple(reversed(pr))
    return None


def outcome(sinks, ok, status=None):
    """what is known about the response: the transmission worked or failed, and the status code of the response"""
    ids = {n.i for n in sinks}
    mine = lambda x: x[0] == "call" and len(x) > 3 and x[3] in ids

    def env(e):
        if e[0] in ("call", "fld", "var"):
            r = await_root(e, mine)
            if r is not None:
                if not r:
                    return V("Ready")
                if r[-1] == "Ready.0" or (r[-1] == "Ok.0" and len(r) > 1 and r[-2] == "Ready.0" and has(e, lambda x: x[0] == "call" and last(x[1]) == "timeout")):
                    return V("Ok") if ok else V("Err")
                return None
        if e[0] == "call" and e[2] and status is not None:
            m = last(e[1])
            if m in ("as_u16", "as_str", "is_success", "is_client_error", "is_server_error", "is_redirection", "is_informational") and has(e[2][0], mine):
                k = status // 100
                return {"as_u16": status, "as_str": str(status), "is_success": k == 2, "is_client_error": k == 4, "is_server_error": k == 5, "is_redirection": k == 3, "is_informational": k == 1}[m]
            if m == "error_for_status" and has(e[2][0], mine):
                return V("Ok") if status // 100 < 4 else V("Err")
        return None
    return env


def both_env(*envs):
    def env(e):
        for f in envs:
            v = f(e)
            if v is not None:
                return v
        return None
    return env


def never_ok(q, cut, avoid=()):
    r = q.reach(q.entry(), cut=cut, avoid=set(avoid))
    ex = q.exits() & r
    if not ex:
        return None
    for a in flat(q.pv(q.g.result_place, ex, r)):
        if not (a[0] == "never" or a[0] == "agg" and a[2] == "Err"):
            return show_(a)
    return None


def only_ok(q, starts, cut):
    r = q.reach(starts, cut=cut)
    ex = q.exits() & r
    if not ex:
        return "no result"
    for a in flat(q.pv(q.g.result_place, ex, r)):
        if not (a[0] == "never" or a[0] == "agg" and a[2] == "Ok"):
            return show_(a)
    return None


def http_request(e):
    """method, uri, header pairs and body of a built request"""
    out = {"headers": []}
    while True:
        e = strip_cast(e)
        if e[0] == "fld" and e[2] == "Ok.0":
            e = e[1]
            continue
        if e[0] != "call":
            return None
        m, a = last(e[1]), e[2]
        if m in ("method", "uri", "body") and len(a) == 2:
            out[m] = a[1]
        elif m == "header" and len(a) == 3:
            out["headers"].append((a[1], a[2]))
        elif m in ("post", "put", "get") and len(a) == 1:
            out["method"], out["uri"] = ("const", m.upper()), a[0]
            return out
        elif m in ("builder", "new") and not a:
            return out
        elif m in ("version", "extension"):
            pass
        else:
            return None
        e = a[0]


def is_const(e, word):
    return e is not None and e[0] == "const" and word.lower() in " ".join(str(x) for x in e[1:]).lower()


def transport(kind):
    """assume that the exporter is one of the transports"""
    def env(e):
        n = norm(e)
        return V(kind) if n == ("fld", ("arg", 0), "client") else None
    return env


def protocol(name):
    def env(e):
        n = norm(e)
        return V(name) if n[0] == "fld" and n[2] == "protocol" else None
    return env


def encodings(e, msg):
    """the encoders applied to the message in a body expression, and what they are applied to"""
    out = []
    for a in flat(e):
        enc = None
        for x in [a] + list(walk(a)):
            if x[0] == "call" and last(x[1]) in ("to_string", "to_string_pretty", "to_vec", "to_vec_pretty", "to_writer") and "serde_json" in x[1]:
                enc = ("json", x[2][-1])
                break
            if x[0] == "call" and last(x[1]) in ("encode_to_vec", "encode", "encode_length_delimited_to_vec"):
                enc = ("protobuf", x[2][0])
                break
        out.append(enc or ("?", a))
    return out


def whole_batch(e, sig, res):
    """the message holds all of the batch (and the exporter's resource)"""
    e = norm(e)
    if any(x[0] == "call" and last(x[1]) in THIN and has(x, lambda y: y == BATCH) for x in [e] + list(walk(e))):
        return False
    if sig == "metrics":
        return e == BATCH or e[0] == "call" and last(e[1]) in ("from", "into") and e[2][0] == BATCH
    return any(x[0] == "call" and last(x[1]).startswith("group_") and len(x[2]) == 2 and x[2][0] == BATCH and x[2][1] == res for x in [e] + list(walk(e)))


def common(ck, tag, f, q, sinks, http, envs):
    """success exactly if the transmission and the status say so; one transmission"""
    p = q.g.p
    base = both_env(*envs)
    S = q.S(sinks)
    w = never_ok(q, under_env(base, p), avoid=S)
    ck.ob(tag + ":not-sent", w is None, "reports %s without having sent anything" % w, loc(f))
    w = never_ok(q, under_env(both_env(outcome(sinks, False), base), p), avoid=())
    ck.ob(tag + ":send-failed", w is None, "reports %s although the transmission failed" % w, loc(f))
    for st in REFUSED if http else ():
        w = never_ok(q, under_env(both_env(outcome(sinks, True, st), base), p))
        ck.ob(tag + ":status-%d" % st, w is None, "reports %s although the collector answered %d" % (w, st), loc(f))
    for st in ACCEPTED if http else (None,):
        w = only_ok(q, q.after(S), under_env(both_env(outcome(sinks, True, st), base), p))
        ck.ob(tag + ":accepted%s" % ("-%d" % st if st else ""), w is None, "reports %s although the collector accepted the batch" % w, loc(f))
    ck.ob(tag + ":once", single(q, sinks), "one export can transmit the batch more than once", loc(f))


def otlp(ck, p):
    for adt, trait, sig in OTLP:
        f = ck.one(p.method(adt, "export", trait=trait), adt + "::export")
        q = Q(c05.graph(ck, f))
        q.deep = True
        g = q.g
        allsinks = q.calls(c05.is_sink)
        for kind in ("Http", "Tonic"):
            tag = "%s:%s" % (sig, kind.lower())
            tr = transport(kind)
            r = q.reach(q.entry(), cut=under_env(tr, p))
            sinks = [n for n in allsinks if q.S([n]) & r]
            ck.ob(tag + ":sink", len(sinks) == 1, "%d transmissions" % len(sinks), loc(f))
            if len(sinks) != 1:
                continue
            common(ck, tag, f, q, sinks, kind == "Http", [tr])
            n = sinks[0]
            base = ("fld", ("fld", ("arg", 0), "client"), kind + ".0")
            res = ("fld", base, "resource")
            if kind == "Http":
                for proto, enc, ct in (("HttpJson", "json", "application/json"), ("HttpBinary", "protobuf", "application/x-protobuf")):
                    e = opnd(q, n, n.d.args[1], cut=under_env(both_env(tr, protocol(proto)), p))
                    rq = http_request(e)
                    ck.ob("%s:%s:request" % (tag, proto), rq is not None and "uri" in rq and "body" in rq, "cannot see how the request is built: %s" % show_(e)[:300], g.loc(n.i))
                    if not rq or "uri" not in rq or "body" not in rq:
                        continue
                    ck.ob("%s:%s:method" % (tag, proto), is_const(rq.get("method"), "post"), "the method is %s" % show_(rq.get("method", ("undef",))), g.loc(n.i))
                    ck.ob("%s:%s:uri" % (tag, proto), norm(rq["uri"]) == ("fld", base, "collector_endpoint"), "the batch is sent to %s" % show_(rq["uri"]), g.loc(n.i))
                    cts = [v for k, v in rq["headers"] if is_const(k, "content_type") or is_const(k, "content-type")]
                    ok = len(cts) == 1 and all(const_str(a) == ct for a in flat(cts[0]))
                    ck.ob("%s:%s:content-type" % (tag, proto), ok, "content type is %s" % (show_(cts[0]) if cts else "missing"), g.loc(n.i))
                    encs = encodings(rq["body"], sig)
                    ck.ob("%s:%s:encoding" % (tag, proto), all(k == enc for k, _ in encs), "the body is %s" % show_(rq["body"])[:300], g.loc(n.i))
                    for k, m in encs:
                        ck.ob("%s:%s:batch" % (tag, proto), k != "?" and all(whole_batch(a, sig, res) for a in flat(m)), "the message is %s" % show_(m)[:300], g.loc(n.i))
                H = ("fld", base, "headers")
                req = bare(g.ev(n.d.args[1], n.i))
                C, bulk = [], []
                for c in q.calls(lambda c: last(c.name) in ("insert", "append", "header", "extend", "try_insert", "try_append")):
                    a = [bare(g.ev(x, c.i)) for x in c.d.args]
                    if len(a) == 3 and a[1] == ("fld", ("elem", H), "0") and a[2] == ("fld", ("elem", H), "1"):
                        C.append(c)
                    if len(a) == 2 and whole(g.ev(c.d.args[1], c.i), {H}):
                        bulk.append(c)
                cut = under_env(tr, p)
                w = None
                if bulk:
                    w = q.not_before(bulk, sinks, cut=cut)
                else:
                    w = forall(q, q.entry(), C, exits=q.S(sinks), B={H}, cut=cut)
                ck.ob(tag + ":headers", bool(C or bulk) and w is None, "a configured header may not be sent: %s" % w, g.loc(n.i))
            else:
                e = opnd(q, n, n.d.args[1], cut=under_env(tr, p))
                e = norm(e)
                for a in flat(e):
                    ok = a[0] == "call" and last(a[1]) == "from_parts" and len(a[2]) == 3
                    ic = lambda x: x[0] == "call" and last(x[1]) == "call" and "Interceptor" in x[1]
                    ck.ob(tag + ":metadata", ok and has(a[2][0], ic) or not ok and has(a, ic), "the metadata is not what the interceptor returned: %s" % show_(a)[:200], g.loc(n.i))
                    ck.ob(tag + ":batch", whole_batch(a[2][2] if ok else a, sig, res), "the message is %s" % show_(a[2][2] if ok else a)[:300], g.loc(n.i))
        # the resource
        if sig == "metrics":
            continue
        f = ck.one(p.method(adt, "set_resource", trait=trait), adt + "::set_resource")
        q = Q(c05.graph(ck, f))
        for kind in ("Http", "Tonic"):
            res = ("fld", ("fld", ("fld", ("arg", 0), "client"), kind + ".0"), "resource")
            st = [(n, v) for n, pth, v in stores(q) if norm(pth) == res]
            ok = [n for n, v in st if all(norm(strip_cast(a)) == ("arg", 1) or a[0] == "call" and last(a[1]) in ("from", "into", "clone") and norm(a[2][0]) == ("arg", 1) for a in alts(v))]
            r = q.reach(q.entry(), avoid=q.S(ok), cut=under_env(transport(kind), p))
            ck.ob("%s:%s:resource" % (sig, kind.lower()), bool(ok) and len(ok) == len(st) and not (q.exits() & r), "set_resource does not reach the %s transport" % kind, loc(f))


def zipkin(ck, p):
    f = ck.one(p.method(ZIPKIN, "export", trait="SpanExporter"), ZIPKIN + "::export")
    q = Q(ck.graph(f, opaque=lambda f: "::model::" in f.name, max_depth=12))
    g = q.g
    sinks = q.calls(c05.is_sink)
    ck.ob("zipkin:sink", len(sinks) == 1, "%d transmissions" % len(sinks), loc(f))
    if len(sinks) != 1:
        return
    common(ck, "zipkin", f, q, sinks, True, [])
    n = sinks[0]
    e = opnd(q, n, n.d.args[1])
    rq = http_request(e)
    ck.ob("zipkin:request", rq is not None and "uri" in rq and "body" in rq, "cannot see how the request is built: %s" % show_(e)[:300], g.loc(n.i))
    if not rq or "uri" not in rq or "body" not in rq:
        return
    ck.ob("zipkin:method", is_const(rq.get("method"), "post"), "the method is %s" % show_(rq.get("method", ("undef",))), g.loc(n.i))
    u = rq["uri"]
    ck.ob("zipkin:uri", u[0] == "fld" and u[2] == "collector_endpoint" and rooted(u, lambda x: x == ("arg", 0)), "the batch is sent to %s" % show_(u), g.loc(n.i))
    cts = [v for k, v in rq["headers"] if is_const(k, "content_type") or is_const(k, "content-type")]
    ck.ob("zipkin:content-type", len(cts) == 1 and const_str(cts[0]) == "application/json", "content type is %s" % (show_(cts[0]) if cts else "missing"), g.loc(n.i))
    spans = lambda e: has(e, lambda x: x[0] == "call" and last(x[1]).endswith("into_zipkin_span"))
    C = q.calls(lambda c: last(c.name) == "into_zipkin_span")
    ck.ob("zipkin:mapping", bool(C) and all(bare(g.ev(c.d.args[1], c.i)) == ("elem", BATCH) for c in C), "spans of the batch are not converted", loc(f))
    w = forall(q, q.entry(), C, exits=q.S(sinks), B={BATCH})
    ck.ob("zipkin:all-spans", w is None, "a span of the batch may be left out: %s" % w, loc(f))
    body = norm(g.ev(n.d.args[1], n.i))
    thin = [last(x[1]) for x in walk(body) if x[0] == "call" and last(x[1]) in THIN]
    ck.ob("zipkin:batch", has(body, lambda x: x == BATCH or x[0] == "call" and last(x[1]) == "into_zipkin_span") and not thin, "the body is %s" % show_(body)[:300], g.loc(n.i))


def clients(ck, p):
    k = 0
    for im in p.impls_of("HttpClient"):
        adt = im["self_ty"].adt
        if im["crate"] != "opentelemetry_http" or not adt:
            continue
        k += 1
        tag = "client:%s" % (adt.split("::")[0] + ("-blocking" if "blocking" in adt else "") if not adt.startswith("opentelemetry") else last(adt))
        f = ck.one(p.method(adt, "send_bytes", trait="HttpClient"), adt + "::send_bytes")
        q = Q(c05.graph(ck, f))
        g = q.g
        sinks = q.calls(lambda c: last(c.name) in ("execute", "request") and "Client" in c.name)
        ck.ob(tag + ":sink", len(sinks) == 1, "%d transmissions" % len(sinks), loc(f))
        if len(sinks) != 1:
            continue
        n = sinks[0]
        ids = {n.i}
        mine = lambda x: x[0] == "call" and len(x) > 3 and x[3] in ids
        w = never_ok(q, None, avoid=q.S(sinks))
        ck.ob(tag + ":not-sent", w is None, "returns %s without having sent anything" % w, loc(f))

        def failed(e):
            if e[0] in ("fld", "call", "var"):
                r = await_root(e, mine)
                if r is not None:
                    return V("Ready") if not r else V("Err") if r[-1] == "Ready.0" else None
            return None
        w = never_ok(q, under_env(failed, p))
        ck.ob(tag + ":send-failed", w is None, "returns %s although the transmission failed" % w, loc(f))
        ck.ob(tag + ":once", single(q, sinks), "the request can be sent more than once", loc(f))
        oks = [a for a in flat(q.results()) if a[0] == "agg" and a[2] == "Ok"]
        ck.ob(tag + ":ok", bool(oks), "never succeeds", loc(f))
        for a in oks:
            v = a[3][0][1]
            b = [x for x in [v] + list(walk(v)) if x[0] == "call" and last(x[1]) == "status" and len(x[2]) == 2]
            direct = not b and not has(v, lambda x: x[0] == "call" and last(x[1]) in ("builder", "new", "default") and "Response" in x[1])
            st = bool(b) and all(all(y[0] == "call" and last(y[1]) == "status" and has(y, mine) for y in alts(x[2][1])) for x in b)
            ck.ob(tag + ":status", has(v, mine) and (st or direct), "the status handed back is not the one received: %s" % show_(v)[:300], loc(f))
            bodies = [x for x in [v] + list(walk(v)) if x[0] == "call" and last(x[1]) == "body" and len(x[2]) == 2]
            ck.ob(tag + ":body", direct and not bodies or bool(bodies) and all(has(x[2][1], mine) for x in bodies), "the body handed back is not the one received: %s" % show_(v)[:300], loc(f))
        rq = norm(g.ev(n.d.args[1], n.i))
        if "hyper" in adt:
            fp = [x for x in [rq] + list(walk(rq)) if x[0] == "call" and last(x[1]) == "from_parts" and len(x[2]) == 2]
            part = lambda x, i: has(x, lambda y: y == ("fld", y[1], str(i)) and y[1][0] == "call" and last(y[1][1]) == "into_parts" and norm(y[1][2][0]) == BATCH if y[0] == "fld" else False)
            ok = bool(fp) and part(fp[0][2][0], 0) and part(fp[0][2][1], 1) or not fp and has(rq, lambda y: y[0] == "call" and last(y[1]) == "map" and y[2][0] == BATCH)
        else:
            ok = has(rq, lambda y: y == BATCH)
        ck.ob(tag + ":request", ok, "the request sent is %s" % show_(rq)[:300], g.loc(n.i))
    ck.floor("HttpClient impls", 3, k)


def check(ck):
    p = ck.program("all")
    ck.rule("export returns Ok on no path without a transmission, on none where the transmission failed, and over HTTP on none where the status is outside 200..299 (constant propagation of sample codes of every class); it returns Ok on every other path")
    ck.rule("at most one transmission per export")
    ck.rule("the HTTP request is a POST to the configured endpoint with all configured headers; content type and encoding agree with the protocol; gRPC metadata is what the interceptor returned; the message is made of the whole batch and the exporter's resource, which set_resource stores for the transport in use")
    ck.rule("the HTTP client adapters send the request they are given and hand back the received status and body, or an error")
    otlp(ck, p)
    zipkin(ck, p)
    clients(ck, p)
