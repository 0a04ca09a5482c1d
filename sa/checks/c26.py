"""C26: where the SDK takes its configuration from"""
import itertools
from checks.assume import *
from checks.c20 import millis, inner

TITLE = "The SDK is configured by code first, then by its environment variables, then by its defaults"
FLOOR = 350
PARSE = ("parse", "from_str")


class Env:
    """the text of each environment variable (None: not set), and the values of some inputs"""

    def __init__(self, p, texts, args=()):
        self.p, self.texts, self.args = p, dict(texts), dict(args)

    def env(self, e):
        if e == ("unk", "default"):     # of a text that is not there
            return ""
        if e[0] == "call":
            m = last(e[1])
            if m in ("var", "var_os") and "env" in e[1] and e[2]:
                v = const_str(e[2][0])
                return V("Err" if self.texts.get(v) is None else "Ok") if v else None
            if m in PARSE and len(e[2]) == 1:
                t = val(e[2][0], self.env, self.p)
                return None if not isinstance(t, str) else V("Err" if number(t) is None else "Ok")
            if m == "unwrap_or_default" and len(e[2]) == 1:
                v = val(e[2][0], self.env, self.p)
                x = e[2][0]
                while x[0] == "call" and last(x[1]) == "ok":
                    x = x[2][0]
                if isinstance(v, V) and x[0] == "call" and last(x[1]) in ("var",) + PARSE:
                    return val(("fld", x, "Ok.0"), self.env, self.p) if v.name in ("Ok", "Some") else "" if last(x[1]) == "var" else 0
                return None
            if m in ("from_millis", "from_secs") and len(e[2]) == 1:
                n = val(e[2][0], self.env, self.p)
                return None if not isinstance(n, (int, float)) else n * (1 if m == "from_millis" else 1000)
            if m == "is_zero" and len(e[2]) == 1:
                n = val(e[2][0], self.env, self.p)
                return None if not isinstance(n, (int, float)) else n == 0
            return None
        if e[0] == "fld" and e[2] == "Ok.0" and e[1][0] == "call":
            m = last(e[1][1])
            if m in ("var", "var_os") and "env" in e[1][1]:
                return self.texts.get(const_str(e[1][2][0]))
            if m in PARSE and len(e[1][2]) == 1:
                t = val(e[1][2][0], self.env, self.p)
                return number(t) if isinstance(t, str) else None
        n = norm(e)
        if n in self.args:
            return self.args[n]
        if e[0] == "const" and millis(e) is not None and not isinstance(e[1], (int, bool)):
            return millis(e)
        return None

    def cut(self):
        c = under_env(self.env, self.p)
        memo = {}

        def f(l):
            k = repr(l)
            if k not in memo:
                memo[k] = c(l)
            return memo[k]
        return f

    def __str__(self):
        return ", ".join(["%s=%s" % (k, v) for k, v in self.texts.items() if v is not None] + ["%s=%s" % (show_(k), v) for k, v in self.args.items()]) or "nothing set"


def number(t):
    try:
        return int(t) if re.match(r"^[+]?\d+$", t) else float(t)
    except ValueError:
        return None


def refined(q, case):
    """comparisons whose outcome follows from the values that reach them: edges not taken"""
    g, C = q.g, case.cut()
    out = set()
    while True:
        r = q.reach(q.entry(), cut=C, cute=out)
        new = set()
        for s, lab, t, l in q.literals():
            if s not in r or l[0] not in ("cmp", "b") or not isinstance(lab[1], int) or (s, t) in out:
                continue
            nd = g.nodes[lab[1]]
            if nd.k == "call":
                at = q.S([nd]) & r
                v = val(("call", nd.d.name, tuple(q._pv_op(o, (), at, r, 0) for o in nd.d.args), nd.i), case.env, case.p)
                if isinstance(v, bool) and v != (lab[0] != 0):
                    new.add((s, t))
                continue
            if nd.k != "as" or nd.d[1][0] != "bin":
                continue
            x, y = ([val(a, case.env, case.p) for a in flat(q._pv_op(o, (), {s}, r, 0))] for o in nd.d[1][2:4])
            op = nd.d[1][1]
            if len(set(x)) == len(set(y)) == 1 and op in CMP and x[0] is not None and y[0] is not None:
                if CMP[op](x[0], y[0]) != (lab[0] != 0):
                    new.add((s, t))
        if not new:
            return out
        out |= new


def fields(q, C, names, cute=()):
    """values of the result's fields in this case"""
    r = q.reach(q.entry(), cut=C, cute=cute)
    ex = q.exits() & r
    fr, lo, pr = q.g.result_place
    return {k: q.pv((fr, lo, tuple(pr) + tuple(("f", x) for x in k.split("."))), ex, r) if ex else ("never",) for k in names}


def num(e, env, p):
    """the set of values a field may have"""
    return {val(a, env, p) for a in flat(e)}


def compare(ck, tag, q, p, case, want, where):
    q.deep = True
    got = fields(q, case.cut(), want, refined(q, case))
    for k, w in want.items():
        g = num(got[k], case.env, p)
        ck.ob("%s:%s:%s" % (tag, k, case), g == {w}, "with %s, %s is %s, not %s" % (case, k, ", ".join(sorted(map(str, g))) if None not in g else show_(got[k]), w), where)


LOGS, SPANS = "opentelemetry_sdk::logs::batch_log_processor::BatchConfigBuilder", "opentelemetry_sdk::trace::span_processor::BatchConfigBuilder"
BATCH = {
    SPANS: ("BSP", {"max_queue_size": ("MAX_QUEUE_SIZE", 2048), "scheduled_delay": ("SCHEDULE_DELAY", 5000), "max_export_batch_size": ("MAX_EXPORT_BATCH_SIZE", 512), "max_export_timeout": ("EXPORT_TIMEOUT", 30000), "max_concurrent_exports": ("MAX_CONCURRENT_EXPORTS", 1)}),
    LOGS: ("BLRP", {"max_queue_size": ("MAX_QUEUE_SIZE", 2048), "scheduled_delay": ("SCHEDULE_DELAY", 1000), "max_export_batch_size": ("MAX_EXPORT_BATCH_SIZE", 512), "max_export_timeout": ("EXPORT_TIMEOUT", 30000)}),
}


def texts_for(names):
    """every name alone with each kind of text, all at once, and all unset"""
    out = [{}, {n: "x" for n in names}, {n: str(i + 61) for i, n in enumerate(names)}]
    for n in names:
        out += [{n: t} for t in ("77", "0", "7x", "", "-3")]
    return out


def batches(ck, p):
    for adt, (pre, table) in BATCH.items():
        short = adt.split("::")[-2]
        f0 = ck.one(p.method(adt.replace("Builder", ""), "default", trait="core::default::Default"), "BatchConfig::default")
        q = Q(ck.graph(f0))
        var = {k: "OTEL_%s_%s" % (pre, n) for k, (n, _) in table.items()}
        texts = texts_for(list(var.values()))
        texts += [dict(zip((var["max_queue_size"], var["max_export_batch_size"]), x)) for x in itertools.product((None, "x", "100", "3000"), (None, "x", "50", "700", "4000"))]
        for t in texts:
            want = {}
            for k, (n, d) in table.items():
                v = t.get(var[k])
                v = number(v) if v is not None else None
                want[k] = d if v is None or v < 0 else v
            want["max_export_batch_size"] = min(want["max_export_batch_size"], want["max_queue_size"])
            if any(v is not None and number(v) is not None and number(v) < 0 for v in t.values()):
                continue
            compare(ck, "default:" + short, q, p, Env(p, t), want, loc(f0))
        # build keeps what was set
        f = ck.one(p.method(adt, "build"), "BatchConfigBuilder::build")
        q = Q(ck.graph(f))
        for a, b in ((5, 9), (9, 5), (7, 7)):
            args = {("fld", ("arg", 0), k): 1000 + i for i, k in enumerate(table)}
            args[("fld", ("arg", 0), "max_queue_size")], args[("fld", ("arg", 0), "max_export_batch_size")] = a, b
            want = {k: args[("fld", ("arg", 0), k)] for k in table}
            want["max_export_batch_size"] = min(a, b)
            compare(ck, "build:" + short, q, p, Env(p, {}, args), want, loc(f))
        # setters, if there are, change what they name
        for k in table:
            for f in p.method(adt, "with_" + k):
                q = Q(ck.graph(f))
                args = {("fld", ("arg", 0), x): 1000 + i for i, x in enumerate(table)}
                args[("arg", 1)] = 7
                want = {x: args[("fld", ("arg", 0), x)] for x in table}
                want[k] = 7
                compare(ck, "setter:" + short, q, p, Env(p, {}, args), want, loc(f))


def span_config(ck, p):
    C = "opentelemetry_sdk::trace::config::Config"
    f = ck.one(p.method(C, "default", trait="core::default::Default"), "Config::default")
    q = Q(ck.graph(f))
    var = {"max_attributes_per_span": "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "max_events_per_span": "OTEL_SPAN_EVENT_COUNT_LIMIT", "max_links_per_span": "OTEL_SPAN_LINK_COUNT_LIMIT"}
    for t in texts_for(list(var.values())):
        if any(v.startswith("-") for v in t.values()):
            continue
        want = {"span_limits." + k: 128 for k in list(var) + ["max_attributes_per_event", "max_attributes_per_link"]}
        for k, v in var.items():
            if t.get(v) is not None and number(t[v]) is not None:
                want["span_limits." + k] = number(t[v])
        compare(ck, "default:spans", q, p, Env(p, t), want, loc(f))
    on, off = ("AlwaysOn",), ("AlwaysOff",)
    par = lambda x: ("ParentBased", x)
    rat = lambda x: ("TraceIdRatioBased", x)
    S, A = "OTEL_TRACES_SAMPLER", "OTEL_TRACES_SAMPLER_ARG"
    for name in (None, "always_on", "always_off", "traceidratio", "parentbased_always_on", "parentbased_always_off", "parentbased_traceidratio", "parentbased_jaeger_remote", "jaeger_remote", "xray", "", "nonsense"):
        for arg in (None, "0.25", "x"):
            r = 0.25 if arg == "0.25" else 1.0
            want = {"always_on": on, "always_off": off, "traceidratio": rat(r), "parentbased_always_off": par(off), "parentbased_traceidratio": par(rat(r))}.get(name, par(on))
            c = Env(p, {S: name, A: arg})
            e = fields(q, c.cut(), ["sampler"])["sampler"]
            for a in flat(e):
                got = sampler(a, c.env, p)
                ck.ob("sampler:%s" % c, got == want, "the sampler is %s, not %s" % (got or show_(a), want), loc(f))
    # the builder's own settings win: they replace the part of the configuration they name
    B = "opentelemetry_sdk::trace::provider::TracerProviderBuilder"
    for m, k in (("with_sampler", "sampler"), ("with_id_generator", "id_generator")):
        f = ck.one(p.method(B, m), m)
        q = Q(ck.graph(f))
        for x in ("sampler", "id_generator", "span_limits", "resource"):
            for a in flat(fields(q, None, ["config." + x])["config." + x]):
                n = norm(inner(a))
                ck.ob("%s:%s" % (m, x), n == (("arg", 1) if x == k else ("fld", ("fld", ("arg", 0), "config"), x)), "%s becomes %s" % (x, show_(a)), loc(f))


def unbox(e):
    e = strip_cast(e)
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in SAME + ("new",):
        e = strip_cast(e[2][0])
    return e


def sampler(e, env, p):
    """nested names of a sampler value, with the ratio"""
    e = unbox(e)
    if e[0] == "agg" and e[2] in ("AlwaysOn", "AlwaysOff"):
        return (e[2],)
    if e[0] == "agg" and e[2] == "ParentBased":
        x = [sampler(a, env, p) for a in flat(unbox(e[3][0][1]))]
        return ("ParentBased", x[0]) if len(x) == 1 and x[0] else None
    if e[0] == "agg" and e[2] == "TraceIdRatioBased":
        x = num(e[3][0][1], env, p)
        x = x.pop() if len(x) == 1 else None
        x = number(x) if isinstance(x, str) else x
        return ("TraceIdRatioBased", float(x)) if isinstance(x, (int, float)) else None
    return None


READERS = [("opentelemetry_sdk::metrics::periodic_reader::PeriodicReaderBuilder", {"interval": ("OTEL_METRIC_EXPORT_INTERVAL", 60000)}),
           ("opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReaderBuilder", {"interval": ("OTEL_METRIC_EXPORT_INTERVAL", 60000), "timeout": ("OTEL_METRIC_EXPORT_TIMEOUT", 30000)})]


def readers(ck, p):
    for adt, table in READERS:
        short = adt.split("::")[-2]
        f = ck.one(p.method(adt, "new"), "PeriodicReaderBuilder::new")
        q = Q(ck.graph(f))
        for t in texts_for([v for v, _ in table.values()]):
            if any(v.startswith("-") for v in t.values()):
                continue
            want = {k: d if t.get(v) is None or number(t[v]) is None else number(t[v]) for k, (v, d) in table.items()}
            compare(ck, "default:" + short, q, p, Env(p, t), want, loc(f))
        for k in table:
            f = ck.one(p.method(adt, "with_" + k), "with_" + k)
            q = Q(ck.graph(f))
            for v in (0, 9):
                args = {("fld", ("arg", 0), x): 1000 + i for i, x in enumerate(table)}
                want = {x: args[("fld", ("arg", 0), x)] for x in table}
                args[("arg", 1)] = v
                want[k] = v or want[k]
                compare(ck, "setter:" + short, q, p, Env(p, {}, args), want, loc(f))


def zipkin(ck, p):
    fs = [f for f in p.fns.values() if f.crate == "opentelemetry_zipkin" and f.kind == "fn"]
    T, E, D = "OTEL_EXPORTER_ZIPKIN_TIMEOUT", "OTEL_EXPORTER_ZIPKIN_ENDPOINT", "http://127.0.0.1:9411/api/v2/spans"
    f = ck.one([f for f in fs if f.item == "get_timeout"], "get_timeout")
    q = Q(ck.graph(f))
    for t in (None, "", "x", "77", "0"):
        c = Env(p, {T: t})
        e = q.result_from(q.entry(), cut=c.cut())
        g = num(e, c.env, p)
        w = number(t) if t and number(t) is not None else 10000
        ck.ob("zipkin:timeout:%s" % t, g == {w}, "the timeout is %s, not %s" % (show_(e), w), loc(f))
    f = ck.one(p.method("opentelemetry_zipkin::exporter::ZipkinExporterBuilder", "default", trait="core::default::Default"), "ZipkinExporterBuilder::default")
    q = Q(ck.graph(f))
    for t in (None, "", "there"):
        c = Env(p, {E: t})
        q.deep = True
        e = fields(q, c.cut(), ["collector_endpoint"], refined(q, c))["collector_endpoint"]
        g = num(e, c.env, p)
        ck.ob("zipkin:endpoint:%s" % t, g == {t or D}, "the endpoint is %s, not %s" % (show_(e), t or D), loc(f))
    Z = "opentelemetry_zipkin::exporter::ZipkinExporterBuilder"
    for m, k in (("with_http_client", "client"), ("with_service_address", "service_addr"), ("with_collector_endpoint", "collector_endpoint")):
        f = ck.one(p.method(Z, m), m)
        q = Q(ck.graph(f))
        for x, e in fields(q, None, ["client", "service_addr", "collector_endpoint"]).items():
            for a in flat(e):
                a = strip_cast(a)
                y = a[3][0][1] if a[0] == "agg" and a[2] == "Some" else a
                ok = inner(y) == ("arg", 1) if x == k else norm(a) == ("fld", ("arg", 0), x)
                ck.ob("zipkin:%s:%s" % (m, x), ok, "%s becomes %s" % (x, show_(a)), loc(f))


def mentions(e, names):
    """which of the settings an expression is made from"""
    out = set()
    for x in [e] + list(walk(e)):
        if x[0] == "fld" and x[2] in names:
            b = x[1]
            while b[0] in ("fld", "cast", "var"):
                b = b[1]
            if b[0] in ("arg", "unk", "elem"):
                out.add(x[2])
    return out


USES = [
    ("opentelemetry_sdk::trace::span_processor::BatchSpanProcessor", ("sync_channel",), ("recv_timeout",)),
    ("opentelemetry_sdk::logs::batch_log_processor::BatchLogProcessor", ("sync_channel",), ("recv_timeout",)),
    ("opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor", ("batch_message_channel",), ("to_interval_stream",)),
    ("opentelemetry_sdk::logs::log_processor_with_async_runtime::BatchLogProcessor", ("batch_message_channel",), ("to_interval_stream",)),
]
NAMES = ("max_queue_size", "scheduled_delay", "max_export_batch_size", "max_export_timeout", "max_concurrent_exports", "interval", "timeout")


def uses(ck, p):
    """the settings reach the queue and the timer they are for"""
    for adt, chans, timers in USES:
        short = "::".join(adt.split("::")[1:3])
        f = ck.one([f for f in p.method(adt, "new") if not f.trait], adt + "::new")
        q = Q(ck.graph(f, spawn_inline=True, max_depth=16, opaque=lambda x: x.item in ("to_interval_stream", "set_resource", "attach", "enter_telemetry_suppressed_scope", "export", "batch_message_channel")))
        g = q.g
        for what, names, k in (("queue", chans, "max_queue_size"), ("timer", timers, "scheduled_delay")):
            ns = [n for n in q.calls(lambda c: last(c.name) in names and c.args)]
            if what == "queue":
                ns = [n for n in ns if last(n.d.name) != "sync_channel" or mentions(g.ev(n.d.args[0], n.i), NAMES)]
            ck.ob("use:%s:%s" % (short, what), bool(ns), "nothing is made with %s" % k, loc(f))
            for n in ns:
                e = g.ev(n.d.args[-1], n.i)
                ck.ob("use:%s:%s:value" % (short, what), mentions(e, NAMES) == {k}, "%s is given %s" % (last(n.d.name), show_(e)), g.loc(n.i))
    for adt, table in READERS:
        short = adt.split("::")[-2]
        f = ck.one(p.method(adt, "build"), "PeriodicReaderBuilder::build")
        q = Q(ck.graph(f, spawn_inline=True, max_depth=16, opaque=lambda x: x.item in ("to_interval_stream", "attach", "enter_telemetry_suppressed_scope", "export", "collect")))
        g = q.g
        ns = q.calls(lambda c: last(c.name) in ("recv_timeout", "to_interval_stream") and len(c.args) == 2)
        ck.ob("use:%s:timer" % short, bool(ns), "nothing waits for the interval", loc(f))
        for n in ns:
            e = g.ev(n.d.args[1], n.i)
            ck.ob("use:%s:timer:value" % short, mentions(e, NAMES) == {"interval"}, "%s is given %s" % (last(n.d.name), show_(e)), g.loc(n.i))


def check(ck):
    p = ck.program("all")
    ck.rule("the default of every setting is computed by constant propagation under every listed text of its variable (not set, a number, zero, not a number, empty), alone and with the others: a usable text gives its value in the documented unit, else the documented default; the batch size never exceeds the queue size")
    ck.rule("each builder method sets exactly the setting it names; a zero interval or timeout of a reader leaves it")
    ck.rule("the sampler is the one the variable names, with the ratio of its argument, else ParentBased(AlwaysOn)")
    ck.rule("queues and timers of processors and readers get the setting meant for them")
    batches(ck, p)
    span_config(ck, p)
    readers(ck, p)
    zipkin(ck, p)
    uses(ck, p)
