"""Exporters refuse work after shutdown."""
from q import *
from checks.util import last

TITLE = "Exporters send nothing and report AlreadyShutdown after shutdown"
FLOOR = 20

EXPORTERS = [
    ("opentelemetry_otlp::span::SpanExporter", "SpanExporter", ("shutdown",)),
    ("opentelemetry_otlp::logs::LogExporter", "LogExporter", ("shutdown",)),
    ("opentelemetry_otlp::metric::MetricExporter", "PushMetricExporter", ("shutdown", "shutdown_with_timeout")),
    ("opentelemetry_stdout::trace::exporter::SpanExporter", "SpanExporter", ("shutdown",)),
    ("opentelemetry_stdout::logs::exporter::LogExporter", "LogExporter", ("shutdown",)),
    ("opentelemetry_stdout::metrics::exporter::MetricExporter", "PushMetricExporter", ("shutdown", "shutdown_with_timeout")),
]


def is_sink(c):
    n = c.name
    return (c.m == "send_bytes" or "_service_client::" in n and c.m == "export" or n.endswith("::_print") or n.endswith("::_eprint")
            or (c.tr or "").endswith("io::Write") and c.m in ("write", "write_all", "write_fmt"))


def graph(ck, fn):
    return ck.graph(fn, opaque=lambda f: f.crate == "opentelemetry_proto", max_depth=12)


def flag_of(e):
    """the state place behind `place.load()` / `place`"""
    return norm(e)


def closers(q):
    """(node, state) pairs: writes that put a state into 'closed'"""
    g = q.g
    out = []
    for n in g.nodes:
        if n.i not in q.ex.by_node:
            continue
        if n.k == "as":
            rv = n.d[1]
            if rv[0] == "agg" and rv[1]["k"] == "adt" and rv[1]["p"].endswith("option::Option") and rv[1]["v"] == "None" and "*" in n.d[0][2]:
                out.append((n, norm(g.place_expr(n.d[0], n.i))))
            elif rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") is True and "*" in n.d[0][2]:
                out.append((n, norm(g.place_expr(n.d[0], n.i))))
        elif n.k == "call" and n.d.name.startswith("core::sync::atomic::Atomic"):
            a = [g.ev(x, n.i) for x in n.d.args]
            ix = {"store": 1, "swap": 1, "fetch_or": 1, "compare_exchange": 2, "compare_exchange_weak": 2}.get(n.d.m)
            if ix is not None and a[ix][0] == "const" and a[ix][1] is True:
                out.append((n, norm(a[0])))
    return out


def opens(q, closed):
    """writes that can put one of the closed states into another form: a store of another value, or of the whole value around it"""
    g = q.g
    shut = {n.i for n, _ in closers(q)}

    def hit(e):
        e = norm(e)
        return any(has(c, lambda y: y == e) for c in closed)
    out = []
    for n in g.nodes:
        if n.i not in q.ex.by_node or n.i in shut:
            continue
        if n.k == "as" and "*" in n.d[0][2] and hit(g.place_expr(n.d[0], n.i)):
            out.append(n)
        elif n.k == "call" and n.d.name.startswith("core::sync::atomic::Atomic") and n.d.m != "load" and hit(g.ev(n.d.args[0], n.i)):
            out.append(n)
        elif n.k == "call" and last(n.d.name) in ("insert", "replace", "get_or_insert", "get_or_insert_with", "swap") and n.d.args and hit(g.ev(n.d.args[0], n.i)):
            out.append(n)
    return out


def state_lit(l):
    """literal -> (state, open?)"""
    if l[0] == "v" and l[2].endswith("option::Option") and len(l[3]) == 1:
        return norm(l[1]), l[3][0] == "Some"
    if l[0] == "b":
        e = l[1]
        if e[0] == "call" and "::Atomic" in e[1] and e[1].split("::")[-1] in ("load", "swap"):
            return norm(e[2][0]), not l[2]
        if e[0] in ("fld", "elem", "arg"):
            return norm(e), not l[2]
    return None


def check(ck):
    p = ck.program("all")
    ck.rule("every transmission (HTTP send, gRPC export call, stdout print) reachable from an exporter's export lies behind a branch on a state that the exporter's shutdown closes; the closed branch returns AlreadyShutdown without transmitting")
    ck.rule("no method of the exporter writes that state, or a value containing it, in any other way")
    ck.rule("every path of shutdown closes that state (a poisoned lock excepted)")
    for adt, trait, downs in EXPORTERS:
        short = adt.split("::")[0].split("_")[-1] + "::" + adt.split("::")[-1]
        closed = set()
        for dn in downs:
            fns = p.method(adt, dn, trait=trait)
            f = ck.one(fns, "%s::%s" % (adt, dn))
            q = Q(graph(ck, f))
            cl = closers(q)
            ck.ob("%s:%s:closes" % (short, dn), bool(cl), "shutdown never puts any state of the exporter into its closed form", "%s:%s" % (f.file, f.line))
            states = {s for _, s in cl}
            closed |= states

            def excuse(l, states=states):
                if l[0] == "v" and l[3] == ("Err",) and has_call(l[1], "lock"):
                    return True
                sl = state_lit(l)
                return sl is not None and sl[0] in states and not sl[1]
            w = q.skipped([n for n, _ in cl], excuse=excuse)
            ck.ob("%s:%s:all-paths" % (short, dn), w is None, "shutdown can return without closing the exporter: %s" % w, "%s:%s" % (f.file, f.line))
        f = ck.one(p.method(adt, "export", trait=trait), adt + "::export")
        q = Q(graph(ck, f))
        sinks = q.calls(is_sink)
        ck.ob("%s:sinks" % short, len(sinks) >= (2 if "otlp" in adt else 1), "transmission calls were not found in export (%d)" % len(sinks), "%s:%s" % (f.file, f.line))
        used = set()
        for i, n in enumerate(sinks):
            def opened(l):
                sl = state_lit(l)
                if sl is not None and sl[1] and sl[0] in closed:
                    used.add(sl[0])
                    return True
                return False
            w = q.unguarded([n], opened)
            ck.ob("%s:guard:%s" % (short, n.d.name.split("::")[-2] + "::" + n.d.m), w is None,
                  "a transmission is reachable without passing a check of a state that shutdown closes: %s" % w, q.g.loc(n.i))
            ck.count("transmissions")
        shut = edges(q, lambda l: (lambda sl: sl is not None and not sl[1] and sl[0] in used)(state_lit(l)))
        ck.ob("%s:closed-branch" % short, bool(shut) or not used, "no branch for the closed state", "%s:%s" % (f.file, f.line))
        # the closed branch: no sink, and AlreadyShutdown on every path
        r = q.reach(shut)
        bad = [n for n in sinks if q.S([n]) & r]
        ck.ob("%s:closed-sends-nothing" % short, not bad, "a transmission is reachable from the closed branch", q.g.loc(bad[0].i) if bad else "")
        res = q.result_from(shut)
        bad = [x for x in alts(res) if not has(x, lambda y: y[0] == "agg" and y[2] == "AlreadyShutdown")]
        ck.ob("%s:closed-reports" % short, not bad and res != ("never",), "after shutdown export can return %s instead of AlreadyShutdown" % show(bad[0] if bad else res)[:200], "%s:%s" % (f.file, f.line))
        # nothing the exporter offers reopens it
        for m in sorted(p.fns.values(), key=lambda m: m.name):
            if m.kind == "fn" and m.argc >= 1 and m.local_ty(1).k == "ref" and m.local_ty(1).peel().adt == adt and not m.derived:
                q = Q(graph(ck, m))
                bad = opens(q, closed)
                ck.ob("%s:%s:never-reopens" % (short, m.item), not bad, "writes a state that shutdown has closed", q.g.loc(bad[0].i) if bad else "")
                ck.count("methods examined for reopening")
    ck.floor("methods examined for reopening", 20)
    ck.floor("transmissions", 9)
