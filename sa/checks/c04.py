"""Telemetry suppression: exporters run suppressed, and nothing is produced while suppressed."""
from checks.util import *
from graph import Graph

TITLE = "Exporting never observes itself: exporters run with telemetry suppressed"
FLOOR = 20
EXP = ("SpanExporter", "LogExporter", "PushMetricExporter")
SDK = "opentelemetry_sdk"
IN_PROCESSOR = ("SpanProcessor", "LogProcessor", "MetricReader")


def is_export(c):
    return c.m == "export" and c.tr is not None and c.tr.split("::")[-1] in EXP


def testing(f):
    return "::testing::" in f.name or "in_memory" in f.file or "/testing/" in f.file


def direct(p):
    """sdk functions that call an exporter's export"""
    out = []
    for f in p.fns.values():
        if f.crate != SDK or testing(f) or (f.trait or "").split("::")[-1] in EXP:
            continue
        top = f
        while top.parent and top.parent in p.fns:
            top = p.fns[top.parent]
        if (top.trait or "").split("::")[-1] in EXP:
            continue
        for b in f.d["bb"]:
            if b and b[1][0] == "call" and b[1][1].get("m") == "export" and (b[1][1].get("tr") or "").split("::")[-1] in EXP:
                out.append(f)
                break
    return out


def suppressing(e):
    """value is a context in which telemetry is suppressed"""
    xs = flat(e)
    return bool(xs) and all(x[0] == "agg" and x[1] == CX and dict(x[3]).get("suppress_telemetry", ("?",))[:2] == ("const", True) for x in xs)


def spawns(p):
    """(function, spawned body, operand type is a wrapped future) of every thread / task started by the sdk"""
    for f in p.fns.values():
        if f.crate != SDK or testing(f):
            continue
        for b in f.d["bb"]:
            if not (b and b[1][0] == "call"):
                continue
            c = b[1][1]
            if c.get("m", c.get("n", "").split("::")[-1]) in ("spawn", "spawn_blocking", "block_on", "spawn_local"):
                yield f, c


def scope_rule(ck, q, tag):
    """in q's graph, exports not lying inside a suppressed scope -> list of witness strings"""
    g = q.g
    att = [n for n in q.calls(lambda c: (c.inlined is not None and c.inlined.item == "attach" and c.inlined.self_adt == CX))]
    on = [n for n in att if suppressing(g.ev(n.d.args[0], n.i))]
    ends = []
    for n in g.nodes:
        if n.i not in q.ex.by_node:
            continue
        if n.k == "drop" and n.d[1].adt and n.d[1].adt.endswith("ContextGuard"):
            ends.append(n)
        elif n.k == "call" and n not in att and any(o[0] == "p" and o[2] == "m" and _is_guard(g, o) for o in n.d.args):
            ends.append(n)
    bad = []
    exps = q.calls(is_export)
    for x in exps:
        w = q.not_before(on, [x])
        if w is not None:
            bad.append((x, "no suppressed scope is entered before the export: " + w))
            continue
        w = q.can_follow(ends, [x], avoid=on)
        if w is not None:
            bad.append((x, "the suppressed scope is left before the export: " + w))
            continue
        # another, unsuppressing context attached inside the scope
        w = q.can_follow([a for a in att if a not in on], [x], avoid=ends)
        if w is not None:
            bad.append((x, "a different context is attached around the export: " + w))
    return exps, bad


def _is_guard(g, o):
    fr, loc, proj = o[1]
    if proj or not isinstance(loc, int):
        return False
    t = g.frames[fr].fn.local_ty(loc)
    return t is not None and (t.adt or "").endswith("ContextGuard")


def check(ck):
    p = ck.program("all")
    ck.rule("every call of a span, log or metric exporter's export in the SDK lies inside a suppressed-telemetry scope whose guard has not been dropped, or runs in a task spawned wrapped in a suppressed context")
    ck.rule("a log record emitted, or a span started, under a suppressed context reaches no processor and no sampler; the span is not recording")
    need = {f.id: f for f in direct(p)}
    ck.count("export_call_functions", len(need))
    covered = set()
    opq = lambda f: f.item == "attach" and f.self_adt == CX

    def visit(root, tag, wrapped=False):
        g = ck.graph(root, opaque=opq, max_depth=14)
        q = Q(g)
        exps, bad = scope_rule(ck, q, tag)
        if not exps:
            return
        for fr in g.frames:
            covered.add(fr.fn.id)
        badx = {x.i: w for x, w in bad}
        for x in exps:
            ck.count("exports")
            if x.i in badx and wrapped:
                ck.ob("%s:export:wrapped-task" % tag, True)
            else:
                ck.ob("%s:export-in-suppressed-scope" % tag, x.i not in badx, badx.get(x.i, ""), g.loc(x.i))

    # processors and readers exporting on the caller's thread
    for f in p.fns.values():
        if f.crate == SDK and f.kind == "fn" and not testing(f) and (f.trait or "").split("::")[-1] in IN_PROCESSOR and f.item not in ("set_resource",) and "self" in f.d:
            visit(f, short(f))
    # worker threads and tasks
    for f, c in spawns(p):
        if c["n"].endswith("block_on"):
            continue
        bodies = []
        wrapped = False
        for gi in c["g"]:
            t = p.ty(f.crate, gi)
            for u in tys(t):
                if u.k in ("closure", "coroutine") and u.d["d"] in p.fns:
                    bodies.append(p.fns[u.d["d"]])
        if not bodies:
            continue
        if any(b.kind == "coroutine" for b in bodies):
            g = ck.graph(f, opaque=lambda x: opq(x) or x.item in ("to_interval_stream", "delay"), max_depth=6)
            q = Q(g)
            sp = [n for n in q.calls(lambda k: k.name == c["n"])]
            ok = bool(sp)
            for n in sp:
                for a in flat(g.ev(n.d.args[-1], n.i)):
                    ok = ok and a[0] == "agg" and a[1].endswith("::WithContext") and any(suppressing(v) for nm, v in a[3])
            wrapped = ok
        for b in bodies:
            visit(b, short(f), wrapped)
            ck.count("spawned_bodies")
    for i, f in need.items():
        ck.ob("covered:%s" % short(f), i in covered, "this call of an exporter is reached by no analysed processor, reader or worker", loc(f))
    ck.floor("export_call_functions", 9)
    ck.floor("exports", 12)
    ck.floor("spawned_bodies", 6)

    # nothing is produced while suppressed
    logger = [im for im in p.impls_of("Logger") if im["crate"] == SDK]
    for im in logger:
        for m in ("emit", "event_enabled"):
            if m not in im["items"]:
                continue
            f = p.fns[im["items"][m]]
            g = ck.graph(f)
            q = Q(g)
            tgt = q.calls(method_of("LogProcessor"))
            ck.ob("logger:%s:processors" % m, bool(tgt), "the logger never calls a processor", loc(f))

            def off(l):
                return l[0] == "b" and l[2] is False and any(current_suppressed(x) for x in flat(l[1])) and all(current_suppressed(x) for x in flat(l[1]))
            for n in tgt:
                w = q.unguarded([n], off)
                ck.ob("logger:%s:suppressed-skips" % m, w is None, "a processor is called without checking that telemetry is not suppressed: %s" % w, g.loc(n.i))
    tr = [im for im in p.impls_of("Tracer") if im["crate"] == SDK]
    ck.one(tr, "Tracer implementation of the SDK")
    f = p.fns[tr[0]["items"]["build_with_context"]]
    g = ck.graph(f)
    q = Q(g)

    def sup(val):
        def pr(l):
            return l[0] == "b" and l[2] is val and all(x[0] == "fld" and x[2] == "suppress_telemetry" and rooted(x, lambda r: r == ("arg", 2)) for x in flat(l[1]))
        return pr
    tgt = q.calls(lambda c: method_of("SpanProcessor")(c) or method_of("ShouldSample")(c))
    ck.ob("tracer:calls", len(tgt) >= 2, "sampler / processor calls not found", loc(f))
    for n in tgt:
        w = q.unguarded([n], sup(False))
        ck.ob("tracer:suppressed-skips:%s" % n.d.m, w is None, "reached without checking that the parent context is not suppressed: %s" % w, g.loc(n.i))
    ed = edges(q, sup(True))
    res = q.result_from(ed)
    bad = [x for x in alts(res) if not (x[0] == "agg" and x[1].endswith("trace::span::Span") and dict(x[3]).get("data", ("?",))[0] == "agg" and dict(x[3])["data"][2] == "None")]
    ck.ob("tracer:suppressed-not-recording", ed and not bad and res != ("never",), "a span started under suppression may be recording: %s" % show(bad[0] if bad else res)[:200], loc(f))


def current_suppressed(x):
    return x[0] == "fld" and x[2] == "suppress_telemetry" and has(x, lambda y: y[0] == "fld" and y[2] == "current_cx")


def short(f):
    n = f.name.replace("opentelemetry_sdk::", "")
    return n


def tys(t, d=0):
    yield t
    if d < 6 and t.k == "adt":
        for a in t.args():
            yield from tys(a, d + 1)
    elif d < 6 and t.k in ("ref", "ptr"):
        yield from tys(t.sub(t.d["t"]), d + 1)
