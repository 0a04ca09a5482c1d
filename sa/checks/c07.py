"""Flush and shutdown of buffering processors / readers drain before they acknowledge."""
from checks.util import *
from checks.c04 import SDK, testing, is_export, short
from graph import Graph

TITLE = "A successful flush or shutdown means everything before it was exported"
FLOOR = 60
SEND = ("send", "try_send", "start_send", "unbounded_send")
RECV = ("recv", "recv_timeout", "block_on", "recv_deadline")
DOWN = ("shutdown", "shutdown_with_timeout")
PARTIAL = ("skip", "step_by", "filter", "take_while", "skip_while", "filter_map", "get", "index", "index_mut", "split_at", "first", "last", "chunks",
           "truncate", "swap_remove", "pop", "retain", "dedup", "split_first", "split_last", "remove")


def enum_msg(p, e):
    """(adt, variant) alternatives of a sent message, or None"""
    out = set()
    for a in flat(e):
        if a[0] == "agg" and p.adts.get(a[1], {}).get("k") == "enum" and p.adts[a[1]].get("crate") == SDK:
            out.add((a[1], a[2]))
    return out


def processors(p):
    for im in p.impls:
        t = (im.get("trait") or "").split("::")[-1]
        if t in ("SpanProcessor", "LogProcessor", "MetricReader") and im["crate"] == SDK and im["self_ty"].adt and "::testing::" not in im["self_ty"].adt:
            yield im, t


def good(x):
    return x[0] == "agg" and x[1].endswith("result::Result") and x[2] == "Ok" or x[:2] == ("const", True)


def caller_side(ck, p, im, item, tag):
    """graph of force_flush / shutdown: which message it sends, and that Ok is only returned on the worker's word"""
    f = p.fns[im["items"][item]]
    g = ck.graph(f, max_depth=10)
    q = Q(g)
    msgs, chans = set(), set()
    for n in q.calls(lambda c: c.m in SEND and len(c.args) == 2):
        e = g.ev(n.d.args[1], n.i)
        m = enum_msg(p, e)
        msgs |= m
        if m:
            for x in walk_all(e):
                if x[0] == "call" and "channel" in x[1].split("::")[-1]:
                    chans.add(x[3])
    if not msgs:
        return None, None, q

    def recvcall(x):
        return x[0] == "call" and x[1].split("::")[-1] in RECV + ("poll",) and has(x, lambda y: y[0] == "call" and y[3] in chans)
    rc = q.calls(lambda c: c.m in RECV)
    ck.ob("%s:%s:waits" % (tag, item), any(recvcall(g.ev_call(n, (), 0)) for n in rc), "the caller never waits for the worker's answer to its message", loc(f))

    def told(l):
        if l[0] == "b":
            return l[2] is True and inner(l[1])
        return l[0] == "v" and l[3] == ("Ok",) and inner(l[1])

    def inner(e):
        return has(e, lambda y: y[0] == "fld" and y[2] == "Ok.0" and recvcall(y[1]))
    r = q.reach(q.entry(), cut=told)
    ex = q.exits() & r
    val = q.pv(g.result_place, ex, r) if ex else ("never",)
    bad = [x for x in alts(val) if not (x[0] == "agg" and x[2] == "Err") and not inner(x) and x[0] != "never"]
    ck.ob("%s:%s:ok-only-on-answer" % (tag, item), not bad, "can return %s without the worker having answered success" % (show(bad[0])[:160] if bad else ""), loc(f))
    return msgs, f, q


def walk_all(e):
    return walk(e)


def rcvs(e):
    """receiver a recv-like call reads from (normalised)"""
    return norm(e)


def worker(ck, p, im, kind, tag, M, V, data, cache):
    w = None
    for root, (g, q) in cache.items():
        if any(l[0] == "v" and l[2] == M for s, lab, t, l in q.literals()):
            w = (root, g, q)
            break
    if w is None:
        ck.ob("%s:worker" % tag, False, "no spawned worker handles this processor's messages (%s)" % M)
        return
    root, g, q = w
    exps = q.calls(is_export)
    ck.ob("%s:worker-exports" % tag, bool(exps), "the worker never exports", loc(root))
    sinks = q.S(exps)

    def arm(variant):
        return edges(q, lambda l: l[0] == "v" and l[2] == M and l[3] == (variant,))
    dcap = None
    tr = [n for n in q.calls(lambda c: c.m in ("try_recv", "try_next", "try_iter"))]
    pushes = [n for n in q.calls(lambda c: c.m in ("push", "extend", "push_back") and c.name.startswith("alloc::"))]
    if kind != "MetricReader":
        ck.ob("%s:buffers" % tag, bool(pushes), "the worker never buffers an item", loc(root))
    bufs = {norm(g.ev(n.d.args[0], n.i)) for n in pushes}

    def on_buf(e):
        while e[0] == "call" and e[1].split("::")[-1] in ("split_off", "take", "replace") and e[2]:
            e = e[2][0]  # the whole buffer, taken out (partial takes are reported on their own)
        return norm(e) in bufs

    def empty(l):
        if l[0] == "b" and l[2] is True and l[1][0] == "call" and l[1][1].endswith("::is_empty") and on_buf(l[1][2][0]):
            return True
        return l[0] == "cmp" and l[1] in ("Eq", "Le") and any(intval(y) == 0 for y in l[2:]) and any(lenof(y) for y in l[2:])

    def lenof(e):
        return e[0] == "call" and e[1].endswith("::len") and on_buf(e[2][0])
    # --- data handed over is buffered
    if tr:
        ok_edges = edges(q, lambda l: l[0] == "v" and l[3] == ("Ok",) and l[1][0] == "call" and l[1][1].split("::")[-1] == "try_recv")
        nexts = q.S(tr) | q.exits()
        caps = set()
        for n in tr:
            for x in walk(g.ev(n.d.args[0], n.i)):
                if x[0] == "call" and x[1].split("::")[-1] in ("sync_channel", "channel", "bounded") and x[2]:
                    caps.add(norm(x[2][0]))
        dcap = caps
    elif data:
        ok_edges = arm(data)
        nexts = set()
        for k in V.values():
            for v in k:
                nexts |= arm(v)
        nexts |= q.exits()
    else:
        ok_edges = set()
    if kind != "MetricReader":
        par = {}
        r = q.reach(ok_edges, avoid=q.S(pushes), back=par)
        b = [s for s in nexts if s in r]
        ck.ob("%s:received-is-buffered" % tag, bool(ok_edges) and not b, "a received item may be discarded: %s" % (q.path(par, b[0]) if b else "no receipt found"), loc(root))
        # what is pushed is what was received, and nothing is removed from the buffer but by the export
        lossy = q.calls(lambda c: c.m in ("clear", "truncate", "pop", "drain", "split_off", "retain", "remove", "swap_remove", "take", "replace", "dedup") and (c.name.startswith(("alloc::", "core::mem::")) or c.name.startswith("Vec")) and c.args and c.args[0][0] == "p")
        lossy = [n for n in lossy if on_buf(g.ev(n.d.args[0], n.i)) and not feeds_export(g, n, exps)]
        w_ = q.can_follow(pushes, lossy, avoid=exps) if lossy else None
        ck.ob("%s:buffer-only-emptied-by-export" % tag, w_ is None, "buffered items may be thrown away: %s" % w_, loc(root))
        for n in exps:
            e = g.ev(n.d.args[1], n.i)
            whole = has(e, lambda x: norm(x) in bufs)
            part = [x for x in walk(e) if x[0] == "call" and (x[1].split("::")[-1] in PARTIAL or x[1].endswith("Iterator>::take") or x[1].endswith("Iterator::take")
                                                            or x[1].split("::")[-1] == "split_off" and intval(x[2][1]) != 0)]
            ck.ob("%s:export-whole-buffer" % tag, whole and not part, "an export is not given the whole buffer: %s" % show(e)[:200], g.loc(n.i))
    for op, vs in V.items():
        E = set()
        for v in vs:
            E |= arm(v)
        ck.ob("%s:%s:handled" % (tag, op), bool(E), "the worker has no arm for this message", loc(root))
        reg = q.reach(E)
        acks = [n for n in q.calls(lambda c: c.m in SEND and len(c.args) == 2)
                if any(has(g.ev(n.d.args[0], n.i), lambda x, v=v: x[0] == "fld" and x[2].startswith(v + ".")) for v in vs)]
        acks = [n for n in acks if q.S([n]) & reg]
        ck.ob("%s:%s:acks" % (tag, op), bool(acks), "the worker never answers this message", loc(root))
        ck.count("acks", len(acks))
        A = q.S(acks)
        tagk = "%s:%s" % (tag, op)
        # --- drained
        if kind == "MetricReader":
            prod = q.calls(lambda c: c.m == "produce")
            ck.ob(tagk + ":collects", bool(prod), "no collection found", loc(root))

            data_ = set()
            for n in prod:
                for a in flat(g.ev(n.d.args[1], n.i)):
                    if a[0] == "agg":
                        data_ |= {norm(v) for k, v in a[3] if k == "scope_metrics"}

            def coll(e):
                return has_fld(e, "scope_metrics") or norm(e) in data_

            def nometrics(l):
                if l[0] == "b":
                    return l[2] is True and l[1][0] == "call" and l[1][1].endswith("::is_empty") and coll(l[1][2][0])
                return l[0] == "cmp" and l[1] in ("Eq", "Le") and intval(l[3]) == 0 and any(x[0] == "call" and x[1].endswith("::len") and coll(x[2][0]) for x in l[2:])
            for what, av in (("collect", prod), ("export", exps)):
                r = q.reach(E, avoid=q.S(av), cut=nometrics if what == "export" else None)
                ra = A & r
                val = [x for n in acks for x in alts(q.pv(n.d.args[1][1], q.S([n]) & r, r))] if ra and all(n.d.args[1][0] == "p" for n in acks if q.S([n]) & r) else []
                val = []
                for n in acks:
                    ss = q.S([n]) & r
                    if ss:
                        o = n.d.args[1]
                        val += alts(q.pv(o[1], ss, r)) if o[0] == "p" else [g.ev_const(o)]
                bad = [x for x in val if not bad_value(x)]
                ck.ob("%s:%s-before-success" % (tagk, what), not bad, "success can be reported without %s: value %s" % (what, show(bad[0])[:160] if bad else ""), loc(root))
            for n in exps:
                a = {norm(g.ev(x.d.args[1], x.i)) for x in prod}
                ck.ob(tagk + ":exports-what-was-collected", norm(g.ev(n.d.args[1], n.i)) in a or any(has(g.ev(n.d.args[1], n.i), lambda y: norm(y) == z) for z in a),
                      "the exported data is not what was collected", g.loc(n.i))
        elif tr:
            # a buffer that is "full" before anything was received: only with a batch size of zero
            r0 = q.reach(E, avoid=q.S(tr), cut=lambda l: l[0] == "cmp" and l[1] in ("Le", "Eq") and lenof(l[3]) and intval(l[2]) is None)
            ok = set()
            for s, lab, t, l in q.literals():
                if l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and l[1][1].split("::")[-1] == "try_recv":
                    ok.add((s, t))
                elif empty(l) and s not in r0:
                    ok.add((s, t))
                elif l[0] == "cmp" and l[1] in ("Le", "Lt") and norm(l[2]) in dcap and has(l[3], lambda x: x[0] == "bin" and x[1] == "Add" and has(x, lenof)):
                    ok.add((s, t))
            par = {}
            r = q.reach(E, cute=ok, back=par)
            b = [s for s in A if s in r]
            ck.ob(tagk + ":drained", not b, "answered before the queue is known to be drained: %s" % (q.path(par, b[0]) if b else ""), loc(root))
            par = {}
            r = q.reach(q.after(q.S(pushes) & reg), avoid=sinks, cut=empty, back=par)
            b = [s for s in A if s in r]
            ck.ob(tagk + ":buffer-exported", not b, "answered while received items are not exported: %s" % (q.path(par, b[0]) if b else ""), loc(root))
        else:
            par = {}
            r = q.reach(E, avoid=sinks, cut=empty, back=par)
            b = [s for s in A if s in r]
            ck.ob(tagk + ":buffer-exported", not b, "answered while received items are not exported: %s" % (q.path(par, b[0]) if b else ""), loc(root))
        # --- the answer reflects failed exports
        def res_of(v):
            def pr(l):
                return l[0] == "v" and l[3] == (v,) and l[2].endswith("result::Result") and has(l[1], lambda x: x[0] == "call" and is_exp_name(x[1]))
            return pr
        errs = edges(q, res_of("Err")) & reg
        val = []
        r = q.reach(errs)
        nonack_stop = r
        for n in acks:
            ss = q.S([n])
            # only this message's processing: do not wrap around to the next message
            rr = q.reach(errs, avoid=all_arms(q, M))
            ss = ss & rr
            if ss:
                o = n.d.args[1]
                val += [(n, x) for x in (alts(q.pv(o[1], ss, rr)) if o[0] == "p" else [g.ev_const(o)])]
        bad = [(n, x) for n, x in val if good(x)]
        ck.ob(tagk + ":failed-export-reported", not bad, "a failed export can be answered with success (%s)" % (show(bad[0][1])[:100] if bad else ""), g.loc(bad[0][0].i) if bad else loc(root))
        rr = q.reach(q.after(sinks & reg), avoid=all_arms(q, M), cut=res_of("Ok"))
        bad = []
        for n in acks:
            ss = q.S([n]) & rr
            if ss:
                o = n.d.args[1]
                bad += [(n, x) for x in (alts(q.pv(o[1], ss, rr)) if o[0] == "p" else [g.ev_const(o)]) if good(x)]
        ck.ob(tagk + ":success-only-if-exported", not bad, "success can be answered without looking at the export's result", g.loc(bad[0][0].i) if bad else loc(root))
        # --- shutdown
        if op in DOWN:
            downs = q.calls(lambda c: c.m in DOWN and c.tr is not None and c.tr.endswith("Exporter"))
            par = {}
            r = q.reach(E, avoid=q.S(downs), back=par)
            b = [s for s in A if s in r]
            ck.ob(tagk + ":exporter-shut-down", bool(downs) and not b, "shutdown is acknowledged without shutting the exporter down: %s" % (q.path(par, b[0]) if b else ""), loc(root))
            w_ = q.can_follow([n for n in downs if q.S([n]) & reg], exps)
            ck.ob(tagk + ":last-export", w_ is None, "an export can follow the exporter's shutdown: %s" % w_, loc(root))
            rec = set()
            for v in {v for k in V.values() for v in k}:
                rec |= arm(v)
            par = {}
            r2 = q.reach(q.after(A & reg), back=par)
            b = [s for s in rec if s in r2]
            ck.ob(tagk + ":worker-ends", not b, "the worker keeps handling messages after shutdown: %s" % (q.path(par, b[0]) if b else ""), loc(root))


def bad_value(x):
    """a value that does not report success"""
    return x[0] == "never" or x[0] == "agg" and x[2] == "Err" or x[:2] == ("const", False)


def is_exp_name(n):
    return n.endswith(("SpanExporter::export", "LogExporter::export", "PushMetricExporter::export"))


_arms = {}


def all_arms(q, M):
    k = (id(q), M)
    if k not in _arms:
        _arms[k] = edges(q, lambda l: l[0] == "v" and l[2] == M)
    return _arms[k]


def feeds_export(g, n, exps):
    """the value this call takes out of the buffer is what an export is given"""
    if last(n.d.name) in ("take", "replace"):
        me = [x.d[0] for x in g.nodes if x.k == "as" and x.fr is n.fr and any(t == n.i for _, t in x.succ)]
        t = flows(g, me)
        return any((pl[0], pl[1]) in t for x in exps for pl in places([x.d.args[1]]))
    me = norm(g.ev_call(n, (), 0))
    return any(has(g.ev(x.d.args[1], x.i), lambda y: norm(y) == me) for x in exps)


def workers(ck, p):
    """graphs of every sdk function that starts a thread or task, the started body included"""
    out = {}
    for f in p.fns.values():
        if f.crate != SDK or testing(f) or f.kind not in ("fn", "closure") or f.trait and f.trait.endswith("Runtime"):
            continue
        if any(b and b[1][0] == "call" and b[1][1].get("m", b[1][1].get("n", "").split("::")[-1]) == "spawn" for b in f.d["bb"]):
            if "jaeger_remote" in f.file:
                continue
            g = ck.graph(f, spawn_inline=True, max_depth=16, opaque=lambda x: x.item in ("to_interval_stream", "set_resource", "attach", "enter_telemetry_suppressed_scope"))
            out[f] = (g, Q(g))
    return out


def check(ck):
    p = ck.program("all")
    ck.rule("force_flush / shutdown return Ok only on the path where the worker's answer was received and was success")
    ck.rule("in the worker (inlined into the function that spawns it), every path from the receipt of a flush / shutdown message to its answer passes evidence that the queue was drained (observed empty, or as many items exported as the queue can hold) and the export of everything received; readers collect and export")
    ck.rule("no answer of success is reachable from a failed export; before answering shutdown the exporter has been shut down, and no export follows it")
    cache = workers(ck, p)
    n = 0
    for im, t in processors(p):
        if "force_flush" not in im["items"]:
            continue
        tag = im["self_ty"].adt.replace("opentelemetry_sdk::", "")
        V, M = {}, set()
        for item in ("force_flush",) + DOWN:
            if item not in im["items"]:
                continue
            msgs, f, q = caller_side(ck, p, im, item, tag)
            if msgs:
                V[item] = {v for _, v in msgs}
                M |= {a for a, _ in msgs}
        if not V:
            continue
        n += 1
        ck.ob("%s:both-operations" % tag, len(V) == 2, "only %s reach the worker" % sorted(V), "")
        M = ck.one(sorted(M), tag + " message type")
        data = None
        for item in ("on_end", "emit"):
            if item in im["items"]:
                gg = ck.graph(p.fns[im["items"][item]], max_depth=6)
                qq = Q(gg)
                for s in qq.calls(lambda c: c.m in SEND and len(c.args) == 2):
                    for a, v in enum_msg(p, gg.ev(s.d.args[1], s.i)):
                        if a == M:
                            data = v
        worker(ck, p, im, t, tag, M, V, data, cache)
    ck.count("processors", n)
    ck.floor("processors", 6)
    ck.floor("acks", 12)
