"""Batch processors: bounded queues that never block the producer, exact drop counts, bounded batches."""
from checks.util import *
from checks.c04 import SDK, testing, is_export
from checks.c07 import processors, workers, enum_msg, all_arms, SEND
from graph import Graph

TITLE = "Batching never blocks the producer; queue, drops and batch size stay in bounds"
FLOOR = 60
BLOCKING = {"recv", "recv_timeout", "recv_deadline", "lock", "read", "write", "wait", "wait_timeout", "wait_while", "join", "sleep", "park", "park_timeout", "block_on",
            "blocking_send", "blocking_recv", "blocking_lock", "send_timeout", "yield_now", "block_in_place", "poll", "await"}
BLOCK_CRATES = ("std::", "core::", "tokio::", "futures", "alloc::", "parking_lot", "crossbeam", "opentelemetry_sdk::runtime", "async_std")
RMW = ("fetch_add", "fetch_sub", "swap", "store", "compare_exchange", "compare_exchange_weak", "fetch_or", "fetch_and", "fetch_update", "fetch_max", "fetch_min")


def atomic(c):
    return c.name.startswith("core::sync::atomic::Atomic")


def blocking(c):
    m = last(c.name)
    if m == "send":
        return "mpsc" in c.name and "SyncSender" in c.name or "crossbeam" in c.name or "SinkExt" in c.name or "bounded" in c.name
    return m in BLOCKING and c.name.startswith(BLOCK_CRATES) or m in BLOCKING and any(x in c.name for x in ("Mutex", "RwLock", "Condvar", "JoinHandle", "Receiver", "thread::"))


def agg_field(e, name):
    return dict(e[3]).get(name) if e[0] == "agg" else None


def setter_field(ck, p, adt, item):
    """the field a builder's setter `item` stores its argument in"""
    f = ck.one(p.method(adt, item), adt + "::" + item)
    g = ck.graph(f)
    q = Q(g)
    out = set()
    for a in flat(q.results()):
        for k, v in part_fields(a):
            if v == ("arg", 1):
                out.add(k)
    return ck.one(sorted(out), "field set by " + f.name)


def min_of(q, field, x, y):
    """field of the returned value is min(x, y)"""
    xs = {norm(x), norm(y)}
    vals = [agg_field(a, field) for a in flat(q.results())]
    if any(v is None for v in vals):
        return False
    vals = [z for v in vals for z in flat(v)]
    if all(v[0] == "call" and last(v[1]) == "min" and {norm(strip_cast(a)) for a in v[2]} == xs for v in vals):
        return True
    if not {norm(v) for v in vals} == xs:
        return False

    def le(a, b):
        return lambda l: l[0] == "cmp" and l[1] in ("Le", "Lt", "Eq") and norm(l[2]) == norm(a) and norm(l[3]) == norm(b) or l[0] == "cmp" and l[1] == "Eq" and norm(l[3]) == norm(a) and norm(l[2]) == norm(b)
    for a, b in ((x, y), (y, x)):
        r = q.reach(q.entry(), cut=le(a, b))
        ex = q.exits() & r
        if ex and any(norm(z) == norm(a) for v in flat(q.pv(q.g.result_place, ex, r)) for z in flat(agg_field(v, field) or ("unk",))):
            return False
    return True


def config(ck, p):
    """BatchConfig type -> (queue field, batch field)"""
    out = {}
    for adt in p.adts:
        if not adt.endswith("::BatchConfigBuilder") or p.adts[adt].get("crate") != SDK:
            continue
        bq, bb = setter_field(ck, p, adt, "with_max_queue_size"), setter_field(ck, p, adt, "with_max_export_batch_size")
        f = ck.one(p.method(adt, "build"), adt + "::build")
        q = Q(ck.graph(f))
        cq = cb = None
        res = flat(q.results())
        cfg = {a[1] for a in res if a[0] == "agg"}
        ck.ob("%s:builds" % adt.split("::")[-3], len(cfg) == 1, "build() does not return one configuration type", loc(f))
        fq, fb = ("fld", ("arg", 0), bq), ("fld", ("arg", 0), bb)
        for a in res:
            for k, v in part_fields(a):
                if norm(v) == norm(fq):
                    cq = k
                elif has(v, lambda y: norm(y) == norm(fb)):
                    cb = k
        ck.ob("%s:queue-size-kept" % adt.split("::")[-2], cq is not None and all(norm(agg_field(a, cq)) == norm(fq) for a in res if a[0] == "agg"), "the configured queue size does not reach the configuration", loc(f))
        ck.ob("%s:batch-fits-queue" % adt.split("::")[-2], cb is not None and min_of(q, cb, fb, fq), "the batch size is not min(configured batch size, queue size)", loc(f))
        for c in cfg:
            out[c] = (cq, cb)
    ck.ob("configurations", len(out) >= 2, "batch configurations not found")
    return out


def prev_of(e, cnt):
    """e is the count including the item just added"""
    e = strip_cast(e)
    if e[0] == "bin" and e[1] == "Add" and any(intval(x) == 1 for x in e[2:]):
        return any(isadd(x, cnt) for x in e[2:])
    if e[0] == "fld" and e[1][0] == "bin":
        return prev_of(e[1], cnt)
    return e[0] == "call" and last(e[1]) == "load" and norm(e[2][0]) in cnt


def isadd(x, cnt):
    x = strip_cast(x)
    return x[0] == "call" and last(x[1]) == "fetch_add" and norm(x[2][0]) in cnt


def producer(ck, p, im, item, tag, cfgs):
    """on_end / emit"""
    f = p.fns[im["items"][item]]
    g = ck.graph(f, max_depth=10)
    q = Q(g)
    ck.count("producer operations")
    bl = [n for n in q.calls(blocking)]
    ck.ob(tag + ":non-blocking", not bl, "may block: %s" % (bl[0].d.name if bl else ""), g.loc(bl[0].i) if bl else loc(f))
    own = {i for i in range(1, f.argc)}

    def isitem(n):
        return n.d.m in ("try_send",) and len(n.d.args) == 2 and has(g.ev(n.d.args[1], n.i), lambda y: y[0] == "arg" and y[1] in own)
    sends = [n for n in q.calls(lambda c: True) if isitem(n)]
    ck.ob(tag + ":hands-over", bool(sends), "the item is never handed to the queue with a non-blocking attempt", loc(f))
    if not sends:
        return
    for n in sends:
        miss = [i for i in own if not has(g.ev(n.d.args[1], n.i), lambda y, i=i: y == ("arg", i))]
        ck.ob(tag + ":whole-item", not miss, "the queued item lacks argument %s" % miss, g.loc(n.i))

    def refuse(l):
        if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) in ("load", "is_shutdown") and l[2] is True and "counter" not in str(l[1][1]):
            return True
        return l[0] in ("b", "cmp") and has(l[1] if l[0] == "b" else ("tuple", l[2], l[3]), lambda y: y[0] == "fld" and y[2] == "trace_flags")
    w = q.skipped(sends, excuse=refuse)
    ck.ob(tag + ":always-attempted", w is None, "an item may be discarded without an attempt to queue it: %s" % w, loc(f))
    w = q.can_follow(sends, sends)
    ck.ob(tag + ":once", w is None, "an item may be queued twice: %s" % w, loc(f))
    ids = {n.i for n in sends}

    def sent(v):
        return lambda l: l[0] == "v" and l[3] == (v,) and l[1][0] == "call" and l[1][3] in ids
    ok, err = edges(q, sent("Ok")), edges(q, sent("Err"))
    full = edges(q, lambda l: l[0] == "v" and "Full" in str(l[3]) and has(l[1], lambda y: y[0] == "call" and y[3] in ids))
    disc = lambda l: l[0] == "v" and l[3] in (("Disconnected",), ("Closed",), ("ChannelClosed",))
    ck.ob(tag + ":outcome-examined", bool(ok and err), "the outcome of the attempt is ignored", loc(f))
    # counters
    down = [im["items"][x] for x in ("shutdown", "shutdown_with_timeout") if x in im["items"]]
    loaded = set()
    for d in down:
        gg = ck.graph(p.fns[d], max_depth=6)
        qq = Q(gg)
        for n in qq.calls(lambda c: atomic(c) and c.m in ("load", "swap", "fetch_add")):
            loaded.add(norm(gg.ev(n.d.args[0], n.i)))
    rmw = [n for n in q.calls(lambda c: atomic(c) and c.m in RMW)]
    byc = {}
    for n in rmw:
        byc.setdefault(norm(g.ev(n.d.args[0], n.i)), []).append(n)
    drop = {c for c, ns in byc.items() if c in loaded and any(n.d.m == "fetch_add" for n in ns)}
    ck.ob(tag + ":drop-counter", len(drop) == 1, "no single counter of dropped items that shutdown reads (%d)" % len(drop), loc(f))
    for c in drop:
        ns = byc[c]
        odd = [n for n in ns if n.d.m != "fetch_add" or intval(g.ev(n.d.args[1], n.i)) != 1]
        ck.ob(tag + ":drop-counted-by-one", not odd, "the drop counter is changed by something else than +1", g.loc(odd[0].i) if odd else "")
        par = {}
        r = q.reach(full or err, avoid=q.S(ns), cut=disc, back=par)
        b = [s for s in q.exits() if s in r]
        ck.ob(tag + ":drop-counted", not b, "a dropped item is not counted: %s" % (q.path(par, b[0]) if b else ""), loc(f))
        if full and full != err:
            par = {}
            r = q.reach(err, avoid=q.S(ns), cut=lambda l: disc(l), back=par)
            b = [s for s in q.exits() if s in r]
            ck.ob(tag + ":drop-counted-any", not b, "a dropped item is not counted: %s" % (q.path(par, b[0]) if b else ""), loc(f))
        w = q.can_follow(ns, ns)
        ck.ob(tag + ":drop-counted-once", w is None, "one dropped item is counted twice: %s" % w, loc(f))
        r = q.reach(q.entry(), cut=sent("Err"))
        ck.ob(tag + ":no-false-drop", not (q.S(ns) & r), "an item that was queued is counted as dropped", loc(f))
    # size counter and trigger
    cnt = {c for c, ns in byc.items() if c not in drop and any(n.d.m in ("fetch_add", "fetch_sub") for n in ns)}
    trig = None
    msg = [n for n in q.calls(lambda c: c.m in SEND and len(c.args) == 2) if n not in sends]
    if cnt or msg:
        ck.ob(tag + ":one-size-counter", len(cnt) == 1, "no single counter of the queued items", loc(f))
        ns = [n for c in cnt for n in byc[c]]
        inc = [n for n in ns if n.d.m == "fetch_add"]
        dec = [n for n in ns if n.d.m == "fetch_sub"]
        odd = [n for n in ns if n not in inc + dec or intval(g.ev(n.d.args[1], n.i)) != 1]
        ck.ob(tag + ":size-by-one", not odd, "the size counter is changed by something else than 1", g.loc(odd[0].i) if odd else "")
        w = q.not_before(inc, sends) if inc else "never counted"
        ck.ob(tag + ":counted-before-visible", w is None, "the worker can see an item that is not counted yet: %s" % w, loc(f))
        w = q.can_follow(inc, inc)
        ck.ob(tag + ":size-once", w is None, "an item is counted twice: %s" % w, loc(f))
        r = q.reach(err, avoid=q.S(dec))
        b = [s for s in q.exits() if s in r]
        ck.ob(tag + ":size-restored", not b, "an item that was not queued stays counted", loc(f))
        w = q.can_follow(dec, dec)
        ck.ob(tag + ":size-restored-once", w is None, "an item that was not queued is uncounted twice: %s" % w, loc(f))
        r = q.reach(q.entry(), cut=sent("Err"))
        ck.ob(tag + ":size-kept", not (q.S(dec) & r), "a queued item is uncounted", loc(f))
        trig = {v for n in msg for _, v in enum_msg(p, g.ev(n.d.args[1], n.i))}
        flags = {c for c, ns in byc.items() if c not in drop | cnt}
        maxes = set()

        def notfull(l):
            if l[0] == "cmp" and l[1] == "Lt" and prev_of(l[2], cnt) and l[3][0] == "fld":
                maxes.add(norm(l[3]))
                return True
            return False

        def pending(l):
            return l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) in ("load", "swap") and norm(l[1][2][0]) in flags \
                or l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and last(l[1][1]).startswith("compare_exchange") and norm(l[1][2][0]) in flags
        par = {}
        r = q.reach(ok, avoid=q.S(msg), cut=lambda l: notfull(l) or pending(l), back=par)
        b = [s for s in q.exits() if s in r]
        ck.ob(tag + ":full-batch-triggers", bool(msg) and not b, "a full batch does not ask for an export: %s" % (q.path(par, b[0]) if b else ""), loc(f))
        mids = {n.i for n in msg}
        merr = edges(q, lambda l: l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and l[1][3] in mids)
        if flags:
            clear = [n for c in flags for n in byc[c] if n.d.m in ("store", "swap") and g.ev(n.d.args[1], n.i)[:2] == ("const", False)]
            par = {}
            r = q.reach(merr, avoid=q.S(clear), back=par)
            b = [s for s in q.exits() if s in r]
            ck.ob(tag + ":failed-trigger-undone", bool(merr) and not b, "after a failed request for an export no further one is ever made: %s" % (q.path(par, b[0]) if b else ""), loc(f))
        return dict(trig=trig, max=maxes, cnt=cnt, flags=flags, send={norm(g.ev(n.d.args[0], n.i)) for n in sends}, f=f)
    return dict(trig=None, max=set(), cnt=set(), flags=set(), send={norm(g.ev(n.d.args[0], n.i)) for n in sends}, f=f)


def ctor_fields(q, adt):
    """field -> values given to the processor when it is built in this graph"""
    out = {}
    g = q.g
    for n in g.nodes:
        if n.k == "as" and n.i in q.ex.by_node and n.d[1][0] == "agg" and n.d[1][1].get("p") == adt:
            a = g.ev_def(n.i, (), 0)
            for k, v in part_fields(a):
                out.setdefault(k, []).append(v)
    return out


def check(ck):
    p = ck.program("all")
    ck.rule("handing an item over calls nothing that can wait and makes exactly one non-blocking attempt to queue it (spans: unless shut down or unsampled)")
    ck.rule("a failed attempt adds exactly one to the counter of dropped items that shutdown reports, a successful one nothing; the size counter is raised before the attempt and restored exactly if it fails")
    ck.rule("the queue's capacity is the configured maximum queue size; the configured batch size is capped by it")
    ck.rule("a batch handed to an exporter holds at most the configured batch size: between two additions to the buffer it is emptied or seen not to be full")
    ck.rule("reaching the batch size requests an export, and the request is re-armed when it is served or could not be made")
    cfgs = config(ck, p)
    cache = workers(ck, p)
    n = 0
    for im, t in processors(p):
        item = {"SpanProcessor": "on_end", "LogProcessor": "emit"}.get(t)
        if item is None or item not in im["items"]:
            continue
        adt = im["self_ty"].adt
        ws = [(r, g, q) for r, (g, q) in cache.items() if ctor_fields(q, adt)]
        if not ws:
            continue
        # the function closest to the construction
        r, g, q = min(ws, key=lambda w: len(w[1].nodes))
        exps = q.calls(is_export)
        if not exps:
            continue
        n += 1
        tag = adt.replace("opentelemetry_sdk::", "")
        info = producer(ck, p, im, item, tag, cfgs)
        if info is None:
            continue
        worker(ck, p, tag, adt, info, r, g, q, exps, cfgs)
    ck.count("processors", n)
    ck.floor("processors", 4)
    # runtimes
    k = 0
    for im in p.impls_of("runtime::RuntimeChannel"):
        fid = im["items"].get("batch_message_channel")
        if fid not in p.fns or p.fns[fid].crate != SDK:
            continue
        f = p.fns[fid]
        q = Q(ck.graph(f))
        ch = q.calls(lambda c: last(c.name) in ("channel", "unbounded_channel", "bounded", "unbounded", "sync_channel"))
        good = ch and all(len(c.d.args) == 1 and q.g.ev(c.d.args[0], c.i) == ("arg", 1) and "unbounded" not in last(c.d.name) for c in ch)
        ck.ob("%s:capacity" % im["self_ty"].adt.split("::")[-1], good, "the channel's capacity is not the requested one", loc(f))
        k += 1
    for im in p.impls_of("runtime::TrySend"):
        fid = im["items"].get("try_send")
        if fid not in p.fns or p.fns[fid].crate != SDK:
            continue
        f = p.fns[fid]
        q = Q(ck.graph(f))
        bl = q.calls(blocking)
        ck.ob("%s:try_send:non-blocking" % (im["self_ty"].adt or "?"), not bl, "may block", loc(f))
        inner = q.calls(lambda c: c.m == "try_send")
        w = q.skipped(inner)
        ck.ob("%s:try_send:attempts" % (im["self_ty"].adt or "?"), w is None and ok_only_if_all_ok(q, inner) is None, "reports success without having queued the item", loc(f))
        r_ = [a for a in flat(q.result_from(edges(q, lambda l: l[0] == "v" and l[3] == ("Ok",) and l[1][0] == "call" and last(l[1][1]) == "try_send"))) if a[0] == "agg" and a[2] == "Err"]
        ck.ob("%s:try_send:ok" % (im["self_ty"].adt or "?"), not r_, "reports failure although the item was queued", loc(f))
        k += 1
    ck.count("runtime channels", k)
    ck.floor("runtime channels", 3)


def worker(ck, p, tag, adt, info, root, g, q, exps, cfgs):
    cq = {v[0] for v in cfgs.values()}
    cb = {v[1] for v in cfgs.values()}
    fields = ctor_fields(q, adt)

    def cfgfld(e, names):
        e = strip_cast(e)
        return e[0] == "fld" and e[2] in names and norm(e[1])[0] in ("arg", "fld", "var") and isinstance(e, tuple)
    # capacity of the queue behind the producer's sender
    for s in info["send"]:
        fld = s[2] if s[0] == "fld" else None
        vals = [a for v in fields.get(fld, []) for a in flat(v)]
        ck.ob(tag + ":queue", bool(vals), "cannot see which queue the items go to", loc(root))
        for v in vals:
            caps = [x for x in walk(v) if x[0] == "call" and ("channel" in last(x[1]) or last(x[1]) in ("bounded",)) and x[2]]
            good = bool(caps) and all(cfgfld(c[2][-1], cq) for c in caps)
            ck.ob(tag + ":queue-capacity", good, "the queue's capacity is not the configured maximum queue size: %s" % show_(v), loc(root))
    # the size at which an export is requested is the configured one
    for m in info["max"]:
        vals = [a for v in fields.get(m[2] if m[0] == "fld" else None, []) for a in flat(v)]
        ck.ob(tag + ":trigger-size", bool(vals) and all(cfgfld(v, cb) for v in vals), "the size that requests an export is not the configured batch size", loc(root))
    # buffer bound
    pushes = q.calls(lambda c: c.m in ("push", "extend", "push_back", "append", "insert", "extend_from_slice") and c.name.startswith("alloc::") and c.args)
    pushes = [n for n in pushes if any(has(g.ev(e.d.args[1], e.i), lambda x, b=norm(g.ev(n.d.args[0], n.i)): norm(x) == b) for e in exps)]
    ck.ob(tag + ":buffer", bool(pushes), "the buffer handed to the exporter was not found", loc(root))
    bufs = {norm(g.ev(n.d.args[0], n.i)) for n in pushes}

    def on_buf(e):
        return norm(e) in bufs

    def ismax(e):
        return cfgfld(e, cb)

    def islen(e):
        e = strip_cast(e)
        return e[0] == "call" and last(e[1]) == "len" and on_buf(e[2][0])

    def room(l):
        if l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "is_empty" and on_buf(l[1][2][0]):
            return True
        if l[0] == "v" and l[3] == ("Some",) and l[1][0] == "call" and last(l[1][1]) == "next":
            return has(l[1][2][0], lambda x: x[0] == "agg" and last(x[1]) == "Range" and ismax(dict(x[3]).get("end", ("unk",))) and intval(dict(x[3]).get("start", ("unk",))) == 0
                       or x[0] == "call" and last(x[1]) == "take" and len(x[2]) == 2 and ismax(x[2][1]))
        if l[0] == "cmp":
            a, b = l[2], l[3]
            if l[1] == "Ne":
                return islen(a) and ismax(b) or islen(b) and ismax(a)
            if l[1] == "Lt":
                return islen(a) and ismax(b)
            if l[1] in ("Eq", "Le"):
                return intval(b) == 0 and islen(a) or l[1] == "Eq" and intval(a) == 0 and islen(b)
        return False
    def empty(l):
        if l[0] == "b":
            return l[2] is True and l[1][0] == "call" and last(l[1][1]) == "is_empty" and on_buf(l[1][2][0])
        return l[0] == "cmp" and l[1] in ("Eq", "Le") and (islen(l[2]) and intval(l[3]) == 0 or islen(l[3]) and intval(l[2]) == 0)

    def isfull(l):
        return l[0] == "cmp" and (l[1] == "Eq" and (islen(l[2]) and ismax(l[3]) or islen(l[3]) and ismax(l[2])) or l[1] == "Le" and ismax(l[2]) and islen(l[3]))

    def nothing(l):
        """the queue cannot hold more than was taken out"""
        return l[0] == "cmp" and l[1] in ("Le", "Lt") and cfgfld(l[2], cq)
    empties = []
    for n in q.calls(lambda c: last(c.name) in ("clear", "split_off", "take", "drain", "replace") and c.args):
        if not on_buf(g.ev(n.d.args[0], n.i)):
            continue
        m = last(n.d.name)
        if m == "split_off" and intval(g.ev(n.d.args[1], n.i)) != 0:
            continue
        if m == "drain" and "RangeFull" not in str(g.ev(n.d.args[1], n.i)):
            continue
        if m == "replace" and not any(x[0] == "call" and last(x[1]) in ("new", "with_capacity", "default") for x in flat(g.ev(n.d.args[1], n.i))):
            continue
        empties.append(n)
    for n in g.nodes:  # modelled mem::take / replace and assignments
        if n.i in q.ex.by_node and n.k == "as" and norm(g.place_expr(n.d[0], n.i)) in bufs:
            v = g.ev_def(n.i, (), 0)
            if v[0] == "call" and last(v[1]) in ("new", "with_capacity", "default"):
                empties.append(n)
    P_ = q.S(pushes)
    bulk = [n for n in pushes if n.d.m not in ("push", "push_back") and not has(g.ev(n.d.args[1], n.i), lambda x: x[0] == "call" and last(x[1]) == "take" and len(x[2]) == 2 and ismax(x[2][1]))]
    ck.ob(tag + ":one-at-a-time", not bulk, "items are added to the buffer in bulk", g.loc(bulk[0].i) if bulk else "")
    par = {}
    r = q.reach(q.after(P_), avoid=q.S(empties), cut=room, back=par)
    b = [s for s in P_ if s in r]
    ck.ob(tag + ":batch-bounded", not b, "the buffer can outgrow the configured batch size: %s" % (q.path(par, b[0]) if b else ""), loc(root))
    # a full buffer is exported at once by the workers that buffer message by message
    tr = q.calls(lambda c: c.m in ("try_recv", "try_iter"))
    if info["trig"]:
        A = edges(q, lambda l: l[0] == "v" and len(l[3]) == 1 and l[3][0] in info["trig"] and l[2].startswith(SDK))
        ck.ob(tag + ":trigger-served", bool(A), "the worker does not handle the request for an export", loc(root))
        M = {l[2] for s, lab, t_, l in q.literals() if l[0] == "v" and len(l[3]) == 1 and l[3][0] in info["trig"] and l[2].startswith(SDK)}
        nxt = set()
        for m in M:
            nxt |= all_arms(q, m)
        par = {}
        r = q.reach(A, avoid=q.S(tr), cut=lambda l: nothing(l) or isfull(l), back=par)
        b = [s for s in (nxt - A) | q.exits() if s in r]
        ck.ob(tag + ":trigger-drains", not b, "a request for an export is not served: %s" % (q.path(par, b[0]) if b else ""), loc(root))
        # the flag carried by the request is lowered before the queue is read
        low = [n for n in q.calls(lambda c: atomic(c) and c.m in ("store", "swap")) if g.ev(n.d.args[1], n.i)[:2] == ("const", False)]
        if info["flags"]:
            par = {}
            r = q.reach(A, avoid=q.S(low), back=par)
            b = [s for s in q.S(tr) if s in r]
            ck.ob(tag + ":trigger-rearmed", bool(low) and not b, "the request is not re-armed before the queue is read: %s" % (q.path(par, b[0]) if b else ""), loc(root))
    else:
        # message by message: at the bound the batch goes out before the next message
        fulls = edges(q, isfull)
        par = {}
        r = q.reach(fulls, avoid=q.S(empties), cut=empty, back=par)
        b = [s for s in P_ if s in r]
        ck.ob(tag + ":full-batch-exported", bool(fulls) and not b, "a full batch is not taken out: %s" % (q.path(par, b[0]) if b else ""), loc(root))
        # taken out means exported or handed on to the export
    # what leaves the queue is uncounted
    if info["cnt"]:
        sub = [n for n in q.calls(lambda c: atomic(c) and c.m == "fetch_sub")]
        vals = [(n, strip_cast(g.ev(n.d.args[1], n.i))) for n in sub]
        bad = [n for n, v in vals if not islen(v) and intval(v) != 1]
        ck.ob(tag + ":uncounted-by-batch", bool(sub) and not bad, "the size counter is lowered by something else than the batch's length", g.loc(bad[0].i) if bad else loc(root))
        lens = {v[3] for n, v in vals if v[0] == "call"}
        ln = [n for n in q.calls(lambda c: True) if n.i in lens]
        if ln:
            par = {}
            r = q.reach(q.after(P_), avoid=q.S(ln), back=par)
            b = [s for s in q.S(sub) | q.S(empties) if s in r]
            ck.ob(tag + ":length-is-current", not b, "the length used to lower the size counter is not the batch's: %s" % (q.path(par, b[0]) if b else ""), loc(root))
            par = {}
            r = q.reach(q.after(q.S(ln)), avoid=q.S(sub), back=par)
            b = [s for s in q.S(ln) | q.exits() if s in r]
            ck.ob(tag + ":always-uncounted", not b, "exported items stay counted: %s" % (q.path(par, b[0]) if b else ""), loc(root))
            w = q.can_follow(sub, sub, avoid=ln)
            ck.ob(tag + ":uncounted-once", w is None, "a batch is uncounted twice: %s" % w, loc(root))
