"""C35: a collection reports every stream with data, once, under its scope, after all callbacks have run"""
from checks.assume import *
from checks.c15 import bare
from checks.c17 import MET, called, every, vec_id
from checks.c18 import poisoned
from graph import Graph

TITLE = "A collection runs every callback and reports each stream that has data once"
FLOOR = 40
INNER = ("fld", ("call", "std::sync::poison::mutex::Mutex::lock", (("fld", ("arg", 0), "inner"),)), "Ok.0")
PARTS = ("name", "description", "unit")
REPORT = lambda n: n.d.name.endswith("ComputeAggregation::call")


def counter(g, n, op):
    """the variable an index operand is a copy of: (reset nodes, increment nodes, other writes), None if it is no variable"""
    at = n.i
    for _ in range(20):
        if op[0] != "p":
            return None
        c = g.canon(op[1])
        ds = g.cdefs.get((c[0], c[1]), [])
        if len(ds) == 1 and g.nodes[ds[0][0]].k == "as" and g.nodes[ds[0][0]].d[1][0] in ("use", "cast") and g.nodes[ds[0][0]].d[1][1][0] == "p":
            op = g.nodes[ds[0][0]].d[1][1]
            continue
        break
    if len(ds) < 2:
        return None
    key = (c[0], c[1])
    z, inc, other = [], [], []
    for i, _ in ds:
        nd = g.nodes[i]
        if nd.k == "call" and nd.d.m == "add_assign":
            inc.append(nd)
            continue
        e = fold0(g.ev_def(i, (), 0)) if nd.k == "as" else ("unk",)
        if intval(e) == 0:
            z.append(nd)
        elif e[0] == "bin" and e[1].startswith("Add") and (intval(e[3]) == 1 and feeds_self(g, nd, key)):
            inc.append(nd)
        else:
            other.append(nd)
    return z, inc, other, key


def fold0(e):
    e = strip_cast(e)
    while e[0] == "fld" and e[2] == "0":
        e = strip_cast(e[1])
    return e


def feeds_self(g, nd, key, depth=0):
    """the value assigned is computed from the variable itself"""
    rv = nd.d[1]
    ops = [rv[2]] if rv[0] == "bin" else [rv[1]] if rv[0] in ("use", "cast") else []
    for o in ops:
        if o[0] != "p":
            continue
        c = g.canon(o[1])
        if (c[0], c[1]) == key:
            return True
        ds = g.cdefs.get((c[0], c[1]), [])
        if depth < 6 and len(ds) == 1 and g.nodes[ds[0][0]].k == "as" and feeds_self(g, g.nodes[ds[0][0]], key, depth + 1):
            return True
    return False


def result_of(e, k):
    """part k of what an aggregation answered"""
    e = norm(e)
    return e[0] == "fld" and e[2] == k and e[1][0] == "call" and e[1][1].endswith("ComputeAggregation::call")


def produce(ck, p):
    f = ck.one(p.method(MET + "pipeline::Pipeline", "produce"), "collection of a pipeline")
    g = ck.graph(f)
    q = Q(g)
    X = INNER
    inst = lambda e: bare(norm(e))[0] == "elem" and bare(norm(e))[1] in [("fld", ("elem", ("fld", X, "aggregations")), "1"), ("elem", ("fld", X, "aggregations"))]
    call = q.calls(lambda c: c.name.endswith("ComputeAggregation::call"))
    ck.ob("asked", len(call) == 1, "%d places ask a stream for its data" % len(call), loc(f))
    if len(call) != 1:
        return
    C = call[0]
    recv = g.ev(C.d.args[0], C.i)
    ck.ob("own-streams", norm(recv)[0] == "fld" and norm(recv)[2] == "comp_agg" and has(bare(norm(recv)), lambda x: x == ("elem", ("fld", X, "aggregations"))), "what is asked is " + show_(recv), g.loc(C.i))
    INST = bare(norm(recv))[1] if norm(recv)[0] == "fld" else None
    # callbacks first, all of them
    cbs = q.calls(lambda c: c.m in ("call", "call_mut", "call_once") and c.args and bare(norm(g.ev(c.args[0], 0) if False else ("x",))) == () or c.m in ("call", "call_mut", "call_once"))
    cbs = [n for n in cbs if n is not C and bare(norm(g.ev(n.d.args[0], n.i))) == ("elem", ("fld", X, "callbacks"))]
    loops = q.calls(lambda c: c.m in ("next", "for_each"))
    firsts = [n for n in loops if has(bare(norm(g.ev(n.d.args[0], n.i))), lambda x: x == ("fld", X, "aggregations"))]
    w = forall(q, q.entry(), cbs, exits=q.S(call) | q.S(firsts) | q.exits(), cut=poisoned)
    ck.ob("callbacks:all-before", w is None, "a callback has not run before the streams are asked: %s" % w, cbs and g.loc(cbs[0].i) or loc(f))
    w = q.can_follow(cbs, cbs, avoid=[n for n in loops if bare(norm(g.ev(n.d.args[0], n.i))) == ("fld", X, "callbacks")])
    if w and len(cbs) == 1 and any(q.S(cbs) & region(q, n, b) for n in q.calls(lambda c: c.m == "for_each" and c.clo) for _, b in n.d.clo):
        w = None
    over = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("None",) and is_iter(l[1][2][0], lambda x: bare(x) == ("fld", X, "callbacks"))}
    w = w or reaches(q, over, q.S(cbs), ())
    ck.ob("callbacks:once", w is None, "a callback runs twice: %s" % w, loc(f))
    # every stream of every scope is asked, once
    every(ck, "streams", "streams", q, call, f, cut=poisoned)
    inner = [n for n in loops if g.ev(n.d.args[0], n.i) and is_iter(g.ev(n.d.args[0], n.i), lambda x: INST is not None and bare(x) == INST[1])] if INST and INST[0] == "elem" else []
    outer = [n for n in loops if is_iter(g.ev(n.d.args[0], n.i), lambda x: bare(x) == ("fld", X, "aggregations"))]
    w = q.can_follow(call, call, avoid=inner + outer)
    ck.ob("streams:once", w is None, "a stream is asked twice: %s" % w, g.loc(C.i))
    # the resource
    rs = [n for n, pth, v in stores(q) if norm(pth) == ("fld", ("arg", 1), "resource") and all(norm(a) == ("fld", ("arg", 0), "resource") for a in alts(v))]
    rs += [n for n in q.calls(lambda c: c.m == "clone_from") if norm(g.ev(n.d.args[0], n.i)) == ("fld", ("arg", 1), "resource") and norm(g.ev(n.d.args[1], n.i)) == ("fld", ("arg", 0), "resource")]
    w = q.not_after(q.entry(), rs, excuse=poisoned) if rs else "never set"
    ck.ob("resource", w is None, "a collection does not carry the resource of its provider: %s" % w, loc(f))
    bad = [n for n, pth, v in stores(q) if norm(pth) == ("fld", ("arg", 1), "resource") and n not in rs]
    ck.ob("resource:only", not bad, "a collection carries another resource", bad and g.loc(bad[0].i) or "")
    r = q.result_from(q.entry(), cut=poisoned)
    ck.ob("result", all(a[0] == "agg" and a[2] == "Ok" for a in alts(r)), "a collection that was made is reported as " + show_(r), loc(f))
    r = q.result_from({t for s, lab, t, l in q.literals() if poisoned(l)})
    ck.ob("result:failed", all(a[0] == "agg" and a[2] == "Err" for a in alts(r)), "a collection that was not made is reported as " + show_(r), loc(f))

    # what happens with one stream's answer
    S1 = ("fld", ("arg", 1), "scope_metrics")
    slot_of = [x for x in walk(g.ev(C.d.args[1], C.i)) if called(x, "get_mut")]
    slotcalls = [g.nodes[x[3]] for x in slot_of if len(x) > 3]
    islot = lambda e: called(e, "get_mut") and len(e[2]) == 2 and metrics(e[2][0])

    def metrics(e):
        """the list of metrics of the scope being filled"""
        return all(norm(a)[0] == "fld" and norm(a)[2] == "metrics" and has(norm(a), lambda x: x == S1) or vec_id(a) is not None and vec_id(a) in made for a in alts(e))
    made = {vec_id(x) for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if norm(g.ev(n.d.args[0], n.i)) == S1 for a in alts(g.ev(n.d.args[1], n.i)) if a[0] == "agg" for x in alts(dict(a[3]).get("metrics", ("unk",)))} - {None}
    my = [n for n in slotcalls if metrics(g.ev(n.d.args[0], n.i))]
    reuse = bool(my)
    ends = inner + outer
    pushes = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if metrics(g.ev(n.d.args[0], n.i))]
    puts = {}

    def under_(slot, data, size):
        def env(e):
            e = norm(e)
            if islot(e):
                return V(slot)
            if result_of(e, "1"):
                return V(data)
            if result_of(e, "0"):
                return size
            if called(e, "as_mut") or called(e, "as_deref_mut") or called(e, "map"):
                return V(slot) if has(e, islot) and not has(e, lambda x: x[0] == "call" and x[1].endswith("ComputeAggregation::call")) else None
            return None
        base = under_env(env, p)
        return lambda l: poisoned(l) or base(l)
    cnt = None
    for n in my:
        cnt = counter(g, n, n.d.args[1])
        ck.ob("slot:counter", cnt is not None and not cnt[2] and cnt[0] and cnt[1], "the position of a reused entry is not one that counts from nothing", g.loc(n.i))
    bumps = cnt[1] if cnt else []
    for slot in ("Some", "None") if reuse else ("None",):
        for data in ("Some", "None"):
            if slot == "None" and data == "None":
                continue      # an aggregation without an earlier report to reuse makes a new one (C16)
            for size in (0, 3):
                cut = under_(slot, data, size)
                st = q.S(call)
                nm = "%s-%s-%s" % ("reused" if slot == "Some" else "new", "replaced" if data == "Some" else "updated", "some" if size else "empty")
                R = set(q.reach(st, avoid=q.S(ends), cut=cut)) - st
                if not size:
                    hit = [n for n in pushes + bumps if q.S([n]) & R]
                    ck.ob(nm + ":left-out", not hit, "a stream without data points is reported", hit and g.loc(hit[0].i) or "")
                    continue
                if slot == "None":
                    hit = [n for n in pushes if q.S([n]) & R]
                    w = after(q, st, hit, q.S(ends) | q.exits(), cut) if hit else "never added"
                    ck.ob(nm + ":added", w is None, "a stream with data is not reported: %s" % w, g.loc(C.i))
                    w = q.can_follow(hit, hit, avoid=ends)
                    ck.ob(nm + ":added-once", w is None, "a stream is reported twice: %s" % w, g.loc(C.i))
                    for n in hit:
                        d = parts(q, n, cut, st)
                        for k in PARTS:
                            ck.ob(nm + ":" + k, bool(d) and all(bare(norm(a)) == ("fld", INST, k) for a in alts(d.get(k, ("unk",)))), "a stream is reported with the %s %s" % (k, show_(d.get(k, ("unk",)))), g.loc(n.i))
                        ck.ob(nm + ":data", bool(d) and all(norm(a)[0] == "fld" and norm(a)[2] == "Some.0" and result_of(norm(a)[1], "1") for a in alts(d.get("data", ("unk",)))), "a stream is reported with the data %s" % show_(d.get("data", ("unk",))), g.loc(n.i))
                else:
                    hit = [n for n in pushes if q.S([n]) & R]
                    ck.ob(nm + ":in-place", not hit, "the reused entry stays and another one is added", hit and g.loc(hit[0].i) or "")
                    for k in PARTS:
                        ws = [n for n, pth, v in stores(q) if slot_part(pth, islot, k) and all(bare(norm(a)) == ("fld", INST, k) for a in alts(v))]
                        ws += [n for n in q.calls(lambda c: c.m == "clone_from") if slot_part(g.ev(n.d.args[0], n.i), islot, k) and bare(norm(g.ev(n.d.args[1], n.i))) == ("fld", INST, k)]
                        ws += whole_slot(q, g, islot, INST, k)
                        w = after(q, st, ws, q.S(ends) | q.exits(), cut) if ws else "never set"
                        ck.ob(nm + ":" + k, w is None, "a reused entry keeps the %s of another stream: %s" % (k, w), g.loc(C.i))
                    ds = [n for n, pth, v in stores(q) if slot_part(pth, islot, "data")]
                    good = [n for n in ds if all(norm(a)[0] == "fld" and norm(a)[2] == "Some.0" and result_of(norm(a)[1], "1") for a in alts(g.ev_def(n.i, (), 0)))]
                    good += whole_slot(q, g, islot, INST, "data")
                    if data == "Some":
                        w = after(q, st, good, q.S(ends) | q.exits(), cut) if good else "never set"
                        ck.ob(nm + ":data", w is None, "a reused entry keeps the data of another stream: %s" % w, g.loc(C.i))
                    bad = [n for n in ds if q.S([n]) & R and (n not in good or data == "None")]
                    ck.ob(nm + ":data-kept", not bad, "the data of a stream is overwritten", bad and g.loc(bad[0].i) or "")
                if bumps:
                    w = after(q, st, bumps, q.S(ends) | q.exits(), cut)
                    ck.ob(nm + ":counted", w is None, "the next stream overwrites this one: %s" % w, g.loc(C.i))
    if reuse:
        w = q.can_follow(bumps, bumps, avoid=ends)
        ck.ob("slot:once", w is None, "an entry of an earlier collection is kept: counted twice on %s" % w, g.loc(C.i))
        some = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("Some",) and is_iter(l[1][2][0], lambda x: bare(x) == ("fld", X, "aggregations"))}
        w = reaches(q, some, q.S(my), q.S(cnt[0]))
        ck.ob("slot:from-start", w is None, "entries of an earlier collection before the first reused one stay: %s" % w, g.loc(C.i))
        w = reaches(q, q.S(my), q.S(cnt[0]), q.S(outer), cut=poisoned)
        ck.ob("slot:kept-count", w is None, "the position starts over within a scope: %s" % w, g.loc(C.i))
        # the reused object handed to the aggregation is the one whose name is set
        cut = under_("Some", "Some", 3)
        v = opnd(q, C, C.d.args[1], cut)
        ok = all(x[0] == "agg" and x[2] == "Some" and norm(x[3][0][1])[0] == "fld" and norm(x[3][0][1])[2] == "data" and islot_payload(norm(x[3][0][1])[1], islot) for x in alts(v) if x != ("never",))
        ck.ob("slot:own-data", ok, "the data handed to a stream to fill is " + show_(v), g.loc(C.i))
        # leftovers go
        tr = [n for n in q.calls(lambda c: c.m == "truncate" and len(c.args) == 2) if metrics(g.ev(n.d.args[0], n.i)) and (lambda c: c and c[3] == cnt[3])(counter(g, n, n.d.args[1]))]
        done = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("None",) and INST and INST[0] == "elem" and is_iter(l[1][2][0], lambda x: bare(x) == INST[1])}
        w = reaches(q, done, q.S(outer) | q.exits(), q.S(tr)) if tr else "never"
        ck.ob("slot:leftovers", w is None and bool(done), "streams of an earlier collection stay in the report: %s" % w, loc(f))
    scopes(ck, p, q, f, X, S1, metrics, outer, pushes, bumps if reuse else [], cnt)


def islot_payload(e, islot):
    return e[0] == "fld" and e[2] == "Some.0" and islot(e[1])


def slot_part(pth, islot, k):
    return any(norm(a)[0] == "fld" and norm(a)[2] == k and islot_payload(norm(a)[1], islot) for a in alts(pth))


def whole_slot(q, g, islot, INST, k):
    """writes of a whole entry"""
    out = []
    for n, pth, v in stores(q):
        if any(islot_payload(norm(a), islot) for a in alts(pth)):
            for a in alts(v):
                if a[0] == "agg":
                    x = norm(dict(a[3]).get(k, ("unk",)))
                    if bare(x) == ("fld", INST, k) or k == "data" and x[0] == "fld" and x[2] == "Some.0" and result_of(x[1], "1"):
                        out.append(n)
    return out


def is_iter(e, pred):
    e = norm(e)
    while e[0] == "call" and e[2] and last(e[1]) in ("iter", "into_iter", "values", "iter_mut", "as_slice"):
        e = e[2][0]
    return pred(e)


def after(q, starts, C, exits, cut):
    """every path from starts to an exit (other than the starts) passes one of C"""
    par = {}
    SC = q.S(C)
    nxt = {t for s in starts for t in q.after({s})} if hasattr(q, "after") else starts
    r = q.reach(nxt, avoid=SC, back=par, cut=cut)
    for s in exits:
        if s in r:
            return q.path(par, s)
    return None


def reaches(q, starts, targets, avoid, cut=None):
    """a path from starts to a target that passes none of avoid"""
    par = {}
    r = q.reach(starts, avoid=set(avoid), back=par, cut=cut)
    for s in set(targets) - set(starts):
        if s in r:
            return q.path(par, s)
    return None


def parts(q, n, cut, starts):
    """fields of the entry a push adds"""
    g = q.g
    for a in alts(g.ev(n.d.args[1], n.i)):
        if a[0] == "agg" and len(a) > 4 and g.nodes[a[4]].k == "as":
            m = g.nodes[a[4]]
            return {k: opnd(q, m, o, cut) for k, o in zip(m.d[1][1]["f"], m.d[1][2])}
    return {}


def scopes(ck, p, q, f, X, S1, metrics, outer, pushes, bumps, mcnt):
    """a scope is reported if and only if one of its streams is"""
    g = q.g
    SC = ("fld", ("elem", ("fld", X, "aggregations")), "0")
    get = [n for n in q.calls(lambda c: c.m == "get_mut" and len(c.args) == 2) if norm(g.ev(n.d.args[0], n.i)) == S1]
    sp = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if norm(g.ev(n.d.args[0], n.i)) == S1]
    st = [n for n, pth, v in stores(q) if all(norm(a)[0] == "fld" and norm(a)[2] == "scope" and has(norm(a), lambda x: x == S1) for a in alts(pth))]
    st += [n for n in q.calls(lambda c: c.m == "clone_from") if all(norm(a)[0] == "fld" and norm(a)[2] == "scope" and has(norm(a), lambda x: x == S1) for a in alts(g.ev(n.d.args[0], n.i)))]
    for n in st:
        v = g.ev_def(n.i, (), 0) if n.k == "as" or n.d.m != "clone_from" else g.ev(n.d.args[1], n.i)
        ck.ob("scope:own", all(bare(norm(a)) == SC for a in alts(v)), "streams are reported under the scope " + show_(v), g.loc(n.i))
    for n in sp:
        for a in alts(g.ev(n.d.args[1], n.i)):
            d = dict(a[3]) if a[0] == "agg" else {}
            ok = not get or a[0] == "call" and last(a[1]) == "default" or is_default(d.get("metrics", ("unk",))) or d.get("metrics", ("unk",))[0] == "call" and last(d["metrics"][1]) in ("new", "with_capacity", "default")
            ck.ob("scope:fresh", ok, "a new scope entry starts with " + show_(a), g.loc(n.i))
    cnt = None
    for n in get:
        cnt = counter(g, n, n.d.args[1])
        ck.ob("scope:counter", cnt is not None and bool(cnt[0]) and bool(cnt[1]) and not cnt[2], "the position of a reused scope is not one that counts from nothing", g.loc(n.i))
    if not get or not cnt:
        return rebuilt(ck, p, q, f, X, S1, SC, metrics, outer, sp)
    w = q.not_before(cnt[0], get, cut=poisoned)
    ck.ob("scope:from-start", w is None, "scopes of an earlier collection stay in the report: %s" % w, g.loc(get[0].i))
    w = reaches(q, q.S(get), q.S(cnt[0]), ())
    ck.ob("scope:kept-count", w is None, "the position starts over between scopes: %s" % w, g.loc(get[0].i))
    w = q.can_follow(cnt[1], cnt[1], avoid=outer)
    ck.ob("scope:once", w is None, "a scope is counted twice: %s" % w, g.loc(get[0].i))
    # emptiness
    size = lambda e: is_metric_len(e, metrics) or mcnt is not None and idx_of(q, e, mcnt)

    def env_for(n):
        def env(e):
            e = norm(e)
            if called(e, "is_empty") and metrics(e[2][0]):
                return n == 0
            if size(e):
                return n
            return None
        base = under_env(env, p)
        return lambda l: poisoned(l) or base(l)
    checks = [n for n in q.calls(lambda c: c.m in ("is_empty", "len") and c.args) if metrics(g.ev(n.d.args[0], n.i))]
    done = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("None",) and not is_iter(l[1][2][0], lambda x: bare(x) in (("fld", X, "aggregations"), ("fld", X, "callbacks")))}
    ck.ob("scope:loop", bool(done), "the end of a scope's streams was not found", loc(f))
    cut = env_for(2)
    E = q.S(outer) | q.exits()
    w = after(q, done, cnt[1], E, cut)
    ck.ob("scope:kept", w is None, "the next scope overwrites this one's streams: %s" % w, loc(f))
    w = after(q, done, st, E, cut) if st else "never"
    ck.ob("scope:named", w is None, "streams are reported under the scope of an earlier collection: %s" % w, loc(f))
    cut = env_for(0)
    R = set(q.reach(done, avoid=E, cut=cut))
    hit = [n for n in cnt[1] if q.S([n]) & R]
    ck.ob("scope:empty", not hit, "a scope without any stream is reported", hit and g.loc(hit[0].i) or "")
    # what emptiness is judged by is the list after leftovers are gone
    tr = [n for n in q.calls(lambda c: c.m == "truncate" and len(c.args) == 2) if metrics(g.ev(n.d.args[0], n.i))]
    asked = {l[1][3] for s, lab, t, l in q.literals() if l[0] == "b" and called(l[1], "is_empty") and len(l[1]) > 3}
    emp = [n for n in checks if n.d.m == "is_empty" and n.i in asked]
    for n in emp:
        w = reaches(q, done, q.S([n]), q.S(tr))
        ck.ob("scope:judged-late", w is None, "whether a scope has streams is judged while those of an earlier collection are still there: %s" % w, g.loc(n.i))
    tr = [n for n in q.calls(lambda c: c.m == "truncate" and len(c.args) == 2) if norm(g.ev(n.d.args[0], n.i)) == S1 and (lambda c: c and c[3] == cnt[3])(counter(g, n, n.d.args[1]))]
    end = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("None",) and is_iter(l[1][2][0], lambda x: bare(x) == ("fld", X, "aggregations"))}
    w = reaches(q, end, q.exits(), q.S(tr)) if tr and end else "never"
    ck.ob("scope:leftovers", w is None, "scopes of an earlier collection stay in the report: %s" % w, loc(f))


def rebuilt(ck, p, q, f, X, S1, SC, metrics, outer, sp):
    """a report made anew for every collection"""
    g = q.g
    cl = [n for n in q.calls(lambda c: c.m == "clear" and c.args) if norm(g.ev(n.d.args[0], n.i)) == S1] + [n for n, pth, v in stores(q) if norm(pth) == S1 and vec_id(v) is not None]
    w = q.not_before(cl, sp, cut=poisoned) if cl else "never cleared"
    w = w or q.not_after(q.entry(), cl, excuse=poisoned)
    ck.ob("scope:from-start", w is None, "scopes of an earlier collection stay in the report: %s" % w, loc(f))
    w = reaches(q, q.S(sp), q.S(cl), ())
    ck.ob("scope:kept-count", w is None, "scopes already reported are thrown away: %s" % w, loc(f))
    w = q.can_follow(sp, sp, avoid=outer)
    ck.ob("scope:once", w is None, "a scope is reported twice: %s" % w, loc(f))
    for n in sp:
        for a in alts(g.ev(n.d.args[1], n.i)):
            d = dict(a[3]) if a[0] == "agg" else {}
            ck.ob("scope:own", bool(d) and all(bare(norm(x)) == SC for x in alts(d.get("scope", ("unk",)))), "streams are reported under the scope " + show_(a), g.loc(n.i))
            ck.ob("scope:streams", bool(d) and metrics(d.get("metrics", ("unk",))), "a scope is reported with " + show_(a), g.loc(n.i))
    done = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("None",) and not is_iter(l[1][2][0], lambda x: bare(x) in (("fld", X, "aggregations"), ("fld", X, "callbacks")))}

    def env_for(n):
        base = under_env(lambda e: (n == 0) if called(e, "is_empty") and metrics(e[2][0]) else n if is_metric_len(e, metrics) else None, p)
        return lambda l: poisoned(l) or base(l)
    E = q.S(outer) | q.exits()
    w = after(q, done, sp, E, env_for(2)) if done else "no loop"
    ck.ob("scope:kept", w is None, "a scope's streams are not reported: %s" % w, loc(f))
    hit = set(q.reach(done, avoid=E, cut=env_for(0))) & q.S(sp)
    ck.ob("scope:empty", not hit, "a scope without any stream is reported", loc(f))
    lose = [n for n in q.calls(lambda c: c.m in LOSING and c.args) if n not in cl and (norm(g.ev(n.d.args[0], n.i)) == S1 or metrics(g.ev(n.d.args[0], n.i)))]
    ck.ob("scope:complete", not lose, "streams are thrown away again", lose and g.loc(lose[0].i) or "")
    # one list per scope
    new = {a for n in sp for x in alts(g.ev(n.d.args[1], n.i)) if x[0] == "agg" for y in alts(dict(x[3]).get("metrics", ("unk",))) for a in [vec_id(y)] if a is not None}
    some = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and l[3] == ("Some",) and is_iter(l[1][2][0], lambda x: bare(x) == ("fld", X, "aggregations"))}
    w = reaches(q, some, q.S(sp), q.S([g.nodes[i] for i in new]))
    ck.ob("scope:own-list", w is None, "the streams of one scope are reported under another: %s" % w, loc(f))


def is_metric_len(e, metrics):
    e = strip_cast(e)
    return called(e, "len") and metrics(e[2][0])


def idx_of(q, e, cnt):
    """the value of the counter"""
    vs = {repr(norm(q.g.ev_def(n.i, (), 0))) for n in cnt[0] + cnt[1]}
    return e[0] == "phi" and {repr(norm(a)) for a in e[1]} <= vs and len(e[1]) > 1


def readers(ck, p):
    """a reader collects from the pipeline it was given, and exports just what it collected"""
    n = 0
    for im in p.impls:
        if not (im.get("trait") or "").endswith("reader::MetricReader") or "collect" not in im["items"] or not (im["crate"] or "").startswith("opentelemetry"):
            continue
        adt = im["self_ty"].adt
        f = p.fns[im["items"]["collect"]]
        g = ck.graph(f)
        q = Q(g)
        pr = q.calls(lambda c: c.m in ("produce", "collect") and len(c.args) == 2 and (c.name.endswith("::produce") or (adt is None or "Arc" in (adt or "")) and c.name.endswith("::collect")))
        if not pr:
            r = q.result_from(q.entry())
            if p_only_test(f):
                continue
        n += 1
        nm = "reader:%s" % (adt or "?").split("::")[-1]
        ck.ob(nm + ":collects", len(pr) == 1, "%d places collect" % len(pr), loc(f))
        for x in pr:
            a = g.ev(x.d.args[0], x.i)
            ck.ob(nm + ":own-pipeline", (path_of(norm(bare(a))) or "").startswith("arg0") or has(a, lambda y: y[0] == "fld" and y[1] == ("arg", 0)) or has(a, lambda y: y == ("arg", 0)), "what is collected is " + show_(a), g.loc(x.i))
            ck.ob(nm + ":into", norm(g.ev(x.d.args[1], x.i)) == ("arg", 1), "it is collected into " + show_(g.ev(x.d.args[1], x.i)), g.loc(x.i))
            w = q.can_follow(pr, pr)
            ck.ob(nm + ":once", w is None, "two collections are made: %s" % w, g.loc(x.i))
        # success only if the pipeline reported it
        bad = ok_without(q, pr)
        ck.ob(nm + ":ok-only-collected", bad is None, "success is reported without a collection, or in spite of a failed one: %s" % bad, loc(f))
        w = ok_lost(q, pr)
        ck.ob(nm + ":failure-passed", w is None, "a collection succeeds but failure is reported: %s" % w, loc(f))
    ck.count("readers", n)
    ck.floor("readers", 3)


def p_only_test(f):
    return "test" in f.name.lower()


def ok_without(q, pr):
    for cut, what in ((lambda l: l[0] == "v" and called(l[1], "produce") and l[3] == ("Ok",), "without"),):
        r = q.result_from(q.entry(), cut=cut, avoid=()) if False else q.result_from(q.entry(), cut=cut)
        for a in alts(r):
            if a[0] == "agg" and a[2] == "Ok":
                return show_(r)
            if a[0] != "agg" and not called(a, "produce") and not called(a, "collect") and a != ("never",):
                return show_(a)
    return None


def ok_lost(q, pr):
    cut = lambda l: l[0] == "v" and called(l[1], "produce") and l[3] == ("Err",)
    st = q.S(pr)
    r = q.result_from(st, cut=cut)
    for a in alts(r):
        if a[0] == "agg" and a[2] == "Err":
            return show_(a)
    return None


def exports(ck, p):
    """a periodic reader exports just what it collected, once"""
    n = 0
    for adt in ("periodic_reader::PeriodicReaderInner", "periodic_reader_with_async_runtime::PeriodicReaderWorker"):
        for f in [x for x in p.method(MET + adt, "collect_and_export") if x.parent is None]:
            n += 1
            nm = "export:" + adt.split("::")[-1]
            g = ck.graph(f)
            q = Q(g)
            pr = q.calls(lambda c: c.name.endswith("SdkProducer::produce"))
            ex = q.calls(lambda c: c.name.endswith("PushMetricExporter::export"))
            ck.ob(nm + ":sites", len(pr) == 1 and len(ex) == 1, "%d collections, %d exports" % (len(pr), len(ex)), loc(f))
            if len(pr) != 1 or len(ex) != 1:
                continue
            a, b = g.ev(pr[0].d.args[1], pr[0].i), g.ev(ex[0].d.args[1], ex[0].i)
            same = repr(a) == repr(b)
            ck.ob(nm + ":same", same, "what is exported (%s) is not what was collected (%s)" % (show_(b), show_(a)), g.loc(ex[0].i))
            w = q.unguarded(ex, lambda l: l[0] == "v" and called(l[1], "produce") and l[3] == ("Ok",))
            ck.ob(nm + ":collected-first", w is None, "something is exported without a successful collection: %s" % w, g.loc(ex[0].i))
            w = q.can_follow(ex, ex) or q.can_follow(pr, pr)
            ck.ob(nm + ":once", w is None, "one collection is exported twice: %s" % w, g.loc(ex[0].i))
            # a collection with data is exported
            empty = lambda l: l[0] == "b" and called(l[1], "is_empty") and l[2] is True
            okp = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "produce") and l[3] == ("Ok",)}
            w = after(q, okp, ex, q.exits(), empty)
            ck.ob(nm + ":exported", w is None, "collected data is not exported: %s" % w, loc(f))
            for m in q.calls(lambda c: c.m == "is_empty"):
                if any(l[0] == "b" and called(l[1], "is_empty") and l[1][3] == m.i for s, lab, t, l in q.literals()):
                    v = g.ev(m.d.args[0], m.i)
                    ok = norm(v)[0] == "fld" and norm(v)[2] == "scope_metrics" or has(a, lambda y: y[0] == "agg" and any(k == "scope_metrics" and repr(norm(z)) == repr(norm(v)) for k, z in y[3]))
                    ck.ob(nm + ":empty-means", ok, "whether there is anything to export is judged by " + show_(v), g.loc(m.i))
            ws = [x for x, pth, v in stores(q) if "metrics" in show_(pth) and x is not None and path_of(norm(pth)) and "rm" in path_of(norm(pth))]
            mut = [x for x in q.calls(lambda c: c.m in LOSING and c.args) if has(g.ev(x.d.args[0], x.i), lambda y: y[0] == "fld" and y[2] in ("scope_metrics", "rm")) or repr(norm(g.ev(x.d.args[0], x.i))) in [repr(norm(z)) for y in walk(a) if y[0] == "agg" for k, z in y[3] if k == "scope_metrics"]]
            ck.ob(nm + ":unchanged", not ws and not mut, "what was collected is changed before it is exported", (ws + mut) and g.loc((ws + mut)[0].i) or "")
    ck.count("periodic readers", n)
    ck.floor("periodic readers", 2)


def check(ck):
    p = ck.program("all")
    ck.rule("a pipeline's collection: all callbacks run before any stream is asked; every stream of every scope is asked once; under each assumption about a reusable entry and the stream's answer, a stream with data ends up in exactly one entry with its own name, description, unit and data, one without in none; "
            "positions count up exactly with what is kept, and everything beyond them is cut off")
    ck.rule("a reader collects once from the pipeline registered with it and reports success only for a successful collection; a periodic reader exports just what it collected, once, unless there is nothing")
    produce(ck, p)
    readers(ck, p)
    exports(ck, p)
