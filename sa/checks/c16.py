"""C16: data points carry what was measured, with the temporality and time range they were collected under"""
from checks.assume import *
from checks.c15 import bare
from checks.c18 import Key, INT, VM, poisoned, lock_of

TITLE = "Data points report exactly what was measured, under the configured temporality"
FLOOR = 150
AGGS = {"sum::Sum": "Sum", "precomputed_sum::PrecomputedSum": "Sum", "last_value::LastValue": "Gauge", "histogram::Histogram": "Histogram", "exponential_histogram::ExpoHistogram": "ExponentialHistogram"}
A0 = ("arg", 0)
MAP = ("fld", A0, "value_map")
INIT = ("fld", ("fld", A0, "init_time"), "0")
OP = lambda f: f.name.startswith(VM + "::")


def extracted(e):
    """the place `extract_metrics_data_mut(..)` hands back"""
    return e[0] == "call" and last(e[1]) == "extract_metrics_data_mut"


def env_of(reuse, tempo, kind, more=None):
    def ev(e):
        e = norm(e)
        if e[0] == "phi":
            a = [x for x in e[1] if x[0] != "agg"]
            r = [ev(x) for x in a]
            return r[0] if a and len({repr(x) for x in r}) == 1 else None
        if e == ("fld", A0, "temporality"):
            return V(tempo)
        if e == ("arg", 1):
            return V("Some") if reuse else V("None")
        if extracted(e):
            return V("Some")
        if e[0] == "fld" and extracted(e[1]):
            return V(kind)
        return more(e) if more else None
    return ev


def held(e):
    """value of a tracker's field, the lock it is behind aside: the path below the stored element, else None"""
    e = bare(norm(e))
    path = []
    while True:
        if e[0] == "fld":
            if e[2] not in ("Ok.0", "Err.0"):
                path.append(e[2])
            e = e[1]
        elif e[0] == "call" and last(e[1]) in ("lock", "into_inner", "unwrap", "unwrap_or_else", "get_mut", "clone", "deref", "to_vec") and e[2]:
            e = e[2][0]
        elif e == ("elem", MAP):
            return tuple(reversed(path))
        else:
            return None


def is_held(e, *paths):
    return all(held(a) in paths for a in alts(e)) and bool(alts(e))


def taken(e, *path):
    """get_value() of a tracker"""
    return all(a[0] == "call" and last(a[1]) in ("get_value", "get_and_reset_value") and held(a[2][0]) == path for a in alts(e))


def where(g, n):
    """the places a node may write to, as access paths (not as the values found there)"""
    from graph import strip
    pl = n.d[0] if n.k == "as" else n.d.dest if n.k == "call" else None
    if pl is None or not pl[2]:
        return []
    k = max((i for i, x in enumerate(pl[2]) if x == "*"), default=-1)
    if k < 0:
        c = g.canon(pl)
        return [norm(x) for x in alts(g.place_expr(pl, n.i)) if x[0] != "part"] if c[2] else []
    out = []
    for b in alts(g.place_expr((pl[0], pl[1], tuple(pl[2][:k + 1])), n.i)):
        if rooted(b, lambda x: x[0] in ("part", "never", "unk")):
            continue
        v = None
        for x in strip(pl[2][k + 1:]):
            if x[0] == "v":
                v = x[1]
            elif x[0] == "f":
                b = ("fld", b, v + "." + x[1] if v else x[1])
                v = None
            else:
                b = ("elem", b, x)
        out.append(norm(b))
    return out


def writes(q, pred):
    """assignments to a path some alternative of which satisfies pred: (node, path alternatives)"""
    g = q.g
    for n in g.nodes:
        if n.i in q.ex.by_node and n.k in ("as", "call"):
            a = where(g, n)
            if any(pred(x) for x in a):
                yield n, a


def wval(q, n, r):
    """value written by node n, on the paths in r"""
    ss = q.S([n]) & r
    if n.k == "as":
        return q._pv_rv(n, (), ss, r, 0)
    return q.g.ev_def(n.i, (), 0)


def sameclock(a, b):
    """both are one and the same reading of the clock"""
    x, y = alts(a), alts(b)
    return len(x) == len(y) == 1 and is_now(x[0]) and x[0] == y[0]


def collecting(ck, p, adt, kind):
    f = p.method(INT + adt, "call", "ComputeAggregation")
    ck.one(f, adt + "::call")
    f = f[0]
    nm = last(adt)
    q = Q(ck.graph(f, opaque=OP, solid=("to_vec",)))
    q.deep = True
    g = q.g
    cols = q.calls(lambda c: c.name.startswith(VM + "::collect"))
    ck.ob(nm + ":collects", bool(cols), "nothing is collected", f.name)
    for tempo in ("Delta", "Cumulative", "LowMemory"):
        delta = tempo == "Delta"
        for reuse in (True, False):
            key = "%s:%s:%s" % (nm, tempo, "reuse" if reuse else "new")
            cut0 = under_env(env_of(reuse, tempo, kind), p)
            cut = lambda l: poisoned(l) or cut0(l)
            r = q.reach(q.entry(), cut=cut)
            here = [n for n in cols if q.S([n]) & r]
            good = [n for n in here if last(n.d.name) == ("collect_and_reset" if delta else "collect_readonly")]
            bad = [n for n in here if n not in good]
            ck.ob(key + ":method", not bad, "%s values are collected by %s" % (tempo.lower(), last(bad[0].d.name) if bad else ""), bad and g.loc(bad[0].i) or f.name)
            w = q.skipped(good, excuse=cut)
            ck.ob(key + ":always", w is None, "a collection reports nothing: %s" % w, f.name)
            w = q.can_follow(good, good, cut=cut)
            ck.ob(key + ":once", w is None, "a collection replaces what it has just reported: %s" % w, f.name)
            res = q.pv(g.result_place, q.exits() & r, r) if q.exits() & r else ("never",)
            ok = res[0] == "tuple" and len(res[1]) == 2
            ck.ob(key + ":result", ok, "the result is not understood: " + show_(res), f.name)
            if not ok:
                continue
            n_, out = res[1]
            places = set()
            for n in good:
                ck.ob(key + ":map", norm(opnd(q, n, n.d.args[0], cut)) == MAP, "collected from " + show_(opnd(q, n, n.d.args[0], cut)), g.loc(n.i))
                dest = opnd(q, n, n.d.args[1], cut)
                places |= {norm(a) for a in alts(dest)}
            ck.ob(key + ":length", all(a[0] == "call" and last(a[1]) == "len" and {norm(b) for b in alts(a[2][0])} <= places for a in alts(n_)), "the number of data points is reported as " + show_(n_), f.name)
            RE = None
            if reuse:
                RE = [a for a in places if a[0] == "fld" and a[2] == "data_points" and has(a, extracted)]
                ck.ob(key + ":buffer", len(places) == 1 and len(RE) == 1, "data points do not go to the buffer handed in: " + ", ".join(show_(a) for a in places), f.name)
                ck.ob(key + ":none", all(a[0] == "agg" and a[2] == "None" for a in alts(out)), "a second report is made beside the buffer handed in: " + show_(out), f.name)
                RE = RE[0][1] if RE else None
                made = None
            else:
                mk = [a for a in alts(out)]
                made = [dict(a[3]).get("0") for a in mk if a[0] == "agg" and a[2] == "Some"]
                ok = len(made) == len(mk) and all(m[0] == "call" and last(m[1]) == "make_aggregated_metrics" for m in made)
                ck.ob(key + ":some", ok, "no report is made although none was handed in: " + show_(out), f.name)
                if not ok:
                    continue
                made = [a for m in made for a in alts(m[2][0])]
                made = [dict(m[3]).get("0") if m[0] == "agg" and last(m[1]) == "MetricData" else m for m in made]
                made = [a for m in made for a in alts(m)]
                ok = all(m[0] == "agg" and last(m[1]) == kind for m in made)
                ck.ob(key + ":kind", ok, "the report made is " + show_(made[0]), f.name)
                if not ok:
                    continue
                made = [dict(m[3]) for m in made]
                ck.ob(key + ":buffer", all({norm(a) for a in alts(m["data_points"])} == places for m in made), "data points do not go to the report that is returned", f.name)
            # the fields of the report
            clock = []
            want = {"time": lambda v: bool([clock.append(a) for a in alts(v)]) and all(is_now(a) for a in alts(v))}
            start = lambda v: all(norm(a) == ("fld", ("call", "std::sync::poison::mutex::Mutex::lock", (INIT,)), "Ok.0") for a in alts(v))
            want["start_time"] = start if kind != "Gauge" else lambda v: all(a[0] == "agg" and a[2] == "Some" and start(dict(a[3])["0"]) for a in alts(v))
            if kind != "Gauge":
                want["temporality"] = lambda v: all(a[0] == "agg" and a[2] == ("Delta" if delta else "Cumulative") or norm(a) == ("fld", A0, "temporality") and tempo != "LowMemory" for a in alts(v))
            if kind == "Sum":
                want["is_monotonic"] = lambda v: all(norm(a) == ("fld", A0, "monotonic") for a in alts(v))
            for fld, ok in want.items():
                ws = [n for n, a in writes(q, lambda x: x[0] == "fld" and x[2] == fld and has(x, lambda y: extracted(y) or RE is not None and y == RE)) if q.S([n]) & r]
                vals = [(n, wval(q, n, r)) for n in ws]
                bad = [(n, v) for n, v in vals if not ok(v)]
                ck.ob("%s:%s" % (key, fld), not bad, "%s is set to %s" % (fld, bad and show_(bad[0][1])), bad and g.loc(bad[0][0].i) or f.name)
                if made is not None and all(ok(m.get(fld, ("unk",))) for m in made):
                    continue
                w = q.skipped(ws, excuse=cut) if ws else "it is never set"
                ck.ob("%s:%s:set" % (key, fld), w is None, "%s keeps the value of an earlier collection: %s" % (fld, w), f.name)
            # the start of the next interval
            adv = []
            for n in q.calls(lambda c: c.name in ("core::mem::replace", "core::mem::swap", "core::mem::take")):
                if q.S([n]) & r and any(norm(a) == ("fld", ("call", "std::sync::poison::mutex::Mutex::lock", (INIT,)), "Ok.0") for o in n.d.args for a in alts(g.ev(o, n.i))):
                    adv.append((n, g.ev(n.d.args[1], n.i) if n.d.name.endswith("replace") else ("unk",)))
            for n, a in writes(q, lambda x: rooted(x, lambda y: y == ("call", "std::sync::poison::mutex::Mutex::lock", (INIT,)))):
                if q.S([n]) & r and n.k == "as" and all(rooted(x, lambda y: y == ("call", "std::sync::poison::mutex::Mutex::lock", (INIT,))) for x in a):
                    adv.append((n, wval(q, n, r)))
            if delta:
                ok = bool(adv) and all(is_now(a) and a in clock for _, v in adv for a in alts(v))
                ck.ob(key + ":next", ok, "the next interval does not start where this one ends: " + (show_(adv[0][1]) if adv else "its start is not kept"), f.name)
                w = q.skipped([n for n, _ in adv], excuse=cut) if adv else "never"
                ck.ob(key + ":next:always", w is None, "the next interval starts where this one did: %s" % w, f.name)
            else:
                ck.ob(key + ":next", not adv, "a cumulative collection moves the start of the interval", f.name)
            for n in good:
                points(ck, q, n, key, adt, kind, reuse, tempo, p)


def point_of(q, n, cut):
    """what the closure of collect call n makes of one stored tracker"""
    r = q.reach(q.entry(), cut=cut)
    out = []
    for rp, b in n.d.clo:
        ss = set(q.ex.by_node.get(b, [])) & r
        if ss:
            out += alts(q.pv(rp, ss, r))
    return out


def points(ck, q, n, key, adt, kind, reuse, tempo, p):
    g = q.g
    nm = {"Sum": "SumDataPoint", "Gauge": "GaugeDataPoint", "Histogram": "HistogramDataPoint", "ExponentialHistogram": "ExponentialHistogramDataPoint"}[kind]

    def under_(more):
        c0 = under_env(env_of(reuse, tempo, kind, more), p)
        return lambda l: poisoned(l) and has(l, lambda x: x == INIT or x == ("fld", A0, "reported")) or c0(l)

    def fields(more=lambda e: None):
        out = point_of(q, n, under_(more))
        if not out or any(a[0] != "agg" or last(a[1]) != nm for a in out):
            return []
        return [dict(a[3]) for a in out]

    L = g.loc(n.i)
    base = fields()
    ck.ob(key + ":point", bool(base), "a data point is not made from the stored tracker: " + (show_(point_of(q, n, under_(None))[0]) if point_of(q, n, under_(None)) else "?"), L)
    if not base:
        return
    ob = lambda fld, ok, v: ck.ob("%s:point:%s" % (key, fld), bool(ok), "%s of a data point is %s" % (fld, show_(v)), L)
    for d in base:
        ob("attributes", is_held(d["attributes"], ()), d["attributes"])
        if adt.startswith("precomputed") and tempo == "Delta":
            continue
        if kind in ("Sum", "Gauge"):
            ob("value", taken(d["value"], "value"), d["value"])
            continue
        ob("count", is_held(strip_cast(d["count"]), ("count",)), d["count"])
        if kind == "Histogram":
            ob("bounds", all(norm(a) == ("fld", A0, "bounds") for a in alts(d["bounds"])), d["bounds"])
            ob("bucket_counts", is_held(d["bucket_counts"], ("counts",)), d["bucket_counts"])
        else:
            for k in ("scale", "zero_count"):
                ob(k, is_held(d[k], (k,)), d[k])
            for k, s in (("positive_bucket", "pos_buckets"), ("negative_bucket", "neg_buckets")):
                for b in alts(d[k]):
                    b = dict(b[3]) if b[0] == "agg" else {}
                    ob(k + ".offset", b and is_held(b["offset"], (s, "start_bin")), b.get("offset", d[k]))
                    ob(k + ".counts", b and is_held(b["counts"], (s, "counts")), b.get("counts", d[k]))
            ob("zero_threshold", all(a[0] == "const" and float(str(a[1]).replace("f64", "").rstrip("_")) == 0 for a in alts(d["zero_threshold"])), d["zero_threshold"])
    if kind in ("Histogram", "ExponentialHistogram"):
        tot = "total" if kind == "Histogram" else "sum"
        for want in (True, False):
            for d in fields(lambda e: want if e == ("fld", A0, "record_sum") else None):
                ob("sum:%s" % want, is_held(d["sum"], (tot,)) if want else all(is_default(a) for a in alts(d["sum"])), d["sum"])
            for d in fields(lambda e: want if e == ("fld", A0, "record_min_max") else None):
                for k in ("min", "max"):
                    ob("%s:%s" % (k, want), all(a[0] == "agg" and (a[2] == "Some" and is_held(dict(a[3])["0"], (k,)) if want else a[2] == "None") for a in alts(d[k])), d[k])
    if adt.startswith("precomputed") and tempo == "Delta":
        reported(ck, q, n, key, fields, reuse, p, under_)


class Stored(Key):
    """keys under which values are remembered, made from a data point's attributes"""

    def copy_of_attrs(self, e):
        from checks.c18 import VIEWS
        x = e
        while x[0] == "call" and x[2] and last(x[1]) in VIEWS:
            if self.sorted_by(x):
                return x
            x = x[2][0]
        return None


def reported(ck, q, n, key, fields, reuse, p, under_):
    """delta of an observed total: the difference to the total reported for the same attribute set before"""
    g = q.g
    L = g.loc(n.i)
    REP = lambda e: lock_of(e, "reported") is not None
    K = Stored(q, ck, key)
    looked = lambda e: e[0] == "call" and last(e[1]) in ("get", "remove") and REP(e[2][0])
    for found in ("Some", "None"):
        def more(e):
            return V(found) if looked(e) else None
        ds = fields(more)
        ck.ob("%s:delta:%s" % (key, found), bool(ds), "a data point is not made from the stored tracker", L)
        for d in ds:
            for v in alts(d["value"]):
                v = strip_cast(v)
                if v[0] == "call" and last(v[1]) == "sub" and len(v[2]) == 2:
                    a, b = v[2]
                elif v[0] == "bin" and v[1].startswith("Sub"):
                    a, b = v[2], v[3]
                elif found == "None" and taken(v, "value"):
                    continue
                else:
                    a = b = ("unk",)
                ok = taken(a, "value") and (all(x[0] == "fld" and x[2] == "Some.0" and looked(x[1]) or looked(x) for x in alts(b)) if found == "Some" else all(is_default(x) for x in alts(b)))
                ck.ob("%s:delta:%s:value" % (key, found), ok, "the reported difference is " + show_(v), L)
    cut = under_(None)
    r = q.reach(q.entry(), cut=cut)
    gets = [m for m in q.calls(lambda c: c.m in ("get", "remove") and c.args) if q.S([m]) & r and REP(g.ev(m.d.args[0], m.i))]
    for m in gets:
        ck.ob(key + ":delta:key", K.kind(g.ev(m.d.args[1], m.i), m) == "norm", "the total reported before is looked up under attributes in the order in which they were measured", g.loc(m.i))
    lose = [m for m in q.calls(lambda c: c.m in LOSING and c.args) if q.S([m]) & r and REP(g.ev(m.d.args[0], m.i)) and m not in gets]
    w = q.can_follow(lose, [n], cut=cut) if lose else None
    ck.ob(key + ":delta:lost", w is None, "totals reported before are forgotten: %s" % w, L)
    ins = []
    for m in q.calls(lambda c: c.m == "insert" and len(c.args) == 3):
        if q.S([m]) & r and any(q.S([m]) & region(q, n, b) for _, b in n.d.clo):
            ins.append(m)
            ck.ob(key + ":delta:kept", taken(g.ev(m.d.args[2], m.i), "value"), "what is remembered is not the total observed: " + show_(g.ev(m.d.args[2], m.i)), g.loc(m.i))
            ck.ob(key + ":delta:kept:key", K.kind(g.ev(m.d.args[1], m.i), m) == "norm", "totals are remembered under attributes in the order in which they were measured", g.loc(m.i))
    ck.ob(key + ":delta:remembers", bool(ins) and all(not closure_skips(q, n, b, q.S(ins), cut) for _, b in n.d.clo), "an observed total is not remembered", L)
    direct = [m for m in ins if REP(g.ev(m.d.args[0], m.i))]
    if ins and len(direct) != len(ins):
        mp = {norm(g.ev(m.d.args[0], m.i)) for m in ins}
        back = [m for m, a in writes(q, REP) if q.S([m]) & r and m.k == "as" and {norm(x) for x in alts(wval(q, m, r))} <= mp]
        back += [m for m in q.calls(lambda c: c.name in ("core::mem::replace", "core::mem::swap")) if q.S([m]) & r and any(REP(g.ev(o, m.i)) for o in m.d.args) and any(norm(g.ev(o, m.i)) in mp for o in m.d.args)]
        # the written place may be the guard's content itself
        for m in g.nodes:
            if m.k == "as" and m.i in q.ex.by_node and q.S([m]) & r and REP(g.place_expr(m.d[0], m.i)) and m not in back and {norm(x) for x in alts(wval(q, m, r))} <= mp:
                back.append(m)
        w = q.not_after([n], back, excuse=cut) if back else "they are not kept"
        ck.ob(key + ":delta:stored", w is None, "the totals reported are forgotten, so that they are reported again: %s" % w, L)
        w = q.can_follow(back, [n], cut=cut)
        ck.ob(key + ":delta:stored:after", w is None, "totals are replaced before they are compared: %s" % w, L)


def lockfree(e):
    """path below the object itself, locks aside"""
    e = norm(e)
    path = []
    while True:
        if e[0] == "fld":
            if e[2] not in ("Ok.0", "Err.0"):
                path.append(e[2])
            e = e[1]
        elif e[0] == "call" and last(e[1]) in ("lock", "into_inner", "unwrap", "unwrap_or_else", "deref", "deref_mut") and e[2]:
            e = e[2][0]
        elif e[0] == "arg":
            return (e[1],) + tuple(reversed(path))
        else:
            return None


def behind(e, *path):
    return bool(alts(e)) and all(lockfree(a) == (0,) + path for a in alts(e) if a[0] != "part")


def at(g, n, *path):
    """node n writes to the object's field"""
    w = where(g, n)
    return bool(w) and all(lockfree(a) == (0,) + path for a in w)


def fn_of(ck, p, what, adt, m, tr, file=None, self_ty=None):
    fs = [f for f in p.fns.values() if f.kind == "fn" and f.name.endswith("%s>::%s" % (tr, m)) and (adt is None or f.self_adt == adt) and (file is None or f.file.endswith(file)) and (self_ty is None or f.name.startswith("<%s as " % self_ty))]
    ck.one(fs, what)
    return fs[0]


def bump(q, path, pred, always, ck, key, what, excuse=None, cut=None):
    """`path` is increased exactly once, by something satisfying pred"""
    g = q.g
    hit = []
    for n in g.nodes:
        if n.i not in q.ex.by_node:
            continue
        if n.k == "as" and at(g, n, *path):
            v = strip_cast(g.ev_def(n.i, (), 0))
            while v[0] == "fld" and v[2] == "0":
                v = v[1]
            ok = v[0] == "bin" and v[1].startswith("Add") and (behind(v[2], *path) and pred(v[3]) or behind(v[3], *path) and pred(v[2]))
            ok = ok or v[0] == "call" and last(v[1]) in ("add", "wrapping_add", "saturating_add") and (behind(v[2][0], *path) and pred(v[2][1]) or behind(v[2][1], *path) and pred(v[2][0]))
            hit.append((n, ok, v))
        elif n.k == "call" and n.d.m == "add_assign" and behind(g.ev(n.d.args[0], n.i), *path):
            v = g.ev(n.d.args[1], n.i)
            hit.append((n, pred(v), v))
    ck.ob(key, bool(hit) and all(ok for _, ok, _ in hit), "%s: %s" % (what, ([show_(v) for _, ok, v in hit if not ok] + ["?"])[0] if hit else "never changed"), hit and q.g.loc(hit[0][0].i) or "")
    ns = [n for n, _, _ in hit]
    if ns:
        w = q.skipped(ns, excuse=excuse)
        ck.ob(key + ":always", not always or w is None, "%s: not on %s" % (what, w), q.g.loc(ns[0].i))
        w = q.can_follow(ns, ns)
        ck.ob(key + ":once", w is None, "%s: twice on %s" % (what, w), q.g.loc(ns[0].i))
    return ns


def extreme(ck, q, fld, V1, key, excuse=None):
    """fld is replaced by the measured value exactly when that lies beyond it"""
    g = q.g
    ws = [n for n in g.nodes if n.k == "as" and n.i in q.ex.by_node and at(g, n, fld)]
    ck.ob(key, bool(ws) and all(all(norm(a) == V1 for a in alts(g.ev_def(n.i, (), 0))) for n in ws), "%s is set to something other than the measured value" % fld, ws and g.loc(ws[0].i) or "")
    isv, ism = (lambda e: norm(e) == V1), (lambda e: behind(e, fld))

    def beyond(l):
        """True: the value lies beyond the extreme; False: it does not; None: says nothing"""
        lt = None       # the literal says x < y
        if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) in ("lt", "gt", "le", "ge") and len(l[1][2]) == 2:
            m = last(l[1][1])
            a, b = l[1][2]
            if m in ("gt", "ge"):
                a, b, m = b, a, {"gt": "lt", "ge": "le"}[m]
            # a < b or a <= b, holding or not
            if fld == "max":
                a, b = b, a
            if isv(a) and ism(b):
                return l[2] if m == "lt" else (True if l[2] else False) if m == "le" else None
            if isv(b) and ism(a):
                return (False if l[2] else None) if m == "lt" else (False if l[2] else None)
        if l[0] == "cmp" and l[1] in ("Lt", "Le"):
            a, b = l[2], l[3]
            if fld == "max":
                a, b = b, a
            if isv(a) and ism(b):
                return True
            if isv(b) and ism(a):
                return False
        return None
    w = q.unguarded(ws, lambda l: beyond(l) is True)
    ck.ob(key + ":iff", w is None, "%s is replaced by a value that does not lie beyond it: %s" % (fld, w), ws and g.loc(ws[0].i) or "")
    w = q.skipped(ws, excuse=lambda l: beyond(l) is False or excuse is not None and excuse(l))
    ck.ob(key + ":always", w is None, "a new %s is not kept: %s" % (fld, w), ws and g.loc(ws[0].i) or "")


def trackers(ck, p):
    """what one tracker does with a measurement"""
    for adt, op in (("sum::Increment", "add"), ("last_value::Assign", "store")):
        nm = last(adt)
        f = fn_of(ck, p, nm + "::update", INT + adt, "update", "Aggregator")
        q = Q(ck.graph(f))
        cs = q.calls(lambda c: c.name.startswith(INT + "AtomicTracker::"))
        ck.ob(nm + ":update", len(cs) >= 1 and all(last(c.d.name) == op and norm(q.g.ev(c.d.args[0], c.i)) == ("fld", A0, "value") and norm(q.g.ev(c.d.args[1], c.i)) == ("arg", 1) for c in cs), "a measurement is not %s" % ("added" if op == "add" else "kept"), f.name)
        w = q.skipped(cs) or q.can_follow(cs, cs)
        ck.ob(nm + ":update:once", w is None, "a measurement is not taken in exactly once: %s" % w, f.name)
        f = fn_of(ck, p, nm + "::create", INT + adt, "create", "Aggregator")
        q = Q(ck.graph(f))
        v = under(q, (("f", "value"),))
        ck.ob(nm + ":create", all(a[0] == "call" and last(a[1]) == "new_atomic_tracker" and is_default(a[2][0]) for a in alts(v)), "a new tracker starts with " + show_(v), f.name)
        f = fn_of(ck, p, nm + "::clone_and_reset", INT + adt, "clone_and_reset", "Aggregator")
        q = Q(ck.graph(f))
        v = under(q, (("f", "value"),))
        ck.ob(nm + ":reset", all(a[0] == "call" and last(a[1]) == "new_atomic_tracker" and a[2][0][0] == "call" and last(a[2][0][1]) == "get_and_reset_value" and norm(a[2][0][2][0]) == ("fld", A0, "value") for a in alts(v)), "what is collected is not the value that is reset: " + show_(v), f.name)
    hist(ck, p)
    expo(ck, p)
    # numbers
    one = lambda e: intval(e) == 1
    for ty in ("u64", "i64"):
        for m, ops in (("store", ("store", "swap")), ("add", ("fetch_add",)), ("get_value", ("load",)), ("get_and_reset_value", ("swap",))):
            fs = [f for f in p.fns.values() if f.kind == "fn" and f.name.endswith("AtomicTracker>::" + m) and f.self_adt == "core::sync::atomic::Atomic" and (f.argc < 2 and f.local_ty(0).s == ty or f.argc == 2 and f.local_ty(2).s == ty)]
            ck.one(fs, "AtomicTracker<%s>::%s" % (ty, m))
            q = Q(ck.graph(fs[0]))
            cs = [c for c in q.calls(lambda c: c.args and not c.name.startswith("core::fmt")) if norm(q.g.ev(c.d.args[0], c.i)) == A0]
            ok = len(cs) >= 1 and all(c.d.m in ops for c in cs) and q.skipped(cs) is None and q.can_follow(cs, cs) is None
            if m in ("store", "add"):
                ok = ok and all(norm(q.g.ev(c.d.args[1], c.i)) == ("arg", 1) for c in cs)
            if m == "get_and_reset_value":
                ok = ok and all(intval(q.g.ev(c.d.args[1], c.i)) == 0 for c in cs)
            if m.startswith("get"):
                ok = ok and all(a[0] == "call" and a[3] in {c.i for c in cs} for a in alts(q.results()))
            ck.ob("%s:%s" % (ty, m), ok, "the number is not handled atomically in one step as %s" % m, fs[0].name)
    F64 = INT + "F64AtomicTracker"
    INNER = ("fld", A0, "inner")
    for m in ("store", "get_value", "get_and_reset_value"):
        f = fn_of(ck, p, "f64 " + m, F64, m, "AtomicTracker")
        q = Q(ck.graph(f))
        cs = [c for c in q.calls(lambda c: c.args) if norm(q.g.ev(c.d.args[0], c.i)) == INNER]
        bits = lambda e, pr: e[0] == "call" and last(e[1]) == "to_bits" and pr(e[2][0])
        ok = bool(cs) and q.skipped(cs) is None and q.can_follow(cs, cs) is None
        if m == "store":
            ok = ok and all(c.d.m in ("store", "swap") and bits(q.g.ev(c.d.args[1], c.i), lambda x: norm(x) == ("arg", 1)) for c in cs)
        else:
            ok = ok and all(c.d.m == ("load" if m == "get_value" else "swap") for c in cs)
            if m != "get_value":
                ok = ok and all(zero_bits(q.g.ev(c.d.args[1], c.i)) for c in cs)
            ok = ok and all(a[0] == "call" and last(a[1]) == "from_bits" and a[2][0][0] == "call" and a[2][0][3] in {c.i for c in cs} for a in alts(q.results()))
        ck.ob("f64:" + m, ok, "the number is not handled atomically in one step as %s" % m, f.name)
    f = fn_of(ck, p, "f64 add", F64, "add", "AtomicTracker")
    casloop(ck, f, INNER)
    for f in [f for f in p.fns.values() if f.name == F64 + "::new"]:
        q = Q(ck.graph(f))
        v = under(q, (("f", "inner"),))
        ck.ob("f64:new", has(v, lambda x: x[0] == "call" and last(x[1]) == "to_bits" and norm(x[2][0]) == A0), "a new tracker starts with " + show_(v), f.name)
    for ty in ("u64", "i64", "f64"):
        for m in ("min", "max"):
            f = fn_of(ck, p, "%s::%s" % (ty, m), None, m, "internal::Number", self_ty=ty)
            v = Q(ck.graph(f)).results()
            ref = {"u64": (0, 2 ** 64 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "f64": (-1.7976931348623157e308, 1.7976931348623157e308)}[ty][m == "max"]
            x = val(v, lambda e: None)
            ck.ob("%s:%s" % (ty, m), x is not None and (float(x) == ref if ty == "f64" else x == ref) or ty == "f64" and x in (float("inf"), float("-inf")) and (x > 0) == (m == "max"), "the starting point for %s is %s" % (m, show_(v)), f.name)
        f = fn_of(ck, p, ty + "::into_float", None, "into_float", "internal::Number", self_ty=ty)
        v = Q(ck.graph(f)).results()
        ck.ob(ty + ":float", norm(strip_cast(v)) == A0 and (v[0] != "cast" or v[2] == "f64"), "the value put into a bucket is " + show_(v), f.name)
        V_ = ty.upper()
        f = fn_of(ck, p, ty + "::make", None, "make_aggregated_metrics", "AggregatedMetricsAccess", self_ty=ty)
        v = Q(ck.graph(f)).results()
        ck.ob(ty + ":made", all(a[0] == "agg" and a[2] == V_ and norm(dict(a[3])["0"]) == A0 for a in alts(v)), "%s values are reported as %s" % (ty, show_(v)), f.name)
        f = fn_of(ck, p, ty + "::extract", None, "extract_metrics_data_mut", "AggregatedMetricsAccess", self_ty=ty)
        q = Q(ck.graph(f))
        mine = lambda want: lambda l: l[0] == "v" and norm(l[1]) == A0 and ((V_ in l[3]) is want)
        v = under(q, (), mine(False))
        ck.ob(ty + ":reused", all(a[0] == "agg" and a[2] == "Some" and norm(dict(a[3])["0"]) == ("fld", A0, V_ + ".0") for a in alts(v)), "the buffer reused for %s values is %s" % (ty, show_(v)), f.name)
        v = under(q, (), mine(True))
        ck.ob(ty + ":foreign", all(a[0] == "agg" and a[2] == "None" for a in alts(v)), "a buffer of another type is reused", f.name)


def zero_bits(e):
    if intval(e) == 0:
        return True
    if e[0] == "call" and last(e[1]) == "to_bits":
        x = e[2][0]
        return x[0] == "const" and float(str(x[1]).replace("_", "").replace("f64", "")) == 0 and "-" not in str(x[1]) or is_default(x)
    return False


def casloop(ck, f, INNER):
    """an atomic read-modify-write built from compare-and-exchange"""
    q = Q(ck.graph(f))
    g = q.g
    cas = [c for c in q.calls(lambda c: c.m in ("compare_exchange", "compare_exchange_weak") and c.args) if norm(g.ev(c.d.args[0], c.i)) == INNER]
    upd = [c for c in q.calls(lambda c: c.m in ("fetch_update", "try_update", "update") and c.args) if norm(g.ev(c.d.args[0], c.i)) == INNER]
    other = [c for c in q.calls(lambda c: c.m in ("store", "swap", "fetch_add", "fetch_sub") and c.args) if norm(g.ev(c.d.args[0], c.i)) == INNER]
    ck.ob("f64:add:atomic", bool(cas or upd) and not other, "the sum is not updated in one atomic step", f.name)
    if not cas:
        return
    seen = lambda e: all(a[0] == "call" and last(a[1]) == "load" and norm(a[2][0]) == INNER or a[0] == "fld" and a[2] == "Err.0" and a[1][0] == "call" and a[1][3] in {c.i for c in cas} for a in alts(e)) and bool(alts(e))
    for c in cas:
        cur, new = g.ev(c.d.args[1], c.i), g.ev(c.d.args[2], c.i)
        ck.ob("f64:add:expected", seen(cur), "the sum is compared with " + show_(cur), g.loc(c.i))
        # on failure the value read by the exchange is the next one expected: path-sensitively, at the exchange, after a failure
        won = lambda l: l[0] in ("v", "b") and (l[0] == "v" and l[3] == ("Ok",) and l[1][0] == "call" and l[1][3] == c.i or l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "is_ok" and l[1][2][0][0] == "call" and l[1][2][0][3] == c.i)
        w = q.skipped([], excuse=won)
        ck.ob("f64:add:done", w is None, "a measurement is lost when another thread was faster: %s" % w, g.loc(c.i))
        w = q.can_follow([c], [c], cut=lambda l: l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and l[1][3] == c.i or l[0] == "b" and l[2] is False and l[1][0] == "call" and last(l[1][1]) == "is_ok" or l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "is_err")
        ck.ob("f64:add:once", w is None, "a measurement is added again after it was added: %s" % w, g.loc(c.i))
        rl = [n for n in q.calls(lambda k: k.m == "load" and k.args) if norm(g.ev(n.d.args[0], n.i)) == INNER]
        # the value expected in the next round comes from the failed exchange or from a fresh load
        err = edges(q, lambda l: l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and l[1][3] == c.i)
        q.deep = True
        for rnd, st in (("first", q.entry()), ("retry", err)):
            r = q.reach(st, avoid=q.after(q.S([c])) - err if rnd == "retry" else q.after(q.S([c])))
            ss = q.S([c]) & r
            if not ss:
                continue
            v, new = q._pv_op(c.d.args[1], (), ss, r, 0), q._pv_op(c.d.args[2], (), ss, r, 0)
            x = new[2][0] if new[0] == "call" and last(new[1]) == "to_bits" else ("unk",)
            a = b = ("unk",)
            if x[0] == "bin" and x[1].startswith("Add"):
                a, b = x[2], x[3]
            if norm(a) == ("arg", 1):
                a, b = b, a
            ok = a[0] == "call" and last(a[1]) == "from_bits" and norm(a[2][0]) == norm(v) and norm(b) == ("arg", 1)
            ck.ob("f64:add:new:" + rnd, ok, "the sum is replaced by %s where %s is expected" % (show_(new), show_(v)), g.loc(c.i))
            if rnd == "first":
                continue
            ok = all(a[0] == "fld" and a[2] == "Err.0" or a[0] == "call" and last(a[1]) == "load" and q.S([g.nodes[a[3]]]) & r for a in alts(v))
            ck.ob("f64:add:retry", ok, "the next attempt expects the value that has just failed: " + show_(v), g.loc(c.i))


def hist(ck, p):
    H = "metrics/internal/histogram.rs"
    f = fn_of(ck, p, "Buckets::update", None, "update", "Aggregator", H)
    q = Q(ck.graph(f))
    V1 = ("fld", ("arg", 1), "0")
    IX = ("fld", ("arg", 1), "1")
    one = lambda e: intval(e) == 1
    bump(q, ("total",), lambda e: norm(e) == V1, True, ck, "Buckets:total", "the sum does not grow by the measured value")
    bump(q, ("count",), one, True, ck, "Buckets:count", "the count does not grow by one")
    extreme(ck, q, "min", V1, "Buckets:min")
    extreme(ck, q, "max", V1, "Buckets:max")
    g = q.g
    cells = []
    for n in g.nodes:
        if n.k == "as" and n.i in q.ex.by_node and n.d[0][2]:
            e = g.place_expr(n.d[0], n.i)
            for a in alts(e):
                a = norm(a)
                if a[0] == "call" and last(a[1]) == "index_mut" or a[0] == "fld" and a[2] == "Some.0" and a[1][0] == "call" and last(a[1][1]) == "get_mut":
                    c = a if a[0] == "call" else a[1]
                    if all(lockfree(x) == (0, "counts") for x in alts(c[2][0]) if x[0] != "part"):
                        v = strip_cast(g.ev_def(n.i, (), 0))
                        cells.append((n, norm(c[2][1]) == IX and plus_one(v, a), v))
    ck.ob("Buckets:cell", bool(cells) and all(ok for _, ok, _ in cells), "the bucket of the measured value does not grow by one" + (": " + show_(cells[0][2]) if cells else ""), f.name)
    ns = [n for n, _, _ in cells]
    w = (q.skipped(ns, excuse=lambda l: l[0] == "v" and l[3] == ("None",) and l[1][0] == "call" and last(l[1][1]) == "get_mut") or q.can_follow(ns, ns)) if ns else "never"
    ck.ob("Buckets:cell:once", w is None, "not exactly one bucket grows: %s" % w, f.name)

    def fresh(e, n, key):
        e = e[0] == "agg" and dict(e[3]) or {}
        good = {"counts": lambda v: v[0] == "call" and last(v[1]) in ("from_elem", "resize", "collect") and (last(v[1]) != "from_elem" or intval(v[2][0]) == 0 and norm(v[2][1]) == n), "count": is_default, "total": is_default,
                "min": lambda v: v[0] == "call" and v[1].endswith("Number::max"), "max": lambda v: v[0] == "call" and v[1].endswith("Number::min")}
        for k, ok in good.items():
            v = e.get(k, ("unk",))
            ck.ob("%s:%s" % (key, k), all(ok(a) for a in alts(v)), "%s starts as %s" % (k, show_(v)), f.name)
    f = fn_of(ck, p, "Buckets::create", None, "create", "Aggregator", H)
    v = Q(ck.graph(f)).results()
    for a in alts(v):
        fresh(a[2][0] if a[0] == "call" and a[2] else ("unk",), A0, "Buckets:create")
    reset(ck, p, H, "Buckets", lambda v: fresh(v, ("arg", 1), "Buckets:reset"))
    # construction: one bucket more than there are boundaries
    f = p.method(INT + "histogram::Histogram", "new")
    ck.one(f, "Histogram::new")
    q = Q(ck.graph(f[0], opaque=lambda x: x.name == VM + "::new"))
    pn = {f[0].local_name(i + 1): ("arg", i) for i in range(f[0].argc)} if hasattr(f[0], "local_name") else None
    B = ("arg", 2)
    for n in q.calls(lambda c: c.name == VM + "::new" or (c.res or "") == VM + "::new"):
        v = q.g.ev(n.d.args[0], n.i)
        x = strip_cast(v)
        while x[0] == "fld" and x[2] == "0":
            x = x[1]
        ok = x[0] == "bin" and x[1].startswith("Add") and {True} == {x[2][0] == "call" and last(x[2][1]) == "len" and norm(x[2][2][0]) == B and intval(x[3]) == 1 or x[3][0] == "call" and last(x[3][1]) == "len" and norm(x[3][2][0]) == B and intval(x[2]) == 1}
        ck.ob("Histogram:buckets", ok, "the number of buckets is " + show_(v), f[0].name)
        grow = [m for m in q.calls(lambda c: c.m in ("push", "retain", "truncate", "dedup", "pop", "clear", "insert", "extend", "remove", "dedup_by", "dedup_by_key") and c.args) if norm(q.g.ev(m.d.args[0], m.i)) == B]
        w = q.can_follow([n], grow) if grow else None
        ck.ob("Histogram:buckets:kept", w is None, "boundaries change after the buckets were counted: %s" % w, f[0].name)
    ck.ob("Histogram:bounds", norm(under(q, (("f", "bounds"),))) == B, "the boundaries stored are not those given", f[0].name)


def reset(ck, p, file, nm, fresh):
    """clone_and_reset hands out the old content and leaves a fresh one, under one lock"""
    f = fn_of(ck, p, nm + "::clone_and_reset", None, "clone_and_reset", "Aggregator", file)
    q = Q(ck.graph(f))
    g = q.g
    v = q.results()
    ck.ob(nm + ":reset:old", all(a[0] == "call" and last(a[1]) == "new" and behind(a[2][0]) for a in alts(v)), "what is collected is not what was recorded: " + show_(v), f.name)
    rp = [n for n in q.calls(lambda c: c.name == "core::mem::replace") if behind(g.ev(n.d.args[0], n.i))]
    w = q.skipped(rp, excuse=None) if rp else "never"
    ck.ob(nm + ":reset", w is None, "what was collected stays for the next collection: %s" % w, f.name)
    lk = q.calls(lambda c: c.m == "lock")
    ck.ob(nm + ":reset:locked", len(lk) == 1, "old content is read and replaced under different locks", f.name)
    for n in rp:
        for a in alts(g.ev(n.d.args[1], n.i)):
            fresh(a)


def expo(ck, p):
    X = "metrics/internal/exponential_histogram.rs"
    f = fn_of(ck, p, "ExpoHistogramDataPoint::update", None, "update", "Aggregator", X)
    EB = INT + "exponential_histogram::"
    q = Q(ck.graph(f, opaque=lambda x: x.name.startswith(EB) and last(x.name) != "record" or x.name == EB + "ExpoBuckets::record"))
    g = q.g
    V1 = ("arg", 1)
    one = lambda e: intval(e) == 1
    bump(q, ("sum",), lambda e: norm(e) == V1, True, ck, "Expo:sum", "the sum does not grow by the measured value", excuse=poisoned)
    bump(q, ("count",), one, True, ck, "Expo:count", "the count does not grow by one", excuse=poisoned)
    extreme(ck, q, "min", V1, "Expo:min", poisoned)
    extreme(ck, q, "max", V1, "Expo:max", poisoned)
    mag = lambda e: has(e, lambda x: x == V1)
    zeroc = lambda e: e[0] == "const" and str(e[1]).replace("_", "").replace("f64", "") in ("0.0", "0", "-0.0") or is_default(e)
    isz = lambda want: lambda l: eq_lit(l, mag, zeroc) is want
    rec = [n for n in q.calls(lambda c: c.name == EB + "ExpoBuckets::record")]
    zs = bump(q, ("zero_count",), one, False, ck, "Expo:zero", "the count of zeros does not grow by one")
    w = q.unguarded(zs, isz(True))
    ck.ob("Expo:zero:iff", w is None, "a value other than zero is counted as zero: %s" % w, f.name)
    w = q.skipped(zs, excuse=lambda l: isz(False)(l) or poisoned(l))
    ck.ob("Expo:zero:always", w is None, "a zero is not counted: %s" % w, f.name)
    w = q.unguarded(rec, isz(False))
    ck.ob("Expo:bucket:iff", w is None, "a zero is put into a bucket: %s" % w, f.name)
    under_ = lambda l: l[0] == "cmp" and l[1] in ("Lt", "Le") and (has(l[2], lambda x: x[0] == "fld" and x[2] == "scale") and intval(l[3]) in (-10, -11))
    w = q.skipped(rec, excuse=lambda l: isz(True)(l) or poisoned(l) or under_(l))
    ck.ob("Expo:bucket:always", w is None, "a measured value is not put into any bucket: %s" % w, f.name)
    w = q.can_follow(rec, rec)
    ck.ob("Expo:bucket:once", w is None, "a measured value is put into two buckets: %s" % w, f.name)
    neg = lambda want: lambda l: l[0] == "b" and l[1][0] == "call" and len(l[1][2]) == 2 and (last(l[1][1]) == "lt" and norm(l[1][2][0]) == V1 and zeroc(l[1][2][1]) and l[2] is want or last(l[1][1]) == "gt" and norm(l[1][2][1]) == V1 and zeroc(l[1][2][0]) and l[2] is want or last(l[1][1]) == "ge" and norm(l[1][2][0]) == V1 and zeroc(l[1][2][1]) and l[2] is not want) or l[0] == "cmp" and (l[1] == ("Lt" if want else "Le") and (has(l[2], lambda x: x == V1) and zeroc(l[3]) if want else zeroc(l[2]) and has(l[3], lambda x: x == V1)))
    q.deep = True
    for side, want in (("neg_buckets", True), ("pos_buckets", False)):
        cut = neg(not want)
        r = q.reach(q.entry(), cut=cut)
        for n in rec:
            if q.S([n]) & r:
                e = opnd(q, n, n.d.args[0], cut)
                ck.ob("Expo:side:" + side, behind(e, side), "a %s value is put into %s" % ("negative" if want else "positive", show_(e)), g.loc(n.i))
    # rescaling touches both sides by the same step, and the scale
    ds = q.calls(lambda c: c.name == EB + "ExpoBuckets::downscale")
    sides = {}
    for n in ds:
        e = g.ev(n.d.args[0], n.i)
        for s in ("pos_buckets", "neg_buckets"):
            if behind(e, s):
                sides.setdefault(s, []).append(n)
    sc = [n for n in g.nodes if n.k == "as" and n.i in q.ex.by_node and at(g, n, "scale")]
    trio = [("positive buckets", sides.get("pos_buckets", [])), ("negative buckets", sides.get("neg_buckets", [])), ("scale", sc)]
    for a, ns in trio:
        for b, ms in trio:
            if a != b:
                w = q.not_before(ns, ms) and q.not_after(ms, ns) if ns and ms else "one of them never is"
                ck.ob("Expo:rescale:%s:%s" % (a.replace(" ", "-"), b.replace(" ", "-")), w is None, "the %s are rescaled without the %s: %s" % (b, a, w), f.name)
    steps = {repr(norm(g.ev(n.d.args[1], n.i))) for n in ds}
    ok = len(steps) == 1 and all(v[0] == "bin" and v[1].startswith("Sub") and behind(v[2], "scale") and repr(norm(strip_cast(v[3]))) in steps for n in sc for v in [unwrap0(g.ev_def(n.i, (), 0))])
    ck.ob("Expo:rescale:step", ok, "the scale does not change by the step that the buckets are merged by", f.name)
    # the bucket is looked up again after rescaling
    gb = [n for n in q.calls(lambda c: c.name.startswith(EB) and c.m == "get_bin")]
    if gb:
        w = q.can_follow(ds, rec, avoid=gb)
        ck.ob("Expo:rescale:bin", w is None, "a value is put into the bucket it had before rescaling: %s" % w, f.name)

    def fresh(e, cfg, key):
        e = e[0] == "agg" and dict(e[3]) or {}
        good = {"count": is_default, "sum": is_default, "zero_count": is_default, "min": lambda v: v[0] == "call" and v[1].endswith("Number::max"), "max": lambda v: v[0] == "call" and v[1].endswith("Number::min"),
                "scale": lambda v: norm(v) == ("fld", cfg, "max_scale"), "max_size": lambda v: norm(v) == ("fld", cfg, "max_size"),
                "pos_buckets": empty, "neg_buckets": empty}
        for k, ok in good.items():
            v = e.get(k, ("unk",))
            ck.ob("%s:%s" % (key, k), all(ok(a) for a in alts(v)), "%s starts as %s" % (k, show_(v)), f.name)
    f = fn_of(ck, p, "Expo::create", None, "create", "Aggregator", X)
    v = Q(ck.graph(f)).results()
    for a in alts(v):
        fresh(a[2][0] if a[0] == "call" and a[2] else ("unk",), A0, "Expo:create")
    reset(ck, p, X, "Expo", lambda v: fresh(v, ("arg", 1), "Expo:reset"))


def unwrap0(v):
    v = strip_cast(v)
    while v[0] == "fld" and v[2] == "0":
        v = v[1]
    return v


def empty(v):
    return is_default(v) or v[0] == "agg" and all(is_default(x) or empty(x) for _, x in v[3])


def measuring(ck, p):
    """a measurement reaches the map once, with the attributes the view keeps"""
    FIL = ("fld", ("fld", A0, "filter"), "filter")
    for adt, kind in AGGS.items():
        nm = last(adt)
        f = p.method(INT + adt, "call", "Measure")
        ck.one(f, nm + "::measure")
        f = f[0]
        q = Q(ck.graph(f, opaque=OP))
        q.deep = True
        g = q.g
        ms = q.calls(lambda c: c.name == VM + "::measure")
        fin = lambda want: lambda l: l[0] == "b" and l[1][0] == "call" and (last(l[1][1]) == "is_finite" and l[2] is want or last(l[1][1]) in ("is_nan", "is_infinite") and l[2] is not want) and has(l[1], lambda x: x == ("arg", 1))
        drop = fin(False) if kind == "ExponentialHistogram" else lambda l: False
        w = q.skipped(ms, excuse=drop) if ms else "never"
        ck.ob(nm + ":measure:always", w is None, "a measurement is not recorded: %s" % w, f.name)
        w = q.can_follow(ms, ms)
        ck.ob(nm + ":measure:once", w is None, "a measurement is recorded twice: %s" % w, f.name)
        if kind == "ExponentialHistogram":
            for what in ("is_nan", "is_infinite"):
                def no(l, what=what):
                    if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) in ("is_nan", "is_infinite", "is_finite") and has(l[1], lambda x: x == ("arg", 1)):
                        return l[2] is not (last(l[1][1]) == what)
                    return False
                w = q.not_before([], ms, cut=no)
                ck.ob(nm + ":measure:" + what, w is None, "a value that is not a finite number is recorded: %s" % w, f.name)
        has_f = lambda want: lambda l: l[0] == "v" and norm(l[1]) == FIL and (("Some" in l[3]) is want)
        for filt in (True, False):
            cut = has_f(not filt)
            r = q.reach(q.entry(), cut=cut)
            here = [n for n in ms if q.S([n]) & r]
            for n in here:
                ck.ob(nm + ":measure:map", norm(g.ev(n.d.args[0], n.i)) == MAP, "a measurement is recorded elsewhere", g.loc(n.i))
                a = opnd(q, n, n.d.args[2], cut)
                if not filt:
                    ck.ob(nm + ":measure:attributes", all(norm(x) == ("arg", 2) for x in alts(a)), "recorded under " + show_(a), g.loc(n.i))
                else:
                    ck.ob(nm + ":measure:filtered", all(filtered(q, x, FIL, drop) for x in alts(a)), "recorded under attributes other than those the view keeps: " + show_(a), g.loc(n.i))
        for n in ms:
            v = g.ev(n.d.args[1], n.i)
            if kind != "Histogram":
                ck.ob(nm + ":measure:value", norm(v) == ("arg", 1), "recorded as " + show_(v), g.loc(n.i))
                continue
            ok = v[0] == "tuple" and len(v[1]) == 2
            ck.ob(nm + ":measure:value", ok and norm(v[1][0]) == ("arg", 1), "recorded as " + show_(v), g.loc(n.i))
            ix = v[1][1] if ok else ("unk",)
            flo = lambda e: e[0] == "call" and last(e[1]) == "into_float" and norm(e[2][0]) == ("arg", 1)
            ok = ix[0] == "call" and last(ix[1]) == "partition_point" and norm(ix[2][0]) == ("fld", A0, "bounds")
            if ok:
                c = [x[1] for x in ix[2] if x[0] == "clo"]
                bnd = lambda e: e[0] == "elem" and norm(e[1]) == ("fld", A0, "bounds")
                ok = bool(c) and all(x[0] == "bin" and (x[1] == "Lt" and bnd(x[2]) and flo(x[3]) or x[1] == "Gt" and bnd(x[3]) and flo(x[2])) or x[0] == "call" and len(x[2]) == 2 and (last(x[1]) == "lt" and bnd(x[2][0]) and flo(x[2][1]) or last(x[1]) == "gt" and bnd(x[2][1]) and flo(x[2][0])) for k in c for x in alts(k))
            elif ix[0] in ("fld", "phi") or ix[0] == "call" and last(ix[1]) in ("unwrap_or", "unwrap_or_else", "count"):
                ok = linear(q, ix, flo)
            ck.ob(nm + ":measure:bucket", ok, "the bucket is not the first one whose upper boundary is not below the value: " + show_(ix), g.loc(n.i))


def linear(q, ix, flo):
    """other spellings of the search: position(bound >= value) or len, count(take_while(bound < value))"""
    B = ("fld", A0, "bounds")
    bnd = lambda e: e[0] == "elem" and runs_over(e[1], {B})
    pos = [x for x in walk(ix) if x[0] == "call" and last(x[1]) in ("position", "take_while", "filter")]
    if len(pos) != 1:
        return False
    x = pos[0]
    c = [y[1] for y in x[2] if y[0] == "clo"]
    below = last(x[1]) != "position"

    def right(k):
        if k[0] != "bin":
            return False
        op, a, b = k[1], k[2], k[3]
        if flo(a):
            op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op), b, a
        return bnd(a) and flo(b) and op == ("Lt" if below else "Ge")
    return bool(c) and all(right(k) for y in c for k in alts(y)) and (below or has(ix, lambda y: y[0] == "call" and last(y[1]) == "len" and norm(y[2][0]) == B))


def filtered(q, x, FIL, drop):
    """the attributes of the measurement for which the filter holds"""
    x0 = x
    while x0[0] == "call" and x0[2] and last(x0[1]) in ("collect", "cloned", "copied", "deref", "as_slice", "to_vec", "from_iter", "into_iter"):
        x0 = x0[2][0]
    if x0[0] == "call" and last(x0[1]) == "filter" and norm(x0[2][0]) == ("arg", 2):
        c = [y[1] for y in x0[2] if y[0] == "clo"]
        return bool(c) and all(k[0] == "call" and last(k[1]) == "call" and norm(k[2][0]) == ("fld", FIL, "Some.0") and has(k[2][1], lambda y: y[0] == "elem" and norm(y[1]) == ("arg", 2)) for y in c for k in alts(y))
    # built by a loop
    g = q.g
    ps = [n for n in q.calls(lambda c: c.m == "push" and c.args) if norm(g.ev(n.d.args[0], n.i)) == norm(x0)]
    ask = lambda want: lambda l: l[0] == "b" and l[2] is want and l[1][0] == "call" and last(l[1][1]) == "call" and norm(l[1][2][0]) == ("fld", FIL, "Some.0")
    if not ps or any(bare(norm(g.ev(n.d.args[1], n.i))) != ("elem", ("arg", 2)) for n in ps):
        return False
    no = lambda l: l[0] == "v" and norm(l[1]) == FIL and "None" in l[3]
    return q.unguarded(ps, ask(True)) is None and forall(q, q.entry(), ps, B={("arg", 2)}, cut=lambda l: ask(False)(l) or no(l) or drop(l)) is None


def check(ck):
    p = ck.program("all")
    ck.rule("per aggregation, temporality and reuse of a buffer: the collection picks the resetting visit iff delta, fills the report that is returned or handed in, sets every field of it, and the interval [start, now] is the one that the lock-protected start says")
    ck.rule("per data point: every field is the field of the tracker it is made from; optional fields iff configured; the delta of an observed total is its difference to what was reported for the same attributes, however they were ordered")
    ck.rule("trackers: a measurement changes count, sum, extremes and exactly one bucket by the right amount under one lock or one atomic step; resets hand out the old content")
    for adt, kind in AGGS.items():
        collecting(ck, p, adt, kind)
    trackers(ck, p)
    measuring(ck, p)
