"""C17: the streams an instrument feeds"""
from checks.assume import *
from checks.c15 import bare
from checks.c18 import poisoned
import multiprocessing
import os
import traceback
from core import Missing
from graph import Graph

TITLE = "Every instrument feeds the streams its views and readers ask for"
FLOOR = 60
MET = "opentelemetry_sdk::metrics::"
INT = MET + "internal::"
VALUES = INT + "ValueMap::new"
AGGS = ("Sum", "PrecomputedSum", "LastValue", "Histogram", "ExpoHistogram")
KINDS = ("Counter", "UpDownCounter", "Histogram", "Gauge", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge")
DEFAULT = {"Counter": "Sum", "UpDownCounter": "Sum", "Histogram": "Histogram", "Gauge": "LastValue", "ObservableCounter": "PrecomputedSum", "ObservableUpDownCounter": "PrecomputedSum",
           "ObservableGauge": "LastValue"}
SUMS = dict({k: v for k, v in DEFAULT.items() if "Sum" in v}, Histogram="Sum")
MONO = {"Counter": 1, "UpDownCounter": 0, "ObservableCounter": 1, "ObservableUpDownCounter": 0, "Histogram": 1}
BOUNDS = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0]
VIEWCASES = (None, "Default", "Drop", "Sum", "LastValue", "ExplicitBucketHistogram", "Base2ExponentialHistogram")


def expected(kind, case):
    """the aggregation a kind of instrument gets: a name, or None when the stream is dropped or the combination is refused"""
    if case in (None, "Default"):
        return DEFAULT[kind]
    if case == "Sum":
        return SUMS.get(kind)
    if case == "LastValue":
        return "LastValue" if "Gauge" in kind else None
    return {"Drop": None, "ExplicitBucketHistogram": "Histogram", "Base2ExponentialHistogram": "ExpoHistogram"}[case]


METHODS = {t + "_" + k: "".join(w.capitalize() for w in k.split("_")) for k, ts in (("counter", "u f"), ("up_down_counter", "i f"), ("gauge", "u i f"), ("histogram", "u f"), ("observable_counter", "u f"),
           ("observable_up_down_counter", "i f"), ("observable_gauge", "u i f")) for t in (x + "64" for x in ts.split())}
FULLRUN = ("f64_counter", "i64_up_down_counter", "u64_gauge", "f64_histogram", "u64_observable_counter", "i64_observable_up_down_counter", "f64_observable_gauge")


def called(e, m):
    return e[0] == "call" and last(e[1]) == m


def asking(e):
    """an iterator over what the views answer"""
    while e[0] == "call" and e[2] and last(e[1]) in ("into_iter", "by_ref", "fuse", "peekable"):
        e = e[2][0]
    if e[0] == "call" and last(e[1]) in ("filter_map", "flat_map"):
        r = [y for x in e[2] if x[0] == "clo" for y in flat(x[1])]
    elif e[0] == "call" and last(e[1]) == "flatten" and e[2] and called(e[2][0], "map"):
        r = [y for x in e[2][0][2] if x[0] == "clo" for y in flat(x[1])]
    else:
        return False
    return bool(r) and all(called(y, "match_inst") for y in r)


def answer(e):
    """whether a view matches: its answer, or the next one of the answers of those that do"""
    return called(e, "match_inst") or called(e, "next") and asking(e[2][0])


def matched(e):
    """the stream a view asks for"""
    return e[0] == "fld" and e[2] == "Some.0" and answer(e[1]) or e[0] == "elem" and asking(e[1])


def env_of(q, case, view, more=None):
    """view: whether the views match; case: the aggregation the matching view asks for"""
    def ev(e):
        e = norm(e)
        if e[0] == "phi":
            a = [x for x in e[1] if x[0] != "agg"]
            r = [ev(x) for x in a]
            return r[0] if a and len({repr(x) for x in r}) == 1 else None
        if answer(e):
            return None if view is None else V("Some") if view else V("None")
        if e[0] == "fld" and e[2] == "aggregation" and matched(e[1]):
            return V("Some") if case else V("None")
        if e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "fld" and e[1][2] == "aggregation" and matched(e[1][1]):
            return V(case) if case else None
        if called(e, "lock"):
            return V("Ok")
        return more(e) if more else None
    return ev


FULL = {"adt": {"Sum": "sum::Sum", "PrecomputedSum": "precomputed_sum::PrecomputedSum", "LastValue": "last_value::LastValue", "Histogram": "histogram::Histogram", "ExpoHistogram": "exponential_histogram::ExpoHistogram"}}
SOME = lambda l, pe: l[0] == "v" and l[3] == ("Some",) and pe(l[1])


def src(e):
    """the innermost container element a value comes from (the per-reader part of the meter)"""
    els = [x for x in walk(bare(norm(e))) if x[0] == "elem" and not any(y[0] == "elem" for y in walk(x[1]))]
    return set(els)


def cached(e):
    return called(e, "or_insert_with") or called(e, "or_insert") or called(e, "or_insert_with_key")


def vec_id(e):
    """identity of a freshly made vector"""
    e = strip_cast(e)
    return e[3] if e[0] == "call" and last(e[1]) in ("new", "with_capacity", "default") and len(e) > 3 else None


class Stage:
    """one instrument constructor under one assumption"""

    def __init__(self, ck, f, view, case, more=None, reject=None):      # view None: views may match or not
        self.g = g = ck.graph(f, solid=("to_vec",), opaque=lambda x: x.name == VALUES)
        full = set()
        live = None
        for _ in range(4):       # error lists that stay empty under the assumption
            def ev(e, live=live):
                if e[0] == "call" and last(e[1]) == "is_empty" and live is not None and vec_id(e[2][0]) is not None:
                    return True if vec_id(e[2][0]) not in live else None
                if view is not None and cached(e):
                    return V("Ok")
                if view is not None and e[0] == "fld" and e[2] == "Ok.0" and cached(e[1]):
                    return V("None") if case == "Drop" else V("Some")
                return None
            base = env_of(None, case, view, more)
            env = lambda e, ev=ev: ev(e) if ev(e) is not None else base(e)
            q = Q(g, assume=lambda l, env=env: truth(l, env, f.p) is False or poisoned(l) or reject is not None and reject(l))
            now = set()
            for n in q.calls(lambda c: c.m in ("push", "extend", "append", "insert", "push_back") and c.args):
                for a in alts(g.ev(n.d.args[0], n.i)):
                    i = vec_id(a)
                    if i is not None:
                        now.add(i)
            if now == live:
                break
            live = now
        q.deep = True
        self.q, self.live = q, live
        self.matches = q.calls(lambda c: c.m == "match_inst")

    def group(self, nodes, view):
        """those of the nodes that lie on the matching side of a view / apart from views"""
        q = self.q
        yes = lambda l: SOME(l, answer)
        return [n for n in nodes if (q.unguarded([n], yes) is None) == view]

    def aggs(self):
        out = []
        for k, s in FULL["adt"].items():
            out += [(k, n) for n in self.q.aggs(INT + s)]
        return out

    def fields(self, n, cut=None):
        rv = n.d[1]
        return {k: opnd(self.q, n, o, cut) for k, o in zip(rv[1]["f"], rv[2])}


def entry_of(e):
    """the record of a reported stream"""
    return next((x for x in alts(e) if x[0] == "agg" and dict(x[3]).keys() >= {"name", "description", "unit"}), None)


def allowed_closure(p, e):
    """e is the predicate `the set of allowed keys contains the key of the attribute`; returns what it captured"""
    if e[0] == "call" and e[2] and last(e[1]) in ("new", "from", "into"):
        e = e[2][0]
    if e[0] != "closure" or len(e[2]) != 1:
        return None
    f = p.fns.get(e[1]) if isinstance(p.fns, dict) else None
    if f is None:
        return None
    q = Q(Graph(p, f))
    r = q.result_from(q.entry())
    ok = all(called(a, "contains") and len(a[2]) == 2 and has(a[2][0], lambda x: x == ("arg", 0)) and norm(a[2][1])[0] == "fld" and norm(a[2][1])[2] == "key" and has(a[2][1], lambda x: x == ("arg", 1)) for a in alts(r))
    return e[2][0] if ok else None


def streams(ck, p, m, f, kind, view, case):
    nm = "%s:%s" % (m, "view-%s" % (case or "none") if view else "plain")
    unit = lambda l: l[0] == "v" and norm(l[1]) == ("fld", ("arg", 1), "unit") and "Some" in l[3]
    bnd = lambda l: l[0] == "v" and norm(l[1]) == ("fld", ("arg", 1), "boundaries") and "Some" in l[3]
    st = Stage(ck, f, view, case, reject=lambda l: bnd(l))
    q, g = st.q, st.g
    want = expected(kind, case if view else None)
    mine = [(k, n) for k, n in st.aggs() if n in st.group([n], view)]
    names = sorted(k for k, _ in mine)
    ck.ob(nm + ":aggregation", names == ([want] if want else []), "the stream is aggregated by %s (expected %s)" % (names or "nothing", want), mine and g.loc(mine[0][1].i) or loc(f))
    regs = [n for n in st.group(q.calls(lambda c: c.m in ("push", "push_back") and len(c.args) == 2), view) if entry_of(g.ev(n.d.args[1], n.i))]
    if not want or len(mine) != 1:
        ck.ob(nm + ":registered", not regs, "a stream that is dropped or refused is reported all the same", regs and g.loc(regs[0].i) or "")
        return
    k, n = mine[0]
    S = lambda x: ("fld", ("match",), x)

    memo = {}

    def sub(e):
        """the stream the view asks for as ('match',)"""
        if e not in memo:
            if len(e) >= 3 and isinstance(e[0], str) and matched(e):
                memo[e] = ("match",)
            else:
                memo[e] = tuple(sub(x) if isinstance(x, tuple) else x for x in e)
        return memo[e]

    def vals(e):
        return [norm(sub(a)) for a in alts(e)]
    d = st.fields(n)
    per = set()
    for x in st.matches or ():
        per |= src(("fld", g.ev(x.d.args[0], x.i)[1], "x") if g.ev(x.d.args[0], x.i)[0] == "elem" else g.ev(x.d.args[0], x.i))
    here = lambda e: src(e) == per and len(per) == 1

    def ob(field, ok, what):
        ck.ob(nm + ":" + field, ok, what, g.loc(n.i))
    iskind = lambda e: e[0] == "agg" and e[2] == kind
    # temporality, monotonicity
    t = alts(d["temporality"])
    if kind == "ObservableGauge" and k == "LastValue":
        ob("temporality", all(x[0] == "agg" and x[2] == "Delta" or called(x, "temporality") and here(x[2][0]) and iskind(x[2][1]) for x in t), "its temporality is " + show_(d["temporality"]))
    else:
        ob("temporality", all(called(x, "temporality") and here(x[2][0]) and iskind(x[2][1]) for x in t), "its temporality is not the one its reader asks for this kind of instrument: " + show_(d["temporality"]))
    none = lambda e: None
    if "monotonic" in d:
        ob("monotonic", val(d["monotonic"], none, p) is bool(MONO[kind]), "a sum of this kind is reported as monotonic: %s" % show_(d["monotonic"]))
    if "record_sum" in d:
        rs = val(d["record_sum"], none, p)
        w = kind not in ("UpDownCounter", "ObservableUpDownCounter", "ObservableGauge")
        ob("record-sum", rs is w, "its sum is recorded: %s" % show_(d["record_sum"]))
    # what the view asks for, or the defaults
    OWN = ("fld", ("fld", ("arg", 1), "boundaries"), "Some.0")
    asked = lambda x, f_: x[0] == "fld" and x[2].split(".")[-1] == f_ and has(x, lambda y: y == S("aggregation"))
    if k == "Histogram":
        b = vals(d["bounds"])
        if view and case == "ExplicitBucketHistogram":
            ob("boundaries", all(called(x, "to_vec") and asked(norm(x[2][0]), "boundaries") or asked(x, "boundaries") for x in b), "its boundaries are not those the view asks for: " + show_(d["bounds"]))
            ob("min-max", all(asked(x, "record_min_max") for x in vals(d["record_min_max"])), "recording of extremes is not what the view asks for: " + show_(d["record_min_max"]))
        else:
            def numbers(x):
                x = strip_cast(x)
                if called(x, "to_vec"):
                    return all(numbers(y) for y in alts(x[2][0]))
                arr = [y for y in walk(x) if y[0] == "array"]
                return not view and norm(x) == OWN or len(arr) >= 1 and all([float(val(v, none, p)) for v in y[1]] == BOUNDS for y in arr)
            ob("boundaries", all(numbers(x) for x in alts(d["bounds"])), "its boundaries are not the default ones: " + show_(d["bounds"])[:200])
            ob("min-max", val(d["record_min_max"], none, p) is True, "extremes are not recorded")
        c = d["value_map"]
        cfg = [x[2][0] for x in alts(c) if x[0] == "call" and len(x[2]) == 2]
        ob("buckets", bool(cfg) and all(v[0] == "bin" and v[1] == "Add" and intval(v[3]) == 1 and called(strip_cast(v[2]), "len") and [norm(sub(y)) for y in alts(strip_cast(v[2])[2][0])] == b for v in (fstrip(x) for x in cfg)),
           "the number of buckets is not one more than the number of boundaries: " + show_(c)[:200])
    if k == "ExpoHistogram":
        ob("min-max", all(asked(x, "record_min_max") for x in vals(d["record_min_max"])), "recording of extremes is not what the view asks for: " + show_(d["record_min_max"]))
        for x in alts(d["value_map"]):
            cfg = dict(x[2][0][3]) if x[0] == "call" and x[2] and x[2][0][0] == "agg" else {}
            for fl in ("max_size", "max_scale"):
                v = strip_cast(cfg.get(fl, ("unk",)))
                ob(fl, asked(norm(sub(v)), fl), "%s is not what the view asks for: %s" % (fl, show_(v)[:200]))
    # cardinality limit and attribute filter
    lim = norm(S("cardinality_limit")) if view else ("fld", ("arg", 1), "cardinality_limit")
    isl = lambda l, vs: l[0] == "v" and norm(sub(l[1])) == lim and l[3] == (vs,)
    for vs in ("Some", "None"):
        v = st.fields(n, cut=lambda l: isl(l, "None" if vs == "Some" else "Some"))["value_map"]
        ls = [x[2][1] for x in alts(v) if x[0] == "call" and len(x[2]) == 2]
        ls = [y for x in ls for y in alts(x)]
        ob("limit-" + vs, bool(ls) and all(norm(sub(x)) == ("fld", lim, "Some.0") if vs == "Some" else intval(x) == 2000 or called(x, "unwrap_or") for x in ls), "its limit of attribute sets is " + ", ".join(show_(x)[:120] for x in ls))
    al = S("allowed_attribute_keys")
    isa = lambda l, vs: l[0] == "v" and norm(sub(l[1])) == al and l[3] == (vs,)

    def filt(v):
        while v[0] == "agg" and v[2] not in ("Some", "None") and len(v[3]) == 1:
            v = v[3][0][1]
        return v
    for vs in ("Some", "None") if view else ("None",):
        v = filt(st.fields(n, cut=lambda l: isa(l, "None" if vs == "Some" else "Some"))["filter"])
        fs = [filt(x) for x in alts(v)]
        if vs == "None":
            ok = all(x[0] == "agg" and x[2] == "None" for x in fs)
        else:
            cap = [allowed_closure(p, x[3][0][1]) if x[0] == "agg" and x[2] == "Some" else None for x in fs]
            ok = bool(cap) and all(c is not None and norm(sub(c)) == ("fld", al, "Some.0") for c in cap)
        ob("filter-" + vs, ok, "its attributes are filtered by " + show_(v)[:200])
    # the report entry
    ck.ob(nm + ":registered", len(regs) == 1, "%d report entries are made for one stream" % len(regs), loc(f))
    for r in regs:
        e = entry_of(g.ev(r.d.args[1], r.i))
        dd = {a: opnd(q, g.nodes[e[4]], o) for a, o in zip(g.nodes[e[4]].d[1][1]["f"], g.nodes[e[4]].d[1][2])} if len(e) > 4 and g.nodes[e[4]].k == "as" else dict(e[3])
        for fl in ("name", "description", "unit"):
            own = ("fld", ("arg", 1), fl)
            ok = all(norm(sub(a)) == S(fl) if view else norm(a) == own or fl != "name" and (norm(a) == ("fld", own, "Some.0") or is_default(a) or a[0] == "unk" and a[1] == "default") for a in alts(dd[fl]))
            ck.ob(nm + ":" + fl, ok, "a stream is reported with the %s %s" % (fl, show_(dd[fl])[:200]), g.loc(r.i))
        ck.ob(nm + ":collects", any(has(a, lambda x: x[0] == "fld" and x[1][0] == "agg" and len(x[1]) > 4 and x[1][4] == n.i and x[2] == "collect") for _, a in e[3]), "the report entry collects something other than what is measured", g.loc(r.i))
        into = g.ev(r.d.args[0], r.i)
        ent = [x for x in walk(into) if called(x, "entry")]
        ck.ob(nm + ":scope", len(ent) == 1 and norm(ent[0][2][1]) == ("fld", ("arg", 0), "scope"), "the stream is not reported under the scope of its meter", g.loc(r.i))
        ck.ob(nm + ":reader", bool(ent) and here(ent[0][2][0]), "the stream is added to another reader's report: " + show_(into)[:200], g.loc(r.i))
        st.report = ent and norm(ent[0][2][0])
    # the aggregation is shared by instruments of the same identity only, and reached by measurements
    ent = st.group(q.calls(lambda c: c.m == "entry" and len(c.args) == 2 and has(g.ev(c.args[0], 0) if False else ("x",), lambda x: False) or c.m == "entry"), view)
    ent = [x for x in ent if any(called(y, "entry") and y[3] == x.i for c_ in q.calls(lambda c: c.m in ("or_insert_with", "or_insert", "or_insert_with_key")) for y in walk(g.ev(c_.d.args[0], c_.i)) if y[0] == "call" and len(y) > 3)]
    ck.ob(nm + ":cache", len(ent) == 1 and here(g.ev(ent[0].d.args[0], ent[0].i)), "no cache of the reader's streams found", loc(f))
    keys = []
    for x in ent:
        kv = opnd(q, x, x.d.args[1])
        keys.append(kv)
        ids = [y for y in alts(kv) if y[0] == "agg"]
        ok = bool(ids)
        for y in ids:
            yd = dict(y[3])
            for fl in ("name", "description", "unit"):
                own = S(fl) if view else ("fld", ("arg", 1), fl)
                ok = ok and fl in yd and all(norm(sub(a)) == own or norm(sub(a)) == ("fld", own, "Some.0") or is_default(a) or a[0] == "unk" or called(a, "to_ascii_lowercase") for a in alts(yd[fl]))
            ok = ok and any(iskind(a) for _, v in y[3] for a in alts(v))
        ck.ob(nm + ":identity", ok, "streams of different name, description, unit or kind share one aggregation: key " + show_(kv)[:300], g.loc(x.i))
    got = st.group(q.calls(lambda c: cached(("call", c.name, ()))), view)
    puts = [x for x in st.group(q.calls(lambda c: c.m in ("push", "push_back") and len(c.args) == 2), view) if has(g.ev(x.d.args[1], x.i), cached) and x not in regs]
    nexts = q.calls(lambda c: c.m == "next")
    ends = q.S([x for x in nexts if not has(g.ev(x.d.args[0], x.i), lambda y: y[0] == "elem") or has(g.ev(x.d.args[0], x.i), lambda y: y[0] == "fld" and y[2] == "views")]) | q.exits()
    dup = lambda l: view and l[0] == "b" and (called(l[1], "contains") and l[2] is True or called(l[1], "insert") and l[2] is False) and l[1][2]
    w = q.not_after(got, puts, excuse=lambda l: bool(dup(l)), exits=ends) if puts else "nothing is kept"
    ck.ob(nm + ":measured", w is None, "measurements do not reach the stream: %s" % w, got and g.loc(got[0].i) or "")
    w = q.can_follow(puts, puts, avoid=[x for x in nexts])
    ck.ob(nm + ":measured-once", w is None, "a stream is fed twice on %s" % w, puts and g.loc(puts[0].i) or "")
    if view and puts:
        # a stream that several views name is fed once: an element is kept only if its identity was not seen before, and is then remembered
        same = lambda e: any(ident(e, sub) == ident(kk, sub) for kk in keys)
        new = lambda l: l[0] == "b" and (called(l[1], "contains") and l[2] is False and same(l[1][2][1]) or called(l[1], "insert") and l[2] is True and same(l[1][2][1]))
        w = hit(q, after_match(q), puts, new)
        ck.ob(nm + ":no-duplicate", w is None, "a stream several views ask for is fed once per view: " + str(w), g.loc(puts[0].i))
        ins = [x for x in q.calls(lambda c: c.m == "insert" and len(c.args) == 2) if same(opnd(q, x, x.d.args[1]))]
        w = None if ins and (q.not_after(puts, ins, exits=ends) is None or q.not_before(ins, puts) is None) else "not remembered"
        ck.ob(nm + ":remembered", w is None, "a stream that was fed already is not remembered", g.loc(puts[0].i))
    # what is returned holds all of them
    ids = {vec_id(a) for x in puts for a in alts(g.ev(x.d.args[0], x.i))}
    ext = [x for x in q.calls(lambda c: c.m in ("extend", "append", "extend_from_slice") and len(c.args) == 2) if any(vec_id(strip_into(a)) in ids for a in alts(g.ev(x.d.args[1], x.i)))]
    if ext:
        oks = set(q.exits()) | q.S([x for x in nexts if not has(g.ev(x.d.args[0], x.i), lambda y: y[0] == "elem") and not src(g.ev(x.d.args[0], x.i))])
        w = q.not_after(puts, ext, exits=oks)
        ck.ob(nm + ":handed-on", w is None, "streams of a reader are forgotten: %s" % w, g.loc(ext[0].i))
        ids = {vec_id(a) for x in ext for a in alts(g.ev(x.d.args[0], x.i))}
    st.ids = ids
    if not view:
        offered(ck, p, nm, kind, st, f)
        st2 = Stage(ck, f, view, case, reject=lambda l: unit(l) or bnd(l))
        st2.ids = ids
        any_ = Stage(ck, f, None, None, reject=lambda l: unit(l) or bnd(l))
        every(ck, nm, "views", any_.q, any_.matches, f)
        returned(ck, p, nm, st2, f, "Observable" not in kind, True)
    else:
        outer = q.S([x for x in nexts if not any(y[0] == "elem" for y in walk(g.ev(x.d.args[0], x.i)))])
        r = set(q.reach(after_match(q), avoid=outer))
        other = [x for x in q.calls(lambda c: c.m in ("push", "push_back", "or_insert_with", "or_insert") and len(c.args) == 2) if not st.group([x], True) and (entry_of(g.ev(x.d.args[1], x.i)) or has(g.ev(x.d.args[1], x.i), cached) or cached(("call", x.d.name, ())))]
        w = [x for x in other if r & q.S([x])]
        ck.ob(nm + ":instead", not w, "besides the stream the view asks for, the default one is made", w and g.loc(w[0].i) or "")
    return st


def hit(q, starts, nodes, pred):
    """one of the nodes is reached from the starts without passing a branch that establishes pred"""
    bad = set(q.reach(starts, cut=pred)) & q.S(nodes)
    return q.g.loc(q.ex.states[next(iter(bad))][0]) if bad else None


def after_match(q):
    return {t for s, lab, t, l in q.literals() if SOME(l, answer)}


def strip_into(e):
    e = strip_cast(e)
    while e[0] == "call" and e[2] and last(e[1]) in ("into_iter", "into", "iter", "drain", "cloned"):
        e = e[2][0]
    return e


def fstrip(e):
    e = strip_cast(e)
    while e[0] == "fld" and e[2] == "0":
        e = strip_cast(e[1])
    return e


def ident(e, sub):
    """the parts of an identity, whichever way they were put together"""
    out = {}
    key = lambda k: k if isinstance(k, str) else ".".join(x[1] for x in k)
    for y in alts(e):
        if y[0] == "part":
            out.setdefault(key(y[1]), set()).update(repr(norm(sub(a))) for a in alts(y[2]))
        elif y[0] == "agg":
            for k, v in y[3]:
                out.setdefault(k, set()).update(repr(norm(sub(a))) for a in alts(v))
        else:
            out.setdefault("", set()).add(repr(norm(sub(y))))
    return out


def offered(ck, p, nm, kind, st, f):
    """every view is asked about the instrument as it was built"""
    q, g = st.q, st.g
    ck.ob(nm + ":views-asked", bool(st.matches), "no view is asked", loc(f))
    for x in st.matches:
        e = g.ev(x.d.args[0], x.i)
        ck.ob(nm + ":own-views", path_of(norm(e)) is not None and path_of(norm(e)).startswith("arg0.") and len(src(e)) == 1, "the views asked are " + show_(e), g.loc(x.i))
        a = [y for y in alts(opnd(q, x, x.d.args[1])) if y[0] == "agg"]
        ok = len(a) == 1
        d = dict(a[0][3]) if ok else {}
        own = lambda k: ("fld", ("arg", 1), k)
        for fl in ("name", "description", "unit"):
            v = d.get(fl, ("unk",))
            ck.ob(nm + ":offered-" + fl, all(norm(y) == own(fl) or fl != "name" and (norm(y) == ("fld", own(fl), "Some.0") or y == ("unk", "default") or is_default(y)) for y in alts(v)) and has(v, lambda y: norm(y) == own(fl)),
                  "views are asked about the %s %s" % (fl, show_(v)), g.loc(x.i))
        k = [y for y in walk(d.get("kind", ("unk",))) if y[0] == "agg" and y[2] in KINDS]
        ck.ob(nm + ":offered-kind", [y[2] for y in k] == [kind], "views are asked about the kind %s" % show_(d.get("kind", ("unk",))), g.loc(x.i))
        ck.ob(nm + ":offered-scope", norm(d.get("scope", ("unk",))) == ("fld", ("arg", 0), "scope"), "views are asked about the scope %s" % show_(d.get("scope", ("unk",))), g.loc(x.i))


def every(ck, nm, what, q, C, f, cut=None, inside=False):
    """C is called for every element of every container its receiver is an element of, level by level"""
    g = q.g
    at = [bare(norm(g.ev(n.d.args[0], n.i))) for n in C]
    lv = [[x for x in walk(e) if x[0] == "elem"] for e in at]
    ck.ob(nm + ":nesting-" + what, bool(lv) and all(l == lv[0] and l for l in lv), "it is not done for each of the " + what, loc(f))
    if not lv or not lv[0]:
        return
    els = sorted(lv[0], key=lambda x: len(repr(x)))
    targets = C
    for e in reversed(els):
        B = {e[1]}
        here = [n for n in q.calls(lambda c: c.m in ("next", "next_back") or c.clo) if n.d.args and bare(norm(iter_of(g.ev(n.d.args[0], n.i)))) == e[1]]
        out = [x for x in els if x is not e and len(repr(x)) < len(repr(e))]
        w = forall_in(q, here, targets, B, cut, inside or bool(out))
        ck.ob(nm + ":every-" + what, w is None, "not done for all of %s: %s" % (show_(e[1]), w), loc(f))
        targets = here


def iter_of(e):
    e = strip_cast(e)
    while e[0] == "call" and e[2] and last(e[1]) in ("iter", "into_iter", "iter_mut", "as_ref", "drain"):
        e = e[2][0]
    return e


def forall_in(q, loops, targets, B, cut, nested):
    """every element of the container of these loops meets a target; the loop is always run"""
    some, done = set(), set()
    SL = q.S(loops)
    for s, lab, t, l in q.literals():
        if l[0] == "v" and called(l[1], "next") and bare(norm(iter_of(l[1][2][0]))) in B:
            (some if l[3] == ("Some",) else done).add((s, t) if l[3] != ("Some",) else t)
    if not some:
        return forall(q, q.S(loops), targets, exits=q.exits(), B=B | {norm(iter_of(q.g.ev(n.d.args[0], n.i))) for n in loops}, cut=cut, strict=True)
    par = {}
    r = q.reach(some, avoid=q.S(targets), back=par, cut=cut)
    for s in SL | q.exits():
        if s in r:
            return "an element is skipped: " + q.path(par, s)
    r = q.reach(SL if nested else q.entry(), back=par, cut=cut, cute=done)
    for s in q.exits():
        if s in r:
            return "the loop is not run to its end: " + q.path(par, s)
    return None


def returned(ck, p, nm, st, f, sync, some):
    """the instrument that is handed out feeds what was collected"""
    q, g = st.q, st.g
    holders = [n for n in g.nodes if (lambda n: n.k == "as" and n.d[1][0] == "agg" and n.d[1][1]["k"] == "adt" and n.d[1][1]["p"].startswith(MET + "instrument::") and "measures" in (n.d[1][1]["f"] or ()))(n) and q.S([n])]
    ck.ob(nm + ":holder", len(holders) == 1, "%d records of the streams of an instrument are made" % len(holders), loc(f))
    mine = lambda e: any(vec_id(strip_into(a)) in st.ids for a in alts(e))
    for h in holders:
        v = opnd(q, h, h.d[1][2][h.d[1][1]["f"].index("measures")])
        ck.ob(nm + ":all-streams", mine(v), "the instrument feeds " + show_(v), g.loc(h.i))
    if sync:
        w = q.not_after(q.entry(), holders) if holders else "none"
        r = [x for x in walk(q.result_from(q.entry())) if x[0] == "agg"]
        ck.ob(nm + ":working", w is None and not any("Noop" in x[1] for x in r) and any(len(x) > 4 and x[4] in {h.i for h in holders} for x in r), "an instrument that measures nothing is handed out: %s" % w, loc(f))
        return
    pu = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if any(x[0] == "closure" for x in alts(g.ev(n.d.args[1], n.i)))]
    ck.ob(nm + ":registers", len(pu) == 1, "%d places register the callbacks" % len(pu), loc(f))
    cb = ("elem", ("fld", ("arg", 1), "callbacks"))
    for n in pu:
        to = path_of(norm(bare(g.ev(n.d.args[0], n.i))))
        ck.ob(nm + ":registered-at", has(g.ev(n.d.args[0], n.i), lambda x: x[0] == "fld" and x[2] == "pipes"), "callbacks are registered at " + show_(g.ev(n.d.args[0], n.i)), g.loc(n.i))
        for c in alts(g.ev(n.d.args[1], n.i)):
            ok = c[0] == "closure" and len(c[2]) == 2 and any(norm(bare(x)) == cb for x in c[2]) and any(x[0] == "agg" and mine(dict(x[3]).get("measures", ("unk",))) for y in c[2] for x in alts(y))
            ck.ob(nm + ":callback", ok, "what is registered is " + show_(c), g.loc(n.i))
            fn = p.fns.get(c[1]) if c[0] == "closure" else None
            if ok and fn is not None:
                ic = [i for i, x in enumerate(c[2]) if norm(bare(x)) == cb][0]
                qq = Q(ck.graph(fn))
                cap = lambda i: lambda e: norm(e) in (("fld", ("arg", 0), str(i)), ("fld", ("arg", 0), "^%d" % i)) or path_of(norm(e)) in ("arg0.%d" % i, "arg0.^%d" % i)
                calls = [x for x in qq.g.nodes if x.k == "call" and x.d.m in ("call", "call_mut", "call_once") and x.d.args and cap(ic)(qq.g.ev(x.d.args[0], x.i))]
                w = qq.not_after(qq.entry(), calls) if calls else "never called"
                ck.ob(nm + ":invoked", w is None and all(cap(1 - ic)(tuple_arg(qq.g.ev(x.d.args[1], x.i))) for x in calls), "the registered callback does not call the user's with the instrument: %s" % w, loc(fn))
    empty = lambda l: l[0] == "b" and called(l[1], "is_empty") and l[2] is True and mine(l[1][2][0]) or poisoned(l)
    if pu:
        every(ck, nm, "readers", q, pu, f, cut=empty, inside=True)
        inner = [n for n in q.calls(lambda c: c.m == "next") if has(g.ev(n.d.args[0], n.i), lambda x: x[0] == "fld" and x[2] == "pipes")]
        w = forall_in(q, [n for n in q.calls(lambda c: c.m == "next") if norm(iter_of(g.ev(n.d.args[0], n.i))) == cb[1]], inner or pu, {cb[1]}, empty, False)
        ck.ob(nm + ":all-callbacks", w is None, "a callback is not registered: " + str(w), loc(f))


def tuple_arg(e):
    return e[1][0] if e[0] == "tuple" and e[1] else e


def own_boundaries(ck, p, m, f):
    """boundaries given when building the instrument are the ones used when no view applies"""
    own = ("fld", ("fld", ("arg", 1), "boundaries"), "Some.0")
    no = lambda l: l[0] == "v" and norm(l[1]) == ("fld", ("arg", 1), "boundaries") and l[3] == ("None",)
    st = Stage(ck, f, False, None, reject=no)
    mine = [(k, n) for k, n in st.aggs() if n in st.group([n], False)]
    ck.ob(m + ":own-boundaries:aggregation", [k for k, _ in mine] == ["Histogram"], "aggregated by %s" % [k for k, _ in mine], loc(f))

    def root(x):
        x = strip_cast(x)
        return all(root(y) for y in alts(x[2][0])) if called(x, "to_vec") else norm(x) == own
    for k, n in mine:
        d = st.fields(n)
        if k == "Histogram":
            ck.ob(m + ":own-boundaries", all(root(x) for x in alts(d["bounds"])), "the boundaries used are " + show_(d["bounds"]), st.g.loc(n.i))
            ck.ob(m + ":own-boundaries:min-max", val(d["record_min_max"], lambda e: None, p) is True, "extremes are not recorded", st.g.loc(n.i))


def conversion(ck, p):
    """what is measured and what is collected are one aggregation"""
    fs = [f for f in p.byname_all("from") if f.self_adt == INT + "aggregate::AggregateFns"] if hasattr(p, "byname_all") else [f for f in p.fns.values() if f.item == "from" and (f.self_adt or "").endswith("aggregate::AggregateFns") and f.parent is None]
    f = ck.one(fs, "conversion into the two sides of an aggregation")
    q = Q(ck.graph(f))
    r = q.result_from(q.entry())
    for x in alts(r):
        ck.ob("both-sides", x[0] == "agg" and {k for k, _ in x[3]} == {"measure", "collect"} and all(norm(a) == ("arg", 0) for _, v in x[3] for a in alts(v)), "the two sides of an aggregation are " + show_(x), loc(f))


def feeds(ck, p):
    """one measurement goes to every stream, once, as it was made"""
    for adt, m in (("ResolvedMeasures", "measure"), ("Observable", "observe")):
        f = ck.one(p.method(MET + "instrument::" + adt, m), adt + "::" + m)
        q = Q(ck.graph(f))
        g = q.g
        calls = [n for n in q.calls(lambda c: c.m == "call" and len(c.args) == 3)]
        ck.ob(adt + ":calls", len(calls) == 1, "%d calls pass on a measurement" % len(calls), loc(f))
        for n in calls:
            ck.ob(adt + ":value", norm(g.ev(n.d.args[1], n.i)) == ("arg", 1), "the value passed on is " + show_(g.ev(n.d.args[1], n.i)), g.loc(n.i))
            ck.ob(adt + ":attributes", norm(g.ev(n.d.args[2], n.i)) == ("arg", 2), "the attributes passed on are " + show_(g.ev(n.d.args[2], n.i)), g.loc(n.i))
            ck.ob(adt + ":each", bare(norm(g.ev(n.d.args[0], n.i))) == ("elem", ("fld", ("arg", 0), "measures")), "what is fed is " + show_(g.ev(n.d.args[0], n.i)), g.loc(n.i))
            w = q.can_follow([n], [n], avoid=q.calls(lambda c: c.m == "next"))
            ck.ob(adt + ":once", w is None, "a stream is fed twice: " + str(w), g.loc(n.i))
        w = forall(q, q.entry(), calls)
        ck.ob(adt + ":all", w is None, "a stream is left out: " + str(w), loc(f))
    # the instruments hand a measurement on
    n_ = 0
    for adt, ms in (("counter::Counter", ("add",)), ("up_down_counter::UpDownCounter", ("add",)), ("gauge::Gauge", ("record",)), ("histogram::Histogram", ("record",))):
        for m in ms:
            for f in p.method("opentelemetry::metrics::instruments::" + adt, m):
                n_ += 1
                q = Q(ck.graph(f))
                g = q.g
                calls = q.calls(lambda c: c.m == "measure")
                w = q.not_after(q.entry(), calls) if calls else "never"
                ck.ob(adt + "::" + m, w is None and len(calls) == 1 and [norm(g.ev(a, calls[0].i)) for a in calls[0].d.args[1:]] == [("arg", 1), ("arg", 2)], "a measurement is not handed on: %s" % w, loc(f))
    ck.count("instrument_methods", n_)
    ck.floor("instrument_methods", 4)


def job(a):
    m, k, view, case = a
    ck = CK[0]
    ck.obs, ck.fnset, ck.counts = [], set(), {}
    p = ck.program("all")
    f = ck.one(p.method(MET + "meter::SdkMeter", m), "constructor " + m)
    try:
        if case == "own":
            own_boundaries(ck, p, m, f)
        else:
            streams(ck, p, m, f, k, view, case)
    except Missing as x:
        ck.ob("anchor:%s:%s" % (m, case), False, str(x))
    except Exception:
        ck.ob("analysis:%s:%s" % (m, case), False, traceback.format_exc()[-1200:])
    return ck.obs, ck.fnset, ck.counts


CK = []


def check(ck):
    p = ck.program("all")
    ck.rule("every constructor of instruments, for every assumption about the views (none matches; one matches asking for each kind of aggregation): the one aggregation object of the expected type is built with the temporality its reader gives for the kind, "
            "the settings of the view or the defaults, the limit and the attribute filter; its collecting side is put once into the reader's report under the meter's scope with the stream's name, description and unit, and its measuring side reaches the instrument that is returned; "
            "streams are shared only by equal name, description, unit, kind and number type")
    ck.rule("every view of every reader is asked about the instrument as built; the default stream is made only if none matches; a stream several views ask for is fed once; every callback is registered with every reader; a measurement is passed to every stream unchanged")
    cells = [(m, k, view, case) for m, k in METHODS.items() for view, case in [(False, None)] + ([(True, c) for c in VIEWCASES] if m in FULLRUN else []) + ([(False, "own")] if k == "Histogram" else [])]
    for m, *_ in cells:
        ck.one(p.method(MET + "meter::SdkMeter", m), "constructor " + m)
    have = {f.item for f in p.fns.values() if f.self_adt == MET + "meter::SdkMeter" and f.trait and f.trait.endswith("InstrumentProvider") and f.parent is None}
    ck.ob("all-constructors", have <= set(METHODS), "constructors without analysis: %s" % sorted(have - set(METHODS)))
    CK[:] = [ck]
    obs, fns, counts = list(ck.obs), set(ck.fnset), dict(ck.counts)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(job, cells, chunksize=1)
    ck.obs, ck.fnset, ck.counts = obs, fns, counts
    for o, fs, cs in res:
        ck.obs += o
        ck.fnset |= fs
        for k, v in cs.items():
            ck.counts[k] = ck.counts.get(k, 0) + v
    conversion(ck, p)
    feeds(ck, p)
