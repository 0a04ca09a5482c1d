"""C37: meters, readers and views are wired as configured"""
from checks.assume import *
from checks.c15 import bare
from checks.c17 import MET, called, iter_of, every, forall_in
from checks.c18 import poisoned
from graph import Graph

TITLE = "Meters reach every reader; views match and reshape streams as declared"
FLOOR = 60
INST = MET + "instrument::"
KINDS = ("Counter", "UpDownCounter", "Histogram", "ObservableCounter", "ObservableUpDownCounter", "Gauge", "ObservableGauge")
A = lambda i, *fs: norm_path(("arg", i), fs)


def norm_path(e, fs):
    for f in fs:
        e = ("fld", e, f)
    return e


def prefers(pref, kind):
    """the temporality of a kind of instrument under a preference"""
    if pref == "Cumulative":
        return "Cumulative"
    if pref == "Delta":
        return "Cumulative" if "UpDown" in kind else "Delta"
    return "Delta" if kind in ("Counter", "Histogram") else "Cumulative"


def is_tbl(ck, p, f, nm, pref_of, kind_of):
    """the function returns, for every preference and kind, what the table says"""
    g = ck.graph(f)
    q = Q(g)
    for pref in ("Cumulative", "Delta", "LowMemory"):
        for kind in KINDS:
            def env(e, pref=pref, kind=kind):
                if pref_of(norm(e)):
                    return V(pref)
                if kind_of(norm(e)):
                    return V(kind)
                return None
            cut = under_env(env, p)
            r = q.result_from(q.entry(), cut=cut)
            vs = [val(a, env, p) for a in alts(r) if a != ("never",)]
            ck.ob("%s:%s:%s" % (nm, pref, kind), bool(vs) and all(v == V(prefers(pref, kind)) for v in vs), "for the preference %s, a %s is reported as %s" % (pref, kind, show_(r)), loc(f))


def temporality(ck, p):
    f = ck.one(p.method(INST + "InstrumentKind", "temporality_preference"), "temporality preference")
    is_tbl(ck, p, f, "preference", lambda e: e == ("arg", 1), lambda e: e == ("arg", 0))
    n = 0
    for im in p.impls:
        if not (im.get("trait") or "").endswith("reader::MetricReader") or im["crate"] != "opentelemetry_sdk" or "::testing::" in (im["self_ty"].adt or ""):
            continue
        f = p.fns[im["items"]["temporality"]]
        n += 1
        is_tbl(ck, p, f, "reader:" + last(im["self_ty"].adt or "?"), lambda e: path_of(e) is not None and path_of(e).startswith("arg0") and path_of(e).endswith(".temporality") or called(e, "temporality") and (path_of(e[2][0]) or "").startswith("arg0"),
               lambda e: e == ("arg", 1))
    ck.floor("metric readers", 3, n)
    ck.count("metric readers", n)
    # exporters report the preference they were built with
    n = 0
    for im in p.impls:
        if (im.get("trait") or "").endswith("exporter::PushMetricExporter") and "temporality" in im["items"]:
            f = p.fns[im["items"]["temporality"]]
            g = ck.graph(f)
            r = Q(g).result_from(Q(g).entry())
            n += 1
            ck.ob("exporter:" + (im["self_ty"].adt or "?"), all((path_of(norm(a)) or "").startswith("arg0.") and (path_of(norm(a)) or "").endswith("temporality") for a in alts(r)), "the preference reported is " + show_(r), loc(f))
    ck.floor("metric exporters", 2, n)
    # ... which is the one that was asked for
    for adt in ("opentelemetry_sdk::metrics::manual_reader::ManualReaderBuilder", "opentelemetry_sdk::metrics::in_memory_exporter::InMemoryMetricExporterBuilder", "opentelemetry_stdout::metrics::exporter::MetricExporterBuilder", "opentelemetry_otlp::metric::MetricExporterBuilder"):
        for f in p.method(adt, "with_temporality"):
            q = Q(ck.graph(f))
            w = [norm(v) for pth, v in part_of(q.result_from(q.entry()), "temporality")]
            ck.ob("setter:" + adt, bool(w) and all(v in (("arg", 1), ("agg",)) or has(v, lambda x: x == ("arg", 1)) for v in w), "with_temporality sets %s" % [show_(x) for x in w], loc(f))
            ck.count("temporality setters")
    ck.floor("temporality setters", 3)


def part_of(e, name):
    out = []
    for a in alts(e):
        for k, v in part_fields(a):
            if (k if isinstance(k, str) else k[-1]).split(".")[0] == name or str(k).find("'%s'" % name) >= 0:
                out += [(k, y) for y in alts(v)]
    return out


def meters(ck, p):
    f = ck.one([x for x in p.method(MET + "meter_provider::SdkMeterProvider", "meter_with_scope") if x.parent is None], "meter_with_scope")
    g = ck.graph(f)
    q = Q(g)
    cache = lambda e: called(e, "lock") and (path_of(norm(e[2][0])) or "").startswith("arg0.")
    down = lambda l: l[0] == "b" and called(l[1], "load") and l[2] is True
    cut = lambda l: down(l) or poisoned(l)
    got = lambda e: called(e, "get") and len(e[2]) == 2 and norm(e[2][1]) == ("arg", 1) and has(e[2][0], cache)
    new = q.aggs("meter::SdkMeter")
    ck.ob("meter:one-place", len(new) == 1, "%d places make meters" % len(new), loc(f))
    w = q.unguarded(new, lambda l: l[0] == "v" and got(l[1]) and l[3] == ("None",))
    ck.ob("meter:reused", w is None, "a second meter is made for a scope: " + str(w), loc(f))
    for n in new:
        d = {k: opnd(q, n, o) for k, o in zip(n.d[1][1]["f"], n.d[1][2])}
        ck.ob("meter:scope", all(norm(a) == ("arg", 1) for a in alts(d["scope"])), "a meter carries the scope " + show_(d["scope"]), g.loc(n.i))
        ck.ob("meter:pipes", all(norm(a) == A(0, "inner", "pipes") for a in alts(d["pipes"])), "a meter is connected to " + show_(d["pipes"]), g.loc(n.i))
        res = [k for k in d if k.endswith("_resolver")]
        ck.ob("meter:resolvers", len(res) == 3, "resolvers: %s" % res, g.loc(n.i))
        for k in res:
            v = opnd(q, n, n.d[1][2][n.d[1][1]["f"].index(k)])
            ok = wires(q, v, A(0, "inner", "pipes", "0"))
            ck.ob("meter:" + k, ok, "the instruments of a meter are not connected to every reader: " + show_(v), g.loc(n.i))
    ins = [n for n in q.calls(lambda c: c.m in ("insert", "or_insert", "or_insert_with") and len(c.args) >= 2) if has(g.ev(n.d.args[0], n.i), cache)]
    w = q.not_after(new, ins) if ins else "never"
    ck.ob("meter:kept", w is None and all(norm(g.ev(n.d.args[1], n.i)) == ("arg", 1) and has(g.ev(n.d.args[2], n.i), lambda x: x[0] == "agg" and len(x) > 4 and x[4] in {m.i for m in new}) for n in ins if len(n.d.args) == 3), "a new meter is not remembered under its scope: %s" % w, loc(f))
    r = q.result_from(q.entry(), cut=cut)
    ok = lambda e: any(got(x) for x in walk(e)) or any(x[0] == "agg" and len(x) > 4 and x[4] in {m.i for m in new} for x in walk(e))
    ck.ob("meter:returned", all(ok(a) for a in alts(r) if a != ("never",)), "the meter handed out is " + show_(r), loc(f))
    w = q.unguarded([n for n in g.nodes if n.k == "as" and n.d[1][0] == "agg" and n.d[1][1]["k"] == "adt" and "Noop" in n.d[1][1]["p"] and q.S([n])], cut)
    ck.ob("meter:noop", w is None, "a meter that measures nothing is handed out: " + str(w), loc(f))


def wires(q, v, pipes):
    """one inserter for each element of pipes, bound to it"""
    for a in alts(v):
        ag = [x for x in walk(a) if x[0] == "agg" and last(x[1]) == "Inserter"]
        src = [x for x in walk(a) if x[0] == "call" and last(x[1]) in ("map", "collect") and x[2]]
        if not ag or not all(norm(bare(norm(dict(x[3])["pipeline"]))) == ("elem", pipes) for x in ag):
            return False
        if any(x[0] == "call" and last(x[1]) in ("skip", "take", "filter", "filter_map", "step_by", "skip_while", "take_while", "rev_take", "first", "last", "dedup") for x in walk(a)):
            return False
        if not src or not any(norm(iter_of(x[2][0])) == pipes for x in src if last(x[1]) == "map"):
            return False
    return True


def pipelines(ck, p):
    f = ck.one(p.method(MET + "pipeline::Pipelines", "new"), "Pipelines::new")
    g = ck.graph(f)
    q = Q(g)
    q.deep = True
    mk = q.aggs("pipeline::Pipeline")
    ck.ob("pipeline:one-place", len(mk) == 1, "%d places make pipelines" % len(mk), loc(f))
    ids = {n.i for n in mk}
    is_p = lambda e: any(x[0] == "agg" and len(x) > 4 and x[4] in ids for x in walk(e))
    for n in mk:
        d = {k: norm(opnd(q, n, o)) for k, o in zip(n.d[1][1]["f"], n.d[1][2])}
        ck.ob("pipeline:resource", d["resource"] == ("arg", 0), "a pipeline has the resource " + show_(d["resource"]), g.loc(n.i))
        ck.ob("pipeline:reader", bare(d["reader"]) == ("elem", ("arg", 1)), "a pipeline has the reader " + show_(d["reader"]), g.loc(n.i))
        ck.ob("pipeline:views", d["views"] == ("arg", 2), "a pipeline has the views " + show_(d["views"]), g.loc(n.i))
    reg = q.calls(lambda c: c.m == "register_pipeline")
    put = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if is_p(g.ev(n.d.args[1], n.i))]
    for n in reg:
        ck.ob("pipeline:registered-own", is_p(g.ev(n.d.args[1], n.i)) and has(bare(norm(g.ev(n.d.args[0], n.i))), lambda x: x == ("elem", ("arg", 1))), "what is registered with a reader is " + show_(g.ev(n.d.args[1], n.i)), g.loc(n.i))
    for nm, C in (("registered", reg), ("kept", put)):
        if nm == "kept" and not C:  # collected from an iterator
            r = q.result_from(q.entry())
            ck.ob("pipeline:kept", is_p(r) and not any(last(x[1]) in ("filter", "take", "skip", "filter_map", "step_by", "take_while", "skip_while") for x in walk(r) if x[0] == "call"), "the pipelines are " + show_(r), loc(f))
            continue
        loops = [n for n in q.calls(lambda c: c.m == "next" or c.clo) if n.d.args and norm(iter_of(g.ev(n.d.args[0], n.i))) == ("arg", 1)]
        w = forall_in(q, loops, C, {("arg", 1)}, None, False) if C else "never"
        ck.ob("pipeline:" + nm, w is None, "not done for every reader: " + str(w), loc(f))
    if put:
        r = q.result_from(q.entry())
        to = {x[3] for n in put for x in alts(g.ev(n.d.args[0], n.i)) if x[0] == "call" and len(x) > 3}
        ck.ob("pipeline:returned", any(x[0] == "call" and len(x) > 3 and x[3] in to for x in walk(r)), "the pipelines returned are " + show_(r), loc(f))


def builder(ck, p):
    B = MET + "meter_provider::MeterProviderBuilder"
    for m, fld in (("with_reader", "readers"), ("with_periodic_exporter", "readers"), ("with_view", "views")):
        f = ck.one(p.method(B, m), m)
        g = ck.graph(f)
        q = Q(g)
        put = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2) if (path_of(norm(g.ev(n.d.args[0], n.i))) or "") == "arg0." + fld]
        w = q.not_after(q.entry(), put) if put else "never"
        ck.ob("builder:" + m, w is None and all(has(g.ev(n.d.args[1], n.i), lambda x: x == ("arg", 1)) for n in put), "%s is not added: %s" % (fld, w), loc(f))
        ck.ob("builder:%s:same" % m, all(norm(a) == ("arg", 0) or a[0] == "part" for a in alts(q.result_from(q.entry()))), "returns another builder", loc(f))
    f = ck.one(p.method(B, "build"), "MeterProviderBuilder::build")
    g = ck.graph(f, opaque=lambda x: x.name.endswith("Pipelines::new"))
    q = Q(g)
    mk = [n for n in q.calls(lambda c: c.name.endswith("Pipelines::new"))]
    w = q.not_after(q.entry(), mk) if mk else "never"
    ck.ob("builder:pipelines", w is None and len(mk) == 1, "no pipelines are made: %s" % w, loc(f))
    for n in mk:
        ck.ob("builder:readers", norm(g.ev(n.d.args[1], n.i)) == A(0, "readers"), "the provider gets the readers " + show_(g.ev(n.d.args[1], n.i)), g.loc(n.i))
        ck.ob("builder:views", norm(g.ev(n.d.args[2], n.i)) == A(0, "views"), "the provider gets the views " + show_(g.ev(n.d.args[2], n.i)), g.loc(n.i))
        some = lambda l: l[0] == "v" and norm(l[1]) == A(0, "resource") and l[3] == ("None",)
        q.deep = True
        r = opnd(q, n, n.d.args[0], some)
        ck.ob("builder:resource", all(norm(a) == ("fld", A(0, "resource"), "Some.0") for a in alts(r)), "the provider gets the resource " + show_(r), g.loc(n.i))
    r = q.result_from(q.entry())
    ck.ob("builder:result", any(x[0] == "call" and len(x) > 3 and x[3] in {n.i for n in mk} for x in walk(r)), "the provider does not have the pipelines made", loc(f))


FIELDS = {"name": ("name",), "description": ("description",), "kind": ("kind",), "unit": ("unit",), "scope-name": ("scope", "name"), "scope-version": ("scope", "version"), "scope-schema": ("scope", "schema_url")}


def views(ck, p):
    f = ck.one(p.find(MET + "view::new_view"), "new_view")
    g = ck.graph(f)
    q = Q(g)
    # the streams it makes
    st = q.aggs("instrument::Stream")
    ck.ob("view:one-place", len(st) >= 1, "no stream is made", loc(f))
    hit = lambda l: l[0] == "b" and l[2] is True and called(l[1], "call") and any(x[0] == "closure" for x in alts(l[1][2][0]))
    w = q.unguarded(st, hit)
    ck.ob("view:matched-only", w is None, "a stream is made for an instrument that does not match: " + str(w), loc(f))
    el = lambda e, *fs: norm(e)[0] == "fld" and suffix(norm(e)) == fs and not has(e, lambda x: x[0] == "arg")
    for n in st:
        for fl in ("name", "description", "unit"):
            emp = lambda l, v, fl=fl: l[0] == "b" and called(l[1], "is_empty") and norm(l[1][2][0]) == A(1, fl) and l[2] is v
            o = n.d[1][2][n.d[1][1]["f"].index(fl)]
            a = opnd(q, n, o, lambda l: emp(l, True))
            b = opnd(q, n, o, lambda l: emp(l, False))
            ck.ob("view:%s-given" % fl, all(norm(x) == A(1, fl) for x in alts(a)), "a view that sets the %s gives %s" % (fl, show_(a)), g.loc(n.i))
            ck.ob("view:%s-kept" % fl, all(el(x, fl) for x in alts(b)), "a view that does not set the %s gives %s" % (fl, show_(b)), g.loc(n.i))
        for fl in ("allowed_attribute_keys", "cardinality_limit"):
            v = opnd(q, n, n.d[1][2][n.d[1][1]["f"].index(fl)])
            ck.ob("view:" + fl, all(norm(x) == A(1, fl) for x in alts(v)), "a view gives the %s %s" % (fl, show_(v)), g.loc(n.i))
        for c in ("Some", "None"):
            no = lambda l, c=c: l[0] == "v" and norm(l[1]) == A(1, "aggregation") and c not in l[3]
            v = opnd(q, n, n.d[1][2][n.d[1][1]["f"].index("aggregation")], no)
            xs = [x for x in alts(v) if x != ("never",)]
            if c == "None":
                ok = all(x[0] == "agg" and x[2] == "None" for x in xs)
            else:
                ok = bool(xs) and all(norm(x) == A(1, "aggregation") or x[0] == "agg" and x[2] == "Some" and norm(dict(x[3])["0"]) == ("fld", A(1, "aggregation"), "Some.0") for x in xs)
            ck.ob("view:aggregation-" + c, ok, "a view gives the aggregation " + show_(v), g.loc(n.i))
    # the conditions of a match
    mk = {}
    for s, lab, t, l in q.literals():
        if hit(l):
            for x in walk(l[1][2][0]):
                if x[0] == "closure":
                    mk.setdefault(x[1], x)
    ck.ob("view:conditions", len(mk) >= 1, "no conditions found", loc(f))
    for i, c in enumerate(sorted(mk.values(), key=repr)):
        conditions(ck, p, "match%d" % i, p.fns[c[1]], c[2])
        ck.count("match conditions")
    ck.floor("match conditions", 2)
    # a pattern is matched as a pattern, a name as a name; views that match nothing
    wild = lambda l, v: l[0] == "b" and called(l[1], "contains") and norm(l[1][2][0]) == A(0, "name") and l[2] is v and {x[1] for x in walk(l[1][2][1]) if x[0] == "const"} == {"*", "?"}
    lit = [l for _, _, _, l in q.literals() if wild(l, True)]
    ck.ob("view:wildcards", bool(lit), "names with * or ? are not recognised as patterns", loc(f))
    pat = q.calls(lambda c: c.name.endswith("Pattern::new"))
    w = q.unguarded(pat, lambda l: wild(l, True))
    ck.ob("view:pattern-only", w is None and all(norm(g.ev(n.d.args[0], n.i)) == A(0, "name") for n in pat), "a name without wildcards is taken for a pattern: %s" % w, loc(f))
    hit_closures(ck, p, q, f, wild)


def suffix(e):
    out = ()
    while e[0] == "fld":
        out = tuple(e[2].split(".")) + out
        e = e[1]
    return out


def hit_closures(ck, p, q, f, wild):
    g = q.g
    pats = set(x.i for x in q.calls(lambda c: c.name.endswith("Pattern::new")))
    uses = lambda c: any(x[0] == "call" and len(x) > 3 and x[3] in pats for x in walk(c))
    masks = [(n, x) for n in g.nodes if n.k == "as" and n.d[1][0] == "agg" and n.d[1][1]["k"] == "closure" and q.S([n]) for x in [None]]
    # which condition the view closes over, by whether the name has wildcards
    for v in (True, False):
        r = q.result_from(q.entry(), cut=lambda l: wild(l, not v))
        cl = [x for a in alts(r) for x in walk(a) if x[0] == "closure" and any(y[0] == "closure" for z in x[2] for y in walk(z))]
        inner = [y for x in cl for z in x[2] for y in alts(z) if y[0] == "closure"]
        ck.ob("view:condition-%s" % ("pattern" if v else "exact"), bool(inner) and all(uses(y) is v for y in inner), "the condition is " + "; ".join(show_(y) for y in inner), loc(f))
    # an aggregation that is refused, or renaming by pattern, gives a view that matches nothing
    allem = lambda l: l[0] == "b" and called(l[1], "is_empty") and norm(l[1][2][0]) == A(1, "name") and l[2] is True
    r = q.result_from(q.entry(), cut=lambda l: wild(l, False) or allem(l))
    ck.ob("view:no-rename-by-pattern", not any(x[0] == "closure" and any(y[0] == "closure" for z in x[2] for y in walk(z)) for a in alts(r) for x in walk(a)), "a pattern view renames every stream it matches", loc(f))


def conditions(ck, p, nm, fn, caps):
    """the closure is true exactly if each criterion is unset or equal to the instrument's"""
    g = ck.graph(fn)
    q = Q(g)
    own = lambda e: has(e, lambda x: x == ("arg", 0)) and not has(e, lambda x: x == ("arg", 1))
    oth = lambda e: has(e, lambda x: x == ("arg", 1)) and not has(e, lambda x: x == ("arg", 0))

    def end(e, fs):
        s = [x for x in suffix(norm(e)) if not x.isdigit() and not x.startswith("^") and x != "Some"]
        return tuple(s[-len(fs):]) == fs and len(s) == len(fs)

    def same(l, fs, v):
        if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) in ("eq", "ne") and len(l[1][2]) == 2:
            a, b = l[1][2]
            return (own(a) and oth(b) and end(a, fs) and end(b, fs) or own(b) and oth(a) and end(a, fs) and end(b, fs)) and l[2] is (v == (last(l[1][1]) == "eq"))
        if fs == ("name",) and l[0] == "b" and called(l[1], "matches") and len(l[1][2]) == 2:
            return own(l[1][2][0]) and oth(l[1][2][1]) and end(l[1][2][1], fs) and l[2] is v
        return False

    def unset(l, fs, v):
        if l[0] == "b" and called(l[1], "is_empty"):
            return own(l[1][2][0]) and end(l[1][2][0], fs) and l[2] is v
        if l[0] == "v" and own(l[1]) and end(l[1], fs):
            return l[3] == (("None",) if v else ("Some",))
        if l[0] == "b" and called(l[1], "is_none") and own(l[1][2][0]) and end(l[1][2][0], fs):
            return l[2] is v
        return False
    val_ = lambda r, fss, v: {val(a, lambda e: v if any(same(("b", e, True), fs, True) for fs in fss) else None, p) for a in alts(r) if a != ("never",)}
    for k, fs in FIELDS.items():
        r = q.result_from(q.entry(), cut=lambda l: same(l, fs, True) or unset(l, fs, True))
        ck.ob("%s:%s" % (nm, k), val_(r, (fs,), False) == {False}, "an instrument of another %s is matched" % k, loc(fn))
    r = q.result_from(q.entry(), cut=lambda l: any(same(l, fs, False) for fs in FIELDS.values()))
    ck.ob(nm + ":complete", val_(r, FIELDS.values(), True) == {True}, "an instrument that meets every criterion is not matched: " + show_(r), loc(fn))


def check(ck):
    p = ck.program("all")
    ck.rule("one meter per scope, with one inserter bound to each pipeline; one pipeline per reader with the provider's resource and views, registered with that reader; builders add readers and views and hand them on")
    ck.rule("for every preference and kind of instrument, readers answer the temporality of the specification's table, evaluated branch by branch; exporters report the preference they were built with")
    ck.rule("a view makes a stream only if its condition holds; the condition is false whenever any one criterion is set and differs, and true whenever none does; each field of the stream is the mask's if set, else the instrument's")
    meters(ck, p)
    pipelines(ck, p)
    builder(ck, p)
    temporality(ck, p)
    views(ck, p)
