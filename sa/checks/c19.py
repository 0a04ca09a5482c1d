"""C19: what a resource is made of"""
from checks.assume import *
from checks.c15 import bare
from checks.c20 import inner
from checks.c26 import Env, refined
import itertools
import re

TITLE = "Resources: later attributes win, schema URLs never mix, given names come first"
FLOOR = 70
SDK = "opentelemetry_sdk::"
RES = SDK + "resource::Resource"
RB = SDK + "resource::ResourceBuilder"
A0, A1 = ("arg", 0), ("arg", 1)
KEEP = {"into", "from", "to_string", "to_owned", "into_owned", "clone", "cloned", "as_str", "as_ref", "deref", "borrow", "to_vec", "get_mut", "make_mut", "unwrap"}
ENTRY = ("or_insert", "or_insert_with", "or_default")


def F(e, *fs):
    for f in fs:
        e = ("fld", e, f)
    return e


def thin(e):
    """the value without conversions that keep it"""
    e = norm(bare(e))
    while True:
        if e[0] == "call" and len(e[2]) == 1 and last(e[1]) in KEEP:
            e = e[2][0]
        elif e[0] == "agg" and last(e[1]) in ("Iter", "Value", "Owned", "Borrowed", "Cow", "Key", "OtelString", "StringValue") and len(e[3]) == 1:
            e = e[3][0][1]
        elif e[0] == "cast":
            e = e[1]
        else:
            break
        e = norm(bare(e))
    if e[0] == "fld":
        return ("fld", thin(e[1])) + tuple(e[2:])
    if e[0] == "elem":
        return ("elem", coll(e[1]))
    return e


def coll(e):
    """the container an iterator goes over"""
    e = thin(e)
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in ("iter", "into_iter", "iter_mut", "drain", "by_ref", "as_slice"):
        e = thin(e[2][0])
    return e


def vals(e):
    return [thin(a) for a in flat(e) if a != ("never",)]


def fills(q, cont, kf, vf, starts=None, cut=None, until=None):
    """None if every pair of the container is put into the map, replacing what is there"""
    g = q.g
    E = ("elem", cont)
    want = (F(E, kf), F(E, vf))
    C, bad = [], []
    for n in q.calls(lambda c: c.m == "insert" and len(c.args) == 3):
        k, v = (vals(g.ev(a, n.i)) for a in n.d.args[1:])
        if k == [want[0]] and v == [want[1]]:
            C.append(n)
        elif any(has(x, lambda y: y == E) for x in k + v):
            bad.append(n)

    def all_of(e):
        e = norm(bare(e))
        if e[0] == "call" and last(e[1]) == "map" and coll(e[2][0]) == cont:
            r = [z for c in e[2][1:] if c[0] == "clo" for z in flat(c[1])]
            return bool(r) and all(z[0] == "tuple" and [thin(y) for y in z[1]] == list(want) for z in r)
        return coll(e) == cont
    bulk = [n for n in q.calls(lambda c: c.m == "extend" and len(c.args) == 2) if all_of(g.ev(n.d.args[1], n.i))]
    if bad:
        return "a pair is put as %s" % [show_(x) for a in bad[0].d.args[1:] for x in vals(g.ev(a, bad[0].i))]
    starts = q.entry() if starts is None else starts
    ends = q.exits() if until is None else until
    if bulk:
        r = q.reach(starts, avoid=q.S(bulk), cut=cut)
        return "not always" if r & ends else None
    if not C:
        return "never"
    SC = q.S(C)
    done, some, heads = set(), set(), set()
    for s, lab, t, l in q.literals():
        if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) == "next" and coll(l[1][2][0]) == cont:
            (done if l[3] == ("None",) else some).add((s, t) if l[3] == ("None",) else t)
            heads.add(s)
    if not some:
        return "not a loop over it"
    if q.reach(some, avoid=SC, cut=cut) & (heads | ends | q.exits()):
        return "a pair is left out"
    if q.reach(starts, cute=done, cut=cut) & ends:
        return "not all of it"
    return None


def under_fills(q, cont):
    """every pair of the container is put into the map where its key is missing"""
    g = q.g
    E = ("elem", cont)
    for n in q.calls(lambda c: c.m in ENTRY):
        e = norm(bare(g.ev(n.d.args[0], n.i)))
        if e[0] == "call" and last(e[1]) == "entry" and thin(e[2][1]) == F(E, "0"):
            if n.d.m == "or_insert" and vals(g.ev(n.d.args[1], n.i)) != [F(E, "1")]:
                return False
            return forall(q, q.entry(), [n], B={cont}) is None
    return False


class Urls:
    def __init__(self, p, empty, url, same):
        self.p, self.empty, self.url, self.same = p, empty, url, same
        self.args = {}
        for i in (0, 1):
            self.args[F(("arg", i), "inner", "schema_url")] = V("Some" if url[i] else "None")

    def env(self, e):
        n = norm(e)
        if n in self.args:
            return self.args[n]
        if e[0] == "call":
            if last(e[1]) in ("is_empty", "len") and len(e[2]) == 1:
                x = thin(e[2][0])
                for i in (0, 1):
                    if x == F(("arg", i), "inner", "attrs"):
                        return self.empty[i] if last(e[1]) == "is_empty" else 0 if self.empty[i] else 3
            if last(e[1]) in ("eq", "ne") and len(e[2]) == 2:
                x = {thin(a) for a in e[2]}
                u = {F(("arg", i), "inner", "schema_url", "Some.0") for i in (0, 1)}
                if x == u or x == {F(("arg", i), "inner", "schema_url") for i in (0, 1)}:
                    eq = self.same if all(self.url) else not any(self.url)
                    return eq == (last(e[1]) == "eq")
        return None

    def cut(self):
        return under_env(self.env, self.p)

    def __str__(self):
        return " and ".join("%s %s" % ("no attributes" if e else "attributes", "with URL " + "ab"[i if not self.same else 0] if u else "without URL") for i, (e, u) in enumerate(zip(self.empty, self.url)))


def merge(ck, p):
    f = ck.one(p.method(RES, "merge"), "Resource::merge")
    q = Q(ck.graph(f))
    q.deep = True
    D, O = F(A0, "inner", "attrs"), F(A1, "inner", "attrs")
    for e0, u0, e1, u1, same in itertools.product((False, True), (False, True), (False, True), (False, True), (False, True)):
        if same and not (u0 and u1):
            continue
        case = Urls(p, (e0, e1), (u0, u1), same)
        cute = refined(q, case)
        C = case.cut()
        r = q.reach(q.entry(), cut=C, cute=cute)
        ex = q.exits() & r
        fr, lo, pr = q.g.result_place
        get = lambda *k: vals(q.pv((fr, lo, tuple(pr) + tuple(("f", x) for x in k)), ex, r)) if ex else []
        a = get("inner", "attrs")
        w = None
        for x in a:
            if x == D:
                w = w or (None if e1 else fills(q, O, "0", "1", cut=C, until=ex))
            elif x == O:
                w = w or (None if e0 or under_fills(q, D) else "the attributes of the first are lost")
            else:
                w = "attributes are " + show_(x)
        ck.ob("merge:attributes:%s" % case, bool(a) and w is None, "merging a resource that has %s: %s" % (case, w or "no result"), loc(f))
        # with whole arguments among the alternatives, the URL is theirs
        us = get("inner", "schema_url")
        U = [F(("arg", i), "inner", "schema_url") for i in (0, 1)]
        none_ = {("agg", "core::option::Option", "None", ())} | {U[i] for i, u in enumerate((u0, u1)) if not u}
        some_ = {x for i, u in enumerate((u0, u1)) if u for x in (U[i], ("agg", "core::option::Option", "Some", (("0", F(U[i], "Some.0")),)))}
        want = some_ if (u0 != u1) or (u0 and u1 and same) else none_
        ok = bool(us) and all(norm(some_of(x)) in {norm(y) for y in want} for x in us)
        ck.ob("merge:url:%s" % case, ok, "merging a resource that has %s: the URL is %s" % (case, [show_(x) for x in us]), loc(f))


def some_of(x):
    if x[0] == "agg" and x[2] == "Some" and len(x[3]) == 1:
        return ("agg", x[1], "Some", ((x[3][0][0], thin(x[3][0][1])),))
    return x


def fresh(e):
    return e[0] == "call" and last(e[1]) in ("new", "with_capacity", "default", "with_capacity_and_hasher", "collect", "from_iter")


def made(ck, p):
    """Resource::new, from_schema_url: the pairs given, the last of each key"""
    for nm in ("new", "from_schema_url"):
        f = ck.one(p.method(RES, nm), "Resource::" + nm)
        q = Q(ck.graph(f))
        q.deep = True
        r = q.reach(q.entry())
        fr, lo, pr = q.g.result_place
        get = lambda r, *k: vals(q.pv((fr, lo, tuple(pr) + tuple(("f", x) for x in k)), q.exits() & r, r))
        a = get(r, "inner", "attrs")
        ok = bool(a) and all(fresh(x) for x in a)
        w = fills(q, A0, "key", "value") if all(x[0] == "call" and last(x[1]) not in ("collect", "from_iter") for x in a) else whole_map(a)
        ck.ob(nm + ":attributes", ok and w is None, "the pairs given: %s" % (w or [show_(x) for x in a]), loc(f))
        if nm == "new":
            u = get(r, "inner", "schema_url")
            ck.ob("new:url", bool(u) and all(x[0] == "agg" and x[2] == "None" for x in u), "a URL %s" % [show_(x) for x in u], loc(f))
            continue
        for empty in (True, False):
            def env(e):
                if e[0] == "call" and last(e[1]) in ("is_empty", "len") and thin(e[2][0]) == A1:
                    return empty if last(e[1]) == "is_empty" else 0 if empty else 9
            C = under_env(env, p)
            u = get(q.reach(q.entry(), cut=C), "inner", "schema_url")
            want = ("agg", "None") if empty else A1
            ok = bool(u) and all(x[0] == "agg" and (x[2] == "None" if empty else x[2] == "Some" and thin(x[3][0][1]) == A1) for x in u)
            ck.ob("from_schema_url:url:%s" % ("empty" if empty else "given"), ok, "the URL is %s" % [show_(x) for x in u], loc(f))


def whole_map(a):
    """a map collected from pairs (key, value) of the input"""
    for x in a:
        e = norm(bare(x))
        m = norm(bare(e[2][0])) if e[0] == "call" and e[2] else ("unk",)
        if not (m[0] == "call" and last(m[1]) == "map" and coll(m[2][0]) == A0):
            return "made from " + show_(e)
        for y in (z for c in m[2][1:] if c[0] == "clo" for z in flat(c[1])):
            if not (y[0] == "tuple" and [thin(z) for z in y[1]] == [F(("elem", A0), "key"), F(("elem", A0), "value")]):
                return "pairs are " + show_(y)
    return None


def detectors(ck, p):
    f = ck.one(p.method(RES, "from_detectors"), "Resource::from_detectors")
    q = Q(ck.graph(f))
    g = q.g
    D = [n for n in q.calls(lambda c: c.m == "detect")]
    ck.ob("from_detectors:all", forall(q, q.entry(), D, B={A0}, strict=True) is None, "a detector may be left out: %s" % forall(q, q.entry(), D, B={A0}, strict=True), loc(f))
    for n in D:
        cont = F(thin(g.ev_def(n.i, (), 0)), "inner", "attrs")
        rec = coll(norm(bare(g.ev(n.d.args[0], n.i))))
        heads = {s for s, lab, t, l in q.literals() if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) == "next" and coll(l[1][2][0]) == A0}
        w = fills(q, cont, "0", "1", starts=q.after(q.S([n])), until=heads | q.exits())
        ck.ob("from_detectors:pairs", w is None, "what a detector finds: %s" % w, g.loc(n.i))
        back = [m for m in q.calls(lambda c: last(c.name) in ("rev", "next_back", "rchunks", "sort", "sort_by", "sort_by_key"))]
        ck.ob("from_detectors:order", not back, "the order of the detectors is changed", g.loc(back[0].i) if back else loc(f))
    st = [norm(bare(g.ev(n.d.args[0], n.i))) for n in q.calls(lambda c: c.m == "insert" and len(c.args) == 3)]
    res = [x for a in flat(q.results()) for x in vals(pick(a, "inner", "attrs"))]
    ck.ob("from_detectors:result", bool(res) and all(fresh(x) for x in res) and all(has(x, fresh) for x in st), "the result holds %s" % [show_(x) for x in res], loc(f))


def pick(e, *fs):
    for f in fs:
        e = norm(bare(e))
        if e[0] == "agg" and f in dict(e[3]):
            e = dict(e[3])[f]
        else:
            e = ("fld", e, f)
    return e


OPQ = ("merge", "new", "from_schema_url", "from_detectors", "empty")


def opaque(fn):
    return fn.self_adt == RES and fn.item in OPQ


def is_call(e, m):
    return e[0] == "call" and last(e[1]) == m and RES in e[1]


def blank(e):
    return is_call(e, "empty") or is_call(e, "default")


def layers(e):
    """resources merged into the value, later ones winning"""
    e = thin(e)
    if e[0] == "agg" and last(e[1]) == "ResourceBuilder":
        return layers(dict(e[3])["resource"])
    if is_call(e, "merge"):
        return layers(e[2][0]) + layers(e[2][1])
    if blank(e):
        return []
    return [e]


def pairs(e):
    """the pairs a resource is made from by `new`"""
    if not is_call(e, "new"):
        return None
    e = coll(e[2][0])
    if e[0] == "call" and last(e[1]) in ("once", "from_iter", "into_vec", "box_assume_init_into_vec_unsafe") and e[2]:
        e = thin(e[2][0])
    if e[0] == "agg" and last(e[1]) in ("Some", "Option") and e[3]:
        e = ("array", (e[3][0][1],))
    if e[0] != "array":
        return None
    out = []
    for x in e[1]:
        x = thin(x)
        if x[0] == "agg" and last(x[1]) == "KeyValue":
            d = dict(x[3])
            out.append((thin(d["key"]), vals(d["value"]) if d["value"][0] == "phi" else [thin(d["value"])]))
        elif x[0] == "call" and last(x[1]) == "new" and "KeyValue" in x[1]:
            out.append((thin(x[2][0]), [thin(x[2][1])]))
        else:
            out.append((x, None))
    return out


def builder(ck, p):
    def run(adt, nm, **kw):
        f = ck.one(p.method(adt, nm, **kw), adt.split("::")[-1] + "::" + nm)
        q = Q(ck.graph(f, opaque=opaque))
        q.deep = True
        return f, q, [layers(pick(a, "resource") if a[0] == "part" or a[0] == "agg" else a) for a in flat(fld(q, "resource"))]

    def fld(q, k):
        fr, lo, pr = q.g.result_place
        return q.pv((fr, lo, tuple(pr) + (("f", k),)), q.exits(), q.reach(q.entry()))
    R0 = F(A0, "resource")
    for nm, want in {
        "with_attributes": lambda x: is_call(x, "new") and coll(x[2][0]) == A1,
        "with_detectors": lambda x: is_call(x, "from_detectors") and coll(x[2][0]) == A1,
        "with_detector": lambda x: is_call(x, "from_detectors") and coll(x[2][0]) == ("array", (A1,)),
        "with_attribute": lambda x: pairs(x) == [(A1, None)],
        "with_service_name": lambda x: pairs(x) is not None and len(pairs(x)) == 1 and const_str(pairs(x)[0][0]) == "service.name" and pairs(x)[0][1] == [A1],
    }.items():
        f, q, ls = run(RB, nm)
        ck.ob("builder:" + nm, bool(ls) and all(len(x) == 2 and x[0] == R0 and want(x[1]) for x in ls), "the resource is %s" % [[show_(y) for y in x] for x in ls], loc(f))
    f, q, ls = run(RB, "with_schema_url")
    ck.ob("builder:with_schema_url", bool(ls) and all(len(x) == 2 and R0 in x and any(is_call(y, "from_schema_url") and [thin(z) for z in y[2]] == [A1, ("arg", 2)] for y in x) for x in ls), "the resource is %s" % [[show_(y) for y in x] for x in ls], loc(f))
    f = ck.one(p.method(RB, "build"), "ResourceBuilder::build")
    q = Q(ck.graph(f, opaque=opaque))
    ck.ob("builder:build", all(x == R0 for x in vals(q.results())), "the resource is %s" % show_(q.results()), loc(f))
    f, q, ls = run(RES, "builder_empty")
    ck.ob("builder:empty", all(x == [] for x in ls), "starts with %s" % ls, loc(f))
    # the default resource
    f, q, ls = run(RES, "builder")
    names = []
    for x in ls:
        if len(x) == 1 and is_call(x[0], "from_detectors") and coll(x[0][2][0])[0] == "array":
            names.append([last(y[1]) if y[0] == "agg" else last(y[1].rpartition("::")[0]) if y[0] == "call" else "?" for y in (thin(z) for z in coll(x[0][2][0])[1])])
        else:
            names.append(["?"])
    for ns in names or [[]]:
        for d in ("SdkProvidedResourceDetector", "TelemetryResourceDetector", "EnvResourceDetector"):
            ck.ob("default:" + d, d in ns, "the default resource does not include %s: %s" % (d, ns), loc(f))
        ck.ob("default:service-name", "SdkProvidedResourceDetector" in ns and "EnvResourceDetector" in ns and ns.index("SdkProvidedResourceDetector") > ns.index("EnvResourceDetector"), "service.name in OTEL_RESOURCE_ATTRIBUTES wins over OTEL_SERVICE_NAME: later detectors win, and the order is %s" % ns, loc(f))


def detection(ck, p):
    DET = SDK + "resource::ResourceDetector"

    def det(nm):
        return ck.one([f for f in p.fns.values() if f.item == "detect" and (f.self_adt or "").endswith("::" + nm)], nm)
    # service.name
    f = det("SdkProvidedResourceDetector")
    from_env = lambda fn: opaque(fn) or fn.item == "detect" and (fn.self_adt or "").endswith("::EnvResourceDetector") or fn.self_adt == RES and fn.item == "get"
    q = Q(ck.graph(f, opaque=from_env))
    q.deep = True

    def is_get(e):
        return e[0] == "call" and last(e[1]) == "get" and len(e[2]) == 2 and has(e[2][0], lambda x: x[0] == "call" and last(x[1]) == "detect") and const_str(thin(e[2][1])) == "service.name"
    for text, other in itertools.product((None, "", "svc"), (False, True)):
        E = Env(p, {"OTEL_SERVICE_NAME": text})
        base = E.env

        def env(e):
            if is_get(norm(e)):
                return V("Some" if other else "None")
            if e[0] == "call" and last(e[1]) == "is_empty" and len(e[2]) == 1:
                x = thin(e[2][0])
                if x[0] == "fld" and x[2] == "Ok.0" and x[1][0] == "call" and last(x[1][1]) == "var":
                    return text == ""
            return base(e)
        E.env = env
        cute = refined(q, E)
        C = E.cut()
        r = q.reach(q.entry(), cut=C, cute=cute)
        res = layers_of(q, r)
        kv = [pairs(x[0]) if len(x) == 1 else None for x in res]
        case = "OTEL_SERVICE_NAME %s, service.name %sin OTEL_RESOURCE_ATTRIBUTES" % (text if text is None else repr(text), "" if other else "not ")
        ok = bool(kv) and all(k is not None and len(k) == 1 and const_str(k[0][0]) == "service.name" and k[0][1] for k in kv)
        got = [v for k in kv if k for v in k[0][1] if not (v[0] == "fld" and v[2] == "Some.0" and is_get(v[1]) and not other)] if ok else []
        def right(v):
            if text:
                return v[0] == "fld" and v[2] == "Ok.0" and v[1][0] == "call" and last(v[1][1]) == "var" and const_str(v[1][2][0]) == "OTEL_SERVICE_NAME"
            if other:
                return v[0] == "fld" and v[2] == "Some.0" and is_get(v[1])
            return const_str(v) is not None and const_str(v).startswith("unknown_service")
        ck.ob("service.name:" + case, ok and bool(got) and all(right(v) for v in got), "with %s the name is %s" % (case, [show_(v) for v in got] or [[show_(y) for y in x] for x in res]), loc(f))
    # telemetry.sdk.*
    f = det("TelemetryResourceDetector")
    q = Q(ck.graph(f, opaque=opaque))
    for x in layers_of(q, q.reach(q.entry())):
        kv = {const_str(k): [const_str(y) for y in v or ()] for k, v in (pairs(x[0]) or ())} if len(x) == 1 else {}
        for k, want in (("telemetry.sdk.name", r"opentelemetry$"), ("telemetry.sdk.language", r"rust$"), ("telemetry.sdk.version", r"\d+\.\d+")):
            v = kv.get(k)
            ck.ob("telemetry:" + k, v is not None and len(v) == 1 and v[0] is not None and bool(re.match(want, v[0])), "%s is %s" % (k, v), loc(f))
    # OTEL_RESOURCE_ATTRIBUTES
    f = det("EnvResourceDetector")
    q = Q(ck.graph(f, opaque=opaque))
    q.deep = True
    VAR = "OTEL_RESOURCE_ATTRIBUTES"
    for text in (None, "", "a=b"):
        E = Env(p, {VAR: text})
        base = E.env

        def env(e):
            if e[0] == "call" and last(e[1]) in ("is_empty", "len") and len(e[2]) == 1 and thin(e[2][0])[0] == "fld" and thin(e[2][0])[2] == "Ok.0":
                return text == "" if last(e[1]) == "is_empty" else len(text or "")
            return base(e)
        E.env = env
        r = q.reach(q.entry(), cut=E.cut())
        res = layers_of(q, r)
        if not text:
            ck.ob("attributes:%r" % text, bool(res) and all(not x or text == "" and len(x) == 1 and listed(q, x[0], VAR) is None for x in res), "with %s=%s: %s" % (VAR, text, [[show_(y) for y in x] for x in res]), loc(f))
        else:
            w = [listed(q, x[0], VAR) if len(x) == 1 else "not read" for x in res]
            ck.ob("attributes:given", bool(w) and not any(w), "the attributes of %s: %s" % (VAR, w), loc(f))


def layers_of(q, r):
    fr, lo, pr = q.g.result_place
    ex = q.exits() & r
    out = []
    for a in flat(q.pv((fr, lo, tuple(pr)), ex, r)) if ex else ():
        x = layers(a)
        out.append(x)
    return out


def listed(q, x, var):
    """None if the resource is made of the pairs key=value, separated by commas, of the variable's text"""
    if not is_call(x, "new"):
        return show_(x)
    e = coll(x[2][0])
    if e[0] == "call" and last(e[1]) in ("collect", "from_iter"):
        e = coll(e[2][0])
    if fresh(e):
        src, clo = pushed(q, e)
        if src is None:
            return clo
    elif e[0] != "call" or last(e[1]) not in ("filter_map", "flat_map"):
        return "pairs are made by " + show_(e)
    else:
        src, clo = norm(bare(e[2][0])), [y for c in e[2][1:] if c[0] == "clo" for y in alts(c[1])]
    if not (src[0] == "call" and last(src[1]) in ("split", "split_terminator") and const_str(src[2][1]) == ","):
        return "entries are " + show_(src)
    t = thin(src[2][0])
    if not (t[0] == "fld" and t[2] == "Ok.0" and t[1][0] == "call" and last(t[1][1]) == "var" and const_str(t[1][2][0]) == var):
        return "the text is " + show_(t)
    some = 0
    for y in clo:
        y = norm(bare(y))
        if y[0] == "agg" and y[2] == "None":
            continue
        if y[0] == "agg" and y[2] == "Some":
            kv = pairs(("call", RES + "::new", (("array", (y[3][0][1],)),)))
            if not kv or kv[0][1] is None:
                return "an entry becomes " + show_(y)
            for part, side in ((kv[0][0], "0"), (kv[0][1][0], "1")):
                z = part
                z = thin(z[2][0]) if z[0] == "call" and last(z[1]) == "trim" else z
                if not (z[0] == "fld" and z[2].split(".")[-1] == side and z[1] != z and has(z, lambda w: w[0] == "call" and last(w[1]) == "split_once" and const_str(w[2][1]) == "=")) or part == z:
                    return "%s is %s" % ("the key" if side == "0" else "the value", show_(part))
            some += 1
        else:
            return "an entry becomes " + show_(y)
    return None if some else "no pairs"


def pushed(q, e):
    """(iterator, what is made of its elements) of a list that a loop fills with the entries that have a `=`"""
    g = q.g
    P = [n for n in q.calls(lambda c: c.m in ("push", "insert") and len(c.args) == 2) if thin(g.ev(n.d.args[0], n.i)) == e]
    SP = q.S(P)
    lits = [(s, t, l) for s, lab, t, l in q.literals() if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) == "next"]
    for B in {coll(l[1][2][0]) for s, t, l in lits}:
        mine = [(s, t, l) for s, t, l in lits if coll(l[1][2][0]) == B]
        if B[0] != "call" or last(B[1]) not in ("split", "split_terminator"):
            continue
        some, heads = {t for s, t, l in mine if l[3] == ("Some",)}, {s for s, t, l in mine}
        done = {(s, t) for s, t, l in mine if l[3] == ("None",)}
        empty = lambda l: l[0] == "v" and l[3] == ("None",) and l[1][0] == "call" and last(l[1][1]) == "split_once"
        if q.reach(some, avoid=SP, cut=empty) & (heads | q.exits()):
            return None, "an entry may be left out"
        made = {s for y in g.nodes if y.k == "call" for s in q.S([y]) if thin(g.ev_def(y.i, (), 0)) == e}
        if not made or q.reach(made, cute=done) & q.exits():
            return None, "an entry may be left out"
        return B, [("agg", "core::option::Option", "Some", (("0", v),)) for n in P for v in alts(g.ev(n.d.args[1], n.i))]
    return None, "pairs are made by " + show_(e)


def accessors(ck, p):
    for nm, want in {"len": lambda e: called(e, "len", F(A0, "inner", "attrs")), "is_empty": lambda e: called(e, "is_empty", F(A0, "inner", "attrs")), "iter": lambda e: coll(e) == F(A0, "inner", "attrs") or coll(pick(e, "0")) == F(A0, "inner", "attrs"),
                     "get": lambda e: e[0] == "call" and last(e[1]) == "get" and [thin(x) for x in e[2]] == [F(A0, "inner", "attrs"), A1]}.items():
        f = ck.one(p.method(RES, nm), "Resource::" + nm)
        q = Q(ck.graph(f))
        v = [norm(bare(a)) for a in flat(q.results())]
        ck.ob("accessor:" + nm, bool(v) and all(want(x) or want(thin(x)) for x in v), "it returns %s" % [show_(x) for x in v], loc(f))
    f = ck.one(p.method(RES, "schema_url"), "Resource::schema_url")
    q = Q(ck.graph(f))
    q.deep = True
    U = F(A0, "inner", "schema_url")
    for set_ in (False, True):
        C = under_env(lambda e: V("Some" if set_ else "None") if norm(e) == U else None, p)
        v = vals(q.result_from(q.entry(), cut=C))
        ok = bool(v) and all(x == U or x[0] == "agg" and (x[2] == "Some" and thin(x[3][0][1]) == F(U, "Some.0") if set_ else x[2] == "None") for x in v)
        ck.ob("accessor:schema_url:%s" % set_, ok, "it returns %s" % [show_(x) for x in v], loc(f))


def called(e, m, x):
    return e[0] == "call" and last(e[1]) == m and len(e[2]) == 1 and thin(e[2][0]) == x


PROVIDERS = {"trace::provider::TracerProviderBuilder": "trace", "logs::logger_provider::LoggerProviderBuilder": "logs", "metrics::meter_provider::MeterProviderBuilder": "metrics"}


def providers(ck, p):
    opq = lambda fn: opaque(fn) or fn.self_adt == RES and fn.item == "builder" or fn.self_adt == RB and fn.item == "build" or fn.item == "set_resource"

    def dflt(e):
        return e[0] == "call" and last(e[1]) == "build" and has(e, lambda x: x[0] == "call" and last(x[1]) == "builder" and RES in x[1])
    for adt, sig in PROVIDERS.items():
        f = ck.one(p.method(SDK + adt, "with_resource"), adt + "::with_resource")
        q = Q(ck.graph(f, opaque=opq))
        q.deep = True
        R = F(A0, "resource")
        for set_ in (False, True):
            C = under_env(lambda e: V("Some" if set_ else "None") if norm(e) == R else None, p)
            r = q.reach(q.entry(), cut=C)
            fr, lo, pr = q.g.result_place
            v = [norm(bare(a)) for a in alts(q.pv((fr, lo, tuple(pr) + (("f", "resource"),)), q.exits() & r, r))]
            ls = [layers(x[3][0][1]) for x in v if x[0] == "agg" and x[2] == "Some"]
            want = [F(R, "Some.0"), A1] if set_ else [A1]
            ck.ob("%s:with_resource:%s" % (sig, "again" if set_ else "first"), bool(ls) and len(ls) == len(v) and all(x == want for x in ls), "the resource is %s" % [show_(x) for x in v], loc(f))
        # what build uses
        f = ck.one(p.method(SDK + adt, "build"), adt + "::build")
        q = Q(ck.graph(f, opaque=opq, max_depth=6))
        q.deep = True
        g = q.g
        if sig == "metrics":
            sinks = [(n, n.d.args) for n in q.calls(lambda c: False)]
            uses = [(n, [(k, v) for k, v in zip(n.d[1][1]["f"], n.d[1][2])]) for n in q.aggs("pipeline::Pipeline")]
            got = [(n, dict(fs)["resource"]) for n, fs in uses]
        else:
            got = [(n, n.d.args[1]) for n in q.calls(lambda c: c.m == "set_resource")]
            w = forall(q, q.entry(), [n for n, _ in got], B={F(A0, "processors")})
            ck.ob(sig + ":every-processor", bool(got) and w is None, "a processor may not be told the resource: %s" % w, loc(f))
        ck.ob(sig + ":used", bool(got), "the resource is not used", loc(f))
        for set_ in (False, True):
            env = lambda e: V("Some" if set_ else "None") if norm(e) == R else None
            for n, op in got:
                C = under_env(env, p)
                v = vals(opnd(q, n, op, cut=C))
                own = []
                for x in v:
                    if x[0] == "call" and last(x[1]) == "get_or_init" or x == ("unk", "static") or x[0] == "static":
                        continue     # the shared copy: below
                    own.append(x)
                ok = bool(own) and all(x == F(R, "Some.0") if set_ else dflt(x) or x == F(A0, "config", "resource") for x in own)
                ck.ob("%s:build:%s" % (sig, "given" if set_ else "default"), ok, "the resource used is %s" % [show_(x) for x in v], g.loc(n.i))
                shared = [x for x in v if x not in own]
                if shared:
                    eqs = [(s, t) for s, lab, t, l in q.literals() if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "eq" and l[2] is True and any(has(y, lambda z: z[0] == "call" and last(z[1]) == "get_or_init") for y in l[1][2])]
                    r = q.reach(q.entry(), cut=C, cute=set(eqs))
                    w = [x for x in vals(q._pv_op(op, (), q.S([n]) & r, r, 0)) if x in shared]
                    ck.ob("%s:build:shared" % sig, bool(eqs) and not w, "a shared resource is used without being equal to this provider's", g.loc(n.i))


def processors(ck, p):
    """a processor hands the resource to its exporter, at once or through its worker"""
    for f in sorted((f for f in p.fns.values() if f.item == "set_resource" and f.crate == "opentelemetry_sdk" and (f.trait or "").endswith(("SpanProcessor", "LogProcessor")) and f.self_adt and not f.derived), key=lambda f: f.name):
        if "test" in f.name:
            continue
        short = last(f.self_adt) + (":" + f.self_adt.split("::")[-2])
        q = Q(ck.graph(f, opaque=lambda fn: fn.item in ("set_resource", "try_send", "send")))
        g = q.g
        S = [n for n in q.calls(lambda c: c.m in ("set_resource", "try_send", "send") and len(c.args) == 2)]
        r = q.reach(q.entry(), avoid=q.S(S), cut=lambda l: l[0] == "v" and l[1][0] == "call" and last(l[1][1]) in ("lock", "try_lock", "write") and l[3] == ("Err",) or l[0] == "v" and l[3] == ("Break",))
        ck.ob("forward:" + short, bool(S) and not r & q.exits(), "set_resource can return without telling the exporter", loc(f))
        for n in S:
            v = vals(g.ev(n.d.args[1], n.i))
            if n.d.m == "set_resource":
                ok = bool(v) and all(x == A1 for x in v)
            else:
                ok = bool(v) and all(x[0] == "agg" and x[2] == "SetResource" and thin(x[3][0][1]) == A1 for x in v)
            ck.ob("forward:%s:value" % short, ok, "the exporter is told %s" % [show_(x) for x in v], g.loc(n.i))
        if any(n.d.m != "set_resource" for n in S):
            # the worker
            mod = f.self_adt.rpartition("::")[0]
            W = [h for h in p.fns.values() if h.name.startswith((mod, "<" + mod)) and h.file == f.file and any(True for _ in worker(ck, p, h))]
            ck.ob("forward:%s:worker" % short, bool(W), "no worker hands the resource to the exporter", loc(f))
            for h in W:
                for ok, what, at in worker(ck, p, h):
                    ck.ob("forward:%s:worker" % short, ok, what, at)


MEMO = {}


def worker(ck, p, h):
    k = (id(p), h.name)
    if k not in MEMO:
        MEMO[k] = list(worker_(ck, p, h))
    return MEMO[k]


def worker_(ck, p, h):
    if h.item == "set_resource" or not any("set_resource" in str(b) for b in h.d.get("body", {}).get("blocks", ())) and "set_resource" not in str(h.d)[:400000]:
        return
    q = Q(ck.graph(h, spawn_inline=True, max_depth=4, opaque=lambda fn: fn.item in ("set_resource", "export", "shutdown")))
    g = q.g
    arms = [(s, t, l) for s, lab, t, l in q.literals() if l[0] == "v" and l[3] == ("SetResource",)]
    C = [n for n in q.calls(lambda c: c.m == "set_resource" and len(c.args) == 2)]
    if not arms:
        return
    for s, t, l in arms:
        ok = [n for n in C if all(x[0] == "fld" and x[2] == "SetResource.0" for x in vals(g.ev(n.d.args[1], n.i)))]
        nxt = {x for n in q.calls(lambda c: last(c.name) in ("recv", "recv_timeout", "try_recv", "poll_next", "next")) for x in q.S([n])}
        r = q.reach({t}, avoid=q.S(ok))
        yield bool(ok) and not r & (nxt | q.exits()), "the worker may drop the resource it is told", g.loc(C[0].i) if C else loc(h)


def check(ck):
    p = ck.program("all")
    ck.rule("a resource made of pairs, of detectors' findings or by merging holds every pair, later ones replacing earlier ones of the same key; the merged schema URL follows the table; builder steps merge onto what is there; OTEL_SERVICE_NAME wins over OTEL_RESOURCE_ATTRIBUTES, which wins over the default name; providers merge the resources given, default to the detected one, and hand it to every processor, exporter and pipeline")
    merge(ck, p)
    made(ck, p)
    detectors(ck, p)
    builder(ck, p)
    detection(ck, p)
    accessors(ck, p)
    providers(ck, p)
    processors(ck, p)
