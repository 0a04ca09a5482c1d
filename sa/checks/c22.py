"""C22: what is sent over OTLP carries every field of the telemetry"""
from checks.assume import *
from checks.c15 import bare
from checks.c13 import zero_id
from graph import Graph
import re

TITLE = "OTLP messages carry every field of the telemetry, each element once, in its own scope"
FLOOR = 120
PROTO = "opentelemetry_proto::proto::tonic::"
COPY = {"into", "from", "to_string", "to_owned", "into_owned", "clone", "cloned", "as_str", "as_ref", "deref", "borrow", "into_string", "into_vec", "into_boxed_slice", "as_slice", "to_vec", "unwrap"}
THIN = {"filter", "filter_map", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "nth", "flat_map", "flatten", "scan", "rev", "chain", "zip", "dedup", "peekable", "chunks", "windows", "split_first", "split_last", "first", "last"}
SAMEIT = {"iter", "into_iter", "by_ref", "fuse", "cloned", "copied", "drain", "inspect", "iter_mut"}
A0, A1 = ("arg", 0), ("arg", 1)


def F(e, *fs):
    for f in fs:
        e = ("fld", e, f)
    return e


def n(e):
    return norm(bare(e))


def strip(e):
    """the value without conversions that keep it"""
    while True:
        e = n(e)
        if e[0] == "call" and len(e[2]) == 1 and last(e[1]) in COPY:
            e = e[2][0]
        elif e[0] == "agg" and last(e[1]) in ("Iter", "Owned", "Borrowed", "Cow") and len(e[3]) == 1:
            e = e[3][0][1]
        else:
            return e


def deepstrip(e):
    e = strip(e)
    if e[0] in ("fld", "var"):
        return (e[0], deepstrip(e[1])) + tuple(e[2:])
    if e[0] == "elem":
        return ("elem", deepstrip(iter_base(e[1])))
    if e[0] == "tuple":
        return ("tuple", tuple(deepstrip(x) for x in e[1]))
    return e


def each_alt(m):
    def f(e):
        a = [x for x in alts(n(e)) if x != ("never",)]
        if not a:
            return "nothing"
        for x in a:
            w = m(x)
            if w:
                return w
        return None
    return f


def val_of(path):
    """the same value"""
    def m(e):
        e = deepstrip(e)
        # a string held in one of several forms
        b = e
        while b[0] in ("fld", "var") and b != path:
            b = b[1] if b[0] == "var" or b[2].rpartition(".")[0] in ("Owned", "Static", "RefCounted", "Borrowed") or b[2] == "0" else ("?",)
        return None if b == path else show_(e)
    return each_alt(m)


def num_of(path):
    """the same number, in a type at least as wide"""
    def m(e):
        prev = None
        while n(e)[0] == "cast" or n(e)[0] == "call" and last(n(e)[1]) in ("into", "from", "to_u8", "into_f64"):
            if n(e)[0] == "cast":
                w = re.sub("size$", "64", str(n(e)[2])).lstrip("iuf")
                if prev is not None and w.isdigit() and int(w) < prev:
                    return "cut to %s: %s" % (n(e)[2], show_(e))
                prev = int(w) if w.isdigit() else prev
            e = n(e)[1] if n(e)[0] == "cast" else n(e)[2][0]
        return None if deepstrip(e) == path else show_(e)
    return each_alt(m)


def bytes_of(path):
    """the identifier's bytes, most significant first"""
    def m(e):
        x = strip(e)
        if x[0] == "call" and last(x[1]) == "to_be_bytes" and deepstrip(x[2][0]) in (F(path, "0"), path):
            return None
        return show_(e)
    return each_alt(m)


def nanos_of(path):
    """nanoseconds since the epoch"""
    def m(e):
        x = strip_cast(n(e))
        if x[0] == "call" and last(x[1]) in ("into", "try_into", "unwrap_or_default"):
            x = strip_cast(x[2][0])
        if x[0] != "call" or last(x[1]) != "as_nanos":
            return show_(e)
        for d in alts(n(x[2][0])):
            d = n(d)
            if not (d[0] == "fld" and d[2] == "Ok.0" and called(d[1], "duration_since") and deepstrip(d[1][2][0]) == path and "tv_sec: 0_" in str(d[1][2][1])):
                return show_(e)
        return None
    return each_alt(m)


def called(e, m):
    return e[0] == "call" and last(e[1]) == m


def given(e):
    """a part of the input, or of an element of a collection"""
    while e[0] in ("fld", "var", "cast"):
        e = e[1]
    return e[0] in ("arg", "elem")


def some(m):
    def f(e):
        e = n(e)
        if e[0] == "agg" and e[2] == "Some":
            return m(e[3][0][1])
        if e[0] == "call" and last(e[1]) in COPY and len(e[2]) == 1:
            return f(e[2][0])
        return show_(e)
    return each_alt(f)


def none(e):
    for a in alts(n(e)):
        if not (a[0] == "agg" and a[2] == "None" or is_default(a)):
            return show_(a)
    return None


def empty(e):
    """an empty string or list, a zero or an absent value"""
    for a in alts(n(e)):
        a = strip(a)
        while a[0] in ("cast", "disc"):
            a = strip(a[1])
        if a[0] == "agg" and a[2] in ("None", "Unspecified", "DoNotUse") or is_default(a) or intval(a) == 0 or a in (("unk", "default"), ("const", "")) or a[0] == "call" and last(a[1]) in ("new", "default") and not a[2] or a == ("array", ()):
            continue
        return show_(a)
    return None


def number(k):
    return each_alt(lambda e: None if intval(n(e)) == k else show_(e))


def conv(path):
    """the value converted to the type of the field"""
    def m(e):
        e = n(e)
        for _ in range(4):
            if e[0] in ("cast", "disc"):
                e = n(e[1])
        if e[0] == "call" and last(e[1]) in ("into", "from"):
            return None if deepstrip(e) == path else show_(e)
        return show_(e)
    return each_alt(m)


CUR = [None]


def filled(e):
    """(container, value per element) of a list that a loop over a container fills"""
    q = CUR[0]
    g = q.g
    ps = [y for y in q.calls(lambda c: c.m in ("push", "push_back") and c.args) if n(g.ev(y.d.args[0], y.i)) == e]
    vals = {y.i: n(opnd(q, y, y.d.args[1])) for y in ps}
    for B in sorted({x[1] for v in vals.values() for x in walk(v) if x[0] == "elem"}, key=lambda x: len(repr(x))):
        mine = [y for y in ps if has(vals[y.i], lambda x: x == ("elem", B))]
        lits = [(s, t, l) for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and n(iter_base(l[1][2][0])) == n(iter_base(B))]
        some_, done = {t for s, t, l in lits if l[3] == ("Some",)}, {(s, t) for s, t, l in lits if l[3] == ("None",)}
        if not some_ or any(x[0] == "call" and last(x[1]) in THIN for s, t, l in lits for x in walk(l[1][2][0])):
            continue
        heads = {s for s, t, l in lits}
        SM = q.S(mine)
        if q.reach(some_, avoid=SM) & (heads | q.exits()):
            continue
        if q.reach(q.after(SM), avoid=heads) & SM:
            continue
        made = {s for y in g.nodes if y.k == "call" for s in q.S([y]) if n(g.ev_def(y.i, (), 0)) == e}
        if q.reach(made or q.entry(), cute=done) & q.exits():
            continue
        v = [vals[y.i] for y in mine]
        return B, v[0] if len(v) == 1 else ("phi", tuple(v))
    return None, "not filled from all elements of a container"


def elements(e):
    """(container, value per element) of a list made from all elements of a container; (None, why) otherwise"""
    e = n(e)
    e0 = e
    el = None
    while True:
        if e[0] == "cast" or e[0] == "agg" and last(e[1]) in ("Iter", "IntoIter") and e[3]:
            e = n(e[1] if e[0] == "cast" else e[3][0][1])
            continue
        if e[0] != "call" or not e[2]:
            break
        m = last(e[1])
        if m in THIN:
            return None, "elements may be lost: " + show_(e)
        if m in ("collect", "from_iter", "into", "from") or m in SAMEIT:
            e = n(e[2][0])
        elif m == "map":
            r = [y for x in e[2][1:] if x[0] == "clo" for y in flat(x[1])]
            if el is None:
                if r:
                    el = ("phi", tuple(r)) if len(r) > 1 else r[0]
                else:
                    fn_ = [x for x in e[2][1:] if x[0] in ("fn", "const")]
                    if not fn_ or last(str(fn_[0][1])) not in COPY:
                        return None, "elements go through " + show_(e)
                    el = ("call", str(fn_[0][1]), (("elem", strip(iter_base(e[2][0]))),), -1)
            e = n(e[2][0])
        else:
            break
    if el is None and e[0] == "call" and last(e[1]) in ("new", "with_capacity", "default"):
        return filled(e)
    return e, el if el is not None else ("elem", e)


def iter_base(e):
    e = n(e)
    while True:
        if e[0] == "cast" or e[0] == "agg" and last(e[1]) in ("Iter", "IntoIter") and e[3]:
            e = n(e[1] if e[0] == "cast" else e[3][0][1])
        elif e[0] == "call" and e[2] and (last(e[1]) in SAMEIT or last(e[1]) in ("collect", "map")):
            e = n(e[2][0])
        else:
            return e


def each(path, m):
    """one element for every element of the list at `path`; m(x) describes the element made from x"""
    def f(e):
        e = n(e)
        base, el = elements(e)
        if base is None:
            return el
        b = deepstrip(base)
        if b != path:
            return "made from " + show_(base) + " instead of " + show_(path)
        w = m(("elem", path))(el)
        return w and "element: " + w
    return each_alt(f)


def rec(adt, **fields):
    """a message of type `adt` with these fields"""
    def f(e):
        e = n(e)
        if e[0] != "agg" or not (e[1] == PROTO + adt or e[1].endswith("::" + adt)):
            return show_(e)
        d = dict(e[3])
        for k, m in fields.items():
            w = m(d[k]) if k in d else "missing"
            if w:
                return "%s is %s" % (k, w)
        return None
    f.fields = fields
    f.adt = adt
    return each_alt(f) if not fields else f


def one(m):
    """a list of one element"""
    def f(e):
        e = n(e)
        if e[0] == "call" and last(e[1]) in ("box_assume_init_into_vec_unsafe", "into_vec", "from", "into", "collect", "once", "to_vec"):
            for a in alts(n(e[2][0])):
                x = a
                if x[0] == "part":
                    x = x[2]
                if x[0] == "call" and not x[2]:
                    continue
                if x[0] != "array" or len(x[1]) != 1:
                    return show_(x)
                w = m(x[1][0])
                if w:
                    return w
            return None
        return show_(e)
    return each_alt(f)


KV = lambda x: rec("common::v1::KeyValue", key=val_of(F(x, "key")), value=some(conv(F(x, "value"))))


def kv_any(x):
    """an attribute converted as a whole, or key by key"""
    def f(e):
        return None if conv(x)(e) is None else KV(x)(e)
    return f


def attrs(path):
    def f(e):
        e = n(e)
        if e[0] == "fld" and e[2] == "0":
            e = n(e[1])
        return each(path, KV)(e)
    return each_alt(f)


def state_of(path):
    def f(e):
        e = strip(e)
        return None if called(e, "header") and deepstrip(e[2][0]) == path else show_(e)
    return each_alt(f)


def pair(*ms):
    def f(e):
        e = n(e)
        if e[0] == "call" and last(e[1]) in ("into", "from") and len(e[2]) == 1:
            e = n(e[2][0])
        if e[0] == "tuple" and len(e[1]) == len(ms):
            for a, m in zip(e[1], ms):
                w = m(a)
                if w:
                    return w
            return None
        return show_(e)
    return each_alt(f)


def opt(path):
    """the same optional value"""
    def f(e):
        e = n(e)
        if e[0] == "agg" and e[2] == "Some":
            return val_of(F(path, "Some.0"))(e[3][0][1])
        return val_of(path)(e)
    return each_alt(f)


class Conv:
    """one conversion function, run under assumptions about its input"""
    OPAQUE = ("header", "attributes_iter")

    def __init__(self, ck, p, f):
        self.ck, self.p, self.f = ck, p, f
        self.g = ck.graph(f, solid=("to_vec", "into", "from"), opaque=lambda x: x.item in self.OPAQUE or x.item == "iter" and (x.self_adt or "").endswith("::LogBatch"))

    def run(self, without=(), env=None, cut=None):
        """the result when every optional part of the input is there, except for `without`"""
        un = under_env(env, self.p) if env else None

        def off(l):
            if l[0] == "v":
                x = deepstrip(l[1])
                if l[2].endswith("option::Option"):
                    if x in without:
                        return l[3] == ("Some",)
                    if l[3] == ("None",) and given(x):
                        return not any(x == w or has(x, lambda y, w=w: y == w) for w in without)
                if l[3] == ("Err",) and (called(l[1], "duration_since") or called(l[1], "try_from") or called(l[1], "try_into")):
                    return True
            return bool(un and un(l) or cut and cut(l))
        q = Q(self.g, assume=off)
        q.deep = True
        self.q = CUR[0] = q
        return q.result_from(q.entry())

    def fields(self, nm, want, at=None, **k):
        r = self.run(**k)
        if at:
            self.built(nm, want, at)
            return r
        for a in [x for x in alts(n(r)) if x != ("never",)] or [("never",)]:
            if a[0] != "agg":
                self.ck.ob(nm, False, "the message is " + show_(a), loc(self.f))
                continue
            d = dict(a[3])
            for fld, m in want.items():
                w = m(d[fld]) if fld in d else "missing"
                self.ck.ob(nm + ":" + fld, w is None, "the %s sent is %s" % (fld, w), loc(self.f))
        return r


    def built(self, nm, want, adt):
        """the fields of the message of this type made on the way"""
        q = self.q
        ns = q.aggs(PROTO + adt)
        self.ck.ob(nm + ":built", bool(ns), "no %s is made" % adt, loc(self.f))
        for x in ns:
            for fld, m in want.items():
                fs = x.d[1][1]["f"]
                w = m(opnd(q, x, x.d[1][2][fs.index(fld)])) if fld in fs else "missing"
                self.ck.ob(nm + ":" + fld, w is None, "the %s sent is %s" % (fld, w), self.g.loc(x.i))


def complete(ck, p, adt, want, nm):
    """the specification covers all fields of the message"""
    fs = [x[0] if isinstance(x, (list, tuple)) else x for x in p.adts[PROTO + adt]["v"][0]["f"]]
    miss = sorted(set(fs) - set(want))
    ck.ob(nm + ":all-fields", not miss, "fields without a rule: %s" % miss, adt)


def conversion(ck, p, adt, arg, trait="From"):
    """the conversion into a message from an argument of this type"""
    out = []
    for im in p.impls:
        if im["crate"] == "opentelemetry_proto" and (im.get("trait") or "").split("::")[-1] == trait and im["self_ty"].adt and (im["self_ty"].adt == PROTO + adt or im["self_ty"].adt.endswith("::" + adt)):
            f = p.fns[list(im["items"].values())[0]]
            if str(f.local_ty(1)).replace("Ty(", "")[:-1].endswith(arg):
                out.append(f)
    return ck.one(out, "conversion of %s into %s" % (arg, adt))


def span_fields(s):
    c = F(s, "span_context")
    return dict(
        trace_id=bytes_of(F(c, "trace_id")), span_id=bytes_of(F(c, "span_id")), trace_state=state_of(F(c, "trace_state")), parent_span_id=bytes_of(F(s, "parent_span_id")),
        flags=num_of(F(c, "trace_flags", "0")), name=val_of(F(s, "name")), kind=conv(F(s, "span_kind")), start_time_unix_nano=nanos_of(F(s, "start_time")), end_time_unix_nano=nanos_of(F(s, "end_time")),
        attributes=attrs(F(s, "attributes")), dropped_attributes_count=num_of(F(s, "dropped_attributes_count")),
        events=each(F(s, "events", "events"), event_any), dropped_events_count=num_of(F(s, "events", "dropped_count")),
        links=each(F(s, "links", "links"), conv), dropped_links_count=num_of(F(s, "links", "dropped_count")))


EVENT = lambda x: dict(time_unix_nano=nanos_of(F(x, "timestamp")), name=val_of(F(x, "name")), attributes=attrs(F(x, "attributes")), dropped_attributes_count=num_of(F(x, "dropped_attributes_count")))


def event_any(x):
    def f(e):
        return None if conv(x)(e) is None else rec("span::Event", **EVENT(x))(e)
    return f


def no_parent(s):
    """the literal that the parent is not / is the invalid id"""
    P = F(s, "parent_span_id")

    def lit(l, eq):
        r = eq_lit(l, lambda x: deepstrip(x) in (P, F(P, "0")), lambda x: zero(x))
        return r is eq
    return lit


def zero(x):
    x = n(x)
    return intval(x) == 0 or x[0] == "const" and "(0_u64)" in str(x[1]) or x[0] == "agg" and len(x[3]) == 1 and intval(x[3][0][1]) == 0


STATUS = {"Unset": "Unset", "Ok": "Ok", "Error": "Error"}


def variant_is(v):
    def f(e):
        e = n(e)
        for _ in range(4):
            if e[0] in ("cast", "disc"):
                e = n(e[1])
            if e[0] == "call" and last(e[1]) in ("into", "from") and len(e[2]) == 1:
                e = n(e[2][0])
        if e[0] == "const" and last(str(e[1])) == v:
            return None
        return None if e[0] == "agg" and e[2] == v and e[1].startswith(PROTO) else show_(e)
    return each_alt(f)


def spans(ck, p):
    roots = [("span", conversion(ck, p, "trace::v1::Span", "SpanData"), A0, None),
             ("resource-span", ck.one(p.method(PROTO + "trace::v1::ResourceSpans", "new"), "ResourceSpans::new"), A0, "trace::v1::Span")]
    for nm, f, s, get in roots:
        c = Conv(ck, p, f)
        lit = no_parent(s)
        want = span_fields(s)
        c.fields(nm, want, at=get, cut=lambda l: lit(l, True))
        complete(ck, p, "trace::v1::Span", set(want) | {"status"}, nm)
        c.fields(nm + ":root", dict(parent_span_id=lambda e: empty(e) and bytes_of(F(s, "parent_span_id"))(e)), at=get, cut=lambda l: lit(l, False))
        c.fields(nm + ":no-state", dict(trace_state=lambda e: empty(e) and state_of(F(s, "span_context", "trace_state"))(e)), at=get, without=(F(s, "span_context", "trace_state", "0"),))
        for v, w in STATUS.items():
            st = F(s, "status")
            env = lambda e, v=v: V(v) if deepstrip(e) == st else None
            msg = val_of(F(st, "Error.description")) if v == "Error" else empty
            c.fields("%s:status-%s" % (nm, v), dict(status=some(rec("trace::v1::Status", code=variant_is(w), message=msg))), at=get, env=env)
    # the resource and the scope of a single span
    nm, f, s, get = roots[1]
    c = Conv(ck, p, f)
    c.fields("resource-span", dict(resource=some(rec("resource::v1::Resource", attributes=val_of(F(A1, "attributes", "0")))), schema_url=val_of(F(A1, "schema_url", "Some.0"))))
    c.fields("resource-span:scope", dict(scope=some(pair(val_of(F(s, "instrumentation_scope")), none)), schema_url=val_of(F(s, "instrumentation_scope", "schema_url", "Some.0"))), at="trace::v1::ScopeSpans")
    c.fields("resource-span:plain", dict(schema_url=empty), without=(F(A1, "schema_url"),))
    # links, kinds, statuses
    f = conversion(ck, p, "span::Link", "Link")
    L = F(A0, "span_context")
    want = dict(trace_id=bytes_of(F(L, "trace_id")), span_id=bytes_of(F(L, "span_id")), trace_state=state_of(F(L, "trace_state")), attributes=attrs(F(A0, "attributes")),
                dropped_attributes_count=num_of(F(A0, "dropped_attributes_count")), flags=num_of(F(L, "trace_flags", "0")))
    Conv(ck, p, f).fields("link", want)
    complete(ck, p, "trace::v1::span::Link", want, "link")
    table(ck, p, "span-kind", conversion(ck, p, "span::SpanKind", "SpanKind"), "opentelemetry::trace::span::SpanKind", "trace::v1::span::SpanKind", {"Internal": 1, "Server": 2, "Client": 3, "Producer": 4, "Consumer": 5})
    table(ck, p, "status-code", conversion(ck, p, "status::StatusCode", "Status"), "opentelemetry::trace::span::Status", "trace::v1::status::StatusCode", {"Unset": 0, "Ok": 1, "Error": 2})


def table(ck, p, nm, f, src, dst, nums_):
    """every variant of `src` is turned into the variant of the same name, whose number on the wire is as standardised"""
    c = Conv(ck, p, f)
    vs = {v["n"] for v in p.adts[src]["v"]}
    for v in vs:
        r = c.run(env=lambda e: V(v) if deepstrip(e) == A0 else None)
        w = variant_is(v)(r)
        ck.ob("%s:%s" % (nm, v), w is None, "%s becomes %s" % (v, w), loc(f))
    have = {v["n"]: v["d"] for v in p.adts[PROTO + dst]["v"]}
    for v, k in nums_.items():
        ck.ob("%s:number-%s" % (nm, v), have.get(v) == k, "%s is sent as %s" % (v, have.get(v)), loc(f))
    ck.count("table entries", len(vs))


def scopes(ck, p):
    k = 0
    for im in p.impls:
        if im["crate"] == "opentelemetry_proto" and (im.get("trait") or "").split("::")[-1] == "From" and (im["self_ty"].adt or "") == PROTO + "common::v1::InstrumentationScope":
            f = p.fns[list(im["items"].values())[0]]
            k += 1
            c = Conv(ck, p, f)
            s = F(A0, "0")
            c.fields("scope-%d" % k, dict(name=val_of(F(s, "name")), version=val_of(F(s, "version", "Some.0")), attributes=attrs(F(s, "attributes"))), without=(F(A0, "1"),))
            c.fields("scope-%d:plain" % k, dict(name=val_of(F(s, "name")), version=empty), without=(F(A0, "1"), F(s, "version")))
            c.fields("scope-%d:target" % k, dict(name=val_of(F(A0, "1", "Some.0"))))
    ck.floor("scope conversions", 2, k)
    ck.count("scope conversions", k)
    # resources
    f = conversion(ck, p, "ResourceAttributesWithSchema", "Resource")
    c = Conv(ck, p, f)
    RA = F(A0, "inner", "attrs")
    res_kv = lambda x: rec("KeyValue", key=val_of(F(x, "0")), value=val_of(F(x, "1")))
    c.fields("resource-attributes", dict(attributes=each(RA, res_kv), schema_url=some(val_of(F(A0, "inner", "schema_url", "Some.0")))))
    c.fields("resource-attributes:plain", dict(schema_url=none), without=(F(A0, "inner", "schema_url"),))
    f = conversion(ck, p, "Attributes", "I")
    Conv(ck, p, f).fields("attributes", {"0": each(A0, KV)})
    # values
    f = conversion(ck, p, "common::v1::AnyValue", "common::Value")
    c = Conv(ck, p, f)
    for v, w in (("Bool", "BoolValue"), ("I64", "IntValue"), ("F64", "DoubleValue"), ("String", "StringValue")):
        env = lambda e, v=v: V(v) if deepstrip(e) == A0 else None
        c.fields("value:" + v, dict(value=some(alt_of("any_value::Value", w, val_of(F(A0, v + ".0"))))), env=env)
    for v in ("Bool", "I64", "F64", "String"):
        arr = F(A0, "Array.0")
        env = lambda e, v=v: V("Array") if deepstrip(e) == A0 else V(v) if deepstrip(e) == arr else None
        c.fields("value:Array-" + v, dict(value=some(alt_of("any_value::Value", "ArrayValue", rec("ArrayValue", values=each(F(arr, v + ".0"), same_or_conv))))), env=env)
    f = conversion(ck, p, "common::v1::AnyValue", "record::AnyValue")
    Conv(ck, p, f).fields("log-value", dict(value=some(conv(A0))))
    f = conversion(ck, p, "any_value::Value", "record::AnyValue")
    c = Conv(ck, p, f)
    any_ = lambda x: (lambda e: None if conv(x)(e) is None else rec("AnyValue", value=some(conv(x)))(e))
    kv = lambda x: rec("KeyValue", key=val_of(F(x, "0")), value=some(any_(F(x, "1"))))
    ALL = {"Int": ("IntValue", None), "Double": ("DoubleValue", None), "String": ("StringValue", None), "Boolean": ("BoolValue", None), "Bytes": ("BytesValue", None), "ListAny": ("ArrayValue", any_), "Map": ("KvlistValue", kv)}
    vs = {v["n"] for v in p.adts["opentelemetry::logs::record::AnyValue"]["v"]}
    ck.ob("log-value:kinds", vs == set(ALL), "kinds of log values without a rule: %s" % sorted(vs ^ set(ALL)), loc(f))
    for v, (w, el) in ALL.items():
        env = lambda e, v=v: V(v) if deepstrip(e) == A0 else None
        r = c.run(env=env)
        x = F(A0, v + ".0")
        if el is None:
            m = val_of_in(x)
        else:
            m = lambda e: rec("ArrayValue" if v == "ListAny" else "KeyValueList", values=lambda y: each(x, el)(y) and each(F(x, "0"), el)(y))(e)
        why = alt_of("any_value::Value", w, m)(r)
        ck.ob("log-value:" + v, why is None, "a %s is sent as %s" % (v, why), loc(f))


def val_of_in(x):
    """the value or what its box holds"""
    return lambda e: val_of(x)(e) and val_of(F(x, "0"))(e)


def same_or_conv(x):
    def f(e):
        e = n(e)
        if deepstrip(e) == x:
            return None
        return show_(e)
    return each_alt(f)


def alt_of(adt, variant, m):
    def f(e):
        e = n(e)
        if e[0] == "agg" and e[1].endswith("::" + adt) and e[2] == variant and e[3]:
            return m(e[3][0][1])
        return show_(e)
    return each_alt(f)


SEV = {s + k: i * 4 + (int(k) if k else 1) for i, s in enumerate(("Trace", "Debug", "Info", "Warn", "Error", "Fatal")) for k in ("", "2", "3", "4")}


def logs(ck, p):
    f = conversion(ck, p, "logs::v1::LogRecord", "SdkLogRecord")
    c = Conv(ck, p, f)
    T = F(A0, "trace_context", "Some.0")
    it = lambda e: called(strip(e), "attributes_iter") and deepstrip(strip(e)[2][0]) == A0
    any_ = lambda x: rec("AnyValue", value=some(conv(x)))

    def attributes(e):
        base, el = elements(n(e))
        if base is None:
            return el
        if not it(base):
            return "made from " + show_(base)
        x = ("elem", deepstrip(base))
        return rec("KeyValue", key=val_of(F(x, "0")), value=some(lambda v: any_(F(x, "1"))(v) and conv(F(x, "1"))(v)))(el)
    want = dict(time_unix_nano=nanos_of(F(A0, "timestamp", "Some.0")), observed_time_unix_nano=nanos_of(F(A0, "observed_timestamp", "Some.0")), attributes=each_alt(attributes), event_name=val_of(F(A0, "event_name", "Some.0")),
                severity_text=val_of(F(A0, "severity_text", "Some.0")), body=some(conv(F(A0, "body", "Some.0"))), dropped_attributes_count=number(0), flags=num_of(F(T, "trace_flags", "Some.0", "0")),
                span_id=bytes_of(F(T, "span_id")), trace_id=bytes_of(F(T, "trace_id")))
    c.fields("log", want)
    complete(ck, p, "logs::v1::LogRecord", set(want) | {"severity_number"}, "log")
    for src, flds in (("timestamp", ("time_unix_nano",)), ("event_name", ("event_name",)), ("severity_text", ("severity_text",)), ("body", ("body",)), ("trace_context", ("flags", "span_id", "trace_id")), ("severity_number", ("severity_number",))):
        m = {k: (variant_is("Unspecified") if k == "severity_number" else empty) for k in flds}
        # the other fields stay as they are
        m.update({k: v for k, v in want.items() if k not in flds})
        c.fields("log:no-" + src, m, without=(F(A0, src),))
    vs = {v["n"]: v["d"] for v in p.adts[PROTO + "logs::v1::SeverityNumber"]["v"]}
    src = {v["n"]: v["d"] for v in p.adts["opentelemetry::logs::record::Severity"]["v"]}
    ck.ob("severity:kinds", set(src) == set(SEV), "severities: %s" % sorted(set(src) ^ set(SEV)), loc(f))
    for v, k in SEV.items():
        sv = F(A0, "severity_number")
        env = lambda e, v=v: V("Some") if deepstrip(e) == sv else V(v) if deepstrip(e) == F(sv, "Some.0") else None
        c.fields("severity:" + v, dict(severity_number=variant_is(v)), env=env)
        ck.ob("severity:number-" + v, vs.get(v) == k and src.get(v) == k, "the severity %s is sent as %s" % (v, vs.get(v)), loc(f))
    f = conversion(ck, p, "logs::v1::ResourceLogs", "ResourceAttributesWithSchema)")
    c = Conv(ck, p, f)
    R, S, LR = F(A0, "1"), F(A0, "0", "1"), F(A0, "0", "0")
    c.fields("resource-log", dict(resource=some(rec("resource::v1::Resource", attributes=val_of(F(R, "attributes", "0")))), schema_url=val_of(F(R, "schema_url", "Some.0"))))
    c.fields("resource-log:scope", dict(scope=some(pair(val_of(S), opt(F(LR, "target")))), schema_url=val_of(F(S, "schema_url", "Some.0")), log_records=one(conv(LR))), at="logs::v1::ScopeLogs")


def grouped(ck, p, nm, fname, batch, parts_, msg, listf, target):
    """every element of the batch is sent once, with the others of its scope"""
    f = ck.one([x for x in p.fns.values() if x.item == fname and x.parent is None and x.crate == "opentelemetry_proto"], fname)
    c = Conv(ck, p, f)
    r = c.run()
    q, g = c.q, c.g
    S = lambda x: F(x, *parts_["scope"])
    T = (lambda x: F(x, *parts_["target"])) if target else None
    R = lambda x: F(x, *parts_["item"]) if parts_["item"] else x
    # each element of the batch is put into the list of its scope
    pushes = [y for y in q.calls(lambda c_: c_.m == "push") if has(g.ev(y.d.args[0], y.i), lambda e: called(e, "entry"))]
    ck.ob(nm + ":kept", len(pushes) == 1, "%d places keep the elements" % len(pushes), loc(f))
    maps = set()
    whole_item = False
    for y in pushes:
        at = [x for x in walk(g.ev(y.d.args[0], y.i)) if called(x, "entry")][0]
        maps.add(n(at[2][0]))
        x = ("elem", batch)
        keyw = pair(val_of(S(x)), lambda e: opt(T(x))(e))(at[2][1]) if target else val_of(S(x))(at[2][1])
        ck.ob(nm + ":scope-key", keyw is None, "elements are kept under " + str(keyw), g.loc(y.i))
        v = g.ev(y.d.args[1], y.i)
        whole_item = val_of(x)(v) is None or n(v)[0] == "tuple" and val_of(R(x))(n(v)[1][0]) is None
        ck.ob(nm + ":element", whole_item or val_of(R(x))(v) is None, "what is kept is " + show_(v), g.loc(y.i))
    base = lambda e: deepstrip(iter_base(strip(e)))
    w = None
    loops = [y for y in q.calls(lambda c_: c_.m in ("next", "fold", "for_each", "try_for_each") and c_.args) if base(g.ev(y.d.args[0], y.i)) == batch]
    SP = q.S(pushes)
    ck.ob(nm + ":all-of-batch", len(loops) == 1, "%d loops over the batch" % len(loops), loc(f))
    for y in loops:
        if y.d.clo:
            w = None if any(region(q, y, b) & SP for _, b in y.d.clo) and not any(closure_skips(q, y, b, SP) for _, b in y.d.clo) else "an element is skipped"
        else:
            some_ = {t for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and base(l[1][2][0]) == batch and l[3] == ("Some",)}
            done = {(s, t) for s, lab, t, l in q.literals() if l[0] == "v" and called(l[1], "next") and base(l[1][2][0]) == batch and l[3] == ("None",)}
            rr = q.reach(some_, avoid=SP)
            w = "an element is skipped" if rr & (q.S([y]) | q.exits()) else None
            w = w or ("the loop is left early" if q.reach(q.entry(), cute=done) & q.exits() else None)
        ck.ob(nm + ":every-element", w is None, str(w), g.loc(y.i))
        a = g.ev(y.d.args[0], y.i)
        ck.ob(nm + ":no-filter", not any(x[0] == "call" and last(x[1]) in THIN for x in walk(a)), "the batch is thinned out: " + show_(a), g.loc(y.i))
    # every list becomes one message
    for adt, want in ((msg[0], dict(resource=some(rec("resource::v1::Resource", attributes=val_of(F(A1, "attributes", "0")))), schema_url=val_of(F(A1, "schema_url", "Some.0")))),):
        c.built(nm + ":resource", want, adt)
    q = c.q
    for y in q.aggs(PROTO + msg[0]):
        d = dict(zip(y.d[1][1]["f"], y.d[1][2]))
        b, el = elements(opnd(q, y, d[msg[2]]))
        from_map = lambda e: any(n(z) in maps for z in walk(n(e)))
        ck.ob(nm + ":all-scopes", b is not None and from_map(b), "the scopes sent are " + (el if b is None else show_(b)), g.loc(y.i))
    w = one(rec(msg[0]))(r)
    ck.ob(nm + ":one-resource", w is None, "the result is " + str(w), loc(f))

    def entry_part(e, i):
        """part i of an entry of the map of lists: 0 the key, 1 the list"""
        e = strip(e)
        path = []
        while e[0] == "fld":
            path.append(e[2])
            e = strip(e[1])
        return e[0] == "elem" and any(n(z) in maps for z in walk(n(e[1]))) and path and path[-1] == str(i) and list(reversed(path[:-1]))
    for y in q.aggs(PROTO + msg[1]):
        d = {k: opnd(q, y, o) for k, o in zip(y.d[1][1]["f"], y.d[1][2])}
        b, el = elements(d[listf])
        okb = b is not None and entry_part(b, 1) == []
        ck.ob(nm + ":list", okb, "the list sent is " + (el if b is None else show_(b)), g.loc(y.i))
        if okb:
            x = n(el)
            okx = x[0] == "call" and last(x[1]) in ("into", "from") and len(x[2]) == 1
            it = strip(x[2][0]) if okx else x
            pth = []
            while it[0] == "fld":
                pth.append(it[2])
                it = strip(it[1])
            okx = okx and it[0] == "elem" and entry_part(it[1], 1) == [] and (pth == [] or pth == ["0"] and whole_item)
            ck.ob(nm + ":converted", okx, "the elements sent are " + show_(el), g.loc(y.i))
        okS = lambda e: entry_part(e, 0) == (["0"] if target else [])
        sc = some(lambda e: None if n(e)[0] == "call" and n(n(e)[2][0])[0] == "tuple" and okS(n(n(e)[2][0])[1][0]) and (none(n(n(e)[2][0])[1][1]) is None if not target else entry_part(n(n(e)[2][0])[1][1], 0) == ["1"]) else show_(e))(d["scope"])
        ck.ob(nm + ":scope", sc is None, "the scope sent is " + str(sc), g.loc(y.i))
        su = deepstrip(d["schema_url"])
        oks = su[0] == "fld" and su[2] == "Some.0" and su[1][0] == "fld" and su[1][2] == "schema_url" and okS(su[1][1])
        ck.ob(nm + ":schema", oks, "the schema URL of a scope is " + show_(su), g.loc(y.i))
    ck.floor(nm + " messages", 2, len(q.aggs(PROTO + msg[0])) + len(q.aggs(PROTO + msg[1])))
    ck.count(nm + " messages", len(q.aggs(PROTO + msg[0])) + len(q.aggs(PROTO + msg[1])))


def batch_iter(ck, p):
    """a batch of logs yields every record with its scope, once, in order"""
    B = "opentelemetry_sdk::logs::export::"
    f = ck.one([p.fns[im["items"]["next"]] for im in p.impls if (im.get("trait") or "").endswith("::Iterator") and (im["self_ty"].adt or "") == B + "LogBatchDataIter"], "iterator over a batch of logs")
    for v in ("SliceOfOwnedData", "SliceOfBorrowedData"):
        D, I = F(A0, "data", v + ".0"), F(A0, "index")
        for more in (True, False):
            def env(e, more=more, v=v):
                e = n(e)
                if e == F(A0, "data"):
                    return V(v)
                if e == I:
                    return 3 if more else 4
                if e[0] == "call" and last(e[1]) == "len" and n(e[2][0]) == D or e[0] == "len" and n(e[1]) == D or e[0] == "un" and n(e[2]) == D:
                    return 4
                if called(e, "get") and n(e[2][0]) == D and n(e[2][1]) == I:
                    return V("Some" if more else "None")
                return None
            q = Q(ck.graph(f), assume=under_env(env, p))
            r = n(q.result_from(q.entry()))
            nm = "batch:%s:%s" % (v, "more" if more else "end")
            if more:
                okr = [a for a in alts(r) if a != ("never",)]
                good = bool(okr)
                for a in okr:
                    t = n(a[3][0][1]) if a[0] == "agg" and a[2] == "Some" else ("?",)
                    good = good and t[0] == "tuple" and [at_index(q, x, D, I) for x in t[1]] == ["0", "1"]
                ck.ob(nm, good, "the next element is " + show_(r), loc(f))
                st = [(y, x) for y, pth, x in stores(q) if pth == I]
                par = {}
                rr = q.reach(q.entry(), avoid=q.S([y for y, x in st]), back=par)
                ck.ob(nm + ":advance", bool(st) and not (rr & q.exits()) and all(plus_one(x, I) for y, x in st) and not any(q.can_follow(a[0], b[0]) for a in st for b in st if a is not b), "the position becomes %s" % [show_(x) for y, x in st], loc(f))
            else:
                ck.ob(nm, all(a[0] == "agg" and a[2] == "None" or a == ("never",) for a in alts(r)), "past the end there is " + show_(r), loc(f))
    for m, v in (("new", "SliceOfBorrowedData"), ("new_with_owned_data", "SliceOfOwnedData")):
        f = ck.one(p.method(B + "LogBatch", m), m)
        w = rec("LogBatch", data=alt_of("LogBatchData", v, val_of(A0)))(Q(ck.graph(f)).results())
        ck.ob("batch:" + m, w is None, "a new batch holds " + str(w), loc(f))
    f = ck.one(p.method(B + "LogBatch", "iter"), "iter")
    w = rec("LogBatchDataIter", data=val_of(F(A0, "data")), index=number(0))(Q(ck.graph(f)).results())
    ck.ob("batch:iter", w is None, "the iterator is " + str(w), loc(f))


def at_index(q, x, D, I):
    """x is a part of D[I]: which"""
    x = n(x)
    if x[0] != "fld":
        return None
    k, b = x[2], strip(x[1])
    if b[0] == "fld" and b[2] == "0":
        b = strip(b[1])     # behind a box
    if b[0] == "fld" and b[2] == "Some.0" and called(b[1], "get") and n(b[1][2][0]) == D and n(b[1][2][1]) == I:
        return k
    if b[0] == "nth" and n(b[1]) == D and n(b[2]) == I:
        return k
    if b[0] == "elem" and n(b[1]) == D:
        # the index is the one checked against the length
        at = [q.g.ev(y.d[1][2], y.i) for y in q.assigns(lambda rv: rv[0] == "bin" and rv[1] == "Lt") if is_len(n(q.g.ev(y.d[1][3], y.i)), {D})]
        return k if at and all(n(a) == I for a in at) else None
    return None


def as_is(path):
    """the value given to the conversion of its type"""
    return lambda e: None if conv(path)(e) is None else val_of(path)(e)


def metric_msgs(ck, p):
    """the messages of metrics, their points and exemplars"""
    DP = F(A0, "data_points")
    ex = lambda x: each(F(x, "exemplars"), conv)
    at = lambda x: each(F(x, "attributes"), kv_any)
    number_point = lambda s, start: (lambda x: rec("NumberDataPoint", attributes=at(x), exemplars=ex(x), flags=empty, value=some(as_is(F(x, "value"))), time_unix_nano=nanos_of(F(s, "time")), start_time_unix_nano=nanos_of(start)))
    hist_common = lambda x: dict(attributes=at(x), start_time_unix_nano=nanos_of(F(A0, "start_time")), time_unix_nano=nanos_of(F(A0, "time")), count=num_of(F(x, "count")), sum=some(num_of(F(x, "sum"))),
                                 exemplars=ex(x), flags=empty)
    ext = lambda x: dict(min=some(num_of(F(x, "min", "Some.0"))), max=some(num_of(F(x, "max", "Some.0"))))
    bk = lambda b: some(rec("Buckets", offset=num_of(F(b, "offset")), bucket_counts=val_of(F(b, "counts"))))
    hist = lambda x: dict(hist_common(x), bucket_counts=val_of(F(x, "bucket_counts")), explicit_bounds=val_of(F(x, "bounds")))
    expo = lambda x: dict(hist_common(x), scale=num_of(F(x, "scale")), zero_count=num_of(F(x, "zero_count")), positive=bk(F(x, "positive_bucket")), negative=bk(F(x, "negative_bucket")), zero_threshold=val_of(F(x, "zero_threshold")))
    M = "metrics::v1::"
    X = ("elem", DP)
    kinds = (("Sum", "NumberDataPoint", number_point(A0, F(A0, "start_time"))), ("Gauge", "NumberDataPoint", number_point(A0, F(A0, "start_time", "Some.0"))),
             ("Histogram", "HistogramDataPoint", lambda x: rec("HistogramDataPoint", **dict(hist(x), **ext(x)))), ("ExponentialHistogram", "ExponentialHistogramDataPoint", lambda x: rec("ExponentialHistogramDataPoint", **dict(expo(x), **ext(x)))))
    for k, pt, m in kinds:
        f = conversion(ck, p, M + k, "data::%s<T>" % k)
        c = Conv(ck, p, f)
        nm = "metric:" + k
        want = dict(data_points=each(DP, m))
        if k == "Sum":
            want["is_monotonic"] = val_of(F(A0, "is_monotonic"))
        c.fields(nm, want)
        complete(ck, p, M + k, set(want) | {"aggregation_temporality"}, nm)
        spec = m(X)
        complete(ck, p, M + pt, spec.fields, nm + ":point")
        c.built(nm + ":point", spec.fields, M + pt)
        if k != "Gauge":
            for t in ("Cumulative", "Delta"):
                env = lambda e, t=t: V(t) if deepstrip(e) == F(A0, "temporality") else None
                c.fields("%s:%s" % (nm, t), dict(aggregation_temporality=lambda e, t=t: conv(F(A0, "temporality"))(e) and variant_is(t)(e)), env=env)
        for o in ("min", "max") if "Histogram" in k else ():
            c.run(without=(F(X, o),))
            c.built("%s:point:no-%s" % (nm, o), {o: none, **{y: z for y, z in spec.fields.items() if y != o}}, M + pt)
        if k == "Gauge":
            c.run(without=(F(A0, "start_time"),))
            c.built(nm + ":point:no-start", dict(start_time_unix_nano=empty), M + pt)
    f = conversion(ck, p, M + "Exemplar", "data::Exemplar<T>")
    pair_kv = lambda x: (lambda e: pair(val_of(F(x, "key")), val_of(F(x, "value")))(e) and kv_any(x)(e))
    want = dict(filtered_attributes=each(F(A0, "filtered_attributes"), pair_kv), time_unix_nano=nanos_of(F(A0, "time")), span_id=val_of(F(A0, "span_id")), trace_id=val_of(F(A0, "trace_id")), value=some(as_is(F(A0, "value"))))
    Conv(ck, p, f).fields("exemplar", want)
    complete(ck, p, M + "Exemplar", want, "exemplar")
    # the number is sent in the form of its type
    for t in ("exemplar::Value", "number_data_point::Value"):
        for a, v in (("u64", "AsInt"), ("i64", "AsInt"), ("f64", "AsDouble")):
            f = conversion(ck, p, t, a)
            r = Conv(ck, p, f).run()
            m = lambda e: num_of(A0)(e) if a != "u64" else (None if n(e)[0] == "fld" and n(e)[2] == "Ok.0" and called(n(e)[1], "try_from") and n(n(e)[1][2][0]) == A0 else show_(e))
            w = alt_of(t, v, each_alt(m))(r)
            ck.ob("number:%s:%s" % (t, a), w is None, "a %s is sent as %s" % (a, w), loc(f))
    for t in ("u64", "i64", "f64"):
        f = ck.one([p.fns[im["items"]["into_f64"]] for im in p.impls if (im.get("trait") or "").endswith("tonic::Numeric") and str(im["self_ty"]) == "Ty(%s)" % t], "into_f64 of " + t)
        r = Q(ck.graph(f)).results()
        ck.ob("number:f64:" + t, num_of(A0)(r) is None, "a %s becomes %s" % (t, show_(r)), loc(f))
    # attributes
    f = conversion(ck, p, "common::v1::KeyValue", "Key, &opentelemetry::common::Value)")
    Conv(ck, p, f).fields("attribute", dict(key=val_of(F(A0, "0")), value=some(conv(F(A0, "1")))))
    f = conversion(ck, p, "common::v1::KeyValue", "common::KeyValue")
    Conv(ck, p, f).fields("attribute-kv", dict(key=val_of(F(A0, "key")), value=some(conv(F(A0, "value")))))
    f = conversion(ck, p, "metrics::v1::AggregationTemporality", "Temporality")
    c = Conv(ck, p, f)
    for t in ("Cumulative", "Delta"):
        w = variant_is(t)(c.run(env=lambda e: V(t) if deepstrip(e) == A0 else None))
        ck.ob("temporality:" + t, w is None, "%s becomes %s" % (t, w), loc(f))
    have = {v["n"]: v["d"] for v in p.adts[PROTO + M + "AggregationTemporality"]["v"]}
    ck.ob("temporality:numbers", (have.get("Delta"), have.get("Cumulative")) == (1, 2), "temporalities are sent as %s" % have, loc(f))
    # the tree
    f = conversion(ck, p, "ExportMetricsServiceRequest", "ResourceMetrics")
    c = Conv(ck, p, f)
    want = dict(resource=some(conv(F(A0, "resource"))), scope_metrics=each(F(A0, "scope_metrics"), conv), schema_url=val_of(F(A0, "resource", "inner", "schema_url", "Some.0")))
    c.fields("request", want, at=M + "ResourceMetrics")
    c.fields("request:tree", dict(resource_metrics=one(rec("v1::ResourceMetrics"))))
    c.fields("request:plain", dict(schema_url=empty), at=M + "ResourceMetrics", without=(F(A0, "resource", "inner", "schema_url"),))
    f = conversion(ck, p, "resource::v1::Resource", "resource::Resource")
    Conv(ck, p, f).fields("request:resource", dict(attributes=each(F(A0, "inner", "attrs"), conv_pair)))
    f = conversion(ck, p, M + "ScopeMetrics", "data::ScopeMetrics")
    c = Conv(ck, p, f)
    c.fields("scope-metrics", dict(scope=some(pair(val_of(F(A0, "scope")), none)), metrics=each(F(A0, "metrics"), conv), schema_url=val_of(F(A0, "scope", "schema_url", "Some.0"))))
    c.fields("scope-metrics:plain", dict(schema_url=empty), without=(F(A0, "scope", "schema_url"),))
    f = conversion(ck, p, M + "Metric", "data::Metric")
    c = Conv(ck, p, f)
    for v in ("F64", "U64", "I64"):
        env = lambda e, v=v: V(v) if deepstrip(e) == F(A0, "data") else None
        c.fields("metric:of-" + v, dict(name=val_of(F(A0, "name")), description=val_of(F(A0, "description")), unit=val_of(F(A0, "unit")), data=some(conv(F(A0, "data", v + ".0")))), env=env)
    f = conversion(ck, p, "metric::Data", "MetricData<T>")
    c = Conv(ck, p, f)
    for v in ("Gauge", "Sum", "Histogram", "ExponentialHistogram"):
        w = alt_of("metric::Data", v, conv(F(A0, v + ".0")))(c.run(env=lambda e: V(v) if deepstrip(e) == A0 else None))
        ck.ob("metric:kind-" + v, w is None, "a %s is sent as %s" % (v, w), loc(f))


def conv_pair(x):
    return lambda e: conv(x)(e) and pair(val_of(F(x, "0")), val_of(F(x, "1")))(e)


def zpages(ck, p):
    c_ = F(A0, "span_context")
    ev = each(F(A0, "events", "events"), event_any)
    base = dict(traceid=bytes_of(F(c_, "trace_id")), spanid=bytes_of(F(c_, "span_id")), parentid=bytes_of(F(A0, "parent_span_id")), starttime=nanos_of(F(A0, "start_time")), attributes=attrs(F(A0, "attributes")),
                events=ev, links=each(F(A0, "links", "links"), conv))
    for m, more in (("LatencyData", dict(endtime=nanos_of(F(A0, "end_time")))), ("RunningData", {}), ("ErrorData", {})):
        f = conversion(ck, p, "tracez::v1::" + m, "SpanData")
        c = Conv(ck, p, f)
        c.fields("tracez:" + m, dict(base, **more))
        complete(ck, p, "tracez::v1::" + m, set(base) | set(more) | ({"status"} if m == "ErrorData" else set()), "tracez:" + m)
        if m == "ErrorData":
            st = F(A0, "status")
            for v in STATUS:
                want = some(rec("trace::v1::Status", code=number(2), message=val_of(F(st, "Error.description")))) if v == "Error" else none
                c.fields("tracez:status-" + v, dict(status=want), env=lambda e, v=v: V(v) if deepstrip(e) == st else None)
    f = conversion(ck, p, "span::Event", "trace::Event")
    Conv(ck, p, f).fields("event", EVENT(A0))
    complete(ck, p, "trace::v1::span::Event", EVENT(A0), "event")


def check(ck):
    ck.rule("every field of every OTLP message is given the value of the same field of the telemetry it is made from (decided per field from the value the code computes, under each variant of the input), and every list is made from all elements of its source")
    p = ck.program("all")
    spans(ck, p)
    scopes(ck, p)
    logs(ck, p)
    batch_iter(ck, p)
    metric_msgs(ck, p)
    zpages(ck, p)
    grouped(ck, p, "spans", "group_spans_by_resource_and_scope", A0, {"scope": ("instrumentation_scope",), "item": ()}, ("trace::v1::ResourceSpans", "trace::v1::ScopeSpans", "scope_spans"), "spans", False)
    grouped(ck, p, "logs", "group_logs_by_resource_and_scope", A0, {"scope": ("1",), "item": ("0",), "target": ("0", "target")}, ("logs::v1::ResourceLogs", "logs::v1::ScopeLogs", "scope_logs"), "log_records", True)
