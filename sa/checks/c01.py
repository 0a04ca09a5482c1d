"""Deriving a context changes only the item that is set."""
from checks.util import *

TITLE = "Deriving a context changes only the item that is set"
FLOOR = 40

# public way to derive a context -> (field that may differ, kind of base)
DERIVE = [
    ("with_value", None, "entries", "self"),
    ("current_with_value", None, "entries", "current"),
    ("with_telemetry_suppressed", None, "suppress_telemetry", "self"),
    ("with_span", "TraceContextExt", "span", "self"),
    ("current_with_span", "TraceContextExt", "span", "current"),
    ("with_remote_span_context", "TraceContextExt", "span", "self"),
    ("with_baggage", "BaggageExt", "entries", "self"),
    ("current_with_baggage", "BaggageExt", "entries", "current"),
    ("with_cleared_baggage", "BaggageExt", "entries", "self"),
    ("clone", "Clone", None, "self"),
    ("current", None, None, "current"),
]


def is_current(e):
    return e[0] == "fld" and e[2] == "current_cx" and rooted(e, lambda r: r[0] in ("static", "const"))


def base_field(e, name, base):
    """e is <base context>.name"""
    if e[0] != "fld" or e[2] != name:
        return False
    b = e[1]
    return b == ("arg", 0) if base == "self" else is_current(b)


def is_base(e, base):
    return e == ("arg", 0) if base == "self" else is_current(e)


def check(ck):
    p = ck.program("all")
    ck.rule("the value returned by every public way of deriving a context is a context whose fields are each either the same-named field of one base context (the receiver, or the thread's current context) or the one field that the operation is documented to set")
    ck.rule("the values map of a derived context is a copy of the base's map whenever the base has one, with exactly one insert keyed by the type of the added value, and nothing removed; lookup uses the same key")
    cx = [f[0] for f in p.adts[CX]["v"][0]["f"]]
    ck.ob("context-fields", set(cx) >= {"span", "entries", "suppress_telemetry"}, "fields of Context: %s" % cx)
    for item, trait, changed, base in DERIVE:
        fn = ck.one(p.method("context::Context", item, trait=trait, inherent=trait is None), "Context::" + item)
        q = Q(ck.graph(fn))
        res = flat(q.results())
        ck.ob("%s:returns" % item, bool(res), "no returned value found", loc(fn))
        for r in res:
            if is_base(r, base):
                ck.ob("%s:unchanged" % item, changed is None, "the context is returned unchanged: %s is not set" % changed, loc(fn))
                continue
            if r[0] != "agg" or r[1] != CX:
                ck.ob("%s:shape" % item, False, "returns %s, which is not derived from the %s context" % (show(r)[:200], base), loc(fn))
                continue
            fl = dict(r[3])
            for name in cx:
                v = fl.get(name)
                same = v is not None and all(base_field(a, name, base) for a in flat(v))
                if name == changed:
                    if name == "suppress_telemetry":
                        ck.ob("%s:sets:%s" % (item, name), v is not None and v[0] == "const" and v[1] is True, "%s is %s, not true" % (name, show(v)[:120]), loc(fn))
                    elif name == "span":
                        src = ("arg", 1 if base == "self" else 0)
                        ck.ob("%s:sets:%s" % (item, name), v is not None and all(a[0] == "agg" and a[2] == "Some" and has(a, lambda x: x == src) for a in flat(v)),
                              "the span of the derived context is %s, not the given one" % show(v)[:160], loc(fn))
                    else:
                        entries(ck, q, fn, item, v, base)
                else:
                    ck.ob("%s:keeps:%s" % (item, name), same, "%s of the derived context is %s instead of the base context's" % (name, show(v)[:160] if v else None), loc(fn))
        muts = [n for n in q.calls(lambda c: "HashMap" in (c.res or c.name) and c.m in ("remove", "clear", "retain", "drain", "remove_entry", "extract_if"))]
        muts = [n for n in muts if has(q.g.ev(n.d.args[0], n.i), lambda x: x[0] == "fld" and x[2] == "entries")]
        ck.ob("%s:no-removal" % item, not muts, "entries are removed while deriving", q.g.loc(muts[0].i) if muts else loc(fn))
    # lookup
    fn = ck.one(p.method("context::Context", "get", inherent=True), "Context::get")
    q = Q(ck.graph(fn))
    gets = q.calls(lambda c: "HashMap" in (c.res or c.name) and c.m == "get")
    ck.ob("get:lookup", len(gets) >= 1, "no map lookup in get", loc(fn))
    for n in gets:
        m, k = (q.g.ev(a, n.i) for a in n.d.args)
        ck.ob("get:map", all(a == ("fld", ("fld", ("arg", 0), "entries"), "Some.0") for a in flat(m)), "looks up %s" % show(m), q.g.loc(n.i))
        ck.ob("get:key", own_type_key(q, k, fn), "key is %s" % show(k), q.g.loc(n.i))
    # the other workspace code that builds a context from parts
    built = 0
    for f in p.fns.values():
        if f.crate != "opentelemetry" or f.kind not in ("fn", "closure") or f.derived:
            continue
        for b in f.d["bb"]:
            for s in (b[0] if b else []):
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "adt" and s[2][1].get("p") == CX:
                    built += 1
                    owner = f
                    while owner.parent and owner.parent in p.fns:
                        owner = p.fns[owner.parent]
                    ck.ob("built-by:%s" % owner.name, owner.self_adt == CX, "a Context is assembled outside of its own operations", loc(f))
    ck.count("context_constructions", built)
    ck.floor("context_constructions", 3)


def own_type_key(q, k, fn):
    """k is TypeId::of::<T>() with T a type parameter of the value"""
    cs = [x for x in walk(k) if x[0] == "call" and x[1].endswith("TypeId::of")]
    return len(cs) == 1 and len(flat(k)) == 1


def entries(ck, q, fn, item, v, base):
    """the map of the derived context: copy of the base's + one insert of the value under its own type"""
    g = q.g
    some = edges(q, lambda l: variant_lit(l, "Some", lambda e: base_field(e, "entries", base)))
    ck.ob("%s:copies-map:branch" % item, bool(some) or has(v, lambda x: x[0] == "fld" and x[2].startswith("entries")), "the base's map is never consulted", loc(fn))
    if some:
        r = unclo(q.result_from(some))
        fl = [dict(a[3]).get("entries") for a in flat(r) if a[0] == "agg" and a[1] == CX]
        ok = bool(fl) and all(e is not None and all(all(base_field(z[1], "entries", base) if z[0] == "fld" and z[2] == "Some.0" else False for z in maps(a)) and maps(a) for a in flat(e)) for e in fl)
        ck.ob("%s:copies-map" % item, ok, "a context that has values gets the map %s" % "; ".join(show(e)[:160] for e in fl), loc(fn))
    ins = q.calls(lambda c: "HashMap" in (c.res or c.name) and c.m == "insert")
    w = q.skipped(ins)
    ck.ob("%s:inserts" % item, bool(ins) and w is None, "a path derives the context without inserting the value: %s" % w, loc(fn))
    for n in ins:
        m, k, val = (g.ev(a, n.i) for a in n.d.args)
        ok = own_type_key(q, k, fn)
        ck.ob("%s:insert-key" % item, ok, "the value is stored under %s" % show(k)[:120], g.loc(n.i))
        # the key's type is the static type of the stored value
        kt = [c for c in q.calls(lambda c: c.name.endswith("TypeId::of")) if any(x[0] == "call" and x[3] == c.i for x in walk(k))]
        vt = None
        for c in q.calls(lambda c: c.name in ("alloc::rcs::arc::Arc::new", "alloc::rcs::rc::Arc::new") or c.name.endswith("::Arc::new")):
            if c.fr is n.fr:
                t1 = g.p.ty(c.fr.fn.crate, c.d.f["g"][0]).s
                for kk in kt:
                    if kk.fr is c.fr and kk.line <= c.line + 3 and g.p.ty(kk.fr.fn.crate, kk.d.f["g"][0]).s == t1:
                        vt = t1
        ck.ob("%s:key-type" % item, vt is not None, "the key's type is not the type of the stored value", g.loc(n.i))
        src = ("arg", 1 if base == "self" else 0)
        if item != "with_cleared_baggage":
            ck.ob("%s:insert-value" % item, has(val, lambda x: x == src), "the stored value is %s, not the given one" % show(val)[:120], g.loc(n.i))
        else:
            ck.ob("%s:insert-value" % item, not has(val, lambda x: x[0] == "arg"), "cleared baggage still derives from %s" % show(val)[:120], g.loc(n.i))


def maps(a):
    """the map values inside Some(..)"""
    if a[0] == "agg" and a[2] == "Some":
        return alts(dict(a[3])["0"])
    return []
