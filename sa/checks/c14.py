"""C14: injection writes what extraction and fields() name"""
from checks.fmtx import *
from checks.c13 import getter, parse_calls, from_carrier, zero_id, subs_

TITLE = "Injected headers are exactly what fields() lists and extraction reads"
FLOOR = 90
PROP = "TextMapPropagator"


def leaf(e, *path):
    """every alternative of e is the given part of the span context in the injected context (or in the constant no-op span)"""
    def one(x):
        x = strip_cast(x)
        for s in reversed(path):
            if x[0] != "fld" or x[2] != s:
                return False
            x = x[1]
        return x[0] == "fld" and x[2] == "span_context"
    return all(one(x) for x in alts(e)) and any(rooted(x, lambda r: r == ("arg", 1)) for x in alts(e))


def token(e):
    return "{T}" if leaf(e, "trace_id") or leaf(e, "trace_id", "0") else "{S}" if leaf(e, "span_id") or leaf(e, "span_id", "0") else None


def assume(valid, flags=None, enc=None, half=None):
    def env(e):
        if flags is not None and (leaf(e, "trace_flags", "0") or leaf(e, "trace_flags")):
            return flags
        if e[0] == "call" and last(e[1]) in ("eq", "ne") and len(e[2]) == 2 and e[1].find("PartialEq") >= 0:
            for a, b in (e[2], e[2][::-1]):
                for what in ("trace_id", "span_id"):
                    if (leaf(a, what) or leaf(a, what, "0")) and zero_id(b):
                        ok = valid and half != what
                        return ok == (last(e[1]) == "ne")
        if e[0] == "call" and last(e[1]) == "is_valid":
            return valid and half is None
        if enc is not None and norm(e) == ("fld", ("arg", 0), "inject_encoding"):
            return V(enc)
        return None
    return env


def edited(q, op, r):
    """the text is extended in place on the way"""
    if op[0] != "p":
        return False
    g = q.g
    to = (op[1][0], op[1][1])
    for n in q.calls(lambda c: last(c.name) in ("push", "push_str", "write_fmt", "write_str", "write_char", "insert_str", "extend", "truncate", "pop", "clear", "add_assign", "replace_range", "retain")):
        if q.S([n]) & r and n.d.args and n.d.args[0][0] == "p":
            c = g.canon((n.d.args[0][1][0], n.d.args[0][1][1], n.d.args[0][1][2] + ("*",)))
            if to in flows(g, [c]):
                return True
    return False


class Inj:
    def __init__(self, ck, p, f):
        self.p, self.f = p, f
        self.g = ck.graph(f)
        self.q = Q(self.g)
        self.q.deep = True
        self.sets = [n for n in self.q.calls(lambda c: last(c.name) == "set" and (c.tr or "").endswith("Injector"))]

    def run(self, env):
        """(key -> texts) written under the assumption, and the keys that are written on every path"""
        q, g, p = self.q, self.g, self.p
        cut = under_env(env, p)
        r = q.reach(q.entry(), cut=cut)
        out, must = {}, set()
        for n in self.sets:
            if not q.S([n]) & r:
                continue
            for k in self.key(g.ev(n.d.args[1], n.i)):
                out.setdefault(k, set()).update({"?"} if edited(q, n.d.args[2], r) else render(opnd(q, n, n.d.args[2], cut), env, p, token))
                same = [m for m in self.sets if k in self.key(g.ev(m.d.args[1], m.i))]
                if not q.exits() & q.reach(q.entry(), avoid=q.S(same), cut=cut):
                    must.add(k)
        return out, must

    def key(self, e):
        out = []
        for a in alts(e):
            t = text(a, self.p)
            out.append(t if t is not None else norm(a))
        return out


def check(ck):
    ck.rule("Every header an injection may write is one fields() returns and extraction reads, and every header fields() returns is one that is written (per encoding)")
    ck.rule("Under each assumption about validity and flags, constant propagation over the injection's paths and format templates yields the header texts the format prescribes; ids are printed as fixed-width zero-padded lower-case hex and parsed in base 16")
    ck.rule("Nothing is written for a span context with an invalid id (B3: the sampling state alone)")
    ck.rule("A carrier stores and looks up a key in the same form")
    p = ck.program("all")
    n = 0
    for im in sorted(p.impls_of(PROP), key=lambda x: x["self_ty"].s):
        adt = im["self_ty"].adt
        crate = adt.split("::")[0]
        nm = crate.replace("opentelemetry_", "") + "::" + last(adt)
        inj = Inj(ck, p, ck.one(p.method(adt, "inject_context", PROP), nm + "::inject_context"))
        ff = ck.one(p.method(adt, "fields", PROP), nm + "::fields")
        fx = ck.one(p.method(adt, "extract_with_context", PROP), nm + "::extract_with_context")
        if not inj.sets:
            continue    # delegates or does nothing
        n += 1
        fq = Q(ck.graph(ff))
        xg = ck.graph(fx)
        xq = Q(xg)
        for s in inj.sets:
            ck.ob(nm + ":carrier", norm(inj.g.ev(s.d.args[0], s.i)) == ("arg", 2), "written to %s" % show_(inj.g.ev(s.d.args[0], s.i)), inj.g.loc(s.i))
        encs = [v["n"] for v in p.adts.get(next((f[1] for f in fields_of(p, adt) if f[0] == "inject_encoding"), ""), {}).get("v", [])] or [None]
        reads = set()
        for c in xq.calls(lambda c: last(c.name) == "get" and (c.tr or "").endswith("Extractor")):
            for k in inj.key(xg.ev(c.d.args[1], c.i)):
                reads.add(k)
        for enc in encs:
            tag = nm + (":" + enc if enc else "")
            e0 = assume(True, None, enc)
            fv = under(fq, (), under_env(e0, p))
            listed = set()
            for a in alts(fv):
                x = a
                while x[0] == "agg" and len(x[3]) == 1:
                    x = x[3][0][1]
                els = [elements(y, p) for y in alts(x)]
                if any(z is None for z in els):
                    if norm(x) == ("fld", ("arg", 0), "fields"):
                        listed |= stored_fields(ck, p, adt, tag)
                        continue
                    listed.add("?")
                else:
                    for z in els:
                        for y in z:
                            listed.add(text(y, p))
            writes, _ = inj.run(e0)
            bad, _ = inj.run(assume(False, None, enc))
            W = set(writes) | set(bad)
            ck.count("headers", len(W))
            ck.ob(tag + ":fields-cover", None not in listed and W <= listed, "writes %s, fields() returns %s" % (sorted(map(str, W)), sorted(map(str, listed))), loc(ff))
            ck.ob(tag + ":fields-exact", listed <= W, "fields() returns %s, only %s are written" % (sorted(map(str, listed)), sorted(map(str, W))), loc(ff))
            ck.ob(tag + ":extracted", W <= reads, "writes %s, extraction reads %s" % (sorted(map(str, W)), sorted(map(str, reads))), loc(fx))
            texts(ck, p, tag, crate, inj, enc)
        ids(ck, p, nm, xq, fx)
        if crate == "opentelemetry_sdk" and "baggage" in adt:
            escapes(ck, p, nm, inj, xq)
    ck.count("injecting propagators", n)
    ck.floor("injecting propagators", 4)
    carriers(ck, p)
    # how ids print
    for ty, w in (("TraceId", 32), ("SpanId", 16)):
        f = ck.one(p.method(ty, "fmt", "Display"), ty + " Display")
        g = ck.graph(f)
        q = Q(g)
        ps = [pieces(a) for a in alts(q.results())]
        ck.ob("%s:display" % ty, all(x is not None and len(x) == 1 and x[0][0] == "lower_hex" and norm(x[0][1]) == ("fld", ("arg", 0), "0") and x[0][2] == w and x[0][3] & ZERO for x in ps),
              "printed as %s" % (ps,), loc(f))
    # the list of fields is handed out whole
    f = ck.one(p.method("FieldIter", "next", "Iterator"), "FieldIter::next")
    q = Q(ck.graph(f))
    v = q.results()
    ck.ob("FieldIter:next", all(under_elem(a) for a in alts(v)), "returns %s" % show_(v), loc(f))
    f = ck.one(p.method("FieldIter", "new"), "FieldIter::new")
    v = Q(ck.graph(f)).results()
    ck.ob("FieldIter:new", v[0] == "agg" and all(norm(w) == ("arg", 0) for _, w in v[3]), "holds %s" % show_(v), loc(f))


def under_elem(a):
    """None at the end, else the next element of the iterator in arg0"""
    while a[0] == "agg" and a[2] == "Some":
        a = a[3][0][1]
    if a[0] == "agg" and a[2] == "None":
        return True
    while a[0] == "call" and last(a[1]) in ("map", "as_deref", "next", "deref", "as_str", "clone", "copied"):
        a = a[2][0]
    return rooted(a, lambda r: r == ("arg", 0))


def fields_of(p, adt):
    """(name, type path) of a struct's fields"""
    out = []
    for v in p.adts.get(adt, {}).get("v", []):
        for f in v.get("f", []):
            nm, t = (f[0], f[1]) if isinstance(f, (list, tuple)) else (f["n"], f["t"])
            try:
                out.append((nm, p.ty(p.adts[adt]["crate"], t).adt))
            except (KeyError, TypeError, IndexError):
                out.append((nm, None))
    return out


def stored_fields(ck, p, adt, tag):
    """the elements of the stored field list, expressed through the stored header name"""
    b = built(ck, p, adt)
    ck.ob(tag + ":constructors", b, "no constructor found", adt)
    out = set()
    for f, fl in b:
        els = elements(fl.get("fields", ("unk",)), p)
        names = {}
        for k, v in fl.items():
            if k != "fields":
                for a in alts(v):
                    names.setdefault(strip_text(a), k)
        for e in els if els is not None else [("unk",)]:
            k = {names.get(strip_text(a)) for a in alts(e)}
            if len(k) == 1 and None not in k:
                out.add(("fld", ("arg", 0), k.pop()))
            else:
                t = text(e, p)
                same = [n for n, v in fl.items() if n != "fields" and text(v, p) == t and t is not None]
                out.add(("fld", ("arg", 0), same[0]) if len(same) == 1 else "? (%s)" % show_(e))
    return out


def strip_text(e):
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in SAME:
        e = e[2][0]
    return norm(e)


def texts(ck, p, tag, crate, inj, enc):
    """expected header texts"""
    cases = []
    if crate == "opentelemetry_sdk" and "TraceContext" in tag:
        for fl in (0, 1, 2, 3, 254, 255):
            cases.append((fl, {"traceparent": {"00-{T}-{S}-0%d" % (fl & 1)}}, {"traceparent", "tracestate"}))
        none = {}
    elif crate == "opentelemetry_jaeger_propagator":
        h = ("fld", ("arg", 0), "header_name")
        for fl, t in ((0, "0"), (1, "1"), (5, "3"), (4, "0"), (3, "1"), (2, "0")):
            cases.append((fl, {h: {"{T}:{S}:0:" + t}}, {h}))
        none = {}
    elif crate == "opentelemetry_zipkin":
        for fl in (0, 1, 2, 3, 4, 5):
            deb, dfr, s = fl & 4, fl & 2, fl & 1
            single = "{T}-{S}" + ("" if dfr else "-d" if deb else "-%d" % s)
            want, multi = {}, {"x-b3-traceid": {"{T}"}, "x-b3-spanid": {"{S}"}}
            if deb:
                multi["x-b3-flags"] = {"1"}
            elif not dfr:
                multi["x-b3-sampled"] = {"%d" % s}
            if enc in ("SingleHeader", "SingleAndMultiHeader"):
                want["b3"] = {single}
            if enc != "SingleHeader":
                want.update(multi)
            if deb and dfr:
                continue
            cases.append((fl, want, set(want)))
        none = {0: {}, 1: {}}
        for s in (0, 1):
            if enc in ("SingleHeader", "SingleAndMultiHeader"):
                none[s]["b3"] = {"%d" % s}
            if enc != "SingleHeader":
                none[s]["x-b3-sampled"] = {"%d" % s}
    else:
        return
    for fl, want, must in cases:
        got, on = inj.run(assume(True, fl, enc))
        for k, v in want.items():
            w = got.get(k)
            ck.ob("%s:%s:text" % (tag, k if isinstance(k, str) else "header"), w is not None and (w == v or any("?" in x for x in w)), "with flags %d writes %s, expected %s" % (fl, sorted(w or ()), sorted(v)), loc(inj.f))
        ck.ob(tag + ":written", must <= on, "with flags %d %s may stay unwritten" % (fl, sorted(map(str, must - on))), loc(inj.f))
        ck.ob(tag + ":only", set(got) <= must, "with flags %d also writes %s" % (fl, sorted(map(str, set(got) - must))), loc(inj.f))
    for fl in (0, 1):
        exp = none if not none or 0 not in none else none[fl]
        for half in (None, "trace_id", "span_id"):
            got, _ = inj.run(assume(half is not None, fl, enc, half))
            ck.ob("%s:invalid" % tag, set(got) <= set(exp) and all(v == exp[k] or any("?" in x for x in v) for k, v in got.items()), "for an invalid %s writes %s" % (half or "span context", got), loc(inj.f))


def ids(ck, p, nm, q, f):
    """ids are parsed in base 16"""
    seen = set()
    for n in q.calls(lambda c: last(c.name) == "from_str_radix"):
        e = q.g.ev_def(n.i, (), 0)
        if from_carrier(e) or has(e, getter):
            for r in alts(e[2][1]):
                k = (e[1].split("::")[0], intval(r))
                if k[0] in ("u128", "u64"):
                    seen.add(k)
    for t, r in sorted(seen, key=str):
        ck.ob("%s:%s:base" % (nm, t), r == 16, "a %s is parsed in base %s" % (t, r), loc(f))


def escapes(ck, p, nm, inj, xq):
    """what extraction treats specially is escaped on injection"""
    spec_ = set()
    for n in xq.calls(lambda c: last(c.name) in ("split", "split_once", "splitn", "split_terminator", "find")):
        for a in n.d.args[1:]:
            v = xq.g.ev(a, n.i)
            if intval(v) is not None and intval(v) < 128:
                spec_.add(intval(v))
            elif const_str(v) and len(const_str(v)) == 1:
                spec_.add(ord(const_str(v)))
    if any(True for n in xq.calls(lambda c: "percent_decode" in c.name)):
        spec_.add(ord("%"))
    ck.count("separators", len(spec_))
    ck.floor("separators", 4)
    enc = [n for n in inj.q.calls(lambda c: "percent_encode" in c.name)]
    ck.ob(nm + ":escaped", len(enc) >= 2, "names and values are not percent-encoded", loc(inj.f))
    for n in enc:
        s = inj.g.ev(n.d.args[1], n.i)
        m = int.from_bytes(s[1], "little") if s[0] == "const" and isinstance(s[1], bytes) else None
        miss = None if m is None else [chr(c) for c in sorted(spec_) if not m >> c & 1]
        ck.ob(nm + ":escapes", miss == [], "not escaped: %s" % miss, inj.g.loc(n.i))
    for s in inj.sets:
        v = inj.g.ev(s.d.args[2], s.i)
        ck.ob(nm + ":escaped", has(v, lambda y: y[0] == "call" and "percent_encode" in y[1]), "the header is not percent-encoded", inj.g.loc(s.i))


LOWER = ("to_lowercase", "to_ascii_lowercase")


def carriers(ck, p):
    k = 0
    for im in p.impls_of("propagation::Injector"):
        s = im["self_ty"].s.split("<")[0]
        adt = im["self_ty"].adt
        fset = ck.one(p.method(adt, "set", "Injector"), s + "::set")
        g = ck.graph(fset)
        q = Q(g)
        ins = [n for n in q.calls(lambda c: last(c.name) in ("insert", "append", "entry", "push") and len(c.args) >= 2) if rooted(g.ev(n.d.args[0], n.i), lambda r: r == ("arg", 0))]
        ck.ob("carrier %s:set" % last(s), ins, "nothing is stored", loc(fset))
        forms = set()
        for n in ins:
            for a in alts(g.ev(n.d.args[1], n.i)):
                forms.add(form(a))
            if len(n.d.args) > 2:
                v = g.ev(n.d.args[2], n.i)
                ck.ob("carrier %s:value" % last(s), all(has(a, lambda y: y == ("arg", 2)) for a in alts(v)), "stores %s" % show_(v), g.loc(n.i))
        k += 1
        # unconditional, except for names and values the header type refuses
        ok = lambda l: l[0] == "v" and l[3] == ("Err",) and has(l[1], lambda y: y in (("arg", 1), ("arg", 2)))
        w = q.exits() & q.reach(q.entry(), avoid=q.S(ins), cut=ok)
        ck.ob("carrier %s:always" % last(s), not w, "a value may not be stored", loc(fset))
        xs = [x for x in p.impls_of("propagation::Extractor") if last(x["self_ty"].s.split("<")[0]).replace("Extractor", "") == last(s).replace("Injector", "")]
        ck.ob("carrier %s:pair" % last(s), xs, "no extractor", loc(fset))
        for x in xs:
            fget = ck.one(p.method(x["self_ty"].adt, "get", "Extractor"), "Extractor::get")
            gg = ck.graph(fget)
            qq = Q(gg)
            gets = [n for n in qq.calls(lambda c: last(c.name) in ("get", "get_key_value", "get_all") and len(c.args) == 2)]
            lf = {form(a) for n in gets for a in alts(gg.ev(n.d.args[1], n.i))}
            same = lf == forms or "HeaderMap" in "".join(n.d.res or n.d.name for n in gets)
            ck.ob("carrier %s:key-form" % last(s), gets and same and "?" not in lf, "stored as %s, looked up as %s" % (sorted(forms), sorted(lf)), loc(fget))
            v = qq.results()
            for a in alts(v):
                ok = a[0] == "agg" and a[2] == "None" or has(a, lambda y: y[0] == "call" and last(y[1]) in ("get", "get_all"))
                ck.ob("carrier %s:get" % last(s), ok, "returns %s" % show_(a), loc(fget))
            fk = ck.one(p.method(x["self_ty"].adt, "keys", "Extractor"), "Extractor::keys")
            kv = Q(ck.graph(fk)).results()
            part = {last(y[1]) for a in alts(kv) for y in subs_(a) if y[0] == "call"} & (PARTIAL_IT - {"get", "index"})
            ck.ob("carrier %s:keys" % last(s), not part and all(has(a, lambda y: y[0] == "call" and last(y[1]) in ("keys", "iter", "into_iter")) for a in alts(kv)), "returns %s" % show_(kv), loc(fk))
    ck.count("carriers", k)
    ck.floor("carriers", 2)


def form(e):
    """how a key is transformed before it is used"""
    fs = []
    while e[0] in ("call", "fld", "cast"):
        if e[0] == "call":
            if last(e[1]) in LOWER:
                fs.append("lower")
            elif last(e[1]) in ("to_uppercase", "to_ascii_uppercase"):
                fs.append("upper")
            elif last(e[1]) in SAME or last(e[1]) in ("from_bytes", "from_str", "try_from", "from_static"):
                pass
            elif e[2]:
                fs.append(last(e[1]))
            if not e[2]:
                return "?"
            e = e[2][0]
        else:
            e = e[1]
    return "/".join(sorted(set(fs))) + ":" + show_(e) if e == ("arg", 1) else "?"
