"""C28: equal by content, and equal ones hash alike"""
import struct
from checks.assume import *
from checks.c13 import subs_
from checks.c15 import bare

TITLE = "Keys, values and scopes are equal by content, and equal ones hash alike"
FLOOR = 120
COM = "opentelemetry::common::"
TRANS = ("as_str", "as_ref", "deref", "as_bytes", "borrow", "as_slice", "to_bits", "iter", "clone", "as_deref", "from_iter", "into_iter", "collect", "to_vec", "len", "is_some", "is_empty", "from", "to_string", "to_owned", "into_owned", "into", "deref_mut", "next",
         "discriminant", "to_ne_bytes", "to_le_bytes", "to_be_bytes", "enumerate", "cloned", "copied", "index", "must_use", "as_deref_mut", "unwrap", "expect", "zip", "by_ref", "map", "as_mut_slice", "as_bits")
FBITS = ("to_bits", "to_ne_bytes", "to_le_bytes", "to_be_bytes")


def swap(e):
    """the expression with the two arguments exchanged"""
    if not isinstance(e, tuple):
        return e
    if len(e) >= 2 and e[0] == "arg" and e[1] in (0, 1):
        return ("arg", 1 - e[1]) + e[2:]
    return tuple(swap(x) for x in e)


def sides(e):
    """(left, right, positive) of a comparison of equals"""
    if e[0] == "call" and last(e[1]) in ("eq", "ne") and len(e[2]) == 2:
        return e[2][0], e[2][1], last(e[1]) == "eq"
    if e[0] == "bin" and e[1] in ("Eq", "Ne"):
        return e[2], e[3], e[1] == "Eq"
    return None


def plain(e):
    """bare expression, without the borrowing of contents"""
    e = bare(e)
    while e[0] == "call" and last(e[1]) in ("as_str", "as_ref", "deref", "borrow", "as_slice", "as_deref", "deref_mut") and len(e[2]) == 1:
        e = bare(e[2][0])
    if e[0] == "fld" and e[2] == "0" and e[1][0] == "fld" and e[1][2] in ("Owned.0", "RefCounted.0"):
        return e[1]      # what the box holds
    if e[0] == "call" and last(e[1]) == "index" and len(e[2]) == 2 and "RangeFull" in repr(e[2][1]):
        return plain(e[2][0])
    return e


def roots(e):
    return {x[1] for x in subs_(e) if x[0] == "arg"}


def corresponding(a, b):
    """the same part of the first and of the second value"""
    return roots(a) == {0} and norm(swap(a)) == norm(b) or roots(a) == {1} and norm(swap(a)) == norm(b)


def field_of(e):
    """name of the field of the first or second value an expression is about"""
    r = set()
    for x in subs_(e):
        if x[0] == "fld" and x[1][0] == "arg" and x[1][1] in (0, 1):
            r.add(x[2])
    return r


def env_eq(p, truths, q, same_len=None):
    """assumption: the fields compare as in `truths`; same_len: whether what differs is equally long"""
    def env(e):
        s = sides(e)
        if s:
            a, b, pos = bare(s[0]), bare(s[1]), s[2]
            if a[0] == b[0] and a[0] in ("tuple", "array") and len(a[1]) == len(b[1]):
                v = [env(("bin", "Eq", x, y)) for x, y in zip(a[1], b[1])]
                t = False if False in v else True if all(x is True for x in v) else None
                return None if t is None else t == pos
            if corresponding(plain(a), plain(b)) or corresponding(a, b):
                fs = field_of(a) | field_of(b)
                if len(fs) == 1:
                    t = truths.get(next(iter(fs)))
                    whole = not any(x[0] in ("bin", "un", "cast") for x in subs_(("t", s[0], s[1]))) and not any(x[0] == "len" or x[0] == "call" and last(x[1]) in ("len", "is_empty", "is_some", "is_none", "capacity", "first", "last") or x[0] == "disc" for x in subs_(("t", a, b)))
                    if t is True or t is False and whole:
                        return t == pos
                    if t is False and same_len is not None and any(x[0] == "len" or x[0] == "call" and last(x[1]) == "len" for x in (plain(s[0]), plain(s[1]), s[0], s[1])):
                        return same_len == pos
            return None
        if e[0] == "call" and last(e[1]) in ("all", "any") and len(e) > 3:
            z = pairwise(q, e)
            t = truths.get(z) if z else None
            if t is True or t is False and same_len:
                return t == (last(e[1]) == "all")
            return None
        if e[0] == "call" and last(e[1]) == "cmp" and len(e[2]) == 2 and corresponding(plain(e[2][0]), plain(e[2][1])):
            fs = field_of(e)
            t = truths.get(next(iter(fs))) if len(fs) == 1 else None
            if t:
                return V("Equal")
        return None
    return env


def cut_eq(env, p):
    """branches the assumption rules out, comparisons included"""
    u = under_env(env, p)

    def cut(l):
        if l[0] == "cmp" and l[1] in ("Eq", "Ne"):
            v = env(("bin", l[1], l[2], l[3]))
            if v is not None:
                return not v
        return u(l)
    return cut


def pairwise(q, e):
    """name of the collection two of which are compared element by element"""
    g = q.g
    fs = field_of(e[2][0])
    zs = [x for x in subs_(e[2][0]) if x[0] == "call" and last(x[1]) == "zip" and len(x[2]) == 2]
    if len(fs) != 1 or len(zs) != 1 or not corresponding(bare(zs[0][2][0]), bare(zs[0][2][1])):
        return None
    if any(x[0] == "call" and last(x[1]) in ("skip", "take", "filter", "step_by", "skip_while", "take_while") for x in subs_(e[2][0])):
        return None
    A, B = norm(bare(zs[0][2][0])), norm(bare(zs[0][2][1]))
    clo = g.nodes[e[3]].d.clo
    for rp, b in clo or ():
        r = [bare(x) for x in alts(g.evp(rp, b))]
        for x in r:
            s = sides(x)
            if not s or s[2] != (last(e[1]) == "all"):
                return None
            l, h = bare(s[0]), bare(s[1])
            if not (l[0] in ("elem", "fld") and h[0] in ("elem", "fld")) or l[0] == "fld" and l[2] not in ("0", "1") or h[0] == "fld" and h[2] not in ("0", "1"):
                return None
            if {0, 1} - (roots(l) | roots(h)) or norm(l) == norm(h):
                return None
    return next(iter(fs)) if clo else None


def truth_of(q, env, p):
    r = q.result_from(q.entry(), cut=cut_eq(env, p))
    return {val(a, env, p) for a in alts(r)}, r


def product(ck, p, f, nm, fields):
    """equal exactly if each field is"""
    q = Q(ck.graph(f, opaque=lambda x: x.item in ("eq", "ne")))
    vs, r = truth_of(q, env_eq(p, {k: True for k in fields}, q), p)
    ck.ob(nm + ":equal", vs == {True}, "two %s with equal fields compare as %s (%s)" % (nm, vs, show_(r)), loc(f))
    for k in fields:
        vs, r = truth_of(q, env_eq(p, {k: False}, q, True), p)
        vs |= truth_of(q, env_eq(p, {k: False}, q, False), p)[0]
        ck.ob("%s:%s" % (nm, k), vs == {False}, "two %s that differ in `%s` can compare as %s (%s)" % (nm, k, vs, show_(r)), loc(f))


def payload(e, w):
    """the text held by a string of any kind"""
    e = plain(e)
    return e[0] == "fld" and e[2] in ("Owned.0", "Static.0", "RefCounted.0") and norm(plain(e[1])) == norm(w)


def two(w0, a, w1, b):
    def env(e):
        e = norm(e)
        return V(a) if e == w0 else V(b) if e == w1 else None
    return env


def prune(e, env):
    """without the alternatives that project to another variant than the one assumed"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "phi":
        keep = [x for x in e[1] if not any(y[0] == "fld" and isinstance(env(y[1]), V) and "." in y[2] and y[2].split(".")[0] != env(y[1]).name for y in subs_(bare(x)))]
        return prune(keep[0], env) if len(keep) == 1 else ("phi", tuple(prune(x, env) for x in keep))
    return tuple(prune(x, env) for x in e)


KINDS = ("Owned", "Static", "RefCounted")


def strings(ck, p):
    for adt, depth in (("OtelString", 0), ("Key", 1), ("StringValue", 1)):
        w = lambda i: ("fld", ("arg", i), "0") if depth else ("arg", i)
        for m, want in (("eq", ("eq",)), ("cmp", ("cmp",))):
            if adt == "StringValue" and m == "cmp":
                continue
            f = ck.one(p.method(COM + adt, m), adt + "::" + m)
            q = Q(ck.graph(f))
            for a in KINDS:
                for b in KINDS:
                    env = two(w(0), a, w(1), b)
                    cut = under_env(env, p)
                    r = [bare(prune(x, env)) for x in alts(q.result_from(q.entry(), cut=cut))]
                    P0, P1 = ("fld", w(0), a + ".0"), ("fld", w(1), b + ".0")

                    def good(x):
                        y = sides(x) if m == "eq" else None
                        if y and y[2]:
                            c = [z for z in y[:2] if bare(z)[0] == "call" and last(bare(z)[1]) == "cmp"]
                            if c and any("Equal" in repr(z) for z in y[:2] if z is not c[0]):
                                l, h = [strip_bytes(z) for z in bare(c[0])[2]]
                                return {norm(l), norm(h)} == {norm(P0), norm(P1)}
                        if m == "eq" and x[0] == "bin" and x[1] == "Eq" or x[0] == "call" and last(x[1]) == m and len(x[2]) == 2:
                            l, h = (x[2], x[3]) if x[0] == "bin" else x[2]
                            l, h = strip_bytes(l), strip_bytes(h)
                            return (norm(l), norm(h)) == (norm(P0), norm(P1)) or m == "eq" and (norm(h), norm(l)) == (norm(P0), norm(P1))
                        return False
                    ck.ob("%s:%s:%s:%s" % (adt, m, a, b), bool(r) and all(good(x) for x in r), "`%s` of a %s held as %s and one as %s is %s" % (m, adt, a, b, [show_(x) for x in r]), loc(f))
        f = ck.one(p.method(COM + adt, "hash"), adt + "::hash")
        q = Q(ck.graph(f))
        for a in KINDS:
            cut = under_env(lambda e: V(a) if norm(e) == w(0) else None, p)
            fed_ = [(last(n.d.name), plain(opnd(q, n, n.d.args[0], cut=cut))) for n in feeds(q, cut)]
            ck.ob("%s:hash:%s" % (adt, a), fed_ == [("hash", norm(("fld", w(0), a + ".0")))] or [(m, norm(x)) for m, x in fed_] == [("hash", norm(("fld", w(0), a + ".0")))],
                  "a %s held as %s is hashed as %s; the hash of its text is expected" % (adt, a, [(m, show_(x)) for m, x in fed_]), loc(f))
            C = feeds(q, cut)
            ck.ob("%s:hash:%s:text" % (adt, a), not any(x[0] == "call" and last(x[1]) in ("as_bytes", "into_bytes", "bytes", "len", "as_ptr") for n in C for x in subs_(q.g.ev(subject(n), n.i))), "what is hashed of a %s is not its text, so looking it up by text fails" % adt, loc(f))
            ck.ob("%s:hash:%s:once" % (adt, a), bool(C) and not q.skipped(C, excuse=cut), "the text can be left out of the hash", loc(f))
        for m in ("borrow", "as_ref", "as_str"):
            for f in p.method(COM + adt, m):
                q = Q(ck.graph(f))
                for a in KINDS:
                    cut = under_env(lambda e: V(a) if norm(e) == w(0) else None, p)
                    r = [plain(prune(x, lambda e: V(a) if norm(e) == w(0) else None)) for x in alts(q.result_from(q.entry(), cut=cut))]
                    ck.ob("%s:%s:%s" % (adt, m, a), bool(r) and all(norm(x) == norm(("fld", w(0), a + ".0")) for x in r), "`%s` of a %s held as %s is %s, not its text" % (m, adt, a, [show_(x) for x in r]), loc(f))
                ck.count("text accessors")
    # the orders agree
    for adt in ("OtelString", "Key"):
        f = ck.one(p.method(COM + adt, "partial_cmp"), adt + "::partial_cmp")
        q = Q(ck.graph(f))
        r = alts(q.result_from(q.entry()))
        ok = bool(r)
        for x in r:
            x = norm(x)
            c = x[3][0][1] if x[0] == "agg" and x[2] == "Some" else x
            ok &= c[0] == "call" and last(c[1]) in ("cmp", "partial_cmp") and len(c[2]) == 2 and roots(c[2][0]) == {0} and norm(swap(c[2][0])) == norm(c[2][1])
        ck.ob(adt + ":partial_cmp", ok, "the partial order is " + show_(q.result_from(q.entry())), loc(f))
    ck.floor("text accessors", 5)


def strip_bytes(e):
    e = plain(e)
    while e[0] == "call" and last(e[1]) == "as_bytes" and len(e[2]) == 1:
        e = plain(e[2][0])
    return e


def variants(ck, p):
    for adt in ("Value", "Array"):
        f = ck.one(p.method(COM + adt, "eq"), adt + "::eq")
        vs = [v["n"] for v in p.adts[COM + adt]["v"]]
        q = Q(ck.graph(f, opaque=lambda x: x.item in ("eq", "ne")))
        for a in vs:
            for b in vs:
                env = two(("arg", 0), a, ("arg", 1), b)
                r = q.result_from(q.entry(), cut=under_env(env, p))
                if a != b:
                    x = {val(y, env, p) for y in alts(r)}
                    ck.ob("%s:eq:%s:%s" % (adt, a, b), x == {False}, "a %s::%s and a %s::%s can compare as %s (%s)" % (adt, a, adt, b, x, show_(r)), loc(f))
                    continue
                P = ("fld", ("arg", 0), a + ".0")

                def good(x):
                    s = sides(bare(x))
                    return s and s[2] and {norm(plain(s[0])), norm(plain(s[1]))} == {norm(P), norm(swap(P))}
                ck.ob("%s:eq:%s" % (adt, a), all(good(x) for x in alts(r)), "two %s::%s compare as %s, not as what they hold" % (adt, a, show_(r)), loc(f))


def feeds(q, cut=None):
    """what is given to the hasher"""
    R = q.reach(q.entry(), cut=cut)
    return [n for n in q.calls(lambda c: last(c.name) in ("hash", "hash_slice", "hash_one") and "hash" in c.name.lower() or "Hasher" in c.name and last(c.name).startswith("write")) if q.S([n]) & R]


def subject(n):
    """the operand hashed"""
    return n.d.args[1] if "Hasher" in n.d.name and last(n.d.name).startswith("write") else n.d.args[0]


def fconst(q, e, cut, env, p):
    """bit patterns a float expression can have under an assumption"""
    if e[0] == "never":
        return set()
    if e[0] == "phi":
        return set().union(*[fconst(q, x, cut, env, p) for x in e[1]])
    if e[0] == "call" and last(e[1]) in FBITS + ("abs",) and len(e[2]) == 1:
        n = q.g.nodes[e[3]] if len(e) > 3 and isinstance(e[3], int) else None
        r = fconst(q, opnd(q, n, n.d.args[0], cut=cut) if n else e[2][0], cut, env, p)
        return {x and struct.pack("d", abs(struct.unpack("d", x)[0])) for x in r} if last(e[1]) == "abs" else r
    v = fval(e, env, p)
    return {struct.pack("d", v) if v is not None else None}


def fval(e, env, p):
    v = val(e, env, p)
    return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def is_float(e):
    e = bare(e)
    return e[0] == "fld" and e[2] == "F64.0" or e[0] == "elem" and e[1][0] == "fld" and e[1][2] == "F64.0"


def fed_ok(ck, p, f, nm, allowed):
    """what is hashed follows from what is compared"""
    q = Q(ck.graph(f))
    g = q.g
    n = 0
    for c in feeds(q):
        e = bare(g.ev(subject(c), c.i))
        n += 1
        bad = sorted({last(x[1]) for x in subs_(e) if x[0] == "call" and last(x[1]) not in TRANS and not ("F64.0" in repr(x))})
        fs = set()
        for x in subs_(e):
            if x[0] == "fld" and x[1] == ("arg", 0):
                fs.add(x[2])
        ck.ob("%s:hash:%d" % (nm, n), roots(e) <= {0} and fs <= allowed and (fs or not roots(e)) and not bad, "the hash of a %s takes in %s, which equality does not look at" % (nm, show_(e)), loc(f))
        F = {norm(x) for x in subs_(e) if is_float(x)}
        leaf = [x for x in F if not any(x != y and x == norm(y[1]) for y in F if y[0] == "elem")] or list(F)
        for X in leaf:
            r = set()
            for z in (0.0, -0.0):
                env = lambda y, z=z: z if norm(bare(y)) == X else float(y[1]) if y[0] == "const" and isinstance(y[1], str) and re.match(r"-?\d+\.\d+$", y[1]) else None
                cut = under_env(env, p)
                r |= fconst(q, opnd(q, c, subject(c), cut=cut), cut, env, p)
            ck.ob("%s:hash:%d:zero" % (nm, n), len(r) < 2 and None not in r, "0.0 and -0.0 are equal but hash differently: " + show_(e), loc(f))
            ck.count("floats hashed")
    ck.count("values hashed", n)
    return q


def by_key(q, call):
    """a sort by the key of the elements"""
    g = q.g
    m = last(call.d.name)
    for rp, b in call.d.clo or ():
        for c in q.calls(lambda c: last(c.name) in ("cmp", "partial_cmp") and len(c.args) == 2):
            if q.S([c]) & q.reach({t for s in q.S([call]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}, avoid=[call]):
                a, e = plain(g.ev(c.d.args[0], c.i)), plain(g.ev(c.d.args[1], c.i))
                if a[0] == e[0] == "fld" and a[2] == e[2] == "key":
                    return True
        if m.endswith("by_key") or m.endswith("cached_key"):
            return any(x[0] == "fld" and x[2] == "key" for x in subs_(("t", g.evp(rp, b) if isinstance(rp, tuple) else rp)))
    return False


def sorts(q, i, field="attributes"):
    """sorts of the attributes of value i, by key"""
    g = q.g
    return [c for c in q.calls(lambda c: last(c.name).startswith("sort") and c.args) if ("fld", ("arg", i), field) in {norm(x) for x in subs_(bare(g.ev(c.d.args[0], c.i)))} and by_key(q, c)]


def core_(e):
    """the collection behind a mutable borrow"""
    while e[0] == "call" and last(e[1]) in ("deref_mut", "as_mut_slice", "deref", "as_mut") and len(e[2]) == 1:
        e = e[2][0]
    return e


def scope(ck, p):
    f = ck.one(p.method(COM + "InstrumentationScope", "eq"), "scope eq")
    product(ck, p, f, "InstrumentationScope", ["name", "version", "schema_url", "attributes"])
    q = Q(ck.graph(f))
    g = q.g
    cmps = [n for n in q.calls(lambda c: last(c.name) in ("eq", "ne") and len(c.args) == 2) if field_of(("t", bare(g.ev(n.d.args[0], n.i)), bare(g.ev(n.d.args[1], n.i)))) == {"attributes"}]
    ck.ob("scope:attributes", bool(cmps), "the attributes of scopes are not compared", loc(f))
    for i in (0, 1):
        S = sorts(q, i)
        T = {norm(core_(g.ev(c.d.args[0], c.i))) for c in S}
        used = [x for n in cmps for a in n.d.args for x in [norm(g.ev(a, n.i))] if i in roots(x)]
        ck.ob("scope:eq:copy:%d" % i, bool(used) and all(any(y in T for y in subs_(x)) for x in used), "the attributes compared are not those sorted", loc(f))
        ck.ob("scope:eq:sorted:%d" % i, bool(S) and not q.not_before(S, cmps), "the attributes of the %s scope are compared in the order they were given" % ("first", "second")[i], loc(f))
    f = ck.one(p.method(COM + "InstrumentationScope", "hash"), "scope hash")
    q = fed_ok(ck, p, f, "InstrumentationScope", {"name", "version", "schema_url", "attributes"})
    g = q.g
    A = [n for n in feeds(q) if "attributes" in {x[2] for x in subs_(bare(g.ev(subject(n), n.i))) if x[0] == "fld" and x[1] == ("arg", 0)} and not any(x[0] == "len" or x[0] == "call" and last(x[1]) == "len" for x in subs_(bare(g.ev(subject(n), n.i))))]
    S = sorts(q, 0)
    T = {norm(core_(g.ev(c.d.args[0], c.i))) for c in S} if (S := sorts(q, 0)) else set()
    for n in A:
        x = norm(g.ev(subject(n), n.i))
        ck.ob("scope:hash:copy:%d" % n.i, any(y in T for y in subs_(x)), "the attributes hashed are not those sorted: " + show_(x), loc(f))
    ck.ob("scope:hash:sorted", not A or bool(S) and not q.not_before(S, A), "the attributes of a scope are hashed in the order they were given, though the order does not matter for equality", loc(f))


def check(ck):
    ck.rule("equality evaluated under assumptions: per pair of variants, and per field assumed equal or different (the result must be exactly the conjunction); hashing: every operand given to the hasher is built from what equality compares, 0.0 and -0.0 propagate to one bit pattern, the same text feeds the same value whichever way it is held; sorts dominate comparisons and hashing of attributes")
    p = ck.program("all")
    strings(ck, p)
    variants(ck, p)
    f = ck.one(p.method(COM + "KeyValue", "eq"), "KeyValue eq")
    product(ck, p, f, "KeyValue", ["key", "value"])
    f = ck.one(p.method(COM + "KeyValue", "hash"), "KeyValue hash")
    fed_ok(ck, p, f, "KeyValue", {"key", "value"})
    scope(ck, p)
    T = "opentelemetry::trace::span_context::"
    for adt, fields in ((T + "SpanContext", ["trace_id", "span_id", "trace_flags", "is_remote", "trace_state"]), (T + "TraceState", ["0"]), ("opentelemetry::trace_context::TraceId", ["0"]), ("opentelemetry::trace_context::SpanId", ["0"]),
                        ("opentelemetry::trace_context::TraceFlags", ["0"])):
        for f in p.method(adt, "eq"):
            product(ck, p, f, last(adt), fields)
            ck.count("trace identities")
        for f in p.method(adt, "hash"):
            fed_ok(ck, p, f, last(adt), set(fields))
    ck.floor("trace identities", 5)
    ck.floor("floats hashed", 2)
    ck.floor("values hashed", 15)
