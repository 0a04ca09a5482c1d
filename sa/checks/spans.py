"""the span's recorded data, located through what it reports"""
from checks.util import *

SPAN = "opentelemetry_sdk::trace::span::Span"
TRACER = "opentelemetry_sdk::trace::tracer::SdkTracer"
DATA = ("span_kind", "name", "start_time", "end_time", "attributes", "dropped_attributes_count", "events", "links", "status", "parent_span_id")


def method(ck, p, m):
    return ck.one(p.method(SPAN, m, trait="Span"), "sdk Span::" + m)


def layout(ck, p):
    """where a span keeps each thing it exports: public field -> path from the span; the option that makes it recording"""
    f = ck.one([x for x in p.method(SPAN, "exported_data", inherent=True)], "Span::exported_data")
    q = Q(ck.graph(f))
    some = [a for a in flat(under(q, ())) if a[0] == "agg" and a[2] == "Some"]
    F = {}
    for s in some:
        e = dict(s[3])["0"]
        if e[0] == "agg":
            for k, v in e[3]:
                F.setdefault(k, set()).add(norm(v))
    opts = set()
    for k in DATA:
        for v in F.get(k, ()):
            r, pr = proj_of(v)
            x = v
            while x[0] in ("fld", "var"):
                if x[0] == "fld" and x[2] == "Some.0":
                    opts.add(x[1])
                x = x[1]
    bad = [k for k, v in F.items() if len(v) != 1 or proj_of(list(v)[0])[0] != ("arg", 0)]
    ck.ob("recorded-data:located", set(DATA) <= set(F) and not bad and len(opts) == 1, "what a span reports is not read from its own state: %s" % bad, loc(f))
    F = {k: list(v)[0] for k, v in F.items()}
    dup = len(set(F.values())) != len(F)
    ck.ob("recorded-data:distinct", not dup, "two reported fields are read from the same place", loc(f))
    return F, (list(opts) or [None])[0], f


def is_opt(l, opt, name):
    return l[0] == "v" and norm(l[1]) == opt and l[3] == (name,)


def is_limit(e, name):
    """e is the configured limit `name` (unsigned widening casts aside)"""
    e = strip_cast(e)
    return e[0] == "fld" and e[2].split(".")[-1] == name and rooted(e, lambda r: r[0] in ("arg", "call"))


def len_of(e, V):
    e = strip_cast(e)
    return e[0] == "call" and last(e[1]) == "len" and norm(e[2][0]) == V


def fits(l, V, name):
    """branch on which V does not exceed the limit"""
    return l[0] == "cmp" and l[1] in ("Le", "Lt", "Eq") and len_of(l[2], V) and is_limit(l[3], name) or l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "is_empty" and norm(l[1][2][0]) == V


def over(e, V, name):
    """e = how much V exceeds the limit; -> nodes of the len() it uses, or None"""
    e = strip_cast(e)
    while e[0] == "fld" and e[2] == "0" and e[1][0] == "bin":
        e = e[1]
    if intval(e) == 0:
        return []
    if e[0] == "call" and last(e[1]) in ("saturating_sub",) or e[0] == "bin" and e[1].startswith("Sub"):
        a, b = e[2] if e[0] == "call" else e[2:4]
        a_ = strip_cast(a)
        if len_of(a_, V) and is_limit(b, name):
            return [a_[3]]
    return None


def truncations(q, V, name):
    g = q.g
    out = []
    for n in q.calls(lambda c: last(c.name) == "truncate" and len(c.args) == 2):
        if norm(g.ev(n.d.args[0], n.i)) == V and is_limit(g.ev(n.d.args[1], n.i), name):
            out.append(n)
    return out


GROW = {"push", "extend", "append", "insert", "extend_from_slice", "push_back"}


def growths(q, V):
    return [n for n in q.calls(lambda c: last(c.name) in GROW and c.args) if norm(q.g.ev(n.d.args[0], n.i)) == V]


def recording(dec=("RecordAndSample", "RecordOnly")):
    """cuts the paths of span creation that record nothing"""
    def cut(l):
        if l[0] == "b" and l[1][0] == "fld" and "suppress" in l[1][2]:
            return l[2]
        if l[0] == "b" and l[1][0] == "call" and "::Atomic" in l[1][1] and last(l[1][1]) == "load":
            return l[2]
        if l[0] == "v" and l[2].endswith("SamplingDecision"):
            return not any(d in l[3] for d in dec)
        return False
    return cut


def both(*cs):
    return lambda l: any(c(l) for c in cs)


def none_of(V):
    """cuts the branch on which the option V was taken from is empty"""
    if V[0] == "fld" and V[2] == "Some.0":
        return lambda l: l[0] == "v" and l[3] == ("None",) and norm(l[1]) == V[1]
    return lambda l: False


def path_to(F, k):
    return proj_of(F[k])[1]
