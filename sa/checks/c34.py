"""C34: the built-in samplers"""
from checks.spans import *
from checks.flags import *
from checks.c12 import accessors

TITLE = "Built-in samplers decide from the parent and the trace id alone, as configured"
FLOOR = 30
S = "opentelemetry_sdk::trace::sampler::Sampler"


def fold(e, env):
    """numeric value of an expression, given values of leaves (env: expr -> number or None), or None"""
    v = env(e)
    if v is not None:
        return v
    if e[0] == "const":
        if isinstance(e[1], bool):
            return None
        if isinstance(e[1], (int, float)):
            return e[1]
        try:
            return float(str(e[1]).replace("_", "").replace("f64", ""))
        except ValueError:
            return None
    if e[0] == "cast":
        v = fold(e[1], env)
        if v is None:
            return None
        t = e[2] if len(e) > 2 else ""
        if str(t).startswith("f"):
            return float(v)
        if str(t) in ("u64", "u128", "u32", "usize"):
            bits = {"u64": 64, "u128": 128, "u32": 32, "usize": 64}[str(t)]
            return min(max(int(v), 0), 2 ** bits - 1) if isinstance(v, float) else int(v) % 2 ** bits
        return None
    if e[0] == "fld" and e[2] == "0" and e[1][0] == "bin":
        return fold(e[1], env)
    if e[0] == "bin":
        a, b = fold(e[2], env), fold(e[3], env)
        if a is None or b is None:
            return None
        op = e[1].replace("WithOverflow", "").replace("Unchecked", "")
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a / b if isinstance(a, float) else a // b, "Shl": lambda: (a << b) % 2 ** 64 if a < 2 ** 64 else None, "Shr": lambda: a >> b,
                    "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "Rem": lambda: a % b}[op]()
        except (KeyError, TypeError, ZeroDivisionError):
            return None
    if e[0] == "call":
        a = [fold(x, env) for x in e[2]]
        if None in a:
            return None
        m = last(e[1])
        if m in ("max", "min") and len(a) == 2:
            return max(a) if m == "max" else min(a)
        if m == "clamp" and len(a) == 3:
            return min(max(a[0], a[1]), a[2])
        if m in ("floor", "round", "trunc"):
            return float(int(a[0]))
    return None


def leaves(e):
    """what an expression is computed from"""
    if e[0] in ("arg", "unk", "static"):
        return {e}
    if e[0] in ("fld", "var", "elem") and rooted(e, lambda r: r[0] in ("arg", "unk", "static")):
        return {norm(e)}
    out = set()
    if e[0] == "call" and not e[2]:
        return {("call", e[1])}
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out |= leaves(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out |= leaves(y if y[0] in ("arg", "const", "fld", "call", "bin", "cast", "un", "phi", "agg", "unk", "tuple", "elem", "var", "static", "array", "clo", "part", "len", "disc") else y[1] if len(y) > 1 and isinstance(y[1], tuple) else ("const", 0, None))
    return out


def grows(e, x):
    """e never decreases when x grows"""
    if norm(e) == x:
        return True
    if x not in leaves(e):
        return True
    if e[0] == "cast":
        return grows(e[1], x)
    if e[0] == "fld" and e[2] == "0" and e[1][0] == "bin":
        return grows(e[1], x)
    if e[0] == "bin":
        op = e[1].replace("WithOverflow", "")
        a, b = e[2], e[3]
        pos = lambda c: (fold(c, lambda z: None) or -1) > 0
        if op == "Add":
            return grows(a, x) and grows(b, x)
        if op == "Mul":
            return grows(a, x) and pos(b) or grows(b, x) and pos(a)
        if op in ("Div", "Shr") and x not in leaves(b):
            return grows(a, x) and pos(b)
        if op == "Sub" and x not in leaves(b):
            return grows(a, x)
        return False
    if e[0] == "call" and last(e[1]) in ("max", "min", "clamp"):
        return grows(e[2][0], x) and all(grows(y, x) for y in e[2][1:])
    if e[0] == "call" and last(e[1]) in ("floor", "round", "trunc"):
        return grows(e[2][0], x)
    return False


def span_of_bits(e):
    """number of values an unsigned expression over the trace id can take, each equally often if the id's bits are"""
    if e[0] == "cast":
        n = span_of_bits(e[1])
        t = {"u64": 2 ** 64, "u128": 2 ** 128, "u32": 2 ** 32, "u16": 2 ** 16, "u8": 2 ** 8}.get(str(e[2]) if len(e) > 2 else "")
        return None if n is None or t is None else min(n, t)
    if e[0] == "bin" and e[1] == "Shr":
        n, k = span_of_bits(e[2]), fold(e[3], lambda z: None)
        return None if n is None or k is None else n >> int(k)
    if e[0] == "bin" and e[1] == "BitAnd":
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            n, m = span_of_bits(a), fold(b, lambda z: None)
            if n is not None and m is not None and (int(m) & (int(m) + 1)) == 0:
                return min(n, int(m) + 1)
        return None
    if e[0] == "call":
        m = [w for w in ("u128", "u64", "u32", "u16") if w in e[1]]
        if last(e[1]) in ("from_be_bytes", "from_le_bytes", "from_ne_bytes") and m:
            return 2 ** int(m[0][1:])
    if e[0] == "fld" and norm(e) == ("fld", ("arg", 2), "0"):
        return 2 ** 128
    return None


def ratio_rule(ck, q, tag, cut, R, f):
    """the decision is `bits(trace id) < threshold(ratio)`, or the ratio is at least one"""
    tid = lambda e: leaves(e) <= {("arg", 2), ("fld", ("arg", 2), "0")} and bool(leaves(e))
    rat = lambda e: leaves(e) == {R}
    r = q.reach(q.entry(), cut=cut)
    lits = [(s, t, l) for s, lab, t, l in q.literals() if s in r]

    def one(l):
        """branch that shows the ratio to be at least one"""
        return l[0] == "cmp" and l[1] in ("Le", "Lt") and norm(l[3]) == R and (fold(l[2], lambda z: None) or 0) >= 1.0

    def thr(l):
        if l[0] == "cmp" and l[1] == "Lt" and tid(l[2]) and rat(l[3]):
            return True
        if l[0] == "cmp" and l[1] == "Le" and rat(l[2]) and tid(l[3]):
            return False
        return None
    T = [(l[2], l[3]) for s, t, l in lits if thr(l) is True]
    ck.ob(tag + ":threshold", bool(T), "no comparison of the trace id with the ratio decides", loc(f))
    dec = (("f", "decision"),)
    v = [a for a in flat(under(q, dec, cut=both(cut, one, lambda l: thr(l) is True))) if a != ("never",)]
    ck.ob(tag + ":sampled-only-below", all(a[0] == "agg" and a[2] == "Drop" for a in v), "sampled although the trace id is not below the ratio's threshold: %s" % [show_(a) for a in v], loc(f))
    v = [a for a in flat(under(q, dec, cut=both(cut, lambda l: thr(l) is False))) if a != ("never",)]
    ck.ob(tag + ":dropped-only-above", bool(v) and all(a[0] == "agg" and a[2] == "RecordAndSample" for a in v), "not sampled although the trace id is below the ratio's threshold: %s" % [show_(a) for a in v], loc(f))
    for a, b in T:
        n = span_of_bits(a)
        at = lambda x: fold(b, lambda z: x if norm(z) == R else None)
        ck.ob(tag + ":monotone", grows(b, R), "the threshold %s does not grow with the ratio" % show_(b), loc(f))
        ck.ob(tag + ":none", at(-1.0) == 0 and at(0.0) == 0, "a ratio of 0 or less samples something", loc(f))
        ck.ob(tag + ":all", n is not None and at(1.0) is not None and at(1.0) >= n, "a ratio just below 1 and 1 are not consistent", loc(f))
        ck.ob(tag + ":proportion", n is not None and all(at(x) is not None and abs(at(x) - x * n) <= 1 for x in (0.5, 0.25, 0.125, 0.75)), "the threshold is not the ratio of the range compared with", loc(f))
        ck.count("thresholds")


def check(ck):
    p = ck.program("all")
    ck.rule("always-on samples, always-off drops; ratio: bits of the trace id below a threshold that is 0 for ratio <= 0, grows with the ratio, is the ratio's share of the range and covers everything from 1 on")
    ck.rule("parent-based: with an active span in the context its sampled flag decides, without one the delegate, asked with the same arguments")
    ck.rule("no attributes are added; the trace state is the parent's")
    acc = accessors(ck, p)
    f = ck.one(p.method(S, "should_sample", trait="ShouldSample"), "Sampler::should_sample")
    q = Q(ck.graph(f))
    g = q.g
    dec = (("f", "decision"),)
    vs = [x["n"] for x in p.variants(S)]

    def is_(v):
        return lambda l: l[0] == "v" and norm(l[1]) == ("arg", 0) and v not in l[3]
    val = lambda c: [a for a in flat(under(q, dec, cut=c)) if a != ("never",)]
    cx = ("fld", ("arg", 1), "Some.0")
    inactive = lambda l: l[0] == "v" and l[3] == ("None",) and (norm(l[1]) in (("arg", 1), ("fld", cx, "span")) or rebuilt(l[1]))
    active = lambda l: l[0] == "v" and l[3] == ("Some",) and (norm(l[1]) == ("fld", cx, "span") or rebuilt(l[1]))
    nocx = lambda l: l[0] == "v" and l[3] == ("None",) and norm(l[1]) == ("arg", 1)

    def rebuilt(e):
        """an option that is the context, or None (filter)"""
        xs = alts(e)
        return len(xs) > 1 and all(a[0] == "agg" and (a[2] == "None" or a[2] == "Some" and norm(dict(a[3])["0"]) in (cx, ("fld", cx, "span"), ("fld", ("fld", cx, "span"), "Some.0"))) or norm(a) == ("arg", 1) for a in xs)
    fl = lambda e: all(a[0] == "fld" and (a[2] == acc["trace_flags"][0][1] or a[2] == "0" and a[1][0] == "fld" and a[1][2] == acc["trace_flags"][0][1]) and
                       rooted(a, lambda r: r[0] == "const" or r == ("arg", 1)) for a in alts(e)) and any(rooted(a, lambda r: r == ("arg", 1)) for a in alts(e))
    for v, want in (("AlwaysOn", "RecordAndSample"), ("AlwaysOff", "Drop")):
        a = val(is_(v))
        ck.ob(v, bool(a) and all(x[0] == "agg" and x[2] == want for x in a), "decides %s" % [show_(x) for x in a], loc(f))
    pb = is_("ParentBased")
    a = val(both(pb, inactive, lambda l: sampled_lit(l, fl) is False))
    ck.ob("ParentBased:sampled", bool(a) and all(x[0] == "agg" and x[2] == "RecordAndSample" for x in a), "the parent is sampled, yet decides %s" % [show_(x) for x in a], loc(f))
    a = val(both(pb, inactive, lambda l: sampled_lit(l, fl) is True))
    ck.ob("ParentBased:unsampled", bool(a) and all(x[0] == "agg" and x[2] == "Drop" for x in a), "the parent is not sampled, yet decides %s" % [show_(x) for x in a], loc(f))
    a = val(both(pb, active))
    dl = lambda x: x[0] == "fld" and x[2] == "decision" and x[1][0] == "call" and last(x[1][1]) == "should_sample" and rooted(x[1][2][0], lambda r: r == ("arg", 0))
    ck.ob("ParentBased:root", bool(a) and all(dl(x) for x in a), "there is no parent, yet the delegate does not decide: %s" % [show_(x) for x in a], loc(f))
    a = val(both(pb, nocx, active))
    ck.ob("ParentBased:no-active-span", bool(a) and all(dl(x) for x in a), "the context has no active span, yet the delegate does not decide: %s" % [show_(x) for x in a], loc(f))
    for n in q.calls(lambda c: c.m == "should_sample" and (c.tr or "").endswith("ShouldSample")):
        e = [norm(q.g.ev(x, n.i)) for x in n.d.args]
        pcx = [x for x in flat(opnd(q, n, n.d.args[1], cut=nocx)) if x != ("never",)]
        same = [i for i in range(2, 7) if e[i] != ("arg", i)]
        same += [1] if not all(norm(x) == ("arg", 1) or x[0] == "agg" and x[2] == "Some" and norm(dict(x[3])["0"]) == cx for x in pcx) or not pcx else []
        ck.ob("delegate:%s:arguments" % (e[0][2] if e[0][0] == "fld" else "?"), not same, "the delegate is asked about something else (argument %s)" % same, g.loc(n.i))
        ck.count("delegations")
    ratio_rule(ck, q, "TraceIdRatioBased", is_("TraceIdRatioBased"), ("fld", ("arg", 0), "TraceIdRatioBased.0"), f)
    ok = lambda a: is_default(a) or a[0] == "agg" and all(is_default(y) or y[0] == "agg" and y[2] == "None" for _, y in a[3])
    ts = acc["trace_state"][0][1]
    for v in vs:
        a = [x for x in flat(under(q, (("f", "attributes"),), cut=is_(v))) if x != ("never",)]
        ck.ob(v + ":attributes", bool(a) and all(is_default(x) for x in a), "adds attributes: %s" % show_(a[0]), loc(f))
        a = [x for x in flat(under(q, (("f", "trace_state"),), cut=both(is_(v), inactive))) if x != ("never",)]
        ps = [x for x in a if x[0] == "fld" and x[2] == ts and rooted(x, lambda r: r == ("arg", 1))]
        rest = [x for x in a if x not in ps and not (x[0] == "fld" and rooted(x, lambda r: r[0] == "const"))]
        ck.ob(v + ":trace-state", bool(ps) and not rest, "the trace state is not the parent's: %s" % [show_(x) for x in a], loc(f))
        a = [x for x in flat(under(q, (("f", "trace_state"),), cut=both(is_(v), lambda l: l[0] == "v" and l[3] == ("Some",) and norm(l[1]) == ("arg", 1)))) if x != ("never",)]
        ck.ob(v + ":trace-state-root", bool(a) and all(ok(x) or x[0] == "fld" and rooted(x, lambda r: r[0] == "const") for x in a), "without a parent context the trace state is %s" % [show_(x) for x in a], loc(f))
        ck.count("samplers")
    ck.floor("samplers", 4)
    ck.floor("thresholds", 1)
    ck.floor("delegations", 1)
