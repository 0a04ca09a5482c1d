"""C36: what an instrument may be called and configured with"""
from checks.assume import *
from checks.c13 import subs_
from checks.c15 import bare

TITLE = "Invalid instruments measure nothing; valid ones are made"
FLOOR = 1200
MET = "opentelemetry_sdk::metrics::"
KINDS = [("u64_counter", 0), ("f64_counter", 0), ("u64_observable_counter", 1), ("f64_observable_counter", 1), ("i64_up_down_counter", 0), ("f64_up_down_counter", 0),
         ("i64_observable_up_down_counter", 1), ("f64_observable_up_down_counter", 1), ("u64_gauge", 0), ("f64_gauge", 0), ("i64_gauge", 0),
         ("u64_observable_gauge", 1), ("i64_observable_gauge", 1), ("f64_observable_gauge", 1), ("f64_histogram", 0), ("u64_histogram", 0)]
NAME, UNIT, BOUNDS = ("fld", ("arg", 1), "name"), ("fld", ("fld", ("arg", 1), "unit"), "Some.0"), ("fld", ("fld", ("arg", 1), "boundaries"), "Some.0")
LETTERS, REST = "azAZmQ", "azAZ09_.-/"
BADFIRST = "0_.-/ $\u00e9\u00df"
BADREST = " $@,:;\\\"'()[]{}<>=+*&%#!?~^`|\t\n\x00\x7f\u00e9\u9508\u00b2"


class Text:
    """assumption: X is a text of n bytes whose first character is `first` and whose characters are `chars`"""

    def __init__(self, q, X, n, first="", chars=""):
        self.q, self.X, self.nx, self.n, self.first, self.chars = q, X, norm(X), n, first, chars
        self.facts = {}
        g = q.g
        for c in q.calls(lambda c: c.clo and c.args):
            m = last(c.d.name)
            if m not in ("any", "all", "find", "position", "contains", "starts_with", "is_some_and", "is_none_or", "map_or", "strip_prefix", "trim_start_matches", "rfind", "ends_with"):
                continue
            a = g.ev(c.d.args[0], c.i)
            if not self.over(a):
                continue
            whole = m not in ("starts_with", "is_some_and", "is_none_or", "strip_prefix")
            cs = chars if whole else first[:1]
            rs = [self.closure(c, ch) for ch in cs]
            key = norm(g.ev_def(c.i, (), 0))
            if m in ("any", "contains", "is_some_and", "starts_with"):
                v = True if True in rs else False if all(r is False for r in rs) else None
            elif m in ("all", "is_none_or"):
                v = False if False in rs else True if all(r is True for r in rs) else None
            elif m in ("find", "position", "rfind", "strip_prefix"):
                v = V("Some") if True in rs else V("None") if all(r is False for r in rs) else None
            else:
                v = None
            if v is not None:
                self.facts[key] = v

    def over(self, e):
        return any(norm(y) == self.nx for y in subs_(e))

    def closure(self, c, ch):
        q, g = self.q, self.q.g

        def env(e):
            if e[0] == "elem" and self.over(e):
                return ord(ch)
            return listed(e, env)
        rs = set()
        for rp, b in c.d.clo:
            bs = set(q.ex.by_node.get(b, []))
            start = {t for s in q.S([c]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}
            r = q.reach(start, cut=under_env(env, g.p)) & (region(q, c, b) | bs)
            rs |= {val(x, env, g.p) for x in alts(q.pv(rp, bs & r, r))} if bs & r else {None}
        return rs.pop() if len(rs) == 1 else None

    def env(self, e):
        k = norm(e)
        if k in self.facts:
            return self.facts[k]
        if e[0] == "call" and e[2] and norm(strip(e[2][0])) == self.nx:
            m = last(e[1])
            if m == "len":
                return self.n
            if m == "is_empty":
                return self.n == 0
            if m in ("first", "next") and len(e[2]) == 1 and (not self.n or e[3] not in looping(self.q)):
                return V("Some") if self.n else V("None")
            if m in ("contains", "starts_with") and len(e[2]) == 2 and e[2][1][0] != "closure":
                t = val(e[2][1], lambda x: None)
                t = chr(t) if isinstance(t, int) and not isinstance(t, bool) else t
                if isinstance(t, str) and len(t) == 1:
                    return t in self.chars if m == "contains" else self.first == t
            if m == "is_ascii":
                return all(c.isascii() for c in self.chars)
        if e[0] == "call" and last(e[1]) == "count" and e[2] and self.over(e[2][0]):
            return min(self.n, len(self.chars)) if self.n < 2 else None      # characters, not bytes
        if (e[0] == "elem" or nth(e)[0] is not None) and self.over(e):
            if len(set(self.chars)) == 1:
                return ord(self.first)
            if nth(e)[0] is not None and nth(e)[1] == 0:
                return ord(self.first)
            return None
        return listed(e, self.env)


def looping(q):
    """the calls of `next` that a loop makes again and again"""
    if not hasattr(q, "_looping"):
        q._looping = set()
        for n in q.calls(lambda c: last(c.name) == "next"):
            S = q.S([n])
            if S & q.reach(q.after(S)):
                q._looping.add(n.i)
    return q._looping


def strip(e):
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in ("as_bytes", "bytes", "chars", "as_str", "as_ref", "deref", "char_indices"):
        e = e[2][0]
    return e


def listed(e, env):
    """membership in a constant list of characters"""
    if e[0] == "call" and last(e[1]) == "contains" and len(e[2]) == 2:
        v = val(e[2][1], env)
        if v is None:
            return None
        c = chr(v) if isinstance(v, int) and not isinstance(v, bool) else v
        a = e[2][0]
        if a[0] == "array":
            l = [val(x, lambda x: None) for x in a[1]]
            return c in [chr(x) if isinstance(x, int) else x for x in l] if None not in l else None
        if a[0] == "const" and isinstance(a[1], str):
            m = re.findall(r"'(\\?.)'", a[1])
            if a[1].startswith("[") and m:
                return c in [x[-1] for x in m]
            if a[1].startswith('b"') or isinstance(a[1], bytes):
                return c in str(a[1])[2:-1]
            return c in a[1]
        if a[0] == "const" and isinstance(a[1], bytes):
            return ord(c) in a[1]
    return None


def loop_over(q, pred):
    """(some-edges, heads) of the loops over what pred says"""
    some, heads = set(), set()
    for s, lab, t, l in q.literals():
        if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) == "next" and l[1][2] and pred(l[1][2][0]):
            if l[3] == ("Some",):
                some.add(t)
    for n in q.calls(lambda c: last(c.name) == "next" and c.args):
        if pred(q.g.ev(n.d.args[0], n.i)):
            heads |= q.S([n])
    return some, heads


def refused(q, S, envs, over, base):
    """S is not reached when the assumption holds for some element (envs) of what `over` accepts; base: what holds anyway.
    over None: no elements involved"""
    env = lambda e: next((v for v in (f(e) for f in (base, envs) if f) if v is not None), None)
    if not (S & q.reach(q.entry(), cut=under_env(env, q.g.p))):
        return True
    if over is None:
        return False
    some, heads = loop_over(q, over)
    if not heads:
        return False
    r = q.reach(some & q.reach(q.entry(), cut=under_env(base, q.g.p)), cut=under_env(env, q.g.p))
    return not (r & (heads | S)) and not (S & q.reach(q.entry(), avoid=heads, cut=under_env(base, q.g.p)))


def instruments(ck, p):
    made = lambda fn: "metrics::pipeline::" in fn.name
    for name, obs in KINDS:
        f = ck.one(p.method(MET + "meter::SdkMeter", name, trait="InstrumentProvider"), name)
        q = Q(ck.graph(f, opaque=made, indexed=True))
        g = q.g
        sites = q.calls(lambda c: "metrics::pipeline::" in c.name)
        ck.ob("%s:sites" % name, bool(sites), "the instrument is not registered with any reader", loc(f))
        S = q.S(sites)
        some = lambda e: V("None") if bare(e) in (("fld", ("arg", 1), "unit"), ("fld", ("arg", 1), "boundaries")) else None

        def noop(cut):
            if obs:
                return True
            r = q.result_from(q.entry(), cut=cut)
            return all(has(a, lambda x: x[0] == "agg" and "Noop" in x[1]) for a in alts(r))

        def text(what, X, n, first, chars, ok, given=None):
            T = Text(q, X, n, first, chars)
            base = lambda e: (given(e) if given else some(e))
            env = lambda e: next((v for v in (base(e), T.env(e)) if v is not None), None)
            cut = under_env(env, g.p)
            r = bool(S & q.reach(q.entry(), cut=cut))
            if ok:
                ck.ob("%s:accepts:%s" % (name, what), r, "an instrument with %s is refused" % what, loc(f))
                return
            bad = r
            if r and chars:
                # a loop over the characters that stops at the bad one
                badch = [c for c in chars if c not in (REST if X == NAME else "".join(map(chr, range(128))))] or [first]
                over = lambda e: T.over(e)

                def one(e):
                    if e[0] == "elem" and T.over(e):
                        return ord(badch[0])
                    v = listed(e, one)
                    return T.env(e) if v is None else v
                bad = not refused(q, S, one, over, base)
            ck.ob("%s:refuses:%s" % (name, what), not bad, "an instrument with %s is registered" % what, loc(f))
            if not r:
                ck.ob("%s:noop:%s" % (name, what), noop(cut), "an instrument with %s is not one that measures nothing" % what, loc(f))
        text("an empty name", NAME, 0, "", "", False)
        for ch in BADFIRST:
            text("a name starting with %r" % ch, NAME, 5, ch, ch + "a", False)
        for ch in LETTERS:
            text("a name of one %r" % ch, NAME, 1, ch, ch, True)
        for ch in BADREST:
            text("a name containing %r" % ch, NAME, 9, "a", "a" + ch, False)
        for ch in REST:
            text("a name containing %r" % ch, NAME, 9, "a", "a" + ch, True)
        text("a name of 255 bytes", NAME, 255, "a", "a", True)
        text("a name of 256 bytes", NAME, 256, "a", "a", False)
        u = lambda e: V("Some") if bare(e) == ("fld", ("arg", 1), "unit") else some(e)
        fine = Text(q, NAME, 3, "a", "a")
        ug = lambda e: next((v for v in (u(e), fine.env(e)) if v is not None), None)
        for ch in "{}/ %1\x00\x7f":
            text("a unit containing %r" % ch, UNIT, 9, ch, ch, True, ug)
        for ch in "\u00e9\u9508\u00b5\x80":
            text("a unit containing %r" % ch, UNIT, 9, "a", "a" + ch, False, ug)
        text("a unit of 63 bytes", UNIT, 63, "a", "a", True, ug)
        text("a unit of 64 bytes", UNIT, 64, "a", "a", False, ug)
        text("an empty unit", UNIT, 0, "", "", True, ug)
        if "histogram" in name:
            histogram(ck, q, f, name, S, fine)


def bounds_env(B, nan, inf):
    def env(e):
        if e[0] == "call" and e[2] and runs_over(e[2][0], B):
            m = last(e[1])
            if m == "is_nan":
                return nan
            if m == "is_infinite":
                return inf
            if m == "is_finite":
                return not nan and not inf
            if m == "is_normal" and (nan or inf):
                return False
        return None
    return env


def neighbour(e, B):
    """('prev' | 'cur', the loop they belong to) for an element of B next to another"""
    e = strip_cast(e)
    if e[0] == "elem" and isinstance(e[2], tuple) and e[2][0] == "ci" and e[2][1] in (0, 1) or nth(e)[0] is not None and nth(e)[1] in (0, 1):
        k = e[2][1] if e[0] == "elem" else nth(e)[1]
        w = e[1] if e[0] == "elem" else nth(e)[0]
        if w[0] == "elem" and w[1][0] == "call" and last(w[1][1]) in ("windows", "array_windows") and norm(w[1][2][0]) in B and (len(w[1][2]) < 2 or intval(w[1][2][1]) == 2):
            return ("prev", "cur")[k]
        return None
    if e[0] == "fld" and e[2] in ("0", "1") and e[1][0] == "elem" and e[1][1][0] == "call" and last(e[1][1][1]) == "zip":
        a, b = e[1][1][2][:2]
        later = lambda x: x[0] == "call" and last(x[1]) in ("skip",) and intval(x[2][1]) == 1 and norm(x[2][0]) in B or \
            has(x, lambda y: y[0] == "call" and last(y[1]) == "index" and norm(y[2][0]) in B and y[2][1][0] == "agg" and last(y[2][1][1]) == "RangeFrom" and intval(dict(y[2][1][3])["start"]) == 1)
        plain = lambda x: norm(x) in B or x[0] == "call" and last(x[1]) in ("iter", "into_iter") and norm(x[2][0]) in B
        if plain(a) and later(b):
            return "prev" if e[2] == "0" else "cur"
        if later(a) and plain(b):
            return "cur" if e[2] == "0" else "prev"
        return None
    if e[0] == "call" and last(e[1]) == "index" and len(e[2]) == 2 and norm(e[2][0]) in B:
        i, k = e[2][1], 0
        if i[0] == "bin" and i[1] in ("Add", "Sub") and intval(i[3]) is not None:
            i, k = i[2], intval(i[3]) * (1 if i[1] == "Add" else -1)
        if i[0] != "elem":
            return None
        lo, hi, inc = range_of(i[1])
        if lo is None or inc or intval(lo) is None:
            return None
        hk = 0
        if hi[0] == "bin" and hi[1] == "Sub":
            hi, hk = hi[2], intval(hi[3])
        elif hi[0] == "call" and last(hi[1]) == "saturating_sub":
            hi, hk = hi[2][0], intval(hi[2][1])
        if not (hi[0] in ("len",) and norm(hi[1]) in B or hi[0] == "call" and last(hi[1]) == "len" and norm(hi[2][0]) in B) or hk is None:
            return None
        if intval(lo) == 1 and hk == 0 and k in (0, -1):
            return "cur" if k == 0 else "prev"
        if intval(lo) == 0 and hk == 1 and k in (0, 1):
            return "prev" if k == 0 else "cur"
    return None


def order(B, rel):
    """branches ruled out when a boundary stands in `rel` (eq: equal to the one before it, lt: smaller, gt: greater)"""
    POS = {"eq": {"Le", "Ge", "Eq"}, "lt": {"Gt", "Ge", "Ne"}, "gt": {"Lt", "Le", "Ne"}}     # prev OP cur holds

    def cut(l):
        if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) in ("lt", "le", "gt", "ge", "eq", "ne") and len(l[1][2]) == 2:
            op = last(l[1][1]).capitalize()
            a, b, yes = l[1][2][0], l[1][2][1], l[2]
        elif l[0] == "cmp":
            op, a, b, yes = l[1], l[2], l[3], True
        else:
            return False
        x, y = neighbour(a, B), neighbour(b, B)
        if {x, y} != {"prev", "cur"}:
            return False
        if x == "cur":
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        return (op in POS[rel]) != yes
    return cut


def monotone(ck, q, f, key, B, S, base, what):
    g = q.g
    pairs = lambda e: e[0] == "call" and runs_over(e, B) and last(e[1]) in ("windows", "array_windows", "zip") or range_of(e)[0] is not None and has(e, lambda x: norm(x) in B)
    some, heads = loop_over(q, pairs)
    reach0 = q.reach(q.entry(), cut=base)
    for rel in ("eq", "lt", "gt"):
        o = order(B, rel)
        cut = lambda l: base(l) or o(l)
        if rel == "gt":
            r = q.reach(q.entry(), cut=cut)
            ck.ob(key + ":accepts:increasing", bool(r & S) and (not heads or bool(q.reach(some & r, cut=cut) & (heads | S))), "increasing %s are refused" % what, loc(f))
            continue
        # closures that decide per pair
        facts = {}
        for c in q.calls(lambda c: c.clo and c.args and last(c.name) in ("any", "all", "is_sorted_by", "find", "position")):
            a = g.ev(c.d.args[0], c.i)
            if not (pairs(a) or last(c.d.name) == "is_sorted_by" and runs_over(a, B)):
                continue
            rs = set()
            for rp, b in c.d.clo:
                for x in alts(g.evp(rp, b)):
                    y = x
                    neg = False
                    while y[0] == "un" and y[1] == "Not":
                        y, neg = y[2], not neg
                    l = ("cmp", y[1], y[2], y[3]) if y[0] == "bin" else ("b", y, True)
                    if y[0] == "const":
                        rs.add(bool(val(y, lambda e: None)) != neg)
                        continue
                    ln = ("cmp", {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(y[1], y[1]), y[2], y[3]) if y[0] == "bin" else ("b", y, False)
                    rs.add((not neg) if o(ln) else neg if o(l) else None)
            m = last(c.d.name)
            if rs == {True} and m in ("any", "find", "position"):
                facts[norm(g.ev_def(c.i, (), 0))] = True if m == "any" else V("Some")
            if rs == {False} and m in ("all", "is_sorted_by"):
                facts[norm(g.ev_def(c.i, (), 0))] = False
        fc = under_env(lambda e: facts.get(norm(e)) if e[0] == "call" else None, g.p)
        ok = not (S & q.reach(q.entry(), cut=lambda l: base(l) or fc(l)))
        if not ok and heads:
            r = q.reach(some & reach0, cut=cut)
            ok = not (r & (heads | S)) and not (S & q.reach(q.entry(), avoid=heads, cut=base))
        ck.ob("%s:refuses:%s" % (key, "equal" if rel == "eq" else "decreasing"), ok, "%s with a boundary %s the one before it are accepted" % (what, "equal to" if rel == "eq" else "below"), loc(f))


def histogram(ck, q, f, name, S, fine):
    B = {BOUNDS, norm(("fld", ("arg", 1), "boundaries"))}
    base = lambda e: V("Some") if bare(e) == ("fld", ("arg", 1), "boundaries") else V("None") if bare(e) == ("fld", ("arg", 1), "unit") else fine.env(e)
    over = lambda e: runs_over(e, B) and range_of(e)[0] is None and not has(e, lambda x: x[0] == "call" and last(x[1]) in ("windows", "zip", "skip", "take", "step_by", "filter"))
    for what, nan, inf in (("a NaN boundary", True, False), ("an infinite boundary", False, True)):
        be = bounds_env(B, nan, inf)
        # closures
        facts = {}
        for c in q.calls(lambda c: c.clo and c.args and last(c.name) in ("any", "all", "find", "position")):
            if over(q.g.ev(c.d.args[0], c.i)):
                rs = set()
                for rp, b in c.d.clo:
                    bs = set(q.ex.by_node.get(b, []))
                    r = q.reach({t for s in q.S([c]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}, cut=under_env(be, q.g.p))
                    rs |= {val(x, be, q.g.p) for x in alts(q.pv(rp, bs & r, r))}
                m = last(c.d.name)
                if rs == {True} and m in ("any", "find", "position"):
                    facts[norm(q.g.ev_def(c.i, (), 0))] = True if m == "any" else V("Some")
                if rs == {False} and m == "all":
                    facts[norm(q.g.ev_def(c.i, (), 0))] = False
        fe = lambda e: facts.get(norm(e)) if e[0] == "call" and norm(e) in facts else be(e)
        ok = refused(q, S, lambda e: facts.get(norm(e)) if e[0] == "call" else None, None, base) if facts else False
        ok = ok or refused(q, S, fe, over, base)
        ck.ob("%s:refuses:%s" % (name, what), ok, "%s is accepted" % what, loc(f))
    monotone(ck, q, f, name, B, S, under_env(lambda e: next((v for v in (base(e), bounds_env(B, False, False)(e)) if v is not None), None), q.g.p), "boundaries")


def views(ck, p):
    f = ck.one(p.find(MET + "view::new_view"), "new_view")
    q = Q(ck.graph(f, indexed=True))
    g = q.g
    AGG = ("fld", ("arg", 1), "aggregation")
    # the views that ask for the stream of the mask: what is returned but for the empty view
    sites = [n for n in g.nodes if n.k == "as" and n.d[1][0] == "agg" and n.d[1][1]["k"] == "closure" and any(has(g.ev(o, n.i), lambda x: bare(x)[:1] == ("arg",) and x == ("arg", 1)) for o in n.d[1][2])]
    ck.ob("view:sites", bool(sites), "no view is made from the mask", loc(f))
    S = q.S(sites)

    def base(variant):
        def env(e):
            b = bare(e)
            if b == AGG:
                return V("Some")
            if b == ("fld", AGG, "Some.0"):
                return V(variant)
            return None
        return env
    for v in ("Drop", "Default", "Sum", "LastValue"):
        ck.ob("view:accepts:" + v, bool(S & q.reach(q.entry(), cut=under_env(base(v), g.p))), "a view that asks for %s is refused" % v, loc(f))
    SC = ("fld", ("fld", AGG, "Some.0"), "Base2ExponentialHistogram.max_scale")
    for k in (-128, -11, -10, 0, 20, 21, 127):
        env = lambda e: k if bare(e) == SC else base("Base2ExponentialHistogram")(e)
        r = bool(S & q.reach(q.entry(), cut=under_env(env, g.p)))
        ck.ob("view:scale:%d" % k, r == (-10 <= k <= 20), "a view with maximum scale %d is %s" % (k, "made" if r else "refused"), loc(f))
    B = {("fld", ("fld", AGG, "Some.0"), "ExplicitBucketHistogram.boundaries")}
    monotone(ck, q, f, "view", B, S, under_env(base("ExplicitBucketHistogram"), g.p), "boundaries of a view")


def check(ck):
    ck.rule("constant propagation of assumed names, units, boundaries and scales (length, first character, each class of characters, NaN, infinite, equal and decreasing neighbours) through the instrument constructors and new_view: no call into the pipelines is reachable for an invalid one, and one is for a valid one; per-element rules for loops and predicates")
    p = ck.program("sdk")
    instruments(ck, p)
    views(ck, ck.program("all"))
