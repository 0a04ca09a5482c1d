"""C13: extraction from untrusted carriers"""
from checks.panics import *
from checks.assume import *
from checks.flags import *

TITLE = "Extracting from any carrier never panics and yields only valid remote parents"
FLOOR = 60
PROP = "TextMapPropagator"
CTX = ("f", "span"), ("v", "Some"), ("f", "0")


def getter(e):
    """a value read from the carrier (second argument)"""
    return e[0] == "call" and last(e[1]) in ("get", "get_all", "keys") and "Extractor" in e[1] and e[2] and rooted(e[2][0], lambda r: r == ("arg", 2))


def from_carrier(e):
    return has(e, getter)


def parse_calls(e, ty):
    """strings parsed as a number of the given type inside e"""
    out = []
    for x in subs_(e):
        if x[0] == "call" and last(x[1]) in ("from_str_radix", "from_str", "parse") and x[2] and (x[1].startswith(ty + "::") or "<%s as" % ty in x[1]):
            out.append(x)
    return out


def subs_(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str):
            out.append(x)
        st.extend(x)
    return out


def key_text(e):
    for x in subs_(e):
        if getter(x) and len(x[2]) > 1:
            s = const_str(x[2][1])
            if s:
                return s
    return None


def part_index(e):
    """k when e is the k-th part of a split text"""
    e = strip_cast(e)
    if nth(e)[0] is not None:
        return nth(e)[1]
    if e[0] == "fld" and e[2].endswith("Some.0"):
        e = e[1]
    if e[0] == "call" and last(e[1]) in ("get", "nth") and len(e[2]) == 2:
        return intval(e[2][1])
    return None


def texts(X):
    """the text behind a string that is formatted / padded before it is parsed"""
    r = [X]
    if has(X, lambda x: x[0] == "call" and last(x[1]) in ("format", "new_display")):
        r = [x[2][0] for x in subs_(X) if x[0] == "call" and last(x[1]) == "new_display"] or r
    return r


def char_env(q, X, ch):
    """assumption: the text X contains the character ch"""
    g = q.g
    nx = norm(X)
    facts = {}

    def elem(e):
        return e[0] == "elem" and any(norm(y) == nx for y in [e[1]] + [z for z in subs_(e[1]) if z[0] == "call" and last(z[1]) in ("bytes", "chars", "as_bytes", "char_indices") for z in z[2][:1]])

    def env0(e):
        if elem(e):
            return ord(ch)
        return None
    for n in q.calls(lambda c: c.clo and c.args and last(c.name) in ("any", "all", "find", "position", "contains")):
        a = g.ev(n.d.args[0], n.i)
        if not any(norm(y) == nx for y in subs_(a)):
            continue
        m = last(n.d.name)
        rs = set()
        for rp, b in n.d.clo:
            start = {t for s in q.S([n]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}
            bs = set(q.ex.by_node.get(b, []))
            r = q.reach(start, avoid=set(), cut=under_env(env0, g.p)) & (region(q, n, b) | bs)
            rs |= {val(x, env0, g.p) for x in alts(q.pv(rp, bs & r, r))} if bs & r else {None}
        if m == "all" and rs == {False}:
            facts[norm(g.ev_def(n.i, (), 0))] = False
        elif m in ("any", "contains") and rs == {True}:
            facts[norm(g.ev_def(n.i, (), 0))] = True
        elif m in ("find", "position") and rs == {True}:
            facts[norm(g.ev_def(n.i, (), 0))] = V("Some")

    def env(e):
        if e[0] == "call":
            v = facts.get(norm(e))
            if v is not None:
                return v
            if last(e[1]) in ("eq", "ne") and len(e[2]) == 2 and ch.isupper():
                for a, b in (e[2], e[2][::-1]):
                    if norm(b) == nx and a[0] == "call" and last(a[1]) in ("to_lowercase", "to_ascii_lowercase") and norm(a[2][0]) == nx:
                        return last(e[1]) == "ne"
        return None
    return env


def loop_rejects(q, X, ch, accepted):
    """a loop over the characters of X that never goes on past ch"""
    nx = norm(X)
    g = q.g
    heads = [n for n in q.calls(lambda c: last(c.name) == "next") if any(norm(y) == nx for y in subs_(g.ev(n.d.args[0], n.i)))]
    if not heads:
        return False
    H = q.S(heads)
    some = {t for s, lab, t, l in q.literals() if l[0] == "v" and l[3] == ("Some",) and l[1][0] == "call" and last(l[1][1]) == "next" and any(norm(y) == nx for y in subs_(l[1]))}
    env = lambda e: ord(ch) if e[0] == "elem" and any(norm(y) == nx for y in subs_(e)) else None
    r = q.reach(some, cut=under_env(env, g.p))
    return not (r & H) and not accepted(r) and not accepted(q.reach(q.entry(), avoid=H)) and not accepted(q.reach(some, avoid=H))


class X1:
    """one propagator's extract function"""

    def __init__(self, ck, p, f):
        self.g = ck.graph(f)
        self.q = Q(self.g)
        self.p = p
        self.f = f
        self.d = self.g.result_place

    def value(self, proj=(), env=None, cut=None):
        c = cut
        if env is not None:
            u = under_env(env, self.p)
            c = u if cut is None else (lambda l: u(l) or cut(l))
        v = under(self.q, proj, c)
        if not proj:
            return v
        r = tuple(a for a in alts(v) if not rooted(a, lambda y: y == ("arg", 1)))
        return ("never",) if not r else r[0] if len(r) == 1 else ("phi", r)

    def accepts(self, env=None, cut=None):
        v = self.value((), env, cut)
        return v != ("never",) and any(x != ("arg", 1) for x in alts(v))

    def accepted_in(self, r):
        ex = self.q.exits() & r
        if not ex:
            return False
        return any(x != ("arg", 1) for x in alts(self.q.pv((self.d[0], self.d[1], self.d[2]), ex, r)))

    def ids(self, env=None, cut=None):
        v = self.value((), env, cut)
        if v == ("never",) or all(x == ("arg", 1) for x in alts(v)):
            return ("never",), ("never",)
        return self.value(CTX + (("f", "trace_id"),), env, cut), self.value(CTX + (("f", "span_id"),), env, cut)


def zero_id(e):
    return iszero(e) or e[0] == "const" and re.search(r"\(0_u(64|128)\)$", str(e[1])) is not None


def check(ck):
    ck.rule("The result is the given context, or that context with a remote parent (or with baggage) and everything else untouched")
    ck.rule("A remote parent is used only on paths that establish that its trace id and its span id are not the invalid id; both are parsed from the carrier")
    ck.rule("No operation that can panic is reachable in extraction, injection or a carrier unless the path establishes that it cannot (index below a checked length, position found in the same text)")
    ck.rule("Under the assumption of a malformed header (number of fields, lengths, characters, version) constant propagation leaves no accepting path; under a well-formed one it leaves one, with the right sampled bit")
    p = ck.program("all")
    fs = []
    for im in p.impls_of(PROP):
        f = ck.one(p.method(im["self_ty"].adt, "extract_with_context", PROP), im["self_ty"].s + "::extract_with_context")
        fs.append((im["self_ty"].adt, f))
    ck.count("propagators", len(fs))
    ck.floor("propagators", 5)
    for adt, f in sorted(fs, key=lambda x: x[0]):
        nm = "::".join(adt.split("::")[-2:]) if last(adt) == "Propagator" else last(adt)
        if adt.startswith("opentelemetry_"):
            nm = adt.split("::")[0].replace("opentelemetry_", "") + "::" + last(adt)
        panics(ck, p, nm + "::extract", f)
        for g in p.method(adt, "inject_context", PROP):
            panics(ck, p, nm + "::inject", g)
        x = X1(ck, p, f)
        q, g = x.q, x.g
        v = q.results()
        spans, bag, deleg = [], [], []
        for a in alts(v):
            if a == ("arg", 1):
                continue
            if a[0] == "call" and (has(a, lambda y: y[0] == "call" and last(y[1]) == "extract_with_context")):
                deleg.append(a)
                continue
            ok = a[0] == "agg" and last(a[1]) == "Context"
            fl = dict(part_fields(a)) if ok else {}
            other = [k for k, w in fl.items() if norm(w) != ("fld", ("arg", 1), k)]
            ck.ob(nm + ":derived", ok and len(other) == 1, "extraction returns %s" % show_(a), loc(f))
            if other == ["span"]:
                spans.append(fl["span"])
            elif ok and len(other) == 1:
                bag.append(fl[other[0]])
        if deleg:
            continue
        for w in bag:
            ck.ob(nm + ":from-carrier", has_deep(q, w, from_carrier), "baggage is not read from the carrier: %s" % show_(w), loc(f))
        if not spans:
            continue
        ck.count("span propagators")
        t, s = x.ids()
        ck.ob(nm + ":remote", all(y == ("const", True) or y[:2] == ("const", True) for y in alts(x.value(CTX + (("f", "is_remote"),)))), "the extracted parent is not marked remote", loc(f))
        for what, e, ty in (("trace-id", t, "u128"), ("span-id", s, "u64")):
            for a in alts(e):
                ck.ob("%s:%s:from-carrier" % (nm, what), parse_calls(a, ty) and from_carrier(a), "the %s is %s" % (what, show_(a)), loc(f))
            isid = lambda y: bool(parse_calls(y, ty)) and from_carrier(y) and not (y[0] == "agg" and len(y[3]) > 1)
            w = x.accepts(cut=lambda l: eq_lit(l, isid, zero_id) is False or bool(l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "is_valid" and l[2]))
            ck.ob("%s:%s:valid" % (nm, what), not w, "a remote parent with an invalid %s can be used" % what, loc(f))
        formats(ck, p, nm, x)
    ck.floor("span propagators", 3)
    # carriers
    n = 0
    for tr in ("propagation::Extractor", "propagation::Injector"):
        for im in p.impls_of(tr):
            for it in ("get", "keys", "set", "get_all"):
                for f in p.method(im["self_ty"].adt or "?", it, tr.split("::")[1]):
                    panics(ck, p, "carrier %s::%s" % (im["self_ty"].s.split("<")[0].split("::")[-1], it), f)
                    n += 1
    ck.count("carrier functions", n)
    ck.floor("carrier functions", 4)
    for a, it, tr in (("TraceState", "from_str", "FromStr"), ("TraceState", "from_key_value", None), ("TraceState", "insert", None), ("TraceState", "delete", None), ("TraceState", "header", None)):
        for f in p.method(a, it, tr):
            panics(ck, p, "%s::%s" % (a, it), f)


def has_deep(q, e, pred):
    """pred holds somewhere in e, or in a value stored into a container e was built as"""
    if has(e, pred):
        return True
    g = q.g
    return any(any(has(g.ev(a, n.i), pred) for a in n.d.args) for n in q.calls(lambda c: last(c.name) in ("insert", "insert_with_metadata", "extend", "from_iter") and len(c.args) > 1))


def panics(ck, p, nm, f):
    g = ck.graph(f)
    q = Q(g)
    bad = {}
    k = 0
    for n, what, ok in sites(q):
        k += 1
        if not ok:
            bad.setdefault(what, g.loc(n.i))
    ck.count("panic sites examined", k)
    ck.ob("%s:no-panic" % nm, not bad, "; ".join("%s at %s" % x for x in bad.items()), loc(f))


def formats(ck, p, nm, x):
    q, g = x.q, x.g
    t, s = x.ids()
    lens = {"opentelemetry_sdk": ((31, 33, 0), (32,), (15, 17, 0), (16,)), "opentelemetry_jaeger_propagator": ((33,), (1, 32), (17,), (1, 16)), "opentelemetry_zipkin": ((0, 15, 17, 31, 33), (16, 32), (0, 15, 17), (16,))}
    crate = x.f.name.lstrip("<").split("::")[0]
    if crate not in lens:
        return
    bt, gt, bs, gs = lens[crate]
    for what, e, ty, badl, good, chars in (("trace-id", t, "u128", bt, gt, "A"), ("span-id", s, "u64", bs, gs, "A")):
        srcs = {}
        for a in alts(e):
            for c in parse_calls(a, ty):
                for X in texts(c[2][0]):
                    srcs[norm(X)] = X
        which = 0 if what == "trace-id" else 1
        ck.ob("%s:%s:source" % (nm, what), srcs, "no text is parsed as %s" % what, loc(x.f))
        for nx, X in sorted(srcs.items(), key=repr):
            src = key_text(X) or "header"

            def used(env):
                e = x.ids(env)[which]
                return e != ("never",) and any(norm(y) == nx for a in alts(e) for c in parse_calls(a, ty) for y in texts(c[2][0]))
            ln = lambda k: (lambda e: k if e[0] == "call" and last(e[1]) == "len" and norm(e[2][0]) == nx else (k == 0) if e[0] == "call" and last(e[1]) == "is_empty" and norm(e[2][0]) == nx else None)
            for k in badl:
                ck.ob("%s:%s:%s:length" % (nm, what, src), not used(ln(k)), "a %s of %d characters is accepted" % (what, k), loc(x.f))
            for k in good:
                ck.ob("%s:%s:%s:length-ok" % (nm, what, src), used(ln(k)), "a %s of %d characters is never accepted" % (what, k), loc(x.f))
            if crate != "opentelemetry_jaeger_propagator":
                for ch in ("A", "F") + (("+", "-", "g") if crate == "opentelemetry_sdk" else ()):
                    env = char_env(q, X, ch)
                    ck.ob("%s:%s:%s:characters" % (nm, what, src), not used(env) or loop_rejects(q, X, ch, x.accepted_in), "a %s with '%s' is accepted" % (what, ch), loc(x.f))
            for ch in "09af":
                ck.ob("%s:%s:%s:digits" % (nm, what, src), used(char_env(q, X, ch)), "a %s with the digit '%s' is never accepted" % (what, ch), loc(x.f))
    # numbers of fields
    cnt = set()
    for _, _, _, l in q.literals():
        for e in subs_(l[1:]):
            if e[0] == "call" and last(e[1]) == "len" and has(e[2][0], lambda y: y[0] == "call" and last(y[1]).startswith("split")) and from_carrier(e[2][0]) and part_index(e[2][0]) is None and not has(e[2][0], lambda y: y[0] == "call" and last(y[1]) in ("index", "from_str_radix")) \
                    or e[0] in ("un", "len") and e[1] != "Not" and has(e[-1] if e[0] == "un" else e[1], lambda y: y[0] == "call" and last(y[1]).startswith("split")) and from_carrier(e):
                if key_text(e) not in ("tracestate",):
                    cnt.add(norm(e))
    seqs = {e[-1][0] if e[0] == "call" else e[-1] if e[0] == "un" else e[1] for e in cnt}

    def num(k):
        def f(e):
            if norm(e) in cnt:
                return k
            if e[0] == "call" and last(e[1]) == "get" and len(e[2]) == 2 and norm(e[2][0]) in seqs and intval(e[2][1]) is not None:
                return V("Some") if intval(e[2][1]) < k else V("None")
            return None
        return f
    both = lambda *es: (lambda e: next((v for v in (f(e) for f in es) if v is not None), None))
    if crate == "opentelemetry_jaeger_propagator":
        if cnt:
            for k in (0, 1, 2, 3, 5):
                ck.ob(nm + ":fields", not x.accepts(num(k)), "a header of %d fields is accepted" % k, loc(x.f))
        ck.ob(nm + ":fields-ok", x.accepts(num(4)), "a header of four fields is never accepted", loc(x.f))
        u8 = {norm(c): c for c in u8s(q)}
        if len(u8) == 1:
            (c,) = u8
            for v in (0, 1, 2, 3, 5, 15):
                fl = x.value(CTX + (("f", "trace_flags"),), lambda e: v if e[0] == "fld" and e[2] == "Ok.0" and norm(e[1]) == c else None)
                ck.ob(nm + ":sampled", fl != ("never",) and all(flag0(a) == (v & 1) for a in alts(fl)), "flags %d are read as %s" % (v, show_(fl)), loc(x.f))
    if crate == "opentelemetry_zipkin":
        if cnt:
            Xs = {norm(y) for a in alts(t) for c in parse_calls(a, "u128") for y in texts(c[2][0]) if key_text(y) == "b3"}
            for k in (0, 1, 5, 6):
                e = x.ids(num(k))[0]
                ck.ob(nm + ":fields", e == ("never",) or not any(norm(y) in Xs for a in alts(e) for c in parse_calls(a, "u128") for y in texts(c[2][0])), "a single header of %d fields is accepted" % k, loc(x.f))
        words = {}
        for _, _, _, l in q.literals():
            if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "eq" and len(l[1][2]) == 2:
                for a, b in (l[1][2], l[1][2][::-1]):
                    if const_str(b) is not None and from_carrier(a) and const_str(a) is None:
                        words.setdefault(norm(a), (a, key_text(a)))
        ids = {}
        for a in alts(t):
            for c in parse_calls(a, "u128"):
                for y in texts(c[2][0]):
                    ids[key_text(y)] = norm(y)
        off = lambda key: (lambda e: 0 if e[0] == "call" and last(e[1]) == "len" and norm(e[2][0]) == ids.get(key) else None)
        SP = lambda e: V("SingleHeader") if norm(e) == ("fld", ("arg", 0), "inject_encoding") else None
        MU = lambda e: V("MultipleHeader") if norm(e) == ("fld", ("arg", 0), "inject_encoding") else None
        for nx, (a, key) in sorted(words.items(), key=repr):
            w = lambda s: (lambda e: s if norm(e) == nx else None)
            if key == "b3":
                cases = [("1", 1, SP, num(3)), ("0", 0, SP, num(3)), ("1", 1, MU, num(3)), ("0", 0, MU, num(3))]
                rest = off("x-b3-traceid")
            elif key == "x-b3-sampled":
                nodebug = lambda e: "" if norm(e) in {k for k, (_, kk) in words.items() if kk == "x-b3-flags"} else None
                cases = [("1", 1, MU, nodebug), ("true", 1, MU, nodebug), ("0", 0, MU, nodebug), ("false", 0, MU, nodebug)]
                rest = both(off("b3"), lambda e: V("Some") if getter(e) and norm(a) == norm(("fld", e, "Some.0")) else None)
            elif key == "x-b3-flags":
                cases = [("1", 1, MU, lambda e: None)]
                rest = off("b3")
            else:
                continue
            for text, want, enc, more in cases:
                fl = x.value(CTX + (("f", "trace_flags"),), both(w(text), rest, enc, more))
                got = {flag0(y) for y in alts(fl)} if fl != ("never",) else {"never"}
                ck.ob("%s:%s:sampled" % (nm, key), got == {want}, "the sampling state '%s' is read as %s" % (text, show_(fl)), loc(x.f))
            if key != "x-b3-flags":
                fl = x.value(CTX + (("f", "trace_flags"),), both(w("bogus"), rest, MU, cases[0][3]))
                ck.ob("%s:%s:unknown-state" % (nm, key), fl == ("never",) or not x.accepts(both(w("bogus"), rest, MU, cases[0][3])), "an unknown sampling state is accepted", loc(x.f))
            ck.count("sampling states")
        ck.floor("sampling states", 3)
    if crate == "opentelemetry_sdk":
        cand = {}
        for c in u8s(q):
            cand[norm(c)] = c
        ok_rules = None
        for ver in sorted(cand, key=repr):
            flg = [c for c in cand if c != ver]
            is_ver = lambda k: (lambda e: k if e[0] == "fld" and e[2] == "Ok.0" and norm(e[1]) == ver else None)
            bad = []
            if x.accepts(is_ver(255)):
                bad.append("version 255 is accepted")
            if cnt:
                for v, k in ((0, 3), (0, 5), (1, 3), (1, 0)):
                    if x.accepts(both(is_ver(v), num(k))):
                        bad.append("version %d with %d fields is accepted" % (v, k))
                for v, k in ((0, 4), (1, 4), (1, 5), (254, 6)):
                    if not x.accepts(both(is_ver(v), num(k))):
                        bad.append("version %d with %d fields is never accepted" % (v, k))
            for fc in flg:
                for v, vers in ((0, (0, 1)), (1, (0, 1)), (2, (1,)), (9, (2,)), (255, (1,))):
                    for vv in vers:
                        fl = x.value(CTX + (("f", "trace_flags"),), both(is_ver(vv), lambda e: v if e[0] == "fld" and e[2] == "Ok.0" and norm(e[1]) == fc else None))
                        fe = lambda e: v if e[0] == "fld" and e[2] == "Ok.0" and norm(e[1]) == fc else None
                        got = {val(y, fe, p) if val(y, fe, p) is not None else 0 if is_default(y) else None for y in alts(fl)} if fl != ("never",) else {"never"}
                        if got != {v & 1}:
                            bad.append("flags %d of version %d are read as %s" % (v, vv, show_(fl)))
            if ok_rules is None or len(bad) < len(ok_rules):
                ok_rules = bad
        ck.ob(nm + ":traceparent", ok_rules == [], "; ".join(ok_rules or ["no version and flags are read"])[:500], loc(x.f))


def u8s(q):
    seen = {}
    for _, _, _, l in q.literals():
        for e in parse_calls(l[1:], "u8"):
            if from_carrier(e):
                seen[norm(e)] = e
    return list(seen.values())


def flag0(e):
    """lowest bit of a flags value"""
    b = bit0(e)
    return None if b is None else int(b)
