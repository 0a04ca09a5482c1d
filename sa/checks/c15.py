"""C15: baggage and trace state stay within their limits and grammar"""
from checks.assume import *
from checks.c13 import char_env, subs_

TITLE = "Baggage and trace state stay within their limits and grammar"
FLOOR = 150
BAG = "opentelemetry::baggage::Baggage"
TS = "opentelemetry::trace::span_context::TraceState"
PAIRS, BYTES = 64, 8192
BADKEY = "(),/:;<=>?@[\\]{}\""
GROW = ("insert", "insert_entry", "or_insert", "or_insert_with", "or_default", "or_insert_with_key", "extend", "try_insert", "insert_unique_unchecked")
SHRINK = ("remove", "remove_entry", "retain", "clear", "drain", "take", "pop", "extract_if", "pop_front", "pop_back", "swap_remove_back", "swap_remove_front")
OTHER = ("append", "push_front", "push_back", "push", "get_mut", "iter_mut", "values_mut", "entry", "and_modify", "get_or_insert", "get_or_insert_with", "resize", "truncate", "swap", "replace")


# ---- sums of text lengths
def text_root(x, cat):
    r = set()
    for a in alts(x):
        a = strip_cast(a)
        c = cat(a)
        while c is None and a[0] in ("fld", "var", "cast", "elem") and (a[0] != "fld" or a[2] in ("0", "Owned.0", "Static.0", "RefCounted.0")):
            a = a[1]
            c = cat(a)
        r.add(c)
    return r.pop() if len(r) == 1 else None


def lin(e, cat):
    """the set of linear forms an integer expression can be: frozenset of (term, coefficient)"""
    e = strip_cast(e)
    if e[0] == "phi":
        out = set()
        for a in e[1]:
            out |= lin(a, cat)
        return out
    if intval(e) is not None:
        return {frozenset({("1", intval(e))} if intval(e) else ())}
    op = e[1].replace("WithOverflow", "").replace("Unchecked", "") if e[0] == "bin" else last(e[1]) if e[0] == "call" else None
    sg = {"Add": 1, "Sub": -1, "saturating_add": 1, "saturating_sub": -1, "wrapping_add": 1, "wrapping_sub": -1}.get(op)
    if sg:
        a, b = (e[2], e[3]) if e[0] == "bin" else e[2][:2]
        if op in ("saturating_sub", "wrapping_sub") and not all(("N", 1) in x for x in lin(a, cat)):
            return {frozenset({("saturated", 1)})}
        return {plus(x, y, sg) for x in lin(a, cat) for y in lin(b, cat)}
    if e[0] == "fld" and e[2] in ("Some.0", "0") and e[1][0] == "call" and last(e[1][1]) in ("checked_add", "checked_sub", "overflowing_add", "overflowing_sub"):
        return {plus(x, y, 1 if last(e[1][1]).endswith("add") else -1) for x in lin(e[1][2][0], cat) for y in lin(e[1][2][1], cat)}
    if e[0] == "call" and last(e[1]) == "len":
        c = text_root(e[2][0], cat)
        return {frozenset({(c, 1)})} if c else {frozenset({("?", 1)})}
    c = cat(norm(e))
    return {frozenset({(c, 1)})} if c else {frozenset({(repr(norm(e))[:120], 1)})}


def plus(a, b, sg):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + sg * v
    return frozenset((k, v) for k, v in d.items() if v)


def form(**kw):
    return frozenset(kw.items())


NEW = form(N=1, K=1, V=1, M=1)
REP = form(N=1, V=1, M=1, OV=-1, OM=-1)
GONE = form(N=1, K=-1, OV=-1, OM=-1)


def parts(a):
    """what part of the baggage an expression is: counter, key, value, metadata, the old value or the old metadata"""
    a = norm(a)
    if a == ("fld", ("arg", 0), "kv_content_len"):
        return "N"
    if a in (("arg", 1), ("arg", 2), ("arg", 3)):
        return "KVM"[a[1] - 1]
    if a[0] == "call":
        return "K" if last(a[1]) == "key" and has(a, lambda x: x == ("arg", 1)) else None
    if a[0] == "fld":
        b = a[1]
        m = last(b[1]) if b[0] == "call" else None
        if m in ("get", "get_mut", "insert", "into_mut") and "Entry" in b[1]:
            return {"0": "OV", "1": "OM"}.get(a[2])
        if b[0] == "fld" and b[2] == "Some.0" and b[1][0] == "call":
            m = last(b[1][1])
            if m in ("get", "get_mut", "remove", "insert"):
                return {"0": "OV", "1": "OM"}.get(a[2])
            if m == "remove_entry":
                return "K" if a[2] == "0" else None
        if b[0] == "fld" and b[2] == "1" and b[1][0] == "fld" and b[1][2] == "Some.0" and b[1][1][0] == "call" and last(b[1][1][1]) == "remove_entry":
            return {"0": "OV", "1": "OM"}.get(a[2])
    return None


def map_call(g, n, fld="inner"):
    """call n is a method of the baggage's map (or of one of its entries)"""
    if not n.d.args:
        return False
    e = norm(g.ev(n.d.args[0], n.i))
    while True:
        if e[0] == "fld" and e[2] == fld:
            return True
        if e[0] in ("fld", "var", "elem", "cast"):
            e = e[1]
        elif e[0] == "call" and e[2] and last(e[1]) in ("entry", "get_mut", "iter_mut", "values_mut", "or_insert", "into_mut", "and_modify"):
            e = e[2][0]
        else:
            return False


# ---- character and length rules of a text
def srcs(q, pred):
    """the texts for which pred holds that are looked at, byte by byte or whole"""
    g = q.g
    out = {}
    for n in q.calls(lambda c: c.args and last(c.name) in ("as_bytes", "bytes", "chars", "len", "is_empty", "contains", "iter", "char_indices", "as_str", "find", "all", "any")):
        e = g.ev(n.d.args[0], n.i)
        if e[0] == "const":
            continue
        if all(pred(a) for a in alts(e)):
            out[norm(e)] = e
    return list(out.values())


def loop_env(q, X, ch, first=None):
    """the text X has the character ch (as its first character / somewhere after it)"""
    nx = norm(X)

    def mine(e):
        return e[0] == "elem" and any(norm(y) == nx for y in subs_(e))
    enum = lambda e: has(e, lambda y: y[0] == "call" and last(y[1]) in ("enumerate", "char_indices"))

    def env(e):
        if e[0] == "fld" and mine(e[1]) and enum(e[1]):
            if e[2] == "1":
                return ord(ch)
            return None if first is None else 0 if first else None
        if mine(e):
            return "" if enum(e) else ord(ch)
        return None

    def env2(e):
        v = env(e)
        return None if v == "" else v
    return env2


def rejects(q, Xs, ch, sites, first=None):
    """none of the sites is reached when the text contains ch"""
    S = q.S(sites)
    for X in Xs:
        whole_ = lambda e, X=X: contains_(e, X, ch)
        ce = char_env(q, X, ch)
        cut = under_env(lambda e: (whole_(e) if whole_(e) is not None else ce(e)), q.g.p)
        if not (S & q.reach(q.entry(), cut=cut)):
            return True
        nx = norm(X)
        heads = [n for n in q.calls(lambda c: last(c.name) == "next") if any(norm(y) == nx for y in subs_(q.g.ev(n.d.args[0], n.i)))]
        if heads:
            H = q.S(heads)
            some = {t for s, lab, t, l in q.literals() if l[0] == "v" and l[3] == ("Some",) and l[1][0] == "call" and last(l[1][1]) == "next" and any(norm(y) == nx for y in subs_(l[1]))}
            starts = some
            if first:
                # only the first pass
                starts = some & q.reach(q.entry(), avoid=set())
            r = q.reach(starts, avoid=closure_ends(q), cut=under_env(loop_env(q, X, ch, first), q.g.p))
            if not (r & H) and not (r & S) and not (S & q.reach(q.entry(), avoid=H)):
                return True
    return False


def contains_(e, X, ch):
    """value of X.contains(pattern) when X contains ch (True if the pattern matches ch, else unknown)"""
    if e[0] == "call" and last(e[1]) in ("contains",) and len(e[2]) == 2 and norm(e[2][0]) == norm(X):
        t = const_str(e[2][1]) if e[2][1][0] == "const" else None
        if t == ch:
            return True
        if e[2][1][0] == "array" and any(const_str(x) == ch for x in e[2][1][1]):
            return True
    return None


def accepts(q, Xs, chars, sites):
    """the sites can be reached when the text consists of ch only"""
    S = q.S(sites)
    for ch in chars:
        facts = [char_env(q, X, ch) for X in Xs]

        def env(e):
            for X in Xs:
                if e[0] == "call" and last(e[1]) == "contains" and len(e[2]) == 2 and norm(e[2][0]) == norm(X):
                    t = const_str(e[2][1]) if e[2][1][0] == "const" else None
                    if t is not None:
                        return t == ch
                v = loop_env(q, X, ch)(e)
                if v is not None:
                    return v
            for f in facts:
                v = f(e)
                if v is not None:
                    return v
            return None
        if not (S & q.reach(q.entry(), cut=under_env(env, q.g.p))):
            return ch
    return None


def length(q, Xs, k):
    ns = {norm(X) for X in Xs}

    def env(e):
        if e[0] == "call" and e[2] and norm(e[2][0]) in ns:
            return k if last(e[1]) == "len" else (k == 0) if last(e[1]) == "is_empty" else None
        return None
    return under_env(env, q.g.p)


def bare(e):
    """normal form without the identity of the iteration an element belongs to"""
    e = norm(e)

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == "elem":
            return ("elem", go(x[1]))
        return tuple(go(y) for y in x)
    return go(e)


def text_of(root):
    """every alternative is the text of the given value"""
    def pred(a):
        a = strip_cast(a)
        while a[0] in ("fld", "var", "cast") and bare(a) != root:
            if a[0] == "fld" and a[2] not in ("0", "Owned.0", "Static.0", "RefCounted.0"):
                return False
            a = a[1]
        return bare(a) == root or a[0] == "call" and last(a[1]) in ("key", "to_string", "into") and bool(a[2]) and has(bare(a), lambda x: x == root)
    return pred


def baggage(ck, p):
    f = ck.one(p.method(BAG, "insert_with_metadata", inherent=True), "Baggage::insert_with_metadata")
    q = Q(ck.graph(f))
    g = q.g
    ins = [n for n in q.calls(lambda c: last(c.name) in GROW) if map_call(g, n)]
    rep = [n for n in ins if has(norm(g.ev(n.d.args[0], n.i)), lambda x: x[0] == "call" and last(x[1]) in ("get_mut",)) or "Occupied" in n.d.name]
    new = [n for n in ins if n not in rep]
    ck.ob("insert:sites", bool(new) and bool(rep), "no place where a new / an existing entry is set", loc(f))
    st = [(n, v) for n, pth, v in stores(q) if norm(pth) == ("fld", ("arg", 0), "kv_content_len")]
    inner = lambda x: norm(strip_cast(x)) == ("fld", ("arg", 0), "inner")
    is_n = lambda x: strip_cast(x)[0] == "call" and last(strip_cast(x)[1]) == "len" and inner(strip_cast(x)[2][0])
    for what, I, want in (("new", new, NEW), ("existing", rep, REP)):
        S = [n for n, v in st if want in lin(v, parts) and lin(v, parts) <= {NEW, REP, form(N=1)}]
        bad = [v for n, v in st if not lin(v, parts) <= {NEW, REP, form(N=1)}]
        ck.ob("insert:%s:length" % what, not bad, "the total length becomes %s" % (show_(bad[0]) if bad else ""), loc(f))
        w = None if S else "no update of the total length"
        if S:
            SS = q.S(S)
            r = q.reach(q.entry(), avoid=SS)
            if q.S(I) & r and q.not_after(I, S) is not None:
                w = "an entry is set without updating the total length"
        ck.ob("insert:%s:counted" % what, w is None, str(w), loc(f))

        def fits(l):
            if l[0] != "cmp":
                return False
            a, b = l[2], l[3]
            return (l[1] == "Le" and intval(b) == BYTES or l[1] == "Lt" and intval(b) == BYTES + 1) and lin(a, parts) == {want}

        def over(l):
            if l[0] != "cmp":
                return False
            a, b = l[2], l[3]
            return (l[1] == "Lt" and intval(a) == BYTES or l[1] == "Le" and intval(a) == BYTES + 1) and want in lin(b, parts)
        w = q.unguarded(I, lambda l: fits(l))
        ck.ob("insert:%s:bounded" % what, bool(I) and w is None, "an entry is set without showing that at most %d bytes are held: %s" % (BYTES, w), loc(f))
        if what == "new":
            w = q.unguarded(I, lambda l: l[0] == "cmp" and is_n(l[2]) and (l[1] == "Ne" and intval(l[3]) == PAIRS or l[1] == "Lt" and intval(l[3]) == PAIRS or l[1] == "Le" and intval(l[3]) == PAIRS - 1))
            ck.ob("insert:new:entries", bool(I) and w is None, "an entry is added without showing that fewer than %d are held: %s" % (PAIRS, w), loc(f))
        full = lambda l: l[0] == "cmp" and (l[1] == "Eq" and is_n(l[2]) and intval(l[3]) == PAIRS or l[1] == "Le" and intval(l[2]) == PAIRS and is_n(l[3]) or l[1] == "Lt" and intval(l[2]) == PAIRS - 1 and is_n(l[3]))
        invalid = lambda l: l[0] == "b" and not is_n(l[1]) and has(l[1], lambda x: x[0] == "call" and last(x[1]) in ("is_empty", "all", "any", "is_ascii_graphic", "contains"))
        isocc = lambda l: l[0] == "v" and (l[3] == ("Occupied",) or l[3] == ("Some",) and has(l[1], lambda x: x[0] == "call" and last(x[1]).startswith("get")))
        isvac = lambda l: l[0] == "v" and (l[3] == ("Vacant",) or l[3] == ("None",) and has(l[1], lambda x: x[0] == "call" and last(x[1]).startswith("get")))
        ex = (lambda l: over(l) or full(l) or invalid(l) or isocc(l)) if what == "new" else (lambda l: over(l) or isvac(l))
        w = q.skipped(I, excuse=ex)
        ck.ob("insert:%s:kept" % what, w is None, "an entry that fits is not kept: %s" % w, loc(f))
        # what is stored, under which key
        for n in I:
            v = g.ev(n.d.args[-1], n.i)
            kv = dict(v[3]) if v[0] == "agg" else {}
            t = tuple(norm(x) for x in (v[1] if v[0] == "tuple" else [kv[k] for k in sorted(kv)]))
            ck.ob("insert:%s:value" % what, t == (("arg", 2), ("arg", 3)), "what is stored is %s" % show_(v), g.loc(n.i))
            e = norm(g.ev(n.d.args[0], n.i))
            ok = has(e, lambda x: x[0] == "call" and last(x[1]) in ("entry", "get_mut") and len(x[2]) == 2 and norm(x[2][1]) == ("arg", 1)) or len(n.d.args) == 3 and norm(g.ev(n.d.args[1], n.i)) == ("arg", 1)
            ck.ob("insert:%s:key" % what, ok, "stored under another key: %s" % show_(e), g.loc(n.i))
    w = q.can_follow([n for n, v in st], [n for n, v in st])
    ck.ob("insert:length-once", w is None, "the total length is changed twice: %s" % w, loc(f))
    r = q.reach(q.entry(), avoid=q.S(ins))
    late = [n for n, v in st if q.S([n]) & r]
    ck.ob("insert:counted-only-if-set", not late or q.not_after(late, ins) is None, "the total length changes although nothing is set", loc(f))
    Xs = srcs(q, text_of(("arg", 1)))
    n = 0
    for ch in [chr(i) for i in range(0, 33)] + [chr(127), "\u00e9"] + list(BADKEY):
        ck.ob("insert:key:%r" % ch, rejects(q, Xs, ch, new), "a key with %r is accepted" % ch, loc(f))
        n += 1
    good = [chr(i) for i in range(33, 127) if chr(i) not in BADKEY]
    w = accepts(q, Xs, good, new)
    ck.ob("insert:key:valid-accepted", w is None, "a key with %r is never accepted" % w, loc(f))
    w = q.S(new) & q.reach(q.entry(), cut=length(q, Xs, 0))
    ck.ob("insert:key:empty", not w, "an empty key is accepted", loc(f))
    # remove
    f = ck.one(p.method(BAG, "remove", inherent=True), "Baggage::remove")
    q = Q(ck.graph(f))
    g = q.g
    rm = [n for n in q.calls(lambda c: last(c.name) in SHRINK) if map_call(g, n)]
    st = [(n, v) for n, pth, v in stores(q) if norm(pth) == ("fld", ("arg", 0), "kv_content_len")]
    bad = [v for n, v in st if lin(v, parts) != {GONE}]
    ck.ob("remove:length", bool(st) and not bad, "the total length becomes %s" % (show_(bad[0]) if bad else "nothing else"), loc(f))
    none = lambda l: l[0] == "v" and l[3] == ("None",) and has(l[1], lambda x: x[0] == "call" and last(x[1]) in ("remove_entry", "remove", "get_key_value", "get", "contains_key"))
    ck.ob("remove:removes", bool(rm) and all(last(n.d.name) in ("remove", "remove_entry") and norm(g.ev(n.d.args[1], n.i)) == ("arg", 1) for n in rm), "does not remove the given key", loc(f))
    w = q.not_after(rm, [n for n, v in st], excuse=none) if st else "no update"
    ck.ob("remove:counted", w is None, "an entry is removed without giving back its length: %s" % w, loc(f))
    w = q.can_follow([n for n, v in st], [n for n, v in st])
    ck.ob("remove:length-once", w is None, "the total length is changed twice", loc(f))
    # nothing else writes a baggage
    k = 0
    for f in sorted(p.fns.values(), key=lambda f: f.name):
        if f.kind != "fn" or not f.file.endswith("opentelemetry/src/baggage.rs") or f.parent:
            continue
        q = Q(ck.graph(f))
        g = q.g
        k += 1
        okf = lambda fr: fr is not None and (fr.fn.item in ("insert_with_metadata", "remove") and fr.fn.self_adt == BAG or okf(getattr(fr, "parent", None)))
        for n in q.calls(lambda c: last(c.name) in GROW + SHRINK + OTHER):
            if map_call(g, n) and not any(fr.fn.item in ("insert_with_metadata", "remove") for fr in frames(g, n)):
                ck.ob("%s:writes" % f.name.split("::", 1)[1], False, "changes the entries of a baggage other than through insert or remove", g.loc(n.i))
        for n, pth, v in stores(q):
            if pth[0] == "fld" and pth[2] in ("kv_content_len", "inner") and not any(fr.fn.item in ("insert_with_metadata", "remove") for fr in frames(g, n)):
                ck.ob("%s:writes" % f.name.split("::", 1)[1], False, "changes a baggage other than through insert or remove", g.loc(n.i))
        for n in q.aggs("Baggage"):
            for op in n.d[1][2]:
                v = g.ev(op, n.i)
                ck.ob("%s:starts-empty" % f.name.split("::", 1)[1], all(is_default(a) for a in alts(v)), "a baggage is made of %s" % show_(v), g.loc(n.i))
    ck.count("baggage functions", k)
    ck.floor("baggage functions", 15)
    # reading and bulk insertion
    get = lambda m: Q(ck.graph(ck.one(p.method(BAG, m, inherent=True), "Baggage::" + m)))
    some = ("fld", ("arg", 0), "inner")
    for m, tail in (("get", True), ("get_with_metadata", False)):
        q = get(m)
        ok = True
        for a in flat(q.results()):
            a = norm(a)
            if a[0] == "agg" and a[2] == "None":
                continue
            if a[0] == "agg" and a[2] == "Some":
                a = norm(a[3][0][1])
                if tail:
                    ok &= a[0] == "fld" and a[2] == "0"
                    a = a[1]
                ok &= a[0] == "fld" and a[2] == "Some.0"
                a = a[1]
            elif tail:
                ok = False
            ok &= a[0] == "call" and last(a[1]) == "get" and norm(a[2][0]) == some and norm(a[2][1]) == ("arg", 1)
        ck.ob(m, ok, "%s returns %s" % (m, show_(q.results())), q.g.frames[0].fn.file)
    q = get("insert")
    c = [n for n in q.calls(lambda c: True) if any(fr.fn.item == "insert_with_metadata" for fr in frames(q.g, n))]
    ck.ob("insert:delegates", bool(c), "insert does not go through the checked insertion", q.g.frames[0].fn.file)
    m = 0
    for im in p.impls_of("FromIterator"):
        if im["self_ty"].adt != BAG:
            continue
    for f in p.method(BAG, "from_iter"):
        q = Q(ck.graph(f))
        g = q.g
        C = [n for n in q.calls(lambda c: last(c.name) in ("entry", "get_mut", "contains_key", "len")) if n.fr is not None and any(fr.fn.item == "insert_with_metadata" for fr in frames(g, n))]
        w = forall(q, q.entry(), C, B={("arg", 0)})
        ck.ob("from_iter:%d:all" % m, bool(C) and w is None, "an element is not inserted: %s" % w, loc(f))
        m += 1
    ck.floor("FromIterator impls", 3, m)


def frames(g, n):
    fr = n.fr
    out = []
    while fr is not None:
        f = g.frames[fr] if isinstance(fr, int) else fr
        out.append(f)
        fr = f.parent
    return out


def state(ck, p):
    fs = {m: ck.one(p.method(TS, m, inherent=True), "TraceState::" + m) for m in ("insert", "delete", "from_key_value")}
    for m, kroot, vroot in (("insert", ("arg", 1), ("arg", 2)), ("from_key_value", ("fld", ("elem", ("arg", 0)), "0"), ("fld", ("elem", ("arg", 0)), "1")), ("delete", ("arg", 1), None)):
        f = fs[m]
        q = Q(ck.graph(f))
        g = q.g
        if m == "insert":
            sites = [n for n in q.calls(lambda c: last(c.name) in ("push_front", "push_back", "insert", "push", "extend", "append"))]
            for n in sites:
                v = g.ev(n.d.args[-1], n.i)
                vs = [norm(x) for x in (v[1] if v[0] == "tuple" else [x for _, x in v[3]] if v[0] == "agg" else [])]
                ck.ob("state:insert:front", last(n.d.name) == "push_front" or last(n.d.name) == "insert" and intval(g.ev(n.d.args[1], n.i)) == 0, "the new member is not put first", g.loc(n.i))
                ck.ob("state:insert:member", vs == [kroot, vroot], "the new member is %s" % show_(v), g.loc(n.i))
            w = q.skipped(sites, exits={s for s in q.exits()}, excuse=lambda l: False) if False else None
        elif m == "delete":
            sites = []
        else:
            sites = None
        ok = [n for n in q.aggs("Result", "Ok")] + [n for n in q.assigns(lambda rv: rv[0] == "agg" and rv[1]["k"] == "adt" and rv[1]["v"] == "Ok")]
        ok = list({n.i: n for n in ok}.values())
        if m == "from_key_value":
            # members that pass: Ok values made per element
            sites = [n for n in ok if any(has(g.ev(o, n.i), lambda x: x[0] == "elem") for o in n.d[1][2]) and not any(has(g.ev(o, n.i), lambda x: x[0] == "agg" and last(x[1]) == "TraceState") for o in n.d[1][2])]
            if not sites:
                sites = [n for n in q.calls(lambda c: last(c.name) in ("push_front", "push_back", "push"))]
            if not sites:
                sites = [n for n in ok]
        if m == "delete":
            sites = ok
        ck.ob("state:%s:sites" % m, bool(sites), "no place where a member is accepted", loc(f))
        Xs = srcs(q, text_of(kroot))
        ck.ob("state:%s:key-text" % m, bool(Xs), "the key is never looked at", loc(f))
        for ch in list("AZ =,;:.@!\"#$%&'()+<>?[]\\^`{}|~") + ["\t", "\n", "\u00e9"]:
            if ch == "@":
                continue
            ck.ob("state:%s:key:%r" % (m, ch), rejects(q, Xs, ch, sites), "a key with %r is accepted" % ch, loc(f))
        for ch in "_-*/@":
            ck.ob("state:%s:key:first-%r" % (m, ch), rejects(q, Xs, ch, sites, first=True), "a key starting with %r is accepted" % ch, loc(f))
        w = accepts(q, Xs, "az09_-*/", sites)
        ck.ob("state:%s:key:valid-accepted" % m, w is None, "a key with %r is never accepted" % w, loc(f))
        for k, want in ((0, False), (1, True), (256, True), (257, False)):
            r = bool(q.S(sites) & q.reach(q.entry(), cut=length(q, Xs, k)))
            ck.ob("state:%s:key:length-%d" % (m, k), r == want, "a key of %d characters is %s" % (k, "accepted" if r else "never accepted"), loc(f))
        if vroot is not None:
            Xs = srcs(q, text_of(vroot))
            ck.ob("state:%s:value-text" % m, bool(Xs), "the value is never looked at", loc(f))
            for ch in ",=":
                ck.ob("state:%s:value:%r" % (m, ch), rejects(q, Xs, ch, sites), "a value with %r is accepted" % ch, loc(f))
            w = accepts(q, Xs, "aZ0 !~;:/", sites)
            ck.ob("state:%s:value:valid-accepted" % m, w is None, "a value with %r is never accepted" % w, loc(f))
            for k, want in ((0, True), (256, True), (257, False)):
                r = bool(q.S(sites) & q.reach(q.entry(), cut=length(q, Xs, k)))
                ck.ob("state:%s:value:length-%d" % (m, k), r == want, "a value of %d characters is %s" % (k, "accepted" if r else "never accepted"), loc(f))
        if m in ("insert", "delete"):
            # what is returned has no other member with the key
            own = lambda e: has(e, lambda x: x[0] == "elem" and rooted(x, lambda y: y == ("arg", 0)))
            iskey = lambda e: norm(e) == kroot

            def keq(c, yes):
                for a in flat(c) if c[0] != "clo" else flat(c[1]):
                    v = norm(a)
                    neg = False
                    while v[0] == "un" and v[1] == "Not":
                        v, neg = v[2], not neg
                    o = {"eq": True, "ne": False, "Eq": True, "Ne": False}.get(last(v[1]) if v[0] == "call" else v[1] if v[0] == "bin" else None)
                    if o is None:
                        return False
                    x, y = v[2][:2] if v[0] == "call" else (v[2], v[3])
                    mem = lambda z: z[0] == "fld" and z[2] == "0" and own(z)
                    if not (mem(x) and iskey(y) or mem(y) and iskey(x)) or (o != neg) != yes:
                        return False
                return True
            keep = [n for n in q.calls(lambda c: last(c.name) in ("retain", "retain_mut", "filter")) if n.d.clo and any(x[0] == "clo" and keq(x, False) for x in g.ev_def(n.i, (), 0)[2])]
            absent = lambda l: l[0] == "v" and l[3] == ("None",) and (norm(l[1]) == ("fld", ("arg", 0), "0") or l[1][0] == "call" and last(l[1][1]) in ("position", "find") and any(x[0] == "clo" and keq(x, True) for x in l[1][2])) \
                or l[0] == "b" and not l[2] and l[1][0] == "call" and last(l[1][1]) == "any" and any(x[0] == "clo" and keq(x, True) for x in l[1][2])
            # a search that found nothing only counts when nothing was removed on the strength of an earlier one
            rm = [n for n in q.calls(lambda c: last(c.name) in ("remove", "swap_remove_back", "swap_remove_front"))]
            ends = q.S(ok) if m == "delete" else q.S(sites)
            r = q.reach(q.entry(), avoid=q.S(keep), cut=absent)
            ck.ob("state:%s:replaces" % m, not (ends & r), "a member with the same key can remain", loc(f))
        if m == "insert":
            r = q.reach(q.entry(), avoid=q.S(sites))
            v = q.results()
            bad = [s for s in q.S(ok) & r if s in q.reach(q.entry(), avoid=q.S(sites)) and q.exits() & q.reach({s}, avoid=q.S(sites))]
            ck.ob("state:insert:inserted", not bad, "Ok is returned without the new member", loc(f))
    # who else makes or changes a trace state
    k = 0
    for f in sorted(p.fns.values(), key=lambda f: f.name):
        if f.kind != "fn" or not f.file.endswith("opentelemetry/src/trace/span_context.rs") or f.parent:
            continue
        q = Q(ck.graph(f))
        g = q.g
        k += 1
        fine = lambda n: any(fr.fn.item in ("from_key_value", "insert", "delete") and fr.fn.self_adt == TS for fr in frames(g, n))
        for n in q.aggs("TraceState"):
            for op in n.d[1][2]:
                v = g.ev(op, n.i)
                good = fine(n) or f.item == "clone" or all(is_default(a) or a[0] == "agg" and a[2] == "None" for a in alts(v))
                ck.ob("state:%s:made" % f.name.split("::", 1)[1][:60], good, "a trace state is made of %s without validating it" % show_(v), g.loc(n.i))
        for n, pth, v in stores(q):
            if has(pth, lambda x: x[0] == "arg") and f.self_adt == TS and not fine(n) and f.item not in ("hash", "fmt", "clone_from"):
                ck.ob("state:%s:written" % f.name.split("::", 1)[1][:60], False, "a trace state is changed without validating it", g.loc(n.i))
    ck.count("trace state functions", k)
    ck.floor("trace state functions", 15)
    f = ck.one(p.method(TS, "from_str", "FromStr"), "TraceState::from_str")
    q = Q(ck.graph(f))
    ok = [a for a in flat(q.results()) if a[0] == "agg" and a[2] == "Ok"]
    ck.ob("state:from_str:validated", any(fr.fn.item == "from_key_value" for fr in q.g.frames), "parsed members are not validated", loc(f))


def check(ck):
    p = ck.program("all")
    ck.rule("the entries of a baggage change only in insert and remove; its total length changes there, exactly by the lengths of key, value and metadata that come and go")
    ck.rule("an entry is set only behind comparisons showing that the new total is at most %d and, if it is new, that fewer than %d entries are there; an entry that passes is always set" % (BYTES, PAIRS))
    ck.rule("keys with characters outside the grammar, empty and over-long ones never reach the insertion (constant propagation per character); valid ones do")
    ck.rule("trace state members are only made by the validating functions; insert and delete leave no other member with the key")
    baggage(ck, p)
    state(ck, p)
