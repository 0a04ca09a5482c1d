"""shared helpers of the checks"""
from q import *

CX = "opentelemetry::context::Context"


def loc(f):
    return "%s:%s (%s)" % (f.file, f.line, f.name)


def unclo(e):
    """value of `KEY.with(closure)`: what the closure returns"""
    while e[0] == "call" and e[2] and e[2][-1][0] == "clo":
        e = e[2][-1][1]
    return e


def flat(e):
    """alternatives of a value, looking through closure-returning calls"""
    out = []
    for a in alts(unclo(e)):
        b = unclo(a)
        if b[0] == "phi":
            out += flat(b)
        else:
            out.append(b)
    return out


def nums(e):
    """alternatives of a number, casts aside"""
    out = []
    for a in flat(e):
        out += nums(a[1]) if a[0] == "cast" else [a]
    return out


def rooted(e, pred):
    """e is a pure access path whose root satisfies pred"""
    while e[0] in ("fld", "elem", "var", "cast"):
        e = e[1]
    return pred(e)


def strip_cast(e):
    while e[0] == "cast":
        e = e[1]
    return e


def cmp_lit(l, ops, px, py):
    return l[0] == "cmp" and l[1] in ops and px(l[2]) and py(l[3])


def variant_lit(l, variant, pe):
    return l[0] == "v" and l[3] == (variant,) and pe(l[1])


def not_variant_lit(l, variant, pe):
    return l[0] == "v" and variant not in l[3] and pe(l[1])


def intval(e):
    e = strip_cast(e)
    if e[0] == "const" and isinstance(e[1], int) and not isinstance(e[1], bool):
        return e[1]
    return None


# ---- "for every element" rules
PARTIAL_IT = {"skip", "take", "step_by", "filter", "take_while", "skip_while", "filter_map", "find", "find_map", "position", "nth", "split_at", "first", "last", "get", "chunks",
              "map_while", "scan", "split_first", "split_last", "peekable", "index", "windows", "truncate", "drain", "split_off", "min", "max"}
FULL_CONSUMERS = {"collect", "for_each", "fold", "count", "sum", "product", "last", "extend", "partition", "unzip", "max", "min", "max_by_key", "min_by_key", "join", "join_all"}


ADAPT = {"iter", "iter_mut", "into_iter", "rev", "enumerate", "zip", "map", "inspect", "cloned", "copied", "chain", "fuse", "by_ref", "next", "next_back"}
SHORT = {"take", "take_while", "map_while", "scan", "find", "find_map", "position", "nth", "peekable", "next", "all", "any", "try_fold", "try_for_each"}
LOSING = ("clear", "pop", "truncate", "drain", "split_off", "retain", "remove", "swap_remove", "take", "replace", "dedup", "pop_front", "pop_back")


def last(name):
    return name.split("::")[-1]


def bases(e):
    """containers of which e's receiver is an element: base of every ('elem', base) on its path"""
    out = set()
    x = e
    while True:
        if x[0] == "elem":
            x = x[1]
            while x[0] == "call" and x[2] and (last(x[1]) in PARTIAL_IT or last(x[1]) in ADAPT):
                x = x[2][0]
            out.add(norm(x))
        elif x[0] in ("fld", "var", "cast"):
            x = x[1]
        elif x[0] == "call" and last(x[1]) in ("index", "index_mut", "get", "get_mut") and len(x[2]) == 2 and has(x[2][1], lambda y: y[0] == "elem"):
            out.add(norm(x[2][0]))
            x = x[2][0]
        elif x[0] == "phi":
            for a in x[1]:
                out |= bases(a)
            return out
        else:
            return out


def whole(e, B):
    """iterator expression e runs over all of a container in B (or over 0..len of it)"""
    for _ in range(40):
        if norm(e) in B:
            return True
        if e[0] == "call" and e[2]:
            if last(e[1]) in PARTIAL_IT:
                return False
            e = e[2][0]
        elif e[0] == "agg" and last(e[1]) == "Range":
            d = dict(e[3])
            en = d.get("end")
            return intval(d.get("start", ("unk",))) == 0 and en is not None and en[0] == "call" and last(en[1]) == "len" and norm(en[2][0]) in B
        elif e[0] in ("cast", "clo", "part"):
            e = e[1] if e[0] != "part" else e[2]
        elif e[0] == "fld" and e[1][0] == "call":
            e = e[1]
        else:
            return False
    return False


def runs_over(e, B):
    """an iterator expression derived from a container in B"""
    if norm(e) in B:
        return True
    if e[0] == "call":
        return bool(e[2]) and (runs_over(e[2][0], B) or last(e[1]) in ("zip", "chain") and any(runs_over(x, B) for x in e[2][1:]))
    if e[0] == "phi":
        return any(runs_over(x, B) for x in e[1])
    if e[0] in ("fld", "elem", "var", "cast", "clo"):
        return runs_over(e[1], B)
    return e[0] in ("agg", "tuple", "array", "part") and has(e, lambda x: norm(x) in B)


def frames_of(g, n):
    """the frames n lies in, innermost first"""
    fr = n.fr
    while fr is not None:
        yield fr
        fr = getattr(fr, "parent", None)


def forall(q, starts, C, exits=None, B=None, cut=None, strict=False):
    """None if every path from `starts` to an exit calls one of C for every element of the containers their receivers come from,
    else a witness (strict: iterating over something inside an element is not iterating over the container)"""
    g = q.g
    if not C:
        return "no call found"
    if B is None:
        B = set()
        for n in C:
            B |= bases(g.ev(n.d.args[0], n.i))
    if not B:
        return "not an element of a container"
    exits = q.exits() if exits is None else exits
    over = runs_over if not strict else lambda e, B: runs_over(e, B) and not any(x[0] == "elem" and norm(x[1]) in B for x in walk(e))
    SC = q.S(C)
    nexts, done, some = set(), set(), set()
    for s, lab, t, l in q.literals():
        if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) in ("next", "next_back"):
            e = l[1][2][0]
            if not over(e, B):
                continue
            if l[3] == ("None",) and whole(e, B):
                done.add((s, t))
            elif l[3] == ("Some",):
                some.add(t)
        # slice patterns: nothing to do for an empty container
        if l[0] == "cmp" and l[1] == "Eq" and any(intval(x) == 0 for x in l[2:]) and any(is_len(x, B) for x in l[2:]):
            done.add((s, t))
        if l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "is_empty" and norm(l[1][2][0]) in B:
            done.add((s, t))
    one = {t for s, lab, t, l in q.literals() if l[0] == "cmp" and l[1] == "Eq" and any(intval(x) == 1 for x in l[2:]) and any(is_len(x, B) for x in l[2:])}
    for n in q.calls(lambda c: last(c.name) in ("next", "next_back")):
        if over(g.ev(n.d.args[0], n.i), B):
            nexts |= q.S([n])
    par = {}
    r = q.reach(some, avoid=SC, back=par, cut=cut)
    for s in nexts | exits:
        if s in r:
            return "an element is skipped: " + q.path(par, s)
    avoid = set()
    ads = {}  # adaptor / consumer calls whose closure runs C for each element
    for n in q.calls(lambda c: c.clo and c.args):
        if any(region(q, n, b) & SC for _, b in n.d.clo) and all(not closure_skips(q, n, b, SC, cut) for _, b in n.d.clo if region(q, n, b) & SC):
            if whole(g.ev(n.d.args[0], n.i), B):
                ads[n.i] = n
    # a loop over such an adaptor that runs to its end
    for s, lab, t, l in q.literals() if ads else ():
        if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) == "next" and l[3] == ("None",):
            x = l[1][2][0]
            while x[0] == "call" and x[2] and last(x[1]) not in SHORT:
                if len(x) > 3 and x[3] in ads:
                    done.add((s, t))
                    break
                x = x[2][0]
    for n in q.calls(lambda c: last(c.name) in FULL_CONSUMERS and c.args):
        if n.i in ads:
            avoid |= q.S([n])
            continue
        x = g.ev(n.d.args[0], n.i)
        while x[0] == "call" and x[2] and last(x[1]) not in SHORT:
            if x[3] in ads:
                avoid |= q.S([n])
                break
            x = x[2][0]
    par = {}
    # with exactly one element, a single call does
    r1 = q.reach(one, avoid=SC | avoid, back=par, cut=cut, cute=done)
    for s in exits:
        if s in r1:
            return "the only element is skipped: " + q.path(par, s)
    ones = {(s, t) for s, lab, t, l in q.literals() if t in one}
    par = {}
    r = q.reach(starts, avoid=avoid, cute=done | ones, back=par, cut=cut)
    for s in exits:
        if s in r:
            return "not every element is visited: " + q.path(par, s)
    return None


def is_len(x, B):
    x = strip_cast(x)
    return x[0] == "call" and last(x[1]) == "len" and norm(x[2][0]) in B or x[0] == "un" and x[1] in ("PtrMetadata", "Len") and norm(x[2]) in B or x[0] == "len" and norm(x[1]) in B


def region(q, n, b):
    """states of the closure handed to call n whose end is node b"""
    bs = set(q.ex.by_node.get(b, []))
    start = {t for s in q.S([n]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}
    return q.reach(start, avoid=bs)


def closure_skips(q, n, b, SC, cut=None):
    """a path through the closure of call n that does not pass SC"""
    bs = set(q.ex.by_node.get(b, []))
    start = {t for s in q.S([n]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}
    r = q.reach(start, avoid=SC, cut=cut)
    # the loop back to the closure's start leaves through bs
    return bool(bs & r)


def ok_only_if_all_ok(q, C, okv=("Ok",)):
    """None if a returned Ok implies that every call of C returned Ok, else a witness"""
    g = q.g
    SC = q.S(C)
    me = {c.i for c in C}

    def res(e):
        return e[0] == "call" and e[3] in me

    def okres(l):
        return l[0] == "v" and l[3] == okv and res(l[1])
    # collections that receive every (error) result
    full, errs = set(), set()
    pushes = {}
    for n in q.calls(lambda c: last(c.name) in ("push", "push_back", "insert", "extend")):
        if has(g.ev(n.d.args[-1], n.i), res):
            pushes.setdefault(norm(g.ev(n.d.args[0], n.i)), []).append(n)
    nxt = {s for n in q.calls(lambda c: last(c.name) in ("next",)) for s in q.S([n])} | q.exits()
    lossy = {norm(g.ev(n.d.args[0], n.i)) for n in q.calls(lambda c: last(c.name) in LOSING and c.args)}
    for v, ns in pushes.items():
        if v in lossy:
            continue
        r = q.reach(q.after(SC), avoid=q.S(ns))
        if not (nxt & r or SC & r):
            full.add(v)
        r = q.reach(q.after(SC), avoid=q.S(ns), cut=okres)
        if not (nxt & r or SC & r):
            errs.add(v)

    def coll(e):
        """e holds the results of all calls"""
        for x in [e] + list(walk(e)):
            if norm(x) in full:
                return True
            if x[0] == "call" and last(x[1]) in ("collect", "map") and any(y[0] == "clo" and any(res(z) for z in flat(y[1])) for w in walk(x) if w[0] == "call" for y in w[2]):
                return True
        return False
    def errs_collected(e):
        """e = collect(filter_map(.., closure)) and the closure yields something for every failure"""
        while e[0] == "call" and e[2] and last(e[1]) in ("collect", "filter_map", "flat_map", "flatten", "map"):
            nd = g.nodes[e[3]]
            if last(e[1]) in ("filter_map", "flat_map"):
                return bool(nd.d.clo) and all(clo_is(q, nd, rp, b, okv, lambda x: x[0] == "agg" and x[2] == "Some") for rp, b in nd.d.clo)
            e = e[2][0]
        return False

    good = set()
    for s, lab, t, l in q.literals():
        if l[0] == "b" and l[1][0] == "call":
            c = l[1]
            m = last(c[1])
            if l[2] is True and m == "is_empty" and (norm(c[2][0]) in errs or norm(c[2][0]) not in lossy and errs_collected(c[2][0])):
                good.add((s, t))
            if m in ("all", "any") and coll(c[2][0]) and l[2] is (m == "all"):
                nd = g.nodes[c[3]]
                bad = m == "any"
                if any(x[0] == "fn" and last(x[1]) == ("is_err" if bad else "is_ok") for x in c[2]):
                    good.add((s, t))
                elif nd.d.clo and all(clo_is(q, nd, rp, b, okv, bad) for rp, b in nd.d.clo):
                    good.add((s, t))
    r = q.reach(q.after(SC), cut=okres, cute=good)
    ex = q.exits() & r
    if not ex:
        return None
    v = q.pv(g.result_place, ex, r)
    for a in flat(v):
        if a[0] == "agg" and a[2] == "Err" or a[0] == "never":
            continue
        if a[0] == "call" and a[3] in me and single(q, C):
            continue
        return "may return %s although a component failed" % show_(a)
    return None


def single(q, C):
    """C is executed at most once per run"""
    return not (q.S(C) & q.reach(q.after(q.S(C))))


def clo_is(q, n, rp, b, okv, bad):
    """on the Err edge of its element the closure returns `bad`"""
    g = q.g
    bs = set(q.ex.by_node.get(b, []))
    reg = region(q, n, b)
    errs = {t for s, lab, t, l in q.literals() if l[0] == "v" and l[2].endswith("result::Result") and l[3] != okv and s in reg}
    if not errs:
        return False
    r = q.reach(errs, avoid=q.after(bs) - bs)
    return bool(bs & r) and all((bad(x) if callable(bad) else x[:2] == ("const", bad)) for x in alts(q.pv(rp, bs & r, r)))


def show_(e):
    from graph import show
    return show(e)[:160]


def part_fields(a):
    """(field, value) pairs a value is known to have: of a construction, or of an assignment to some fields"""
    if a[0] == "part":
        return ((".".join(str(x[-1]) for x in a[1]), a[2]),)
    return a[3] if a[0] == "agg" else ()


def places(rv, out=None):
    """operand places of an rvalue / argument list"""
    out = [] if out is None else out
    if isinstance(rv, (list, tuple)):
        if len(rv) == 3 and rv[0] == "p" and isinstance(rv[1], tuple):
            out.append(rv[1])
        elif len(rv) == 3 and isinstance(rv[2], tuple) and not isinstance(rv[0], tuple) and isinstance(rv[0], int):
            out.append(rv)
        else:
            for x in rv:
                places(x, out)
    return out


def flows(g, starts):
    """roots (frame, local) that data placed in `starts` (places) may reach: forward, flow-insensitive"""
    root = lambda pl: (pl[0], pl[1])
    t = {root(x) for x in starts}
    ed = []
    for n in g.nodes:
        if n.k == "as":
            ed.append(([root(x) for x in places(n.d[1])], root(n.d[0])))
        elif n.k == "call" and n.d.dest is not None:
            ed.append(([root(x) for x in places(list(n.d.args))], root(n.d.dest)))
    ch = True
    while ch:
        ch = False
        for a, b in ed:
            if b not in t and any(x in t for x in a):
                t.add(b)
                ch = True
    return t


# ---- values at the end of a run, and writes
def under(q, proj, cut=None, starts=None):
    """value of a component of the result on the paths that take no branch satisfying `cut`"""
    r = q.reach(q.entry() if starts is None else starts, cut=cut)
    d = q.g.result_place
    ex = q.exits() & r
    if not ex:
        return ("never",)
    return q.pv((d[0], d[1], d[2] + tuple(proj)), ex, r)


def opnd(q, n, op, cut=None, rest=()):
    """value of an operand at node n on the paths that take no branch satisfying `cut`"""
    r = q.reach(q.entry(), cut=cut)
    ss = q.S([n]) & r
    if not ss:
        return ("never",)
    return q._pv_op(op, tuple(rest), ss, r, 0)


def proj_of(e):
    """(root, projections) of a pure access path"""
    out = []
    while True:
        if e[0] == "fld":
            v, _, k = e[2].rpartition(".")
            out.append(("f", k))
            if v:
                out.append(("v", v))
        elif e[0] == "var":
            out.append(("v", e[2]))
        elif e[0] != "cast":
            break
        e = e[1]
    return e, tuple(reversed(out))


def stores(q):
    """writes to memory that outlives the function's temporaries: (node, path written, value)"""
    g = q.g
    for n in g.nodes:
        if n.i not in q.ex.by_node:
            continue
        pl = n.d[0] if n.k == "as" else n.d.dest if n.k == "call" else None
        if pl is None or not pl[2]:
            continue
        c = g.canon(pl)
        if c[2] and (g._is_entry_mem((c[0], c[1])) or "*" in c[2]):
            yield n, norm(g.place_expr(pl, n.i)), g.ev_def(n.i, (), 0)


def eq_lit(l, px, py):
    """literal that compares px and py for equality -> True / False (equal or not), else None"""
    if l[0] == "cmp" and l[1] in ("Eq", "Ne") and (px(l[2]) and py(l[3]) or px(l[3]) and py(l[2])):
        return l[1] == "Eq"
    if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) in ("eq", "ne") and len(l[1][2]) == 2:
        a, b = l[1][2]
        if px(a) and py(b) or px(b) and py(a):
            return l[2] is (last(l[1][1]) == "eq")
    return None


def plus_one(v, path):
    """v is `path + 1` (checked, wrapping or saturating)"""
    v = strip_cast(v)
    while v[0] == "fld" and v[2] == "0" and v[1][0] == "bin":
        v = v[1]
    if v[0] == "bin" and v[1].startswith("Add"):
        a, b = v[2], v[3]
    elif v[0] == "call" and last(v[1]) in ("saturating_add", "wrapping_add", "add"):
        a, b = v[2]
    else:
        return False
    return norm(a) == path and intval(b) == 1 or norm(b) == path and intval(a) == 1


def is_now(e):
    return e[0] == "call" and (last(e[1]) == "now" or e[1].endswith("time::now"))


def by_mut(q, op):
    """the operand is handed over mutably or by value (False: a shared reference or a scalar)"""
    if op[0] != "p":
        return False
    fr, l, pr = op[1]
    if not isinstance(l, int) or pr:
        return True
    t = q.g.frames[fr].fn.local_ty(l)
    if t.k == "ref":
        s = t.s.lstrip("&")
        if s.startswith("'"):
            s = s.split(" ", 1)[1]
        return s.startswith("mut ")
    return t.k == "adt"


def closure_ends(q):
    """states where a per-element closure returns to the iteration that runs it"""
    out = set()
    for n in q.calls(lambda c: c.clo and c.args and (last(c.name) in FULL_CONSUMERS or last(c.name) in ADAPT)):
        for _, b in n.d.clo:
            out |= set(q.ex.by_node.get(b, []))
    return out


def is_default(e):
    """an empty / zero value"""
    while e[0] in ("fld", "cast"):
        e = e[1]
    return e == ("unk", "default") or intval(e) == 0 or e[0] == "call" and last(e[1]) in ("default", "new", "with_capacity") and not any(x for x in e[2] if last(e[1]) == "new")
