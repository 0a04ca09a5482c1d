"""C11: span limits"""
from checks.spans import *

TITLE = "Spans stay within their limits and count everything dropped"
FLOOR = 60
SPANS = {"attributes": "max_attributes_per_span", "events": "max_events_per_span", "links": "max_links_per_span"}
ELEMS = {"events": "max_attributes_per_event", "links": "max_attributes_per_link"}


def kept_and_counted(ck, q, tag, V, name, drop_vals, exits, cut, f, order=True):
    """V is cut down to the limit on every path to `exits`, after it has grown; drop_vals = how much was cut"""
    T = truncations(q, V, name)
    ex = both(cut, none_of(V), lambda l: fits(l, V, name))
    par = {}
    r = q.reach(q.entry(), avoid=q.S(T), cut=ex, back=par)
    b = [s for s in exits if s in r]
    ck.ob(tag + ":bounded", bool(T) and not b, "more than %s can be kept: %s" % (name, q.path(par, b[0]) if b else "no truncation"), loc(f))
    w = q.can_follow(T, growths(q, V))
    ck.ob(tag + ":bounded-at-the-end", w is None, "grows after it was cut to %s: %s" % (name, w), loc(f))
    lens = []
    # where it does not fit, the count must be the excess; where it fits it may also be zero
    bad = [v for v in drop_vals(ex) if not over(v, V, name)] + [v for v in drop_vals(cut) if over(v, V, name) is None]
    ck.ob(tag + ":dropped", not bad and drop_vals(ex), "the number of dropped %s is %s" % (tag, show_(bad[0]) if bad else "not computed"), loc(f))
    for v in drop_vals(cut):
        lens += over(v, V, name) or []
    w = q.can_follow(T, lens) or q.can_follow(lens, growths(q, V))
    ck.ob(tag + ":dropped-before-cut", w is None, "the number of dropped %s is computed from another length: %s" % (tag, w), loc(f))


def per_element(ck, q, tag, V, name, exits, cut, f):
    """every element of V has its attributes cut to the limit, and the number dropped recorded"""
    g = q.g
    isat = lambda e: e[0] == "fld" and e[2] == "attributes" and e[1][0] == "elem" and V in bases(e[1])
    T, A = [], set()
    for n in q.calls(lambda c: last(c.name) == "truncate" and len(c.args) == 2):
        e = norm(g.ev(n.d.args[0], n.i))
        if isat(e) and is_limit(g.ev(n.d.args[1], n.i), name):
            T.append(n)
            A.add(e)
    ex = both(cut, none_of(V), lambda l: any(fits(l, a, name) for a in A))
    w = forall(q, q.entry(), T, exits=exits, B={V}, cut=ex)
    ck.ob(tag + ":attributes:bounded", w is None, "an element keeps more attributes than %s: %s" % (name, w), loc(f))
    D, lens, bad = [], [], None
    for n, pth, v in stores(q):
        if pth[0] == "fld" and pth[2] == "dropped_attributes_count" and pth[1][0] == "elem" and V in bases(pth[1]):
            for a in A:
                o = over(v, a, name)
                if o is not None and a[1] == pth[1] and (o or q.unguarded([n], lambda l: fits(l, a, name)) is None):
                    D.append(n)
                    lens += o
                    break
            else:
                bad = v
    ck.ob(tag + ":attributes:dropped", bad is None, "an element's number of dropped attributes is %s" % (show_(bad) if bad else ""), loc(f))
    w = forall(q, q.entry(), D, exits=exits, B={V}, cut=ex)
    ck.ob(tag + ":attributes:counted", w is None, "an element's dropped attributes are not counted: %s" % w, loc(f))
    nx = {s for n in q.calls(lambda c: last(c.name) in ("next", "next_back")) for s in q.S([n])} | closure_ends(q)
    r = q.reach(q.after(q.S(T)), avoid=nx)
    ck.ob(tag + ":attributes:dropped-before-cut", not (q.S(lens) & r), "an element's number of dropped attributes is computed after it was cut", loc(f))


def check(ck):
    p = ck.program("all")
    ck.rule("adding to a span: appended only behind a comparison that shows fewer entries than the matching limit, else the matching counter is raised by one and only then")
    ck.rule("creating a span: attributes (with the sampler's), events and links are cut to their limits on every path after they last grew; the dropped count is the excess over the same limit of the length before the cut")
    ck.rule("attributes of every event and link likewise, with their own limits")
    ck.rule("a recorded span's limits are the provider's; each builder setter sets the limit it is named for and no other")
    F, OPT, fx = layout(ck, p)
    for k, m, target, dp in (("attributes", "set_attribute", F["attributes"], F["dropped_attributes_count"]),
                             ("events", "add_event_with_timestamp", ("fld", F["events"], "events"), ("fld", F["events"], "dropped_count")),
                             ("links", "add_link", ("fld", F["links"], "links"), ("fld", F["links"], "dropped_count"))):
        lim = SPANS[k]
        f = method(ck, p, m)
        q = Q(ck.graph(f))
        g = q.g
        pushes = [n for n in growths(q, target)]

        def room(l):
            return l[0] == "cmp" and (l[1] == "Lt" and len_of(l[2], target) and is_limit(l[3], lim))

        def full(l):
            return l[0] == "cmp" and (l[1] in ("Le", "Eq") and is_limit(l[2], lim) and len_of(l[3], target) or l[1] == "Eq" and is_limit(l[3], lim) and len_of(l[2], target))
        w = q.unguarded(pushes, room)
        ck.ob("%s:bounded" % m, bool(pushes) and w is None, "appended without showing that fewer than %s are there: %s" % (lim, w), loc(f))
        dn = [n for n, pth, v in stores(q) if pth == dp and plus_one(v, dp)]
        w = q.unguarded(dn, full)
        ck.ob("%s:dropped" % m, bool(dn) and w is None, "counted as dropped although there is room: %s" % w, loc(f))
        ck.ob("%s:appends-one" % m, all(last(n.d.name) in ("push", "push_back") for n in pushes), "appends in bulk", loc(f))
        ck.count("mutators")
        if k in ELEMS:
            V = ("arg", 3 if k == "events" else 2)
            dv = lambda c, q=q, pushes=pushes: [a for n in pushes for a in nums(opnd(q, n, n.d.args[1], rest=(("f", "dropped_attributes_count"),), cut=c)) if a != ("never",)]
            kept_and_counted(ck, q, "%s:attributes" % m, V, ELEMS[k], dv, q.S(pushes), lambda l: False, f)
    f = ck.one(p.method(TRACER, "build_with_context"), "SdkTracer::build_with_context")
    q = Q(ck.graph(f))
    g = q.g
    cut = recording()
    r = q.reach(q.entry(), cut=cut)
    exits = q.exits() & r
    # the limits a recorded span carries are the provider's
    fs = {fl["n"] if isinstance(fl, dict) else fl for fl in ()}
    lims = {}
    for m in ("set_attribute", "add_event_with_timestamp", "add_link"):
        q0 = Q(ck.graph(method(ck, p, m)))
        for s, lab, t, l in q0.literals():
            if l[0] == "cmp":
                for x in l[2:]:
                    x = strip_cast(x)
                    if x[0] == "fld" and x[2].startswith("max_"):
                        lims[norm(x)] = x[2]
    for path, name in sorted(lims.items(), key=lambda x: x[1]):
        root, pr = proj_of(path)
        v = [a for a in flat(under(q, pr, cut=cut))]
        good = bool(v) and all(a[0] == "fld" and a[2] == name and rooted(a, lambda x: x == ("arg", 0)) for a in v)
        ck.ob("span-limits:%s" % name, root == ("arg", 0) and good, "a span's %s is not the provider's: %s" % (name, show_(v[0]) if v else ""), loc(f))
    for k, lim in SPANS.items():
        pr = path_to(F, k)
        vec = pr if k == "attributes" else pr + (("f", k),)
        cnt = path_to(F, "dropped_attributes_count") if k == "attributes" else pr + (("f", "dropped_count"),)
        V = under(q, vec, cut=cut)
        given = [norm(a) for a in flat(V) if a[0] == "fld" and not is_default(a)]
        rest = [a for a in flat(V) if a[0] != "fld" and not (is_default(a) or a == ("never",))]
        good = given and not rest and all(x == ("fld", ("fld", ("arg", 1), k), "Some.0") for x in given)
        ck.ob("new:%s:given" % k, good, "a new span's %s are %s, not those given" % (k, show_(V)), loc(f))
        if not good:
            continue
        vv = norm(V) if k == "attributes" else given[0]
        none = ("fld", ("arg", 1), k)
        c2 = cut if k == "attributes" else both(cut, lambda l: l[0] == "v" and l[3] == ("None",) and norm(l[1]) == none)
        rr = q.reach(q.entry(), cut=c2)
        if k == "attributes":
            # the vector the sampler's attributes are added to
            cand = {norm(g.ev(n.d.args[0], n.i)) for n in q.calls(lambda c: last(c.name) == "truncate" and c.args) if is_limit(g.ev(n.d.args[1], n.i), lim)}
            vv = next(iter(cand)) if len(cand) == 1 and (given[0] in [norm(a) for a in alts(list(cand)[0])]) else vv
        dv = lambda c, cnt=cnt: [a for a in nums(under(q, cnt, cut=c)) if a != ("never",)]
        kept_and_counted(ck, q, "new:%s" % k, vv, lim, dv, q.exits() & rr, c2, f)
        if k in ELEMS:
            per_element(ck, q, "new:%s" % k, given[0], ELEMS[k], q.exits() & rr, c2, f)
        # nothing was given: nothing is dropped
        if k != "attributes":
            z = flat(under(q, cnt, cut=both(cut, lambda l: l[0] == "v" and l[3] == ("Some",) and norm(l[1]) == none)))
            ck.ob("new:%s:none-dropped" % k, all(is_default(a) or a == ("never",) for a in z), "counts dropped %s though none were given" % k, loc(f))
    # setters
    B = "opentelemetry_sdk::trace::provider::TracerProviderBuilder"
    names = list(SPANS.values()) + list(ELEMS.values())
    for m in names:
        f = ck.one(p.method(B, "with_" + m), "TracerProviderBuilder::with_" + m)
        q = Q(ck.graph(f))
        for k in names:
            v = [norm(a) for a in flat(under(q, (("f", "config"), ("f", "span_limits"), ("f", k))))]
            want = ("arg", 1) if k == m else ("fld", ("fld", ("fld", ("arg", 0), "config"), "span_limits"), k)
            ck.ob("with_%s:%s" % (m, k), v == [want], "with_%s sets %s to %s" % (m, k, show_(v[0])), loc(f))
    f = ck.one(p.method(B, "with_span_limits"), "TracerProviderBuilder::with_span_limits")
    q = Q(ck.graph(f))
    v = [norm(a) for a in flat(under(q, (("f", "config"), ("f", "span_limits"))))]
    ck.ob("with_span_limits", v == [("arg", 1)], "the given limits are not used", loc(f))
    ck.floor("mutators", 3)
