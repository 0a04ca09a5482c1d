"""C18: what a stream stores per attribute set, and its cardinality limit"""
from checks.assume import *
from checks.c15 import bare

TITLE = "Every measurement lands in exactly one stored attribute set, up to the limit"
FLOOR = 60
INT = "opentelemetry_sdk::metrics::internal::"
VM = INT + "ValueMap"
LOCKS = ("read", "write", "lock")
VIEWS = ("to_vec", "to_owned", "collect", "clone", "into_boxed_slice", "from", "into", "as_slice", "deref", "as_ref", "borrow", "cloned", "copied", "iter", "into_iter", "deref_mut", "as_mut_slice")
SORTS = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")
DEDUPS = ("dedup_by", "dedup_by_key")


def lock_of(e, field):
    """the lock call whose guard (of arg0.<field>) the expression is, else None"""
    while True:
        if e[0] in ("fld", "var", "cast"):
            e = e[1]
        elif e[0] == "call" and last(e[1]) in LOCKS and e[2]:
            return e if has(e[2][0], lambda x: x == ("fld", ("arg", 0), field)) and not has(e[2][0], lambda x: x[0] == "call" and last(x[1]) in LOCKS) else None
        elif e[0] == "call" and e[2] and last(e[1]) in ("unwrap", "expect", "unwrap_or_else", "deref", "deref_mut", "as_ref", "as_mut", "iter", "into_iter", "drain", "iter_mut", "borrow", "borrow_mut"):
            e = e[2][0]
        else:
            return None


def poisoned(l):
    return l[0] == "v" and l[3] == ("Err",) and l[1][0] == "call" and last(l[1][1]) in LOCKS


def has_keycmp(q, n):
    """the comparator closure of a sort / dedup call looks at the key, and at nothing else"""
    g = q.g
    if not n.d.clo:
        return False
    seen = False
    for _, b in n.d.clo:
        for m in q.calls(lambda c: True):
            if q.S([m]) & region(q, n, b):
                for a in m.d.args:
                    e = g.ev(a, m.i)
                    for x in walk(e):
                        if x[0] == "fld" and has(x[1], lambda y: y[0] == "elem") and x[2] not in ("0", "Some.0"):
                            if x[2] == "key":
                                seen = True
                            elif x[2] == "value":
                                return False
        e = None
        for s, lab, t, l in q.literals():
            if s in region(q, n, b) and has(("t", l), lambda x: isinstance(x, tuple) and x[:1] == ("fld",) and x[2] == "key"):
                seen = True
    return seen or n.d.m.endswith("by_key")


class Key:
    """classification of the keys under which a tracker is looked up or stored"""

    def __init__(self, q, ck, nm):
        self.q, self.g, self.ck, self.nm = q, q.g, ck, nm
        self.norm_ok = {}

    def copy_of_attrs(self, e):
        """the copying call a key is (a copy of the attributes handed in), or arg2 itself"""
        while True:
            if e == ("arg", 2):
                return e
            if e[0] == "call" and e[2] and last(e[1]) in VIEWS:
                x = e
                while x[0] == "call" and x[2] and last(x[1]) in VIEWS:
                    if last(x[1]) in ("to_vec", "collect", "to_owned", "clone", "from", "into") and self.sorted_by(x):
                        return x
                    x = x[2][0]
                while e[0] == "call" and e[2] and last(e[1]) in VIEWS:
                    e = e[2][0]
                continue
            return None if e[0] not in ("cast",) else e[1]

    def sorted_by(self, x):
        """(sort calls, dedup calls) applied to the value made by call x"""
        k = x[3] if len(x) > 3 else None
        if k not in self.norm_ok:
            on = lambda n: n.d.args and has(self.g.ev(n.d.args[0], n.i), lambda y: y[0] == "call" and len(y) > 3 and y[3] == k)
            so = [n for n in self.q.calls(lambda c: c.m in SORTS) if on(n)]
            de = [n for n in self.q.calls(lambda c: c.m in DEDUPS) if on(n)]
            self.norm_ok[k] = (so, de)
        return self.norm_ok[k][0] or self.norm_ok[k][1]

    def kind(self, e, n):
        """raw / norm / overflow / None"""
        if has(e, lambda x: x == ("static", INT + "STREAM_OVERFLOW_ATTRIBUTES")) or has(e, lambda x: x[0] == "const" and "otel.metric.overflow" in str(x[1]) or x == ("const", "otel.metric.overflow")) or has(e, lambda x: x[0] == "agg" and last(x[1]) == "KeyValue"):
            kv = [x for x in walk(e) if x[0] == "agg" and last(x[1]) == "KeyValue"]
            ok = len({repr(norm(x)) for x in kv}) == 1 and kv and const_str(norm(dict(kv[0][3]).get("key", ("unk",)))) == "otel.metric.overflow" and has(dict(kv[0][3]).get("value", ("unk",)), lambda x: x[0] == "const" and x[1] is True)
            return "overflow" if ok else None
        if norm(e) == ("arg", 2):
            return "raw"
        x = self.copy_of_attrs(e)
        if x == ("arg", 2):
            return "raw"
        if x is None:
            return None
        so, de = self.norm_ok[x[3]]
        site = "%s:key@%s" % (self.nm, n.d.m)
        g = self.g
        self.ck.ob(site + ":sorted", bool(so) and all(has_keycmp(self.q, m) for m in so) and self.q.not_before(so, [n]) is None, "attributes are looked up or stored under a copy that was not put into key order first", g.loc(n.i))
        self.ck.ob(site + ":unique", bool(de) and all(has_keycmp(self.q, m) for m in de) and self.q.not_before(de, [n]) is None and self.q.can_follow(de, so, avoid=[self.g.nodes[x[3]]]) is None, "attributes are looked up or stored under a copy that keeps several values for one key", g.loc(n.i))
        return "norm"


def measure(ck, f):
    nm = "measure"
    q = Q(ck.graph(f, solid=("to_vec",)))
    g = q.g
    V1, K = ("arg", 1), Key(q, ck, nm)
    ups = q.calls(lambda c: c.name == INT + "Aggregator::update")
    ck.ob(nm + ":updates", bool(ups), "nothing is updated", f.name)
    for n in ups:
        ck.ob(nm + ":value", norm(g.ev(n.d.args[1], n.i)) == V1, "what is recorded is not the measured value: " + show_(g.ev(n.d.args[1], n.i)), g.loc(n.i))
    w = q.skipped(ups, excuse=poisoned)
    ck.ob(nm + ":recorded", w is None, "a measurement is not recorded anywhere: %s" % w, f.name)
    w = q.can_follow(ups, ups)
    ck.ob(nm + ":once", w is None, "a measurement is recorded twice: %s" % w, f.name)
    # classify
    ins = q.calls(lambda c: c.m in ("insert", "insert_unique_unchecked", "insert_entry") and len(c.args) >= 3)
    ins = [n for n in ins if lock_of(g.ev(n.d.args[0], n.i), "trackers")]
    classes = {"none": [], "fresh": [], "raw": [], "norm": [], "overflow": []}
    lookups = {}
    fresh = {}
    for n in ups:
        e = g.ev(n.d.args[0], n.i)
        if norm(e) == ("fld", ("arg", 0), "no_attribute_tracker"):
            classes["none"].append(n)
            continue
        look = [x for x in walk(e) if x[0] == "call" and len(x[2]) >= 2 and lock_of(x[2][0], "trackers")]
        if look:
            x = look[-1]
            k = K.kind(x[2][1], n)
            ck.ob(nm + ":receiver", k is not None, "the value is recorded under a key that is neither the attributes, their sorted form nor the overflow attributes: " + show_(x[2][1]), g.loc(n.i))
            if k:
                classes[k].append(n)
                lookups[n.i] = x
            lk = lock_of(x[2][0], "trackers")
            gd = guard_drops(q, lk)
            # between the lookup and the update the guard stays held
            w = None
            ln = g.nodes[x[3]] if len(x) > 3 else None
            if ln is not None and gd:
                r = q.reach(q.after(q.S([ln])), avoid=set())
                mid = [d for d in gd if q.S([d]) & r]
                w = q.can_follow(mid, [n], avoid=[ln]) if mid else None
            ck.ob(nm + ":held", w is None, "a stored tracker is updated after the lock that keeps the collector out was released: %s" % w, g.loc(n.i))
            continue
        cr = [x for x in walk(e) if x[0] == "call" and x[1] == INT + "Aggregator::create"]
        ck.ob(nm + ":receiver", len(cr) == 1 and norm(cr[0][2][0]) == ("fld", ("arg", 0), "config"), "the value is recorded in something the collector does not see: " + show_(e), g.loc(n.i))
        if len(cr) == 1:
            classes["fresh"].append(n)
            fresh[n.i] = cr[0][3]
    EMPTY = lambda want: lambda l: empty_lit(l) is want
    w = q.unguarded(classes["none"], EMPTY(True)) if classes["none"] else "no such update"
    ck.ob(nm + ":none:iff", w is None, "a measurement with attributes is recorded as one without: %s" % w, f.name)
    rest = [n for n in ups if n not in classes["none"]]
    w = q.unguarded(rest, EMPTY(False)) if rest else "no such update"
    ck.ob(nm + ":some:iff", w is None, "a measurement without attributes is recorded under an attribute set: %s" % w, f.name)
    flag = [n for n in q.calls(lambda c: c.m in ("store", "swap", "fetch_or") and len(c.args) >= 2) if norm(g.ev(n.d.args[0], n.i)) == ("fld", ("arg", 0), "has_no_attribute_value")]
    setter = [n for n in flag if const_true(g.ev(n.d.args[1], n.i))]
    ck.ob(nm + ":flag:only", len(setter) == len(flag), "the no-attributes flag is cleared by a measurement", f.name)
    w = q.not_after(classes["none"], setter) if q.not_before(setter, classes["none"]) else None
    ck.ob(nm + ":flag:set", bool(setter) and w is None, "a value without attributes is recorded, but the collector is not told that there is one: %s" % w, f.name)
    w = q.unguarded(setter, EMPTY(True)) if setter else None
    ck.ob(nm + ":flag:iff", w is None, "an attributed measurement makes the collector report a value without attributes: %s" % w, f.name)

    # insertions
    kinds = {}
    for n in ins:
        k = K.kind(g.ev(n.d.args[1], n.i), n)
        ck.ob(nm + ":insert:key", k is not None, "a tracker is stored under " + show_(g.ev(n.d.args[1], n.i)), g.loc(n.i))
        v = [x for x in walk(g.ev(n.d.args[2], n.i)) if x[0] == "call" and x[1] == INT + "Aggregator::create"]
        ck.ob(nm + ":insert:value", len(v) == 1, "what is stored is not a new tracker: " + show_(g.ev(n.d.args[2], n.i)), g.loc(n.i))
        lk = lock_of(g.ev(n.d.args[0], n.i), "trackers")
        kinds.setdefault(k, []).append((n, v[0][3] if len(v) == 1 else None, lk))
    below = lambda l: limit_lit(l) == "below"
    above = lambda l: limit_lit(l) == "reached"
    loads = [n for n in q.calls(lambda c: c.m == "load" and c.args) if norm(g.ev(n.d.args[0], n.i)) == ("fld", ("arg", 0), "count")]
    reg = [n for n, v, lk in kinds.get("norm", [])]
    raw = [n for n, v, lk in kinds.get("raw", [])]
    ovf = [n for n, v, lk in kinds.get("overflow", [])]
    ck.ob(nm + ":insert:sorted", bool(reg), "no attribute set is ever stored under its sorted form", f.name)
    ck.ob(nm + ":insert:overflow", bool(ovf), "nothing is stored under the overflow attributes", f.name)
    w = q.unguarded(reg + raw, below)
    ck.ob(nm + ":limit:below", w is None, "a new attribute set is stored although the limit is reached: %s" % w, f.name)
    w = q.unguarded(ovf + classes["overflow"], above)
    ck.ob(nm + ":limit:reached", w is None, "a measurement goes to the overflow attributes although there is room: %s" % w, f.name)
    writes = [n for n in q.calls(lambda c: c.m in ("write", "lock") and c.args) if norm(g.ev(n.d.args[0], n.i)) == ("fld", ("arg", 0), "trackers")]
    for n in reg + raw:
        lk = lock_of(g.ev(n.d.args[0], n.i), "trackers")
        w = q.not_before(writes, loads)
        ck.ob(nm + ":limit:fresh", w is None, "the limit is compared with a count read before the lock was taken: %s" % w, g.loc(n.i))
        w = q.unguarded([n], lambda l: missing_lit(l, lk, lambda e: K.kind(e, n) == "norm"))
        ck.ob(nm + ":insert:absent", w is None, "an attribute set is stored without looking, under the same lock, whether it is there already: %s" % w, g.loc(n.i))
    for n in ovf:
        lk = lock_of(g.ev(n.d.args[0], n.i), "trackers")
        w = q.unguarded([n], lambda l: missing_lit(l, lk, lambda e: K.kind(e, n) == "overflow"))
        ck.ob(nm + ":overflow:absent", w is None, "the overflow value is replaced instead of updated: %s" % w, g.loc(n.i))
    # the raw alias goes with the sorted one, and both denote one tracker
    for n, v, lk in kinds.get("raw", []):
        same = [m for m, v2, _ in kinds.get("norm", []) if v2 == v]
        w = q.not_after([n], same) if q.not_before(same, [n]) else None
        ck.ob(nm + ":alias", bool(same) and w is None, "a tracker is stored under the attributes as given without being stored under their sorted form: %s" % w, g.loc(n.i))
    # every new tracker is stored, and every stored tracker carries the measurement
    for n in classes["fresh"]:
        mine = [m for k in ("norm", "overflow") for m, v, _ in kinds.get(k, []) if v == fresh[n.i]]
        w = q.not_after([n], mine) if q.not_before(mine, [n]) else None
        ck.ob(nm + ":stored", bool(mine) and w is None, "a measurement is recorded in a new tracker that is not stored: %s" % w, g.loc(n.i))
        for m in mine:
            lk = lock_of(g.ev(m.d.args[0], m.i), "trackers")
            gd = guard_drops(q, lk)
            w = q.can_follow([m], [n]) and gd and q.can_follow(gd, [n])
            ck.ob(nm + ":stored:held", not w, "a new tracker is updated after the lock that keeps the collector out was released: %s" % w, g.loc(n.i))
    for n, v, lk in [x for y in kinds.values() for x in y]:
        mine = [m for m in classes["fresh"] if fresh[m.i] == v]
        w = q.not_after([n], mine) if q.not_before(mine, [n]) else None
        ck.ob(nm + ":carries", bool(mine) and w is None, "a new tracker is stored without the measurement: %s" % w, g.loc(n.i))
    # the count follows the stored sets
    adds = [n for n in q.calls(lambda c: c.m in ("fetch_add", "store", "fetch_sub", "swap", "fetch_max", "fetch_update", "compare_exchange") and c.args) if norm(g.ev(n.d.args[0], n.i)) == ("fld", ("arg", 0), "count")]
    inc = [n for n in adds if n.d.m == "fetch_add" and intval(g.ev(n.d.args[1], n.i)) == 1]
    ck.ob(nm + ":count:kind", len(inc) == len(adds) and bool(inc), "the number of stored attribute sets is changed by something other than an increment", f.name)
    w = q.not_after(reg, inc) if q.not_before(inc, reg) else None
    ck.ob(nm + ":count:inserted", w is None, "an attribute set is stored but not counted: %s" % w, f.name)
    w = q.not_after(inc, reg) if q.not_before(reg, inc) else None
    ck.ob(nm + ":count:only", w is None, "an attribute set is counted that is not stored: %s" % w, f.name)
    w = q.can_follow(inc, inc)
    ck.ob(nm + ":count:once", w is None, "an attribute set is counted twice: %s" % w, f.name)
    for n in reg:
        gd = guard_drops(q, lock_of(g.ev(n.d.args[0], n.i), "trackers"))
        w = q.can_follow(gd, inc) if gd else None
        ck.ob(nm + ":count:held", w is None, "the count changes after the lock was released, so that a concurrent collection can reset it in between: %s" % w, g.loc(n.i))


def const_true(e):
    e = norm(e)
    return e[0] == "const" and e[1] is True


def empty_lit(l):
    """arg2 known (not) to be empty"""
    if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "is_empty" and norm(l[1][2][0]) == ("arg", 2):
        return l[2]
    if l[0] == "cmp" and any(intval(x) == 0 for x in l[2:]) and any(length_of(x) for x in l[2:]):
        if l[1] in ("Eq", "Ne"):
            return l[1] == "Eq"
        if l[1] == "Lt" and intval(l[2]) == 0:
            return False
        if l[1] == "Le" and intval(l[3]) == 0:
            return True
    if l[0] == "i" and length_of(l[1]):
        return True if l[2] == 0 else False if l[2] == "else" and 0 in l[3] else None
    if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) in ("first", "next", "last", "split_first") and norm(l[1][2][0]) == ("arg", 2):
        return l[3] == ("None",)
    return None


def length_of(x):
    return is_len(x, {("arg", 2)})


def limit_lit(l):
    """count (of stored sets) against the limit"""
    if l[0] != "cmp":
        return None
    cnt = lambda x: x[0] == "call" and last(x[1]) == "load" and norm(x[2][0]) == ("fld", ("arg", 0), "count")
    lim = lambda x: norm(x) == ("fld", ("arg", 0), "cardinality_limit")
    a, b = strip_cast(l[2]), strip_cast(l[3])
    if l[1] == "Lt" and cnt(a) and lim(b):
        return "below"
    if l[1] == "Le" and lim(a) and cnt(b):
        return "reached"
    return None


def missing_lit(l, lk, key):
    """a lookup under the lock `lk` has found nothing"""
    if lk is None:
        return False
    e = l[1] if l[0] in ("v", "b") else None
    if e is None or e[0] != "call" or len(e[2]) < 2 or lock_of(e[2][0], "trackers") is None or lock_of(e[2][0], "trackers")[3:] != lk[3:]:
        return False
    m = last(e[1])
    if l[0] == "v" and (m in ("get", "get_mut", "get_key_value") and l[3] == ("None",) or m == "entry" and l[3] == ("Vacant",)):
        return key(e[2][1])
    return l[0] == "b" and m == "contains_key" and l[2] is False and key(e[2][1])


def guard_drops(q, lk):
    """where the guard taken by the lock call lk is given up"""
    g = q.g
    out = []
    mine = lambda e: any(x[0] == "call" and x[3:] == lk[3:] and last(x[1]) in LOCKS for x in walk(e))
    for n in g.nodes:
        if n.i not in q.ex.by_node:
            continue
        if n.k == "drop" and "Guard" in (n.d[1].adt or "") and mine(g.place_expr(n.d[0], n.i)):
            out.append(n)
        elif n.k == "call" and n.d.name == "core::mem::drop" and mine(g.ev(n.d.args[0], n.i)) and lock_of(g.ev(n.d.args[0], n.i), "trackers"):
            out.append(n)
    return out


def collects(ck, f, reset):
    nm = f.name.rsplit("::", 1)[-1]
    q = Q(ck.graph(f))
    g = q.g
    DEST, NONE, CFG = ("arg", 1), ("fld", ("arg", 0), "no_attribute_tracker"), ("fld", ("arg", 0), "config")
    pushes = [n for n in q.calls(lambda c: c.m in ("push", "insert", "extend", "append", "push_back", "resize", "extend_from_slice") and c.args) if norm(g.ev(n.d.args[0], n.i)) == DEST]
    clears = [n for n in q.calls(lambda c: c.m in ("clear", "drain", "take") and c.args) if norm(g.ev(n.d.args[0], n.i)) == DEST and (n.d.m != "drain" or "RangeFull" in repr(g.ev(n.d.args[1], n.i)))]
    clears += [n for n in q.calls(lambda c: c.m == "truncate" and c.args) if norm(g.ev(n.d.args[0], n.i)) == DEST and intval(g.ev(n.d.args[1], n.i)) == 0]
    w = q.not_before(clears, pushes) if clears else "the destination is never cleared"
    ck.ob(nm + ":cleared", w is None, "data points of an earlier collection stay in the report: %s" % w, f.name)
    w = q.skipped(clears) if clears else "the destination is never cleared"
    ck.ob(nm + ":cleared:always", w is None, "data points of an earlier collection stay in the report: %s" % w, f.name)
    w = q.can_follow(pushes, clears)
    ck.ob(nm + ":kept", w is None, "data points are thrown away after they were collected: %s" % w, f.name)
    thin = [n for n in q.calls(lambda c: c.m in ("truncate", "pop", "retain", "dedup", "dedup_by", "dedup_by_key", "remove", "swap_remove", "drain", "split_off") and c.args) if norm(g.ev(n.d.args[0], n.i)) == DEST and n not in clears]
    ck.ob(nm + ":all", not thin, "data points are removed from the report", f.name)
    # which data points
    none, some, cont = [], [], {}
    for n in pushes:
        e = g.ev(n.d.args[1], n.i)
        ok = e[0] == "call" and last(e[1]) in ("call", "call_mut", "call_once") and norm(e[2][0]) == ("arg", 2) and e[2][1][0] == "tuple" and len(e[2][1][1]) == 2
        ck.ob(nm + ":point", n.d.m == "push" and ok, "what is added to the report is not made from a stored attribute set: " + show_(e), g.loc(n.i))
        if not ok:
            continue
        at, tr = e[2][1][1]
        if reset:
            ok = tr[0] == "call" and last(tr[1]) == "clone_and_reset" and norm(tr[2][1]) == CFG
            ck.ob(nm + ":reset", ok, "a reported tracker is not reset: " + show_(tr), g.loc(n.i))
            if not ok:
                continue
            tr = tr[2][0]
        if norm(tr) == NONE:
            none.append(n)
            ck.ob(nm + ":none:attributes", at[0] == "call" and last(at[1]) in ("new", "default") and not at[2] or at[0] in ("array",) and not at[1], "the value without attributes is reported with " + show_(at), g.loc(n.i))
            continue
        a, t = bare(norm(at)), bare(norm(tr))
        ok = a[0] == "fld" and t[0] == "fld" and a[2] == "0" and t[2] == "1" and a[1] == t[1] and a[1][0] == "elem"
        ck.ob(nm + ":pair", ok, "attributes %s are reported with the value of %s" % (show_(at), show_(tr)), g.loc(n.i))
        if ok:
            some.append(n)
            cont[n.i] = at[1][1] if at[0] == "fld" and at[1][0] == "elem" else None
    flagged = lambda want: lambda l: l[0] == "b" and l[2] is want and l[1][0] == "call" and last(l[1][1]) in (("swap", "fetch_and", "take") if reset else ("load",)) and norm(l[1][2][0]) == ("fld", ("arg", 0), "has_no_attribute_value") and (not reset or last(l[1][1]) == "take" or norm(l[1][2][1]) == ("const", False) or norm(l[1][2][1])[:2] == ("const", False))
    ck.ob(nm + ":none:there", bool(none), "the value without attributes is never reported", f.name)
    w = q.unguarded(none, flagged(True)) if none else None
    ck.ob(nm + ":none:iff", w is None, "a value without attributes is reported although %s: %s" % ("none was recorded since the last collection" if reset else "none was recorded", w), f.name)
    w = q.skipped(none, excuse=flagged(False)) if none else "never"
    ck.ob(nm + ":none:always", w is None, "the value without attributes is not reported: %s" % w, f.name)
    w = q.can_follow(none, none)
    ck.ob(nm + ":none:once", w is None, "the value without attributes is reported twice: %s" % w, f.name)
    # every stored set, once per tracker
    ck.ob(nm + ":some:there", bool(some), "stored attribute sets are never reported", f.name)
    if not some:
        return
    B = set()
    for n in some:
        e = g.ev(n.d.args[1], n.i)
        B |= {norm(x) for x in conts(e)}

    def seen(l):
        if l[0] == "b" and l[2] is False and l[1][0] == "call" and last(l[1][1]) in ("insert", "replace") and len(l[1][2]) == 2:
            ins = l[1][2][1]
        elif l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) in ("contains", "contains_key") and len(l[1][2]) == 2:
            ins = l[1][2][1]
        else:
            return False
        return ins[0] == "call" and last(ins[1]) == "as_ptr" and has(norm(ins[2][0]), lambda x: x[0] == "fld" and x[2] == "1" and x[1][0] == "elem")

    w = q.unguarded(some, lambda l: l[0] == "b" and seen(l[:2] + (not l[2],)) or False)
    ck.ob(nm + ":some:once", w is None, "a tracker stored under two spellings of one attribute set is reported twice: %s" % w, f.name)
    ex = lambda l: poisoned(l) or seen(l)
    w = forall(q, q.entry(), some, B=B, cut=ex)
    ck.ob(nm + ":some:always", w is None, "a stored attribute set is not reported: %s" % w, f.name)
    # adaptors that drop elements
    for b in B:
        bad = [last(x[1]) for x in walk(b) if x[0] == "call" and last(x[1]) in ("take", "skip", "filter", "step_by", "filter_map", "take_while", "skip_while")]
        ck.ob(nm + ":some:thin", not bad, "stored attribute sets are left out of the report by " + "/".join(bad), f.name)
    mut = [n for n in q.calls(lambda c: c.m in ("store", "swap", "fetch_add", "fetch_sub", "fetch_and", "clone_and_reset", "clear", "retain", "remove", "drain", "take", "replace", "insert") and c.args)
           if rooted(norm(g.ev(n.d.args[0], n.i)), lambda x: x == ("arg", 0)) or has(g.ev(n.d.args[0], n.i), lambda x: x[0] == "fld" and x[1] == ("arg", 0))]
    if not reset:
        ck.ob(nm + ":readonly", not mut, "a cumulative collection changes what is stored (%s)" % ",".join(n.d.m for n in mut), f.name)
        for n in some:
            ck.ob(nm + ":source", any(lock_of(x, "trackers") for x in conts(g.ev(n.d.args[1], n.i))), "reported attribute sets are not those that measurements are stored in", f.name)
        return
    # delta: what was stored is moved out, and the count starts again, while measurements are kept out
    sw = [n for n in q.calls(lambda c: c.name in ("core::mem::swap",)) if any(lock_of(g.ev(a, n.i), "trackers") for a in n.d.args)]
    tk = [n for n in q.calls(lambda c: c.name in ("core::mem::take", "core::mem::replace")) if lock_of(g.ev(n.d.args[0], n.i), "trackers")]
    moves = sw + tk
    ck.ob(nm + ":moved", bool(moves), "stored attribute sets are not taken out of the map that measurements go to", f.name)
    if not moves:
        return
    w = q.not_before(moves, some)
    ck.ob(nm + ":moved:first", w is None, "attribute sets are reported before they are taken out: %s" % w, f.name)
    w = q.skipped(moves, excuse=poisoned)
    ck.ob(nm + ":moved:always", w is None, "stored attribute sets stay for the next report: %s" % w, f.name)
    other = set()
    for n in sw:
        for a in n.d.args:
            e = g.ev(a, n.i)
            if not lock_of(e, "trackers"):
                other.add(norm(e))
    for n in some:
        src = conts(g.ev(n.d.args[1], n.i))
        ok = any(norm(x) in other or has(norm(x), lambda y: y in other) for x in src) or any(has(x, lambda y: y[0] == "call" and y[1] in ("core::mem::take", "core::mem::replace") and lock_of(y[2][0], "trackers")) for x in src)
        ck.ob(nm + ":source", ok, "reported attribute sets are not those that were taken out", g.loc(n.i))
        emptied = any(has(x, lambda y: y[0] == "call" and last(y[1]) == "drain") for x in src) or not sw
        if not emptied:
            cl = [m for m in q.calls(lambda c: c.m in ("clear", "drain", "take") and c.args) if norm(g.ev(m.d.args[0], m.i)) in other]
            emptied = bool(cl) and q.not_after(moves, cl, excuse=poisoned) is None
        ck.ob(nm + ":emptied", emptied, "reported attribute sets stay in the spare map and come back with the next swap", g.loc(n.i))
    zero = [n for n in q.calls(lambda c: c.m in ("store", "swap") and c.args) if norm(g.ev(n.d.args[0], n.i)) == ("fld", ("arg", 0), "count")]
    ck.ob(nm + ":count", bool(zero) and all(intval(g.ev(n.d.args[1], n.i)) == 0 for n in zero), "the count of stored attribute sets does not start again", f.name)
    w = q.not_after(moves, zero) if q.not_before(zero, moves) else None
    ck.ob(nm + ":count:always", w is None, "the count of stored attribute sets does not start again: %s" % w, f.name)
    w = q.not_after(zero, moves) if q.not_before(moves, zero) else None
    ck.ob(nm + ":count:only", w is None, "the count of stored attribute sets starts again although they are still stored: %s" % w, f.name)
    lks = [lock_of(g.ev(a, n.i), "trackers") for n in moves for a in n.d.args]
    for lk in [x for x in lks if x]:
        gd = guard_drops(q, lk)
        w = q.can_follow(gd, zero) if gd else "the lock is never released"
        lkn = g.nodes[lk[3]]
        w = w or q.not_before([lkn], zero)
        ck.ob(nm + ":count:held", w is None, "the count is reset outside the lock, so that a measurement in between is not counted: %s" % w, f.name)
        ck.ob(nm + ":exclusive", last(lk[1]) in ("write", "lock"), "the map is exchanged under a shared lock", f.name)


def conts(e):
    """containers whose elements occur in e"""
    return [x[1] for x in walk(e) if x[0] == "elem"]


def construct(ck, p):
    f = p.method(VM, "new")
    ck.one(f, "ValueMap::new")
    q = Q(ck.graph(f[0]))
    pn = {k: a for k, a in zip(("config", "limit"), (("arg", 0), ("arg", 1)))}
    get = lambda k: norm(under(q, (("f", k),)))
    ck.ob("new:limit", get("cardinality_limit") == pn["limit"], "the limit stored is not the one given: " + show_(get("cardinality_limit")), f[0].name)
    ck.ob("new:config", get("config") == pn["config"], "the configuration stored is not the one given", f[0].name)
    ck.ob("new:count", has(get("count"), lambda x: x[0] == "const" and intval(x) == 0), "the count does not start at zero", f[0].name)
    ck.ob("new:flag", has(get("has_no_attribute_value"), lambda x: x[0] == "const" and x[1] is False), "a value without attributes is reported before one was recorded", f[0].name)
    # the limit on its way from the stream
    n = 0
    for adt in ("sum::Sum", "precomputed_sum::PrecomputedSum", "last_value::LastValue", "histogram::Histogram", "exponential_histogram::ExpoHistogram"):
        for f in p.method(INT + adt, "new"):
            n += 1
            q = Q(ck.graph(f, opaque=lambda x: x.name == VM + "::new"))
            args = [i for i in range(1, f.argc + 1)]
            made = q.calls(lambda c: c.name == VM + "::new" or (c.res or "") == VM + "::new")
            lim = ("arg", f.argc - 1)
            ty = f.local_ty(f.argc)
            ok = made and all(norm(q.g.ev(c.d.args[1], c.i)) == lim for c in made) and ty.s == "usize"
            ck.ob("new:%s:limit" % last(adt), bool(ok), "the limit handed on is not the one given", f.name)
            w = norm(under(q, (("f", "value_map"),)))
            ck.ob("new:%s:map" % last(adt), w[0] == "call" and w[1] == VM + "::new", "the aggregation does not keep the map: " + show_(w), f.name)
    ck.ob("new:kinds", n == 5, "%d of 5 aggregations found" % n, INT)
    for m in ("last_value", "precomputed_sum", "sum", "explicit_bucket_histogram", "exponential_bucket_histogram"):
        f = p.method(INT + "aggregate::AggregateBuilder", m)
        ck.one(f, "AggregateBuilder::" + m)
        q = Q(ck.graph(f[0], opaque=lambda x: x.name == VM + "::new"))
        made = q.calls(lambda c: c.name == VM + "::new" or (c.res or "") == VM + "::new")
        ok = made and all(norm(q.g.ev(c.d.args[1], c.i)) == ("fld", ("arg", 0), "cardinality_limit") for c in made)
        ck.ob("builder:%s" % m, bool(ok), "the limit handed on is not the builder's", f[0].name)
    f = p.method(INT + "aggregate::AggregateBuilder", "new")
    q = Q(ck.graph(f[0]))
    ck.ob("builder:new", norm(under(q, (("f", "cardinality_limit"),))) == ("arg", 2), "the limit stored is not the one given", f[0].name)


def check(ck):
    p = ck.program("all")
    ck.rule("a measurement updates exactly one tracker on every path (a poisoned lock excepted): the one without attributes iff there are none, else one that is looked up or stored under the attributes, their sorted form or the overflow attributes")
    ck.rule("lookup, update, insertion and counting happen while one guard of the map is held; a new set only behind a fresh count below the limit, overflow only behind the limit")
    ck.rule("collections visit every entry of the map once per tracker and pair attributes with their own tracker; delta exchanges map, count and flag, cumulative writes nothing")
    for m, reset in (("measure", None), ("collect_readonly", False), ("collect_and_reset", True)):
        f = p.method(VM, m)
        ck.one(f, VM + "::" + m)
        if reset is None:
            measure(ck, f[0])
        else:
            collects(ck, f[0], reset)
    construct(ck, p)
