"""sites that can panic, and what rules them out"""
from checks.assume import *

# external functions that panic on some arguments
PANICKY = {"split_at", "split_at_mut", "copy_from_slice", "clone_from_slice", "swap_remove", "split_off", "chunks", "chunks_exact", "windows", "step_by", "copy_within", "rotate_left", "rotate_right", "swap", "range", "index", "index_mut", "replace_range", "borrow_mut_unchecked"}
POSITIONAL = {"remove", "insert", "drain"}    # panic for sequences and strings, not for maps
SEQ = ("::vec::Vec", "::string::String", "::vec_deque::VecDeque")


def len_lit_min(l, isv):
    """smallest length of the container accepted by isv that the literal leaves possible (0: says nothing)"""
    def L(e):
        e = strip_cast(e)
        return e[0] == "call" and last(e[1]) == "len" and isv(e[2][0]) or e[0] == "un" and e[1] in ("PtrMetadata", "Len") and isv(e[2]) or e[0] == "len" and isv(e[1])
    if l[0] == "cmp":
        a, b = intval(l[2]), intval(l[3])
        if l[1] == "Lt" and a is not None and L(l[3]):
            return a + 1
        if l[1] == "Le" and a is not None and L(l[3]):
            return a
        if l[1] == "Eq":
            if a is not None and L(l[3]):
                return a
            if b is not None and L(l[2]):
                return b
        if l[1] == "Ne" and (a == 0 and L(l[3]) or b == 0 and L(l[2])):
            return 1
    if l[0] == "i" and L(l[1]):
        if l[2] != "else":
            return int(l[2])
        k = 0
        while k in l[3]:
            k += 1
        return k
    if l[0] == "b" and l[2] is True and l[1][0] == "call" and last(l[1][1]) == "contains" and len(l[1][2]) == 2 and L(l[1][2][1]):
        lo = range_of(l[1][2][0])[0]
        return intval(lo) or 0 if lo is not None else 0
    if l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "is_empty" and isv(l[1][2][0]) and l[2] is False:
        return 1
    return 0


def guarded_len(q, n, base, k):
    """on every path to n the container `base` is known to hold more than k elements"""
    b = norm(base)
    return q.unguarded([n], lambda l: len_lit_min(l, lambda x: norm(x) == b) > k) is None


def small(e):
    """a count of things that exist in memory, or a small constant"""
    e = strip_cast(e)
    while e[0] == "fld" and e[2] == "0" and e[1][0] == "bin":
        e = e[1]
    v = intval(e)
    if v is not None:
        return 0 <= v < 2 ** 32
    if e[0] == "call" and last(e[1]) in ("len", "count", "capacity", "size_hint"):
        return True
    if e[0] in ("len",) or e[0] == "un" and e[1] in ("PtrMetadata", "Len"):
        return True
    if e[0] == "fld" and e[2] in ("0", "tuple.0") and has(e, lambda x: x[0] == "call" and last(x[1]) in ("enumerate", "char_indices", "match_indices")):
        return True
    if e[0] == "fld" and has(e[1], lambda x: x[0] == "call" and last(x[1]) in ("enumerate", "char_indices", "match_indices", "find", "rfind", "position")):
        return True
    if e[0] == "call" and last(e[1]) in ("find", "rfind", "position"):
        return True
    if e[0] == "bin" and e[1].startswith("Add"):
        return small(e[2]) and small(e[3])
    if e[0] == "phi":
        return all(small(x) for x in e[1])
    return False


def char_pos(g, n, base, idx):
    """idx is a position that a search in the same text returned, or that plus the length of the ASCII character found"""
    def pos(e):
        e = strip_cast(e)
        while e[0] == "fld" and e[2] == "0" and e[1][0] == "bin":
            e = e[1]
        if e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and last(e[1][1]) in ("find", "rfind") and norm(e[1][2][0]) == norm(base):
            return e[1]
        return None
    e = strip_cast(idx)
    while e[0] == "fld" and e[2] == "0" and e[1][0] == "bin":
        e = e[1]
    if intval(e) == 0 or pos(e):
        return True
    if e[0] == "bin" and e[1].startswith("Add"):
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            c = pos(a)
            if c and intval(b) is not None and len(c[2]) > 1:
                pat = c[2][1]
                s = const_str(pat)
                w = len(s.encode()) if s is not None else 1 if intval(pat) is not None and intval(pat) < 128 else None
                if w == intval(b):
                    return True
    return False


def sites(q):
    """(node, what, discharged) of every reachable operation that may panic"""
    g = q.g
    for n in g.nodes:
        if n.i not in q.ex.by_node or n.log:
            continue
        if n.k == "panic":
            yield n, "unwrap of a value that may be absent (%s)" % n.d, False
        elif n.k == "assert":
            kind = n.d[2]
            if kind == "BoundsCheck":
                c = g.ev(n.d[0], n.i)
                ok = False
                if c[0] == "bin" and c[1] == "Lt":
                    i = intval(c[2])
                    ln = strip_cast(c[3])
                    m = intval(ln)
                    base = ln[2] if ln[0] == "un" else ln[1] if ln[0] == "len" else None
                    ok = i is not None and (m is not None and i < m or base is not None and guarded_len(q, n, base, i))
                yield n, "index out of bounds", ok
            elif kind in ("Overflow", "OverflowNeg"):
                pl = n.d[0]
                e = g.evp((pl[1][0], pl[1][1], ()), n.i) if pl[0] == "p" else ("unk",)
                ok = e[0] == "bin" and (e[1].startswith("Add") and small(e[2]) and small(e[3]) or e[1].startswith(("Shl", "Shr")) and intval(e[3]) is not None and intval(e[3]) < 64)
                if not ok and e[0] == "bin" and e[1].startswith("Sub"):
                    a, b = norm(strip_cast(e[2])), norm(strip_cast(e[3]))
                    ge = lambda l: l[0] == "cmp" and l[1] in ("Lt", "Le", "Eq") and (norm(strip_cast(l[2])) == b and norm(strip_cast(l[3])) == a)
                    k = intval(e[3])
                    isl = strip_cast(e[2])
                    ok = q.unguarded([n], ge) is None or k is not None and isl[0] == "call" and last(isl[1]) == "len" and guarded_len(q, n, isl[2][0], k - 1)
                yield n, "arithmetic overflow", ok
            elif kind in ("DivisionByZero", "RemainderByZero"):
                yield n, "division by zero", False
        elif n.k == "call":
            c = n.d
            nm = c.res or c.name
            m = last(c.name)
            if nm.startswith(("core::panicking::", "std::panicking::", "core::result::unwrap_failed", "core::option::unwrap_failed", "core::option::expect_failed", "std::rt::begin_panic", "std::process::exit", "std::process::abort")):
                yield n, "explicit panic", False
            elif m in ("index", "index_mut") and (c.tr or "").endswith(("Index", "IndexMut")):
                base, idx = g.ev(c.args[0], n.i), g.ev(c.args[1], n.i)
                k = intval(idx)
                if k is not None:
                    ok = guarded_len(q, n, base, k)
                elif idx[0] == "agg" and "Range" in idx[1]:
                    ok = all(char_pos(g, n, base, v) for _, v in idx[3])
                else:
                    ok = False
                yield n, "indexing", ok
            elif m in ("split_at", "split_at_mut") or m in PANICKY and m not in ("index", "index_mut", "replace", "swap", "range"):
                idx = g.ev(c.args[1], n.i) if len(c.args) > 1 else ("unk",)
                base = g.ev(c.args[0], n.i)
                k = intval(idx)
                ok = char_pos(g, n, base, idx) or k is not None and k > 0 and m in ("chunks", "windows", "step_by", "chunks_exact") or k is not None and m.startswith("split_at") and (k == 0 or guarded_len(q, n, base, k - 1))
                yield n, m, ok
            elif m in POSITIONAL and any(s in nm for s in SEQ):
                idx = g.ev(c.args[1], n.i) if len(c.args) > 1 else ("unk",)
                base = g.ev(c.args[0], n.i)
                k = intval(idx)
                full = idx[0] == "agg" and "RangeFull" in idx[1]
                ok = full or k is not None and (m == "insert" and k == 0 or guarded_len(q, n, base, k)) or has(idx, lambda x: x[0] == "call" and last(x[1]) in ("position", "find", "rposition")) or \
                    q.unguarded([n], lambda l: l[0] == "cmp" and l[1] in ("Lt", "Le") and norm(l[2]) == norm(idx) and l[3][0] == "call" and last(l[3][1]) == "len") is None
                yield n, m, ok
