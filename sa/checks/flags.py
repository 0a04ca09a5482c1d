"""the sampled bit of trace flags, decided symbolically"""
import re
from checks.util import *

FLAGS = "opentelemetry::trace_context::TraceFlags"


def bit0(e, var=None):
    """lowest bit of a number or of trace flags: True / False, 'v' (that of the value `var` accepts), else None"""
    if var is not None and var(e):
        return "v"
    if e[0] == "phi":
        r = {bit0(a, var) for a in e[1]}
        return r.pop() if len(r) == 1 else None
    if e[0] == "cast":
        return bit0(e[1], var)
    if e[0] == "const":
        if isinstance(e[1], bool):
            return None
        if isinstance(e[1], int):
            return bool(e[1] & 1)
        m = re.search(r"TraceFlags\((\d+)_u8\)$", str(e[1]))
        return bool(int(m.group(1)) & 1) if m else None
    if e[0] == "fld" and e[2] == "0":
        return bit0(e[1], var)
    if e[0] == "fld" and e[2] == "trace_flags" and rooted(e, lambda r: r[0] == "const"):
        m = re.search(r"trace_flags: [\w:]*TraceFlags\((\d+)_u8\)", str(proj_of(e)[0][1]))
        return bool(int(m.group(1)) & 1) if m else None
    if e[0] == "agg" and len(e[3]) == 1:
        return bit0(e[3][0][1], var)
    if is_default(e):
        return False
    if e[0] == "un" and e[1] == "Not":
        r = bit0(e[2], var)
        return None if r is None or r == "v" else not r
    if e[0] == "bin":
        a, b = bit0(e[2], var), bit0(e[3], var)
        if e[1] == "BitOr":
            return True if True in (a, b) else a if b is False else b if a is False else None
        if e[1] == "BitAnd":
            return False if False in (a, b) else a if b is True else b if a is True else None
    return None


def sampled_test(x, var):
    """boolean expression is (not) the sampled bit of the flags `var` accepts -> True / False, else None"""
    if x[0] == "un" and x[1] == "Not":
        r = sampled_test(x[2], var)
        return None if r is None else not r
    if x[0] == "bin" and x[1] in ("Eq", "Ne"):
        return _cmp(x[1], x[2], x[3], var)
    if x[0] == "call" and last(x[1]) in ("eq", "ne") and len(x[2]) == 2:
        return _cmp("Eq" if last(x[1]) == "eq" else "Ne", x[2][0], x[2][1], var)
    return None


def only_bit0(e):
    """nothing but the lowest bit can be set"""
    if e[0] == "bin" and e[1] == "BitAnd":
        return any(isone(x) for x in e[2:4])
    if e[0] in ("cast",) or e[0] == "fld" and e[2] == "0":
        return only_bit0(e[1])
    if e[0] == "agg" and len(e[3]) == 1:
        return only_bit0(e[3][0][1])
    return False


def isone(e):
    while e[0] == "fld" and e[2] == "0" or e[0] == "agg" and len(e[3]) == 1:
        e = e[1] if e[0] == "fld" else e[3][0][1]
    return intval(e) == 1 or e[0] == "const" and str(e[1]).endswith("TraceFlags(1_u8)")


def iszero(e):
    while e[0] == "fld" and e[2] == "0" or e[0] == "agg" and len(e[3]) == 1:
        e = e[1] if e[0] == "fld" else e[3][0][1]
    return intval(e) == 0 or e[0] == "const" and str(e[1]).endswith("TraceFlags(0_u8)")


def _cmp(op, a, b, var):
    for x, y in ((a, b), (b, a)):
        if bit0(x, var) == "v" and only_bit0(x):
            if isone(y):
                return op == "Eq"
            if iszero(y):
                return op == "Ne"
    return None


def sampled_lit(l, var):
    """branch on the sampled bit of the flags `var` accepts -> True (sampled) / False (not), else None"""
    if l[0] == "cmp":
        return _cmp(l[1], l[2], l[3], var)
    if l[0] == "b":
        r = sampled_test(l[1], var)
        return None if r is None else r is l[2]
    return None
