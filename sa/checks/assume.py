"""Constant propagation under an assumption: which branches can be taken, and which values result, when some inputs are known.

env: function expr -> value of that input, or None when it is not assumed.  Values: int, float, bool, str, bytes and
V(variant[, adt]) for an enum value of which only the variant is known."""
import re
from checks.util import *


class V:
    def __init__(self, name, adt=None):
        self.name, self.adt = name, adt

    def __eq__(self, o):
        return isinstance(o, V) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "V(%s)" % self.name


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
CMP = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}
STRF = {"trim": lambda s: s.strip(), "to_lowercase": lambda s: s.lower(), "to_ascii_lowercase": lambda s: s.lower(), "to_uppercase": lambda s: s.upper(), "to_ascii_uppercase": lambda s: s.upper(),
        "trim_start": lambda s: s.lstrip(), "trim_end": lambda s: s.rstrip()}
SAME = ("to_string", "to_owned", "into", "from", "as_str", "as_ref", "deref", "borrow", "as_bytes", "clone", "as_deref", "into_string", "must_use", "as_slice", "unwrap_or_default", "copied", "cloned", "bytes", "chars", "into_owned", "to_vec")
CHARF = {"is_ascii_digit": lambda c: c.isdigit(), "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF", "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_ascii_lowercase": lambda c: "a" <= c <= "z",
         "is_ascii_alphanumeric": lambda c: c.isalnum() and c.isascii(), "is_ascii_alphabetic": lambda c: c.isalpha() and c.isascii(), "is_uppercase": lambda c: c.isupper(), "is_lowercase": lambda c: c.islower(), "is_alphanumeric": lambda c: c.isalnum(),
         "is_alphabetic": lambda c: c.isalpha(), "is_numeric": lambda c: c.isnumeric(), "is_whitespace": lambda c: c.isspace(), "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_ascii": lambda c: c.isascii(),
         "is_control": lambda c: ord(c) < 32 or ord(c) == 127, "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127, "is_ascii_graphic": lambda c: 33 <= ord(c) <= 126, "is_ascii_punctuation": lambda c: 33 <= ord(c) <= 126 and not c.isalnum()}


def const_str(e):
    """text of a string literal"""
    if e[0] == "const" and isinstance(e[1], str) and not re.search(r"^[\w:]+[({].*[)}]$|^-?[\d_.]+f(32|64)$|^[A-Z]\w*::[A-Z]\w*$", e[1]):
        return e[1]
    return None


def range_of(e):
    """(low, high, inclusive) of a range value"""
    if e[0] == "agg" and last(e[1]) == "Range":
        d = dict(e[3])
        return d["start"], d["end"], False
    if e[0] == "agg" and last(e[1]) == "RangeInclusive":
        d = dict(e[3])
        return d["start"], d["end"], True
    if e[0] == "call" and e[1].endswith("RangeInclusive::new"):
        return e[2][0], e[2][1], True
    return None, None, False


def val(e, env, p=None):
    v = env(e)
    if v is not None:
        return v
    k = e[0]
    if k == "const":
        if isinstance(e[1], (bool, int, float, bytes)):
            return e[1]
        s = const_str(e)
        if s is not None:
            return s
        try:
            return float(str(e[1]).replace("_", "").replace("f64", ""))
        except ValueError:
            pass
        m = re.search(r"\((\d+)_[ui]\d+\)$", str(e[1]))     # a newtype constant
        return int(m.group(1)) if m else None
    if k == "phi":
        r = {val(a, env, p) for a in e[1]}
        return r.pop() if len(r) == 1 else None
    if k == "cast":
        v = val(e[1], env, p)
        t = str(e[2]) if len(e) > 2 else ""
        if v is None or isinstance(v, (str, V)):
            return None
        if t.startswith("f"):
            return float(v)
        if t in BITS:
            return min(max(int(v), 0), 2 ** BITS[t] - 1) if isinstance(v, float) else int(v) % 2 ** BITS[t]
        return int(v) if t.startswith("i") else v
    if k == "disc":
        v = val(e[1], env, p)
        if not isinstance(v, V):
            return None
        for x in (p.adts.get(e[2] if len(e) > 2 else None, {}).get("v", []) if p else []):
            if x["n"] == v.name:
                return x["d"]
        return None
    if k == "agg":
        if e[2] and not e[3]:
            return V(e[2], e[1])
        if len(e[3]) == 1 and e[3][0][0] == "0" and not (p and len(p.adts.get(e[1], {}).get("v", [])) > 1):
            return val(e[3][0][1], env, p)      # a newtype
        return V(e[2], e[1]) if p and len(p.adts.get(e[1], {}).get("v", [])) > 1 else None
    if k == "fld":
        if e[2] == "0":
            return val(e[1], env, p)
        if e[2] in ("Some.0", "Ok.0") and e[1][0] == "agg":
            return val(e[1][3][0][1], env, p) if e[1][3] else None
        return None
    if k == "un":
        v = val(e[2], env, p)
        if v is None:
            return None
        if e[1] == "Not":
            return (not v) if isinstance(v, bool) else (~v) % 256 if isinstance(v, int) else None
        return -v if e[1] == "Neg" else None
    if k == "bin":
        a, b = val(e[2], env, p), val(e[3], env, p)
        op = e[1].replace("WithOverflow", "").replace("Unchecked", "")
        if op == "BitAnd" and (a is False or b is False or a == 0 and a is not None or b == 0 and b is not None):
            return False if isinstance(a if a is not None else b, bool) else 0
        if op == "BitOr" and (a is True or b is True):
            return True
        if a is None or b is None:
            return None
        try:
            if op in CMP:
                return CMP[op](ordv(a), ordv(b))
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a / b if isinstance(a, float) else a // b, "Shl": lambda: a << b, "Shr": lambda: a >> b,
                    "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Rem": lambda: a % b}[op]()
        except (KeyError, TypeError, ZeroDivisionError):
            return None
    if k == "len":
        v = val(e[1], env, p)
        return len(v) if isinstance(v, (str, bytes)) else None
    if k == "call":
        m = last(e[1])
        a = [val(x, env, p) for x in e[2]]
        if m in ("eq", "ne", "lt", "le", "gt", "ge", "eq_ignore_ascii_case") and len(a) == 2:
            if None in a:
                return None
            if m == "eq_ignore_ascii_case":
                return a[0].lower() == a[1].lower() if isinstance(a[0], str) else None
            try:
                return CMP[m.capitalize()](ordv(a[0]), ordv(a[1]))
            except TypeError:
                return None
        if m == "default" and not a:
            t = e[1].lstrip("<").split(" as ")[0]
            return 0 if t in BITS or re.match("i(8|16|32|64|128|size)$", t) else False if t == "bool" else "" if "String" in t or t in ("str", "&str") else None
        if m == "contains" and len(a) == 2 and a[1] is not None:
            if isinstance(a[0], bytes):
                return ordv(a[1]) in a[0] if isinstance(ordv(a[1]), int) else None
            lo, hi, inc = range_of(e[2][0])
            if lo is not None:
                lo, hi = val(lo, env, p), val(hi, env, p)
                try:
                    return None if lo is None or hi is None else ordv(lo) <= ordv(a[1]) and (ordv(a[1]) <= ordv(hi) if inc else ordv(a[1]) < ordv(hi))
                except TypeError:
                    return None
        if not a or a[0] is None:
            return None
        if m in SAME and len(a) == 1:
            return a[0]
        if isinstance(a[0], str):
            if m in STRF:
                return STRF[m](a[0])
            if m == "len":
                return len(a[0].encode())
            if m == "is_empty":
                return not a[0]
            if m in CHARF and len(a[0]) == 1:
                return CHARF[m](a[0])
            if m in ("starts_with", "ends_with", "contains") and len(a) == 2 and a[1] is not None:
                t = chr(a[1]) if isinstance(a[1], int) else a[1]
                return {"starts_with": a[0].startswith(t), "ends_with": a[0].endswith(t), "contains": t in a[0]}[m]
        if isinstance(a[0], int) and not isinstance(a[0], bool) and m in CHARF and 0 <= a[0] < 0x110000:
            return CHARF[m](chr(a[0]))
        if None in a:
            return None
        if m in ("max", "min") and len(a) == 2:
            return max(a) if m == "max" else min(a)
        if m in ("bitand", "bitor") and len(a) == 2:
            return a[0] & a[1] if m == "bitand" else a[0] | a[1]
        if m == "not" and len(a) == 1:
            return not a[0] if isinstance(a[0], bool) else ~a[0] % 256
    return None


def ordv(v):
    if isinstance(v, V):
        return v.name
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    return v


def truth(l, env, p=None):
    """can the literal hold under the assumption: True / False, None when not determined"""
    if l[0] == "cmp":
        a, b = val(l[2], env, p), val(l[3], env, p)
        if a is None or b is None:
            return None
        try:
            return CMP[l[1]](ordv(a), ordv(b))
        except TypeError:
            return None
    if l[0] == "b":
        v = val(l[1], env, p)
        return None if v is None else bool(v) == l[2]
    if l[0] == "i":
        v = val(l[1], env, p)
        if v is None or isinstance(v, V):
            return None
        v = int(ordv(v))
        return v not in l[3] if l[2] == "else" else v == l[2]
    if l[0] == "v":
        v = val(l[1], env, p)
        return v.name in l[3] if isinstance(v, V) else None
    return None


def under_env(env, p=None):
    """cut predicate: branches the assumption rules out"""
    return lambda l: truth(l, env, p) is False

