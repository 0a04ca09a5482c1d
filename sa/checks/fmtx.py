"""Texts: format templates, string constants and statics, and what a value renders to under assumptions"""
from checks.assume import *
from graph import Graph

ZERO = 1 << 24


def template(b):
    """pieces of a format template: str, or (argument index, width, precision, flags)"""
    out, i, nxt = [], 0, 0
    u = lambda k: int.from_bytes(b[i:i + k], "little")
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            k = u(2)
            out.append(b[i + 2:i + 2 + k].decode("utf8", "replace"))
            i += 2 + k
        else:
            fl, w, pr = 0x20, None, None
            if n & 1:
                fl = u(4)
                i += 4
            if n & 2:
                w = u(2)
                i += 2
            if n & 4:
                pr = u(2)
                i += 2
            if n & 8:
                nxt = u(2)
                i += 2
            out.append((nxt, None if n & 16 else w, None if n & 32 else pr, fl))
            nxt += 1
    return out


def pieces(e):
    """pieces of a formatted text: str or (kind, value, width, flags); None when e is not a format call"""
    while e[0] == "call" and last(e[1]) in ("format", "must_use", "write_fmt", "write_str") and e[2]:
        e = e[2][-1]
    if e[0] != "call" or "Arguments" not in e[1]:
        return None
    if e[2] and const_str(e[2][0]) is not None:
        return [const_str(e[2][0])]
    if len(e[2]) != 2 or e[2][0][0] != "const" or not isinstance(e[2][0][1], bytes) or e[2][1][0] != "array":
        return None
    args = e[2][1][1]
    out = []
    for x in template(e[2][0][1]):
        if isinstance(x, str):
            out.append(x)
        elif x[0] < len(args) and args[x[0]][0] == "call":
            out.append((last(args[x[0]][1]).replace("new_", ""), args[x[0]][2][0], x[1], x[3]))
        else:
            return None
    return out


def render(e, env, p, token, depth=0):
    """texts a value may be, unknown parts as '?'.  token: expr -> name of a part that is kept symbolic, or None"""
    t = token(e)
    if t is not None:
        return {t}
    if depth > 12:
        return {"?"}
    ps = pieces(e)
    if ps is not None:
        out = {""}
        for x in ps:
            if isinstance(x, str):
                s = {x}
            else:
                kind, a, w, fl = x
                t = token(a)
                if t is not None:
                    s = {t if kind == "display" or kind == "lower_hex" and fl & ZERO and w else t + ":" + kind}
                elif kind == "display" and val(a, env, p) is None:
                    s = render(a, env, p, token, depth + 1)
                else:
                    v = val(a, env, p)
                    s = {spec(v, kind, w, fl)}
            out = {a + b for a in out for b in s}
        return out
    v = val(e, env, p)
    if isinstance(v, str):
        return {v}
    if isinstance(v, int):
        return {str(v)}
    if e[0] == "static":
        s = text(e, p)
        return {"?" if s is None else s}
    if e[0] == "phi":
        return set().union(*(render(a, env, p, token, depth + 1) for a in e[1]))
    if e[0] == "call" and last(e[1]) in ("join", "concat") and e[2] and e[2][0][0] == "array":
        sep = {""} if len(e[2]) < 2 else render(e[2][1], env, p, token, depth + 1)
        out = None
        for x in e[2][0][1]:
            s = render(x, env, p, token, depth + 1)
            out = s if out is None else {a + c + b for a in out for c in sep for b in s}
        return out or {""}
    return {"?"}


def spec(v, kind, w, fl):
    if v is None or isinstance(v, V):
        return "?"
    s = str(v) if kind in ("display", "debug") else "%x" % v if kind == "lower_hex" and isinstance(v, int) else "%X" % v if kind == "upper_hex" and isinstance(v, int) else "?"
    if isinstance(v, bool):
        s = str(v).lower()
    return s.rjust(w or 0, "0" if fl & ZERO or isinstance(v, int) and fl & 0x1fffff == 0x30 else " ") if not isinstance(v, str) else s


def static_value(p, sid):
    """value a static is initialised to, through lazy initialisers"""
    memo = p.__dict__.setdefault("_statics", {})
    if sid not in memo:
        memo[sid] = ("unk", "static")
        f = p.fns.get(sid)
        if f is not None:
            memo[sid] = lazy(Graph(p, f), p)
    return memo[sid]


def lazy(g, p):
    e = g.evp((0, 0, ()), g.exit.i)
    for _ in range(4):
        if e[0] == "call" and e[2] and last(e[1]) in ("new", "from", "into"):
            e = e[2][-1]
        elif e[0] == "closure" and e[1] in p.fns:
            e = Q(Graph(p, p.fns[e[1]])).results()
        elif e[0] == "fn":
            fs = p.byname.get(e[1], [])
            if len(fs) != 1:
                return e
            e = Q(Graph(p, fs[0])).results()
        else:
            break
    return e


def text(e, p):
    """the string constant e is, through statics"""
    s = const_str(e)
    if s is not None:
        return s
    if e[0] == "static":
        v = static_value(p, e[1])
        return text(v, p) if v[0] != "static" else None
    if e[0] == "call" and e[2] and last(e[1]) in SAME + ("to_string",) and len(e[2]) == 1:
        return text(e[2][0], p)
    if e[0] == "phi":
        r = {text(a, p) for a in e[1]}
        return r.pop() if len(r) == 1 else None
    return None


def elements(e, p, depth=0):
    """the elements of a constant sequence (array literal, vec!, static or lazily initialised one); None when unknown"""
    if depth > 8:
        return None
    if e[0] == "array":
        return list(e[1])
    if e[0] == "static":
        return elements(static_value(p, e[1]), p, depth + 1)
    if e[0] == "call" and e[2]:
        for a in reversed(e[2]):
            if a[0] == "clo":
                return elements(a[1], p, depth + 1)
        for a in e[2]:
            r = elements(a, p, depth + 1)
            if r is not None:
                return r
    if e[0] in ("fld", "cast") and e[1][0] != "arg":
        return elements(e[1], p, depth + 1)
    return None


def built(ck, p, adt):
    """(function, fields) of every place that constructs the type"""
    import json
    out = []
    c = adt.split("::")[0]
    for f in p.fns.values():
        if f.crate == c and f.kind == "fn" and not f.derived and '"%s"' % adt in json.dumps(f.d["blocks"] if "blocks" in f.d else f.d):
            g = ck.graph(f)
            q = Q(g)
            for n in q.aggs(adt):
                if n.i in q.ex.by_node and n.fr.fn.id == f.id:
                    out.append((f, dict(part_fields(g.ev_def(n.i, (), 0)))))
    return out
