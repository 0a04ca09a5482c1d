"""Queries over the exploded graph."""
from graph import show, walk


class Q:
    deep = False    # evaluate the arguments of calls path-sensitively, too

    def __init__(self, g, assume=None):
        self.g = g
        self.ex = g.exploded() if assume is None else g.assuming(assume)
        self._lit = {}

    # ---- basics
    def S(self, nodes):
        """states of graph nodes (Node objects or ids)"""
        out = set()
        for n in nodes:
            out.update(self.ex.by_node.get(n if isinstance(n, int) else n.i, []))
        return out

    def lit(self, s, lab):
        k = (s, lab)
        if k not in self._lit:
            self._lit[k] = self.ex.literal(s, lab) if isinstance(lab, tuple) else None
        return self._lit[k]

    def entry(self):
        return set(self.ex.by_node.get(self.g.entry.i, []))

    def exits(self):
        return set(self.ex.by_node.get(self.g.exit.i, []))

    def reach(self, starts, avoid=(), cut=None, back=None, cute=()):
        """states reachable from `starts` (inclusive) without entering `avoid`, nor taking an edge whose literal satisfies cut
        or which is in `cute` (pairs of states)"""
        avoid = avoid if isinstance(avoid, (set, frozenset)) else set(avoid)
        seen = set(s for s in starts if s not in avoid)
        st = list(seen)
        par = back if back is not None else {}
        while st:
            s = st.pop()
            for lab, t in self.ex.succ[s] or []:
                if t in seen or t in avoid or (s, t) in cute:
                    continue
                if cut is not None and isinstance(lab, tuple):
                    l = self.lit(s, lab)
                    if l is not None and cut(l):
                        continue
                seen.add(t)
                par[t] = s
                st.append(t)
        return seen

    def after(self, states):
        """states entered right after the given ones"""
        out = set()
        for s in states:
            for lab, t in self.ex.succ[s] or []:
                out.add(t)
        return out

    def path(self, par, s, n=14):
        out = []
        last = None
        seen = set()
        while s is not None and s not in seen:
            seen.add(s)
            nd = self.g.nodes[self.ex.states[s][0]]
            loc = "%s:%s" % (nd.fr.fn.file.split("/")[-1], nd.line)
            if nd.line and loc != last and nd.k in ("sw", "call", "ret", "inl", "drop"):
                out.append("%s[%s]" % (loc, (nd.d.name.split("::")[-1] if nd.k in ("call", "inl") else nd.k)))
                last = loc
            s = par.get(s)
        out.reverse()
        return " -> ".join(out if len(out) <= 2 * n else out[:n] + ["..."] + out[-n:])

    # ---- rules (return None if it holds, else a witness string)
    def unguarded(self, nodes, pred):
        """a path entry -> node that never establishes a condition satisfying pred"""
        par = {}
        r = self.reach(self.entry(), cut=pred, back=par)
        for s in self.S(nodes):
            if s in r:
                return self.path(par, s)
        return None

    def not_before(self, a, b, cut=None):
        """a path entry -> some b that passes no a"""
        par = {}
        r = self.reach(self.entry(), avoid=self.S(a), back=par, cut=cut)
        for s in self.S(b):
            if s in r:
                return self.path(par, s)
        return None

    def not_after(self, a, b, excuse=None, exits=None):
        """a path from some a to an exit that passes no b (excused by condition edges)"""
        par = {}
        r = self.reach(self.after(self.S(a)), avoid=self.S(b), cut=excuse, back=par)
        ex = self.exits() if exits is None else exits
        for s in ex:
            if s in r:
                return self.path(par, s)
        return None

    def skipped(self, b, excuse=None, start=None, exits=None):
        """a path entry -> exit that passes no b, not excused"""
        par = {}
        r = self.reach(self.entry() if start is None else start, avoid=self.S(b), cut=excuse, back=par)
        ex = self.exits() if exits is None else exits
        for s in ex:
            if s in r:
                return self.path(par, s)
        return None

    def can_follow(self, a, b, avoid=(), cut=None):
        """some b reachable after some a"""
        par = {}
        r = self.reach(self.after(self.S(a)), avoid=self.S(avoid) if avoid else (), cut=cut, back=par)
        for s in self.S(b):
            if s in r:
                return self.path(par, s)
        return None

    def literals(self):
        """all normalised branch conditions: (state, label, literal)"""
        for s, o in enumerate(self.ex.succ):
            for lab, t in o or []:
                if isinstance(lab, tuple):
                    l = self.lit(s, lab)
                    if l is not None:
                        yield s, lab, t, l

    def pv(self, pl, states, within=None, depth=0):
        """path-sensitive value of a place just before the given states, following only states in `within`"""
        from graph import strip, phi, proj_expr
        g = self.g
        c = g.canon(pl)
        P = strip(c[2])
        rel = {}
        for i, qq in g.cdefs.get((c[0], c[1]), []):
            if qq == P[: len(qq)] or P == qq[: len(P)]:
                rel[i] = qq
        memo = self.__dict__.setdefault("_pv", {})
        self.__dict__.setdefault("_keep", []).append(within)  # ids are part of the memo key
        key = (c[0], c[1], P, frozenset(states), id(within))
        if key in memo:
            return memo[key]
        memo[key] = ("unk", "rec")
        if depth > 60:
            return ("unk", "depth")
        seen, st, hits, entry = set(), [], {}, False
        for s in states:
            pr = [x for _, x in self.ex.pred[s]]
            inner = [x for x in pr if within is None or x in within]
            for x in inner or pr:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
            if not pr:
                entry = True
        # the evaluation may leave `within` backwards (values made before the start of the region)
        while st:
            x = st.pop()
            n = self.ex.states[x][0]
            if n in rel:
                hits.setdefault(n, set()).add(x)
                if len(rel[n]) <= len(P):
                    continue
            pr = self.ex.pred[x]
            inner = [y for _, y in pr if within is None or y in within]
            if not inner and within is not None:
                inner = [y for _, y in pr]
            if not pr:
                entry = True
            for y in inner:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        out = []
        for n, ss in hits.items():
            qq = rel[n]
            nd = g.nodes[n]
            if len(qq) > len(P):
                out.append(("part", qq[len(P):], g.ev_def(n, (), 0)))
                continue
            rest = P[len(qq):]
            if nd.k == "as":
                out.append(self._pv_rv(nd, rest, ss, within, depth + 1))
            elif nd.k == "call" and g.is_transparent(nd.d) and nd.d.args and nd.d.args[0][0] == "p":
                p0 = nd.d.args[0][1]
                out.append(self.pv((p0[0], p0[1], p0[2] + rest), ss, within, depth + 1))
            elif nd.k == "call" and nd.d.clo:
                from graph import proj_expr as pe
                args = tuple(g.ev(o, n, 1) for o in nd.d.args)
                for rp, b in nd.d.clo:
                    bs = set(self.ex.by_node.get(b, []))
                    bs = (bs & within if within is not None else bs) or bs
                    args += (("clo", self.pv(rp, bs, within, depth + 1)),) if bs else (("clo", ("never",)),)
                out.append(pe(("call", nd.d.res or nd.d.name, args, n), rest))
            elif nd.k == "call" and self.deep and nd.d.m not in ("next", "next_back", "compare_exchange", "compare_exchange_weak"):
                from graph import proj_expr as pe
                out.append(pe(("call", nd.d.res or nd.d.name, tuple(self._pv_op(o, (), ss, within, depth + 1) for o in nd.d.args), n), rest))
            else:
                out.append(g.ev_def(n, rest, 0))
        if entry or not rel:
            out.append(g.base(c, P, None, 0))
        r = phi(out)
        memo[key] = r
        return r

    def _pv_op(self, o, rest, ss, within, depth):
        from graph import proj_expr
        if o[0] == "k":
            return proj_expr(self.g.ev_const(o), rest)
        p = o[1]
        return self.pv((p[0], p[1], p[2] + rest), ss, within, depth)

    def _pv_rv(self, nd, rest, ss, within, depth):
        rv = nd.d[1]
        if rv[0] in ("use", "cast") and (rv[0] == "use" or not rv[2].startswith(("IntTo", "FloatTo"))):
            return self._pv_op(rv[1], rest, ss, within, depth)
        if rv[0] == "ref":
            p = rv[1]
            return self.pv((p[0], p[1], p[2] + rest), ss, within, depth)
        if rv[0] == "agg":
            a, ops = rv[1], rv[2]
            r = rest
            if r and r[0][0] == "v":
                if a["k"] == "adt" and a.get("v") != r[0][1]:
                    return ("never",)
                r = r[1:]
            if r:
                e = r[0]
                ix = None
                if a["k"] == "adt" and e[0] == "f":
                    ix = a["f"].index(e[1]) if e[1] in a["f"] else None
                elif e[0] == "f":
                    x = e[1].lstrip("^")
                    ix = int(x) if x.isdigit() else None
                if ix is not None and ix < len(ops):
                    return self._pv_op(ops[ix], r[1:], ss, within, depth)
                if ix is None and a["k"] == "adt" and e[0] == "f" and len(r) == 1:
                    return ("fld", self._pv_rv(nd, (), ss, within, depth), e[1])
                return ("unk", "agg-proj")
            vals = tuple(self._pv_op(o, (), ss, within, depth) for o in ops)
            if ("never",) in vals:
                return ("never",)
            if a["k"] == "adt":
                return ("agg", a["p"], a["v"], tuple(zip(a["f"], vals)), nd.i)
            if a["k"] in ("closure", "coroutine"):
                return ("closure", a["d"], vals)
            return (a["k"], vals)
        if rv[0] == "disc" and self.deep and not rest:
            return ("disc", self.pv(rv[1], ss, within, depth), rv[2])
        if rv[0] == "cast" and rv[1][0] != "k":
            return ("cast", self._pv_op(rv[1], rest, ss, within, depth), self.g.p.ty(*rv[3]).s, rv[2])
        if rv[0] == "un" and not rest:
            return ("un", rv[1], self._pv_op(rv[2], (), ss, within, depth))
        if rv[0] == "bin" and (not rest or rest == (("f", "0"),)):
            return ("bin", rv[1].replace("WithOverflow", ""), self._pv_op(rv[2], (), ss, within, depth), self._pv_op(rv[3], (), ss, within, depth))
        return self.g.ev_def(nd.i, rest, 0)

    def result_from(self, starts, cut=None, avoid=()):
        """value returned on the paths that go through one of the start states"""
        r = self.reach(starts, cut=cut, avoid=avoid)
        ex = self.exits() & r
        if not ex:
            return ("never",)
        return self.pv(self.g.result_place, ex, r)

    def results(self):
        """per exit state: alternatives of the returned value -> [(state, expr)] evaluated at each distinct predecessor"""
        return self.g.evp(self.g.result_place, self.g.exit.i)

    def assigns(self, pred):
        """'as' nodes whose rvalue satisfies pred"""
        return [n for n in self.g.nodes if n.k == "as" and self.g.live[n.i] and n.i in self.ex.by_node and pred(n.d[1])]

    def aggs(self, adt_suffix, variant=None):
        """aggregate constructions of an ADT"""
        def ok(rv):
            return rv[0] == "agg" and rv[1]["k"] == "adt" and (rv[1]["p"] == adt_suffix or rv[1]["p"].endswith("::" + adt_suffix)) and (variant is None or rv[1]["v"] == variant)
        return self.assigns(ok)

    def calls(self, pred):
        return [n for n in self.g.calls(pred) if n.i in self.ex.by_node]


# ---- expression helpers
def subs(e):
    return walk(e)


def is_fld(e, name):
    return e[0] == "fld" and e[2] == name


def has(e, pred):
    return any(pred(x) for x in walk(e))


def call_last(e):
    return e[1].split("::")[-1] if e[0] == "call" else None


def has_call(e, name):
    return any(x[0] == "call" and (x[1] == name or x[1].endswith(name)) for x in walk(e))


def has_fld(e, name):
    return any(x[0] == "fld" and x[2] == name for x in walk(e))


def has_const(e, v):
    return any(x[0] == "const" and x[1] == v and type(x[1]) == type(v) for x in walk(e))


def alts(e):
    return list(e[1]) if e[0] == "phi" else [e]


def leaves(e):
    """maximal access paths / constants / opaque sources an expression is built from"""
    out = set()
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        k = x[0]
        if k in ("fld", "var", "elem"):
            p = path_of(x)
            if p is not None:
                out.add(p)
            else:
                st.append(x[1])
        elif k == "arg":
            out.add("arg%d" % x[1])
        elif k == "static":
            out.add("static " + x[1])
        elif k == "const":
            out.add("const " + str(x[1]))
        elif k == "call":
            st.extend(x[2])
            if not x[2]:
                out.add("call " + x[1])
        elif k == "agg":
            st.extend(v for _, v in x[3])
            if not x[3]:
                out.add("variant %s::%s" % (x[1], x[2]))
        elif k in ("tuple", "array"):
            st.extend(x[1])
        elif k == "closure":
            st.extend(x[2])
        elif k == "bin":
            st.extend((x[2], x[3]))
        elif k == "un":
            st.append(x[2])
        elif k == "phi":
            st.extend(x[1])
        elif k in ("cast", "disc", "rep", "clo"):
            st.append(x[1])
        elif k == "part":
            st.append(x[2])
        elif k == "fn":
            out.add("fn " + x[1])
        else:
            out.add(str(x)[:80])
    return out


def path_of(e):
    """arg0.a.b[] as text if the expression is a pure access path from an entry argument or static"""
    parts = []
    while True:
        if e[0] == "fld":
            parts.append("." + e[2])
            e = e[1]
        elif e[0] == "elem":
            parts.append("[]")
            e = e[1]
        elif e[0] == "var":
            e = e[1]
        elif e[0] == "arg":
            parts.append("arg%d" % e[1])
            break
        elif e[0] == "static":
            parts.append(e[1].split("::")[-1])
            break
        elif e[0] == "cast":
            e = e[1]
        else:
            return None
    return "".join(reversed(parts))


_nm = {}


def nth(e):
    """(sequence, constant index) of an indexing expression, however it is written"""
    if e[0] == "elem" and len(e) > 2 and isinstance(e[2], tuple) and e[2][0] == "ci" and e[2][1] >= 0:
        return e[1], e[2][1]
    if e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and e[1][1].split("::")[-1] == "get":
        e = e[1]
    elif e[0] != "call" or not e[1].endswith("Index>::index") and not e[1].endswith("Index::index"):
        return None, None
    if len(e[2]) == 2 and e[2][1][0] == "const" and isinstance(e[2][1][1], int) and not isinstance(e[2][1][1], bool):
        return e[2][0], e[2][1][1]
    return None, None


def norm(e, d=0):
    """expression without node identities (comparable across graphs)"""
    if not isinstance(e, tuple):
        return e
    if d > 40:
        return ("…",)
    k = e[0] if e else None
    if k in ("call", "fld", "elem"):
        b, i = nth(e)
        if b is not None:
            return ("nth", norm(b, d + 1), i)
    if k == "call":
        return ("call", e[1], tuple(norm(x, d + 1) for x in e[2]))
    if k == "agg":
        return ("agg", e[1], e[2], tuple((n, norm(v, d + 1)) for n, v in e[3]))
    if k == "phi":
        return ("phi", tuple(sorted((norm(x, d + 1) for x in e[1]), key=repr)))
    if k == "const":
        return e[:2]
    return tuple(norm(x, d + 1) if isinstance(x, tuple) else x for x in e)


def edges(q, pred):
    """target states of branch edges whose literal satisfies pred"""
    return {t for s, lab, t, l in q.literals() if pred(l)}


def edge_pairs(q, pred):
    """(source, target) state pairs of branch edges whose literal satisfies pred"""
    return {(s, t) for s, lab, t, l in q.literals() if pred(l)}


def named(*suffixes):
    """call predicate: the called item's (or the resolved impl's) name ends with one of suffixes"""
    def p(c):
        return any(n is not None and (n == s or n.endswith("::" + s) or (s.startswith("<") and n.endswith(s))) for n in (c.name, c.res) for s in suffixes)
    return p


def method_of(trait, *items):
    def p(c):
        return c.tr is not None and (c.tr == trait or c.tr.endswith("::" + trait)) and (not items or c.m in items)
    return p
