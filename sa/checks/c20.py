"""C20: where the OTLP exporters take their configuration from"""
import itertools
from checks.assume import *
from checks.fmtx import render, pieces, text
from checks.c15 import bare

TITLE = "The OTLP exporters are configured by code first, then signal variables, then general ones, then defaults"
FLOOR = 1400
SIGNALS = [("traces", "opentelemetry_otlp::span::SpanExporterBuilder"), ("logs", "opentelemetry_otlp::logs::LogExporterBuilder"), ("metrics", "opentelemetry_otlp::metric::MetricExporterBuilder")]
PRE = "OTEL_EXPORTER_OTLP_"
DEFAULT = {"http": "http://localhost:4318", "tonic": "http://localhost:4317"}
PARSE = ("parse", "from_str", "try_from", "from_shared", "from_maybe_shared", "from_static")
OPAQUE = ("parse_header_string",)


def var_of(e):
    """the environment variable whose text an expression is"""
    e = strip_cast(e)
    while e[0] == "call" and e[2] and last(e[1]) in SAME and last(e[1]) != "clone_from":
        e = strip_cast(e[2][0])
    if e[0] == "fld" and e[2] in ("Ok.0", "Some.0") and e[1][0] == "call":
        c = e[1]
        while last(c[1]) == "ok" and c[2]:
            c = c[2][0]
        if last(c[1]) in ("var", "var_os") and "env" in c[1]:
            return const_str(c[2][0])
    return None


def conf(e):
    """(field, projection) of a part of the exporter configuration"""
    n = norm(e)
    pr = []
    while n[0] in ("fld", "cast"):
        if n[0] == "fld" and n[2] in ("endpoint", "timeout") and n[1][0] == "fld" and n[1][2] == "exporter_config":
            return n[2], tuple(reversed(pr))
        if n[0] == "fld" and n[2] in ("client", "headers") and n[1][0] == "fld" and n[1][2] == "http_config":
            return n[2], tuple(reversed(pr))
        if n[0] == "fld" and n[2] in ("metadata", "tls_config", "compression", "channel", "interceptor") and n[1][0] == "fld" and n[1][2] == "tonic_config":
            return n[2], tuple(reversed(pr))
        if n[0] == "fld":
            pr.append(n[2])
        n = n[1]
    return None, ()


class Case:
    """what is configured: conf {field: None | "good" | "bad" | variant}, envs {variable: None | "good" | "bad" | variant}, slash: texts end in a slash"""

    def __init__(self, p, conf=(), envs=(), slash=False):
        self.p, self.conf, self.envs, self.slash = p, dict(conf), dict(envs), slash
        self.known = {}     # outcomes of calls

    def source(self, e):
        """(name, state) of the configured text an expression is"""
        v = var_of(e)
        if v is not None:
            return v, self.envs.get(v)
        x = strip_cast(e)
        while x[0] == "call" and x[2] and last(x[1]) in SAME:
            x = strip_cast(x[2][0])
        f, pr = conf(x)
        if f and pr == ("Some.0",):
            return "set:" + f, self.conf.get(f)
        return None, None

    def prune(self, e):
        """without the alternatives that cannot arise"""
        if e[0] == "phi":
            xs = [self.prune(a) for a in e[1] if self.possible(a)]
            return xs[0] if len(xs) == 1 else ("phi", tuple(xs)) if xs else e
        if e[0] == "call":
            return e[:2] + (tuple(self.prune(a) for a in e[2]),) + e[3:]
        if e[0] in ("fld", "cast"):
            return e[:1] + (self.prune(e[1]),) + e[2:]
        return e

    def token(self, e):
        n, st = self.source(e)
        return "<%s>%s" % (n, "/" if self.slash else "") if n else None

    def text(self, e):
        return render(self.prune(e), self.env, self.p, self.token)

    def good(self, e):
        """does a text parse?"""
        for t in self.text(e):
            m = re.match(r"<([^>]*)>", t)
            if m is None:
                return "?" not in t
            n = m.group(1)
            return (self.conf.get(n[4:]) if n.startswith("set:") else self.envs.get(n)) != "bad"

    def possible(self, e):
        """may the value arise in this case?"""
        if e[0] == "phi":
            return any(self.possible(a) for a in e[1])
        if e[0] == "fld":
            v = var_of(e)
            if v is not None and v in self.envs and self.envs[v] is None:
                return False
            f, pr = conf(e)
            if f and pr[:1] == ("Some.0",) and self.conf.get(f) is None:
                return False
            if e[1][0] == "call" and e[2] in ("Ok.0", "Err.0"):
                v = val(e[1], self.env, self.p)
                if isinstance(v, V) and v.name != e[2][:-2]:
                    return False
            return self.possible(e[1])
        if e[0] == "cast":
            return self.possible(e[1])
        if e[0] == "call" or e[0] == "tuple":
            return all(self.possible(a) for a in e[2 if e[0] == "call" else 1])
        if e[0] == "agg":
            return all(self.possible(a) for _, a in e[3])
        return True

    def env(self, e):
        if e[0] == "phi":
            r = {val(a, self.env, self.p) for a in e[1] if self.possible(a)}
            return r.pop() if len(r) == 1 else None
        if e[0] == "call":
            if e[-1] in self.known:
                return self.known[e[-1]]
            m = last(e[1])
            if m in ("var", "var_os") and "env" in e[1] and e[2]:
                v = const_str(e[2][0])
                return V("Err" if self.envs.get(v) is None else "Ok") if v else None
            if m in PARSE and e[2] and "TryInto" not in e[1]:
                n, st = self.source(self.prune(e[2][0]))
                if n is not None:
                    return V("Err") if st == "bad" else V("Ok")
                ts = self.text(e[2][0])
                if ts and not any("?" in t for t in ts):
                    g = {self.good(e[2][0])}
                    return V("Ok") if g == {True} else V("Err")
                return None
            if m == "tls_config":
                return V("Err" if self.conf.get("tls_config") == "bad" else "Ok")
            if m == "try_into" or m == "try_from":
                return V("Ok")
            if m in ("ends_with", "starts_with", "strip_prefix", "strip_suffix") and len(e[2]) == 2:
                t = val(e[2][1], self.env, self.p)
                t = chr(t) if isinstance(t, int) and not isinstance(t, bool) else t
                ts = self.text(e[2][0])
                if isinstance(t, str) and not any("?" in x for x in ts):
                    r = {(x.endswith(t) if m in ("ends_with", "strip_suffix") else x.startswith(t)) for x in ts}
                    if len(r) == 1:
                        r = r.pop()
                        return r if m.endswith("with") else V("Some" if r else "None")
            return None
        if e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and last(e[1][1]) in ("strip_prefix", "strip_suffix"):
            t = val(e[1][2][1], self.env, self.p)
            t = chr(t) if isinstance(t, int) and not isinstance(t, bool) else t
            ts = self.text(e[1][2][0])
            if isinstance(t, str) and len(ts) == 1:
                s = list(ts)[0]
                if last(e[1][1]) == "strip_suffix" and s.endswith(t):
                    return s[:len(s) - len(t)]
                if last(e[1][1]) == "strip_prefix" and s.startswith(t):
                    return s[len(t):]
            return None
        if e[0] in ("fld", "cast"):
            f, pr = conf(e)
            if f and pr == ():
                return V("None" if self.conf.get(f) is None else "Some")
            if f == "compression" and pr == ("Some.0",):
                return V(self.conf["compression"]) if self.conf.get(f) else None
            n, st = (None, None)
            if e[0] == "fld" and e[2] == "Ok.0" and e[1][0] == "call" and last(e[1][1]) in PARSE:
                n, st = self.source(e[1][2][0])
                if st in ("Gzip", "Zstd"):
                    return V(st)
        return None

    def cut(self):
        c = under_env(self.env, self.p)
        memo = {}

        def f(l):
            k = repr(l)
            if k not in memo:
                memo[k] = c(l)
            return memo[k]
        return f

    def __str__(self):
        a = ["%s set%s" % (k, "" if v == "good" else " (%s)" % v) for k, v in self.conf.items() if v] + ["%s=%s" % (k, v) for k, v in self.envs.items() if v]
        return (", ".join(a) or "nothing set") + (", trailing slash" if self.slash else "")


def failing(q, C, cute=()):
    """None when every result in this case is an error, else a witness"""
    r = q.reach(q.entry(), cut=C, cute=cute)
    ex = q.exits() & r
    if not ex:
        return None
    for a in flat(q.pv(q.g.result_place, ex, r)):
        if not (a[0] == "never" or a[0] == "agg" and a[2] == "Err"):
            return show_(a)
    return None


def delivers(q, C):
    """some path of this case succeeds, and none fails"""
    r = q.reach(q.entry(), cut=C)
    ex = q.exits() & r
    if not ex:
        return "there is no result"
    for a in flat(q.pv(q.g.result_place, ex, r)):
        if a[0] == "agg" and a[2] == "Err":
            return show_(a)
    return None


def infeasible(q, C, env, p):
    """edges of the graph that are not taken in this case because of the value that reaches the branch"""
    g = q.g
    r = q.reach(q.entry(), cut=C)
    out = set()
    for s, lab, t, l in q.literals():
        if s not in r or l[0] not in ("v", "b") or not isinstance(lab[1], int):
            continue
        nd = g.nodes[lab[1]]
        if nd.k == "as" and nd.d[1][0] == "disc":
            e = q.pv(nd.d[1][1], {s}, r)
        elif nd.k == "call" and nd.d.args and last(nd.d.name) in ("is_some", "is_none"):
            e = ("call", nd.d.name, (opnd(q, nd, nd.d.args[0], cut=C),), nd.i)
        else:
            continue
        vs = {val(x, env, p) for x in flat(e)} if l[0] == "v" else {val(e, env, p)}
        if l[0] == "v" and all(isinstance(v, V) for v in vs) and not {v.name for v in vs} & set(l[3]):
            out.add((s, t))
        if l[0] == "b" and vs <= {True, False} and l[2] not in vs:
            out.add((s, t))
    return out


def parsed(e):
    """the text a parsed value was parsed from"""
    e = strip_cast(e)
    if e[0] == "fld" and e[2] in ("Ok.0", "Some.0") and e[1][0] == "call":
        c = e[1]
        while last(c[1]) == "ok" and c[2]:
            c = c[2][0]
        if last(c[1]) in PARSE and len(c[2]) == 1:
            return c[2][0]
    if e[0] == "call" and last(e[1]) == "from_static":
        return e[2][0]
    return None


def check_timeout(ck, tag, e, case, want, loc_, spread=False):
    """want: ("set",) | ("ms", variable) | ("default",)"""
    for a in flat(e):
        a = strip_cast(a)
        if want[0] == "set":
            ok = conf(a) == ("timeout", ("Some.0",))
        elif want[0] == "ms":
            ok = a[0] == "call" and last(a[1]) == "from_millis" and parsed(a[2][0]) is not None and var_of(parsed(a[2][0])) == want[1]
        else:
            ok = millis(a) == 10000
        ck.ob("%s:timeout:%s" % (tag, case), ok, "the timeout is %s" % show_(a)[:200], loc_)


def millis(a):
    """milliseconds of a constant duration"""
    if a[0] == "call" and last(a[1]) in ("from_millis", "from_secs") and a[2] and intval(a[2][0]) is not None:
        return intval(a[2][0]) * (1 if last(a[1]) == "from_millis" else 1000)
    if a[0] == "const":
        m = re.search(r"secs: (\d+)(?:_?u64)?, nanos: [^(]*\(?(\d+)", str(a[1]))
        if m:
            return int(m.group(1)) * 1000 + int(m.group(2)) / 1e6
        m = re.match(r"^(\d+(?:\.\d+)?)(s|ms)$", str(a[1]))
        if m:
            return float(m.group(1)) * (1000 if m.group(2) == "s" else 1)
    return None


STATES = (None, "bad", "good")


def endpoint_cases(p, sig, kind):
    S, G = PRE + sig.upper() + "_ENDPOINT", PRE + "ENDPOINT"
    path = "/v1/" + sig
    for s, a, b, sl in itertools.product(STATES, STATES, STATES, (False, True)):
        base = {"client": "good", "metadata": "good", "headers": "good"}
        c = Case(p, dict(base, endpoint=s), {S: a, G: b}, sl)
        t = "/" if sl else ""
        if kind == "http":
            want = (None if s == "bad" else "<set:endpoint>" + t) if s else "<%s>%s" % (S, t) if a == "good" else "<%s>%s" % (G, path) if b == "good" else DEFAULT[kind] + path
        else:
            st, n = (s, "set:endpoint") if s else (a, S) if a else (b, G) if b else ("good", None)
            want = None if st == "bad" else "<%s>%s" % (n, t) if n else DEFAULT[kind]
        yield c, want


def check_endpoint(ck, tag, q, p, sig, kind, node, op, rest=()):
    g = q.g
    for c, want in endpoint_cases(p, sig, kind):
        if kind == "tonic":
            c.known[node.i] = V("Ok" if want else "Err")
        C = c.cut()
        if want is None:
            w = failing(q, C)
            ck.ob("%s:endpoint:%s" % (tag, c), w is None, "an exporter is built although the endpoint is unusable: %s" % w, g.loc(node.i))
            continue
        e = opnd(q, node, op, cut=C, rest=rest)
        got = set()
        for a in flat(e):
            t = parsed(a) if kind == "http" else a
            got |= {"?" + show_(a)[:160]} if t is None else c.text(t)
        ck.ob("%s:endpoint:%s" % (tag, c), got == {want}, "the endpoint is %s, not %s" % (sorted(got), want), g.loc(node.i))
        w = delivers(q, C)
        ck.ob("%s:usable:%s" % (tag, c), w is None, "building fails although %s is a usable endpoint: %s" % (want, w), g.loc(node.i))


def check_timeouts(ck, tag, q, p, sig, node, op):
    S, G = PRE + sig.upper() + "_TIMEOUT", PRE + "TIMEOUT"
    for s, a, b in itertools.product((None, "good"), STATES, STATES):
        c = Case(p, {"client": "good", "timeout": s, "endpoint": "good", "metadata": "good", "headers": "good"}, {S: a, G: b})
        want = ("set",) if s else ("ms", S) if a == "good" else ("ms", G) if b == "good" else ("default",)
        check_timeout(ck, tag, opnd(q, node, op, cut=c.cut()), c, want, q.g.loc(node.i))


def strip_to(e):
    e = strip_cast(e)
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in SAME:
        e = strip_cast(e[2][0])
    return e


THIN = ("filter", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "nth", "last", "find", "position")
VALID = ("from_str", "try_from", "from_bytes", "try_into", "parse")


def validated(e):
    """what a validated header name or value was made from"""
    e = strip_cast(e)
    if e[0] == "fld" and e[2] in ("Ok.0", "Some.0") and e[1][0] == "call":
        c = e[1]
        while last(c[1]) == "ok" and c[2]:
            c = c[2][0]
        if last(c[1]) in VALID and c[2]:
            return bare(norm(strip_to(c[2][0])))
    return None


def is_pair(a, k, box):
    return all(validated(x) == ("fld", ("elem", box), k) for x in flat(a))


def kept(q, C, box):
    """None if every valid pair of the container gets through (into the closure's result, or into a map), else why not"""
    g = q.g
    r = q.reach(q.entry(), cut=C)
    for n in q.calls(lambda c: c.clo and last(c.name) in ("filter_map", "flat_map")):
        if bare(norm(g.ev(n.d.args[0], n.i))) != box:
            continue
        for pl, b in n.d.clo:
            ss = set(q.ex.by_node.get(b, [])) & r
            for a in flat(q.pv(pl, ss, r)) if ss else []:
                if a == ("never",):
                    continue
                if a[0] != "agg" or a[2] != "Some":
                    return "it becomes %s" % show_(a)[:120]
                t = a[3][0][1]
                if t[0] != "tuple" or len(t[1]) != 2 or not is_pair(t[1][0], "0", box) or not is_pair(t[1][1], "1", box):
                    return "it becomes %s" % show_(t)[:160]
        return None
    puts = []
    for n in q.calls(lambda c: last(c.name) in ("insert", "append") and len(c.args) == 3):
        if q.S([n]) & r and is_pair(opnd(q, n, n.d.args[1], cut=C), "0", box) and is_pair(opnd(q, n, n.d.args[2], cut=C), "1", box):
            puts.append(n)
    if not puts:
        return "it goes nowhere"
    return forall(q, q.entry(), puts, exits=q.exits(), B={box}, cut=C)


def check_headers(ck, tag, q, p, sig, kind, final, value):
    """every usable pair of the configured headers, and then every usable pair of the variable, ends up in the headers that are sent"""
    g = q.g
    S, G = PRE + sig.upper() + "_HEADERS", PRE + "HEADERS"
    at = g.loc(final.i)
    mine = "headers" if kind == "http" else "metadata"
    own = lambda e: has(e, lambda x: conf(x) == (mine, ("Some.0",)))
    from_text = lambda e: has(e, lambda x: x[0] == "call" and last(x[1]) == "parse_header_string")
    for a, b in itertools.product((None, "good"), (None, "good")):
        c = Case(p, {"client": "good", "endpoint": "good", "timeout": "good", mine: "good"}, {S: a, G: b})
        want = S if a else G if b else None

        def env(e, c=c):
            if e[0] == "call" and e[2]:
                if last(e[1]) == "is_empty" and ("HeaderMap" in e[1] or "HashMap" in e[1]):
                    return False
                if last(e[1]) in VALID:
                    x = bare(strip_to(e[2][0]))
                    if x[0] == "fld" and x[1][0] == "elem":
                        return V("Ok")
            return c.env(e)
        C = under_env(env, p)
        r = q.reach(q.entry(), cut=C)
        srcs, boxes = set(), set()
        for n in q.calls(lambda c: last(c.name) == "parse_header_string"):
            if q.S([n]) & r:
                srcs |= {var_of(x) for x in flat(opnd(q, n, n.d.args[0], cut=C))}
                boxes.add(bare(norm(g.ev_def(n.i, (), 0))))
        ck.ob("%s:headers:%s:from" % (tag, c), srcs == ({want} if want else set()), "the headers are taken from %s, not %s" % (sorted(map(str, srcs)), want), at)
        if want:
            sinks = [n for n in q.calls(lambda c: last(c.name) in ("extend", "insert", "append", "chain") and len(c.args) >= 2)
                     if q.S([n]) & r and own(g.ev(n.d.args[0], n.i)) and any(from_text(g.ev(x, n.i)) for x in n.d.args[1:])]
            loops = [n for n in q.calls(lambda c: c.m == "next" and c.args) if bare(norm(g.ev(n.d.args[0], n.i))) in boxes]
            miss = q.reach(q.entry(), avoid=q.S(sinks) | q.S(loops), cut=C) & q.S([final])
            ck.ob("%s:headers:%s:merged" % (tag, c), bool(sinks) and not miss, "the headers of %s may not be added to the configured ones" % want, at)
            for n in sinks:
                bad = [last(x[1]) for y in n.d.args for x in walk(g.ev(y, n.i)) if x[0] == "call" and last(x[1]) in THIN]
                ck.ob("%s:headers:%s:all" % (tag, c), not bad, "headers go through %s" % ", ".join(bad), g.loc(n.i))
            for box in sorted(boxes, key=repr):
                w = kept(q, C, box)
                ck.ob("%s:headers:%s:kept" % (tag, c), w is None, "a valid header of the variable is not sent: %s" % w, at)
        e = value(C)
        ck.ob("%s:headers:%s:own" % (tag, c), e != ("never",) and all(own(x) for x in flat(e)), "the headers sent are %s" % show_(e)[:200], at)
        if kind == "http":
            bx = set()
            for n in q.calls(lambda c: c.args and (c.clo or c.m == "next")):
                e = g.ev(n.d.args[0], n.i)
                if own(e) and not from_text(e):
                    e = bare(norm(strip_to(e)))
                    if e[0] in ("phi", "fld"):
                        bx.add(e)
            ck.ob("%s:headers:%s:own-box" % (tag, c), len(bx) == 1, "the configured headers are not gone through once", at)
            for box in bx:
                w = kept(q, C, box)
                ck.ob("%s:headers:%s:own-kept" % (tag, c), w is None, "a valid configured header is not sent: %s" % w, at)


def http(ck, p, sig, f):
    q = Q(ck.graph(f, opaque=lambda fn: fn.item in OPAQUE))
    q.deep = True
    g, tag = q.g, "http:" + sig
    ns = q.aggs("OtlpHttpClient")
    ck.ob(tag + ":client", len(ns) == 1, "%d clients are made" % len(ns), loc(f))
    for n in ns[:1]:
        fs = n.d[1][1]["f"]
        op = lambda x: n.d[1][2][fs.index(x)]
        check_endpoint(ck, tag, q, p, sig, "http", n, op("collector_endpoint"))
        check_timeouts(ck, tag, q, p, sig, n, op("_timeout"))
        check_headers(ck, tag, q, p, sig, "http", n, lambda C: opnd(q, n, op("headers"), cut=C))
        c = Case(p, {"client": "good", "endpoint": "good", "headers": "good"})
        e = opnd(q, n, op("client"), cut=c.cut())
        ck.ob(tag + ":http-client", has(norm(e), lambda x: conf(x) == ("client", ("Some.0",))), "the client used is %s" % show_(e)[:200], g.loc(n.i))
        e = norm(opnd(q, n, op("protocol")))
        ck.ob(tag + ":protocol", all(x[0] == "fld" and x[2] == "protocol" and x[1][0] == "fld" and x[1][2] == "exporter_config" for x in flat(e)), "the protocol is %s" % show_(e)[:200], g.loc(n.i))


def tonic(ck, p, sig, f):
    q = Q(ck.graph(f, opaque=lambda fn: fn.item in OPAQUE))
    q.deep = True
    g, tag = q.g, "tonic:" + sig
    news = [n for n in q.calls(lambda c: last(c.name) == "new" and (c.name.endswith("Grpc::new") or "ServiceClient" in c.name) and c.args)]
    ck.ob(tag + ":client", len(news) == 1, "%d clients are made" % len(news), loc(f))
    es = q.calls(lambda c: last(c.name) in ("from_shared", "from_static") and c.args)
    ck.ob(tag + ":endpoint", len(es) == 1, "%d places make an endpoint" % len(es), loc(f))
    for n in es[:1]:
        check_endpoint(ck, tag, q, p, sig, "tonic", n, n.d.args[0])
    ts = q.calls(lambda c: last(c.name) == "timeout" and "Endpoint" in c.name)
    ck.ob(tag + ":timeout", len(ts) == 1, "%d places set the timeout" % len(ts), loc(f))
    for n in ts:
        check_timeouts(ck, tag, q, p, sig, n, n.d.args[1])
    good = {"endpoint": "good", "metadata": "good"}
    for n in news:
        # the connection
        for tls, ch in itertools.product((None, "good"), (None, "good")):
            c = Case(p, dict(good, tls_config=tls, channel=ch))
            e = opnd(q, n, n.d.args[0], cut=c.cut())
            for a in flat(e):
                if ch:
                    ok = conf(a) == ("channel", ("Some.0",))
                else:
                    x, seen = a, []
                    while x[0] in ("call", "fld", "cast") and (x[0] != "call" or x[2]):
                        if x[0] == "call":
                            seen.append(last(x[1]))
                            if last(x[1]) == "from_shared":
                                break
                            if last(x[1]) == "tls_config" and not (len(x[2]) == 2 and conf(x[2][1]) == ("tls_config", ("Some.0",))):
                                seen.append("?")
                            x = x[2][0]
                        else:
                            x = x[1]
                    ok = sorted(seen) == sorted(["connect_lazy", "timeout", "from_shared"] + (["tls_config"] if tls else []))
                ck.ob("%s:channel:%s" % (tag, c), ok, "the connection is %s" % show_(a)[:250], g.loc(n.i))
        c = Case(p, dict(good, tls_config="bad"))
        C = c.cut()
        w = failing(q, C, infeasible(q, C, c.env, p))
        ck.ob("%s:channel:%s" % (tag, c), w is None, "an exporter is built although the security settings are unusable: %s" % w, g.loc(n.i))
        # compression
        S, G = PRE + sig.upper() + "_COMPRESSION", PRE + "COMPRESSION"
        comp = q.calls(lambda c: last(c.name) in ("send_compressed", "accept_compressed"))
        for s, a, b in itertools.product((None, "Gzip", "Zstd"), (None, "bad", "Gzip", "Zstd"), (None, "bad", "Gzip", "Zstd")):
            c = Case(p, dict(good, compression=s, channel="good"), {S: a, G: b})
            C = c.cut()
            want = s or a or b
            if want == "bad":
                w = failing(q, C)
                ck.ob("%s:compression:%s" % (tag, c), w is None, "an exporter is built although the compression is unknown: %s" % w, g.loc(n.i))
                continue
            w = delivers(q, C)
            ck.ob("%s:compression:%s:usable" % (tag, c), w is None, "building fails: %s" % w, g.loc(n.i))
            r = q.reach(q.entry(), cut=C)
            on = [x for x in comp if q.S([x]) & r]
            got = {last(x.d.name) for x in on}
            ck.ob("%s:compression:%s" % (tag, c), got == ({"send_compressed", "accept_compressed"} if want else set()), "compression is switched on by %s" % sorted(got), g.loc(n.i))
            for x in on:
                vs = set()
                for y in flat(opnd(q, x, x.d.args[1], cut=C)):
                    z = strip_cast(y)
                    while z[0] == "fld" and z[2] == "Ok.0" and z[1][0] == "call" and last(z[1][1]) in ("try_into", "try_from"):
                        z = strip_to(z[1][2][0])
                    v = val(z, c.env, p)
                    vs.add(v.name if isinstance(v, V) else show_(y)[:120])
                ck.ob("%s:compression:%s:%s" % (tag, c, last(x.d.name)), vs == {want}, "the compression is %s" % sorted(vs), g.loc(x.i))
            if on:
                cute = infeasible(q, C, c.env, p)
                miss = [x for x in ("send_compressed", "accept_compressed") if q.reach(q.after(q.S(news) & r), cut=C, cute=cute, avoid=q.S([y for y in on if last(y.d.name) == x])) & q.exits()]
                ck.ob("%s:compression:%s:always" % (tag, c), not miss, "may be left out: %s" % miss, g.loc(n.i))
        # metadata
        its = q.calls(lambda c: last(c.name) == "iter" and "MetadataMap" in c.name)
        ck.ob(tag + ":metadata-read", bool(its), "no interceptor adds the metadata", loc(f))

        def value(C):
            r = q.reach(q.entry(), cut=C)
            es = [opnd(q, x, x.d.args[0], cut=C) for x in its if q.S([x]) & r]
            return ("phi", tuple(y for e in es for y in flat(e))) if es else ("never",)
        check_headers(ck, tag, q, p, sig, "tonic", n, value)
        interceptor(ck, tag, q, p, n)


def own_meta(e):
    return has(e, lambda x: conf(x)[0] == "metadata")


def is_req(e):
    e = strip_cast(e)
    return bare(norm(e)) in (("elem", ("unk", "elem")), ("unk", "elem")) or e[0] == "fld" and e[2] == "Ok.0" and is_req(e[1])


def interceptor(ck, tag, q, p, new):
    """the interceptor adds every piece of the metadata to the request it returns, and then runs the given interceptor"""
    g = q.g
    REQ = ("elem", ("unk", "elem"))
    for own in (None, "good"):
        c = Case(p, {"endpoint": "good", "metadata": "good", "interceptor": own})
        C0 = c.cut()
        r = q.reach(q.entry(), cut=C0)
        boxes = [n for n in q.calls(lambda c: last(c.name) == "new" and "Box" in c.name and c.clo) if q.S([n]) & r]
        ck.ob("%s:interceptor:%s" % (tag, c), len(boxes) == 1, "%d interceptors are made" % len(boxes), g.loc(new.i))
        for n in boxes:
            start = {t for s in q.S([n]) for lab, t in q.ex.succ[s] or [] if lab == "closure"}
            ends = set().union(*(set(q.ex.by_node.get(b, [])) for _, b in n.d.clo))
            for kind, put in (("Ascii", "append"), ("Binary", "append_bin")):
                def env(e, kind=kind):
                    if e[0] == "elem" and own_meta(e):
                        return V(kind)
                    return c.env(e)
                C = under_env(env, p)
                puts = []
                for x in q.calls(lambda c: last(c.name) in (put, put.replace("append", "insert")) and len(c.args) == 3):
                    a = [bare(norm(g.ev(y, x.i))) for y in x.d.args]
                    if all(y[0] == "fld" and y[2] == "%s.%d" % (kind, i) and y[1][0] == "elem" and own_meta(y) for i, y in enumerate(a[1:])) and has(a[0], lambda y: y in (REQ, ("unk", "elem"))):
                        puts.append(x)
                rr = q.reach(start, cut=C, avoid=ends)
                lits = [(s, t, l) for s, lab, t, l in q.literals() if l[0] == "v" and l[1][0] == "call" and last(l[1][1]) == "next" and own_meta(l[1]) and s in rr]
                heads = {s for s, t, l in lits}
                some_ = {t for s, t, l in lits if l[3] == ("Some",)}
                none_ = {(s, t) for s, t, l in lits if l[3] == ("None",)}
                skip = q.reach(some_, cut=C, avoid=q.S(puts)) & (heads | ends)
                around = q.reach(start, cut=C, cute=none_) & ends
                thin = [last(x[1]) for s, t, l in lits for x in walk(l[1]) if x[0] == "call" and last(x[1]) in THIN]
                ck.ob("%s:interceptor:%s:%s" % (tag, c, kind), bool(heads and puts) and not skip and not around and not thin, "a piece of %s metadata may not be added to the request" % kind, g.loc(n.i))
            for pl, b in n.d.clo:
                ss = set(q.ex.by_node.get(b, [])) & r
                for a in flat(q.pv(pl, ss, r)) if ss else [("never",)]:
                    if own:
                        ok = a[0] == "call" and last(a[1]) == "call" and "Interceptor" in a[1] and len(a[2]) == 2 and conf(a[2][0])[0] == "interceptor" and is_req(a[2][1])
                        ok = ok or a[0] == "agg" and a[2] == "Err"
                    else:
                        ok = a[0] == "agg" and a[2] == "Ok" and is_req(a[3][0][1])
                    ck.ob("%s:interceptor:%s:result" % (tag, c), ok, "the interceptor returns %s" % show_(a)[:200], g.loc(n.i))


# -- the builders ------------------------------------------------------------------------------------------------

SETTERS = [
    ("WithExportConfig", "export_config", {"with_endpoint": {"endpoint": ("some", 1)}, "with_protocol": {"protocol": ("is", 1)}, "with_timeout": {"timeout": ("some", 1)},
                                           "with_export_config": {k: ("of", 1, k) for k in ("endpoint", "protocol", "timeout")}}),
    ("WithHttpConfig", "http_client_config", {"with_http_client": {"client": ("some", 1)}, "with_headers": None}),
    ("WithTonicConfig", "tonic_config", {"with_tls_config": {"tls_config": ("some", 1)}, "with_compression": {"compression": ("some", 1)}, "with_channel": {"channel": ("some", 1)},
                                         "with_interceptor": {"interceptor": ("some", 1)}, "with_metadata": None}),
]


def inner(e):
    """through boxes, newtypes and reference counts"""
    e = strip_cast(e)
    while e[0] == "call" and len(e[2]) == 1 and last(e[1]) in SAME + ("new",) or e[0] == "agg" and len(e[3]) == 1 and e[2] not in ("Some", "Ok", "Err"):
        e = strip_cast(e[2][0] if e[0] == "call" else e[3][0][1])
    return e


def trait_fn(ck, p, trait, m):
    return ck.one([f for f in p.fns.values() if f.item == m and (f.trait or "").endswith("::" + trait) and f.kind == "fn"], m)


def setters(ck, p):
    for trait, cfg, ms in SETTERS:
        for m, want in ms.items():
            f = trait_fn(ck, p, trait, m)
            q = Q(ck.graph(f, opaque=lambda fn: fn.item == "url_decode"))
            g = q.g
            tag = "builder:" + m
            r = q.results()
            ck.ob(tag + ":returns", all(bare(norm(a)) == ("arg", 0) for a in flat(r)), "returns %s" % show_(r), loc(f))
            mycf = lambda e: e[0] == "call" and last(e[1]) == cfg and norm(e[2][0]) == ("arg", 0)
            if want is None:
                continue
            got = {}
            for n, pth, v in stores(q):
                ps = [x for x in map(strip_cast, flat(pth)) if not has(x, lambda y: y[0] == "part")]
                ps = [("fld", y, x[2]) for x in ps for y in (flat(x[1]) if x[0] == "fld" else [x]) if not has(y, lambda z: z[0] == "part")]
                if ps and all(mycf(x[1]) for x in ps) and len({x[2] for x in ps}) == 1:
                    got.setdefault(ps[0][2], []).append((n, v))
                elif has(pth, mycf) or rooted(pth, {("arg", 0)}):
                    ck.ob(tag + ":other", False, "also changes " + show_(pth), g.loc(n.i))
            ck.ob(tag + ":fields", set(got) == set(want), "it changes %s" % sorted(got), loc(f))
            for k, w in want.items():
                ns = [n for n, v in got.get(k, ())]
                ck.ob("%s:%s:always" % (tag, k), bool(ns) and not q.reach(q.entry(), avoid=q.S(ns)) & q.exits(), "%s may be left as it was" % k, loc(f))
                for n, v in got.get(k, ()):
                    for a in alts(v):
                        a = strip_cast(a)
                        if w[0] == "some":
                            ok = a[0] == "agg" and a[2] == "Some" and inner(a[3][0][1]) == ("arg", w[1])
                        elif w[0] == "is":
                            ok = inner(a) == ("arg", w[1])
                        else:
                            ok = inner(norm(a)) == ("fld", ("arg", w[1]), w[2])
                        ck.ob("%s:%s" % (tag, k), ok, "%s becomes %s" % (k, show_(a)), g.loc(n.i))
    # headers are added to what is there
    f = trait_fn(ck, p, "WithHttpConfig", "with_headers")
    q = Q(ck.graph(f, opaque=lambda fn: fn.item == "url_decode"))
    g = q.g
    puts = []
    for n in q.calls(lambda c: last(c.name) == "insert" and len(c.args) == 3):
        a = [bare(norm(g.ev(x, n.i))) for x in n.d.args]
        into = has(a[0], lambda e: e[0] == "fld" and e[2] == "headers" and e[1][0] == "call" and last(e[1][1]) == "http_client_config")
        if into and a[1] == ("fld", ("elem", ("arg", 1)), "0"):
            puts.append(n)
            v = ("fld", ("elem", ("arg", 1)), "1")
            dec = lambda e: e[0] == "call" and last(e[1]) == "url_decode" and bare(norm(strip_to(e[2][0]))) == v
            for x in alts(opnd(q, n, n.d.args[2])):
                y = bare(norm(inner(x)))
                ck.ob("builder:with_headers:value", y == v or y[0] == "fld" and y[2] == "Some.0" and dec(y[1]) or y[0] == "call" and last(y[1]) in ("unwrap_or", "unwrap_or_else") and dec(y[2][0]), "the value stored is %s" % show_(x)[:200], g.loc(n.i))
    w = forall(q, q.entry(), puts, exits=q.exits(), B={("arg", 1)})
    ck.ob("builder:with_headers:all", w is None, "a given header may be dropped: %s" % w, loc(f))
    f = trait_fn(ck, p, "WithTonicConfig", "with_metadata")
    q = Q(ck.graph(f))
    g = q.g
    old = lambda e: has(e, lambda x: x[0] == "fld" and x[2] == "metadata" and x[1][0] == "call" and last(x[1][1]) == "tonic_config")
    ext = [n for n in q.calls(lambda c: last(c.name) in ("extend", "merge") and len(c.args) == 2) if old(g.ev(n.d.args[0], n.i)) and has(g.ev(n.d.args[1], n.i), lambda x: x == ("arg", 1))]
    sts = [(n, v) for n, pth, v in stores(q) if pth[0] == "fld" and pth[2] == "metadata"]
    S = q.S([n for n, v in sts])
    ck.ob("builder:with_metadata:added", bool(ext) and bool(sts) and not q.reach(q.entry(), avoid=q.S(ext)) & S, "the metadata given is not added to what is there", loc(f))
    ck.ob("builder:with_metadata:stored", bool(sts) and not q.reach(q.entry(), avoid=S) & q.exits() and all(a[0] == "agg" and a[2] == "Some" and old(a) for n, v in sts for a in alts(v)), "the merged metadata is not kept", loc(f))
    # each builder shows its own configuration
    k = 0
    for trait, m, fld in (("HasExportConfig", "export_config", "exporter_config"), ("HasHttpConfig", "http_client_config", "http_config"), ("HasTonicConfig", "tonic_config", "tonic_config")):
        for f in p.fns.values():
            if f.item == m and (f.trait or "").endswith("::" + trait) and f.kind == "fn" and f.crate == "opentelemetry_otlp" and f.self_adt:
                k += 1
                e = norm(Q(ck.graph(f)).results())
                b = e
                while b[0] == "fld":
                    b = b[1]
                ck.ob("builder:%s:%s" % (f.self_adt.split("::")[-1], m), e[0] == "fld" and e[2] == fld and b == ("arg", 0), "shows %s" % show_(e), loc(f))
    ck.floor("builder", 12, k)


def values(ck, p):
    """tables of compression names and encodings"""
    C = "opentelemetry_otlp::exporter::Compression"
    f = ck.one(p.method(C, "from_str", trait="core::str::traits::FromStr"), "Compression::from_str")
    q = Q(ck.graph(f))
    q.deep = True
    for t, want in (("gzip", "Gzip"), ("zstd", "Zstd"), ("", None), ("none", None), ("deflate", None), ("gzip ", None)):
        e = q.result_from(q.entry(), cut=under_env(lambda x, t=t: t if x == ("arg", 0) else None, p))
        for a in flat(e):
            ok = a[0] == "agg" and (a[2] == "Err" if want is None else a[2] == "Ok" and a[3][0][1][0] == "agg" and a[3][0][1][2] == want)
            ck.ob("compression:name:%r" % t, ok, "%r is read as %s" % (t, show_(a)), loc(f))
    f = ck.one([f for f in p.fns.values() if f.crate == "opentelemetry_otlp" and f.item == "try_from" and f.kind == "fn" and (f.self_adt or "").endswith("CompressionEncoding")], "CompressionEncoding::try_from")
    q = Q(ck.graph(f))
    q.deep = True
    for v in ("Gzip", "Zstd"):
        e = q.result_from(q.entry(), cut=under_env(lambda x, v=v: V(v) if x == ("arg", 0) else None, p))
        for a in flat(e):
            ck.ob("compression:encoding:" + v, a[0] == "agg" and a[2] == "Ok" and v.lower() in show_(a[3][0][1]).lower(), "%s becomes %s" % (v, show_(a)), loc(f))


def check(ck):
    p = ck.program("all")
    ck.rule("for every signal and transport, the exporter's build function is evaluated under every combination of what can be set (in code, in the signal's variable, in the general variable; unset, unusable or usable): endpoint, timeout, headers and compression of the result are the ones of the first source that is set, else the default")
    ck.rule("the general HTTP endpoint has the signal's path appended with exactly one slash between; endpoints set in code or for a signal are used as they are")
    ck.rule("headers of the variable are added to the configured ones, each valid pair; the gRPC interceptor puts every piece of metadata on each request and then runs the given interceptor")
    ck.rule("each builder method changes exactly the setting it names")
    for sig, adt in SIGNALS:
        fs = p.method(adt, "build")
        ck.ob("build:" + sig, len(fs) == 2, "%d build functions" % len(fs), adt)
        for f in fs:
            (http if "Http" in str(f.local_ty(1)) else tonic)(ck, p, sig, f)
    setters(ck, p)
    values(ck, p)
