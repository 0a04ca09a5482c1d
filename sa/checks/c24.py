"""C24: records made by the bridges from the log and tracing crates"""
from checks.assume import *
from checks.c15 import bare
import itertools

TITLE = "Log bridges hand over every event with its severity, text and typed fields"
FLOOR = 230
A0, A1, A2 = ("arg", 0), ("arg", 1), ("arg", 2)
TEXT = {"into", "from", "to_string", "to_owned", "into_owned", "clone", "as_str", "as_ref", "deref", "borrow", "into_boxed_str", "into_string", "must_use", "new_display", "new_debug", "to_vec", "into_boxed_slice", "into_vec", "call"}
LEVELS = {"Error": "Error", "Warn": "Warn", "Info": "Info", "Debug": "Debug", "Trace": "Trace"}


def F(e, *fs):
    for f in fs:
        e = ("fld", e, f)
    return e


def plain(e):
    """the value without conversions that keep text and contents (casts stay)"""
    while True:
        e = norm(bare(e))
        if e[0] == "call" and len(e[2]) == 1 and last(e[1]) in TEXT:
            e = e[2][0]
        elif e[0] == "call" and last(e[1]) == "format" and formatted(e) is not None:
            e = formatted(e)
        elif e[0] == "agg" and last(e[1]) in ("StringValue", "Key", "OtelString", "Cow", "Owned", "Static", "Borrowed", "RefCounted") and len(e[3]) == 1:
            e = e[3][0][1]
        else:
            break
    if e[0] == "fld":
        return ("fld", plain(e[1])) + tuple(e[2:])
    return e


def formatted(e):
    """x of format!("{x}") or format!("{x:?}")"""
    a = norm(bare(e[2][0]))
    if a[0] != "call" or last(a[1]) != "new" or len(a[2]) != 2 or norm(a[2][0])[0] != "const" or norm(a[2][0])[1] != b"\xc0\x00":
        return None
    x = norm(bare(a[2][1]))
    return x[1][0] if x[0] == "array" and len(x[1]) == 1 else None


def shown(e):
    return [plain(a) for a in flat(e) if a != ("never",)]


def is_val(e, variant, *want):
    """an AnyValue of this variant around one of these values"""
    e = norm(bare(e))
    if e[0] == "agg" and e[2] == variant and "AnyValue" in e[1]:
        return all(any(w(x) if callable(w) else x == w for w in want) for x in shown(e[3][0][1]))
    if e[0] == "call" and last(e[1]) == "format" and variant == "String":
        return any(w(plain(e)) if callable(w) else plain(e) == w for w in want)
    if e[0] == "call" and len(e[2]) == 1 and last(e[1]) in ("into", "from") and variant == "String":
        return all(any(w(x) if callable(w) else x == w for w in want) for x in shown(e[2][0]))
    return False


def method_of(x, m, recv):
    """recv.m()"""
    return x[0] == "call" and last(x[1]) == m and len(x[2]) == 1 and plain(x[2][0]) == recv


def meta(*path):
    """path of getters from the event"""
    def ok(x):
        x = plain(x)
        for m in path:
            if x[0] != "call" or last(x[1]) != m or not x[2]:
                return False
            x = plain(x[2][0])
        return x == A1
    return ok


def any_of(*fs):
    return lambda x: any(f(x) for f in fs)


SOURCES = {
    # how the parts of an event are read
    "log": {"adt": "opentelemetry_appender_log::OpenTelemetryLogBridge", "item": "log", "level": any_of(meta("level"), meta("level", "metadata")), "target": any_of(meta("target"), meta("target", "metadata"))},
    "tracing": {"adt": "opentelemetry_appender_tracing::layer::OpenTelemetryTracingBridge", "item": "on_event", "level": meta("level", "metadata"), "target": meta("target", "metadata"), "name": meta("name", "metadata")},
}


def level_of(S, e):
    n = norm(e)
    if n[0] == "fld" and n[2] == "0":
        n = n[1]
    return n[0] == "call" and S["level"](n)


def level_const(e):
    """the level that is named by a constant"""
    e = norm(bare(e))
    if e[0] == "agg" and e[2] in LEVELS:
        return e[2]
    m = re.search(r"\b(Error|Warn|Info|Debug|Trace)\)*$", str(e[1])) if e[0] == "const" else None
    return m.group(1) if m else None


def level_env(S, lv):
    order = list(LEVELS)

    def env(e):
        if level_of(S, e):
            return V(lv)
        if e[0] == "call" and len(e[2]) == 2 and last(e[1]) in ("eq", "ne", "lt", "le", "gt", "ge"):
            a, b = [lv if level_of(S, bare(x)) else level_const(x) for x in e[2]]
            if a and b and any(level_of(S, bare(x)) for x in e[2]):
                a, b = order.index(a), order.index(b)
                return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[last(e[1])]
        return None
    return env


def enabled_lit(l):
    return l[0] == "b" and l[1][0] == "call" and last(l[1][1]) == "event_enabled" and l[2] is False


def events(ck, p, cfg):
    for kind, S in SOURCES.items():
        f = ck.one(p.method(S["adt"], S["item"]), "%s::%s" % (kind, S["item"]))
        q = Q(ck.graph(f))
        q.deep = True
        g = q.g
        tag = "%s:%s:" % (cfg, kind)
        em = [n for n in q.calls(lambda c: c.m == "emit")]
        r = q.reach(q.entry(), avoid=q.S(em), cut=enabled_lit)
        ck.ob(tag + "emitted", bool(em) and not r & q.exits(), "an event that is enabled may not be emitted", loc(f))
        ck.ob(tag + "once", q.can_follow(em, em) is None, "an event may be emitted twice", loc(f))
        rec = {n: shown(g.ev(n.d.args[1], n.i)) for n in em}
        for n, v in rec.items():
            ok = bool(v) and all(x[0] == "call" and last(x[1]) == "create_log_record" and x[2][0] == norm(g.ev(n.d.args[0], n.i)) for x in v)
            ck.ob(tag + "record", ok and norm(g.ev(n.d.args[0], n.i)) == F(A0, "logger"), "what is emitted is %s" % [show_(x) for x in v], g.loc(n.i))
        recs = {x for v in rec.values() for x in v}

        def setter(m, n=2):
            return [c for c in q.calls(lambda c: c.m == m and len(c.args) == n) if set(shown(g.ev(c.d.args[0], c.i))) <= recs]
        # severity
        sn = setter("set_severity_number")
        w = q.not_before(sn, em)
        ck.ob(tag + "severity:set", bool(sn) and w is None, "an event may have no severity: %s" % w, loc(f))
        st = setter("set_severity_text")
        w = q.not_before(st, em)
        ck.ob(tag + "severity-text:set", bool(st) and w is None, "an event may have no severity text: %s" % w, loc(f))
        for n in st:
            v = shown(g.ev(n.d.args[1], n.i))
            ck.ob(tag + "severity-text", bool(v) and all(level_of(S, x) for x in v), "the severity text is %s" % [show_(x) for x in v], g.loc(n.i))
        for lv, sev in LEVELS.items():
            C = under_env(level_env(S, lv), p)
            for n in sn:
                v = alts(opnd(q, n, n.d.args[1], cut=C))
                ck.ob(tag + "severity:" + lv, bool(v) and all(x[0] == "agg" and x[2] == sev and last(x[1]) == "Severity" for x in v), "level %s becomes %s" % (lv, [show_(x) for x in v]), g.loc(n.i))
            for n in q.calls(lambda c: c.m == "event_enabled" and len(c.args) == 4):
                v = alts(opnd(q, n, n.d.args[1], cut=C))
                ck.ob(tag + "enabled:" + lv, bool(v) and all(x[0] == "agg" and x[2] == sev for x in v), "whether level %s is enabled is asked for %s" % (lv, [show_(x) for x in v]), g.loc(n.i))
        for n in q.calls(lambda c: c.m == "event_enabled" and len(c.args) == 4):
            v = shown(g.ev(n.d.args[2], n.i))
            ck.ob(tag + "enabled:target", bool(v) and all(S["target"](x) for x in v), "whether it is enabled is asked for the target %s" % [show_(x) for x in v], g.loc(n.i))
        if cfg == "all":
            ck.ob(tag + "enabled:asked", bool(list(q.calls(lambda c: c.m == "event_enabled"))), "nobody is asked whether the event is enabled", loc(f))
        # target, name
        for m, k in (("set_target", "target"), ("set_event_name", "name")):
            if k not in S:
                continue
            c = setter(m)
            w = q.not_before(c, em)
            ck.ob(tag + k + ":set", bool(c) and w is None, "an event may have no %s: %s" % (k, w), loc(f))
            for n in c:
                v = shown(g.ev(n.d.args[1], n.i))
                ck.ob(tag + k, bool(v) and all(S[k](x) for x in v), "the %s is %s" % (k, [show_(x) for x in v]), g.loc(n.i))
        if kind == "log":
            c = setter("set_body")
            w = q.not_before(c, em)
            ck.ob(tag + "body:set", bool(c) and w is None, "an event may have no body: %s" % w, loc(f))
            for n in c:
                v = [x for x in alts(g.ev(n.d.args[1], n.i))]
                ck.ob(tag + "body", bool(v) and all(is_val(x, "String", meta("args")) for x in v), "the body is %s" % [show_(x) for x in v], g.loc(n.i))
            vis = [n for n in q.calls(lambda c: c.m == "visit" and len(c.args) == 2) if all(meta("key_values")(x) for x in shown(g.ev(n.d.args[0], n.i)))]
            add = setter("add_attributes")
            w = q.not_before(vis, em) or q.not_before(add, em) or q.not_before(vis, add)
            ck.ob(tag + "fields:set", bool(vis) and bool(add) and w is None, "the key-value pairs may be left out: %s" % w, loc(f))
            for n in add:
                v = shown(g.ev(n.d.args[1], n.i))
                vv = {plain(dict(y[3])["0"]) if y[0] == "agg" and y[3] else F(y, "0") for m_ in vis for y in (norm(bare(x)) for x in flat(g.ev(m_.d.args[1], m_.i)))}
                ck.ob(tag + "fields", bool(v) and set(v) <= vv, "the attributes are %s, not what the visitor collected" % [show_(x) for x in v], g.loc(n.i))
        else:
            vis = [n for n in q.calls(lambda c: c.m == "record" and len(c.args) == 2) if shown(g.ev(n.d.args[0], n.i)) == [A1]]
            w = q.not_before(vis, em)
            ck.ob(tag + "fields:set", bool(vis) and w is None, "the fields may be left out: %s" % w, loc(f))
            for n in vis:
                v = [norm(bare(x)) for x in flat(g.ev(n.d.args[1], n.i))]
                ok = bool(v) and all(x[0] == "agg" and plain(dict(x[3]).get("log_record", ("unk",))) in recs for x in v)
                ck.ob(tag + "fields", ok, "the fields are recorded on %s" % [show_(x) for x in v], g.loc(n.i))
            for n in q.calls(lambda c: c.m == "set_trace_context" and len(c.args) == 4):
                ids = [list(flat(g.ev(a, n.i))) for a in n.d.args[1:3]]
                z = [zipped(x, i) for i, v in enumerate(ids) for x in v]
                ck.ob(tag + "trace-context", bool(z) and all(z), "the trace context is %s" % [[show_(x) for x in v] for v in ids], g.loc(n.i))
                w = q.can_follow(em, [n])
                ck.ob(tag + "trace-context:before", w is None, "the trace context is set after the event is emitted", g.loc(n.i))
        attrs = setter("add_attribute", 3)
        for n in attrs:
            k = [const_str(x) for x in shown(g.ev(n.d.args[1], n.i))]
            v = alts(g.ev(n.d.args[2], n.i))
            src = {"code.namespace": "module_path", "code.function.name": "module_path", "code.filepath": "file", "code.file.path": "file", "code.filename": "file", "code.lineno": "line", "code.line.number": "line"}.get(k[0] if len(k) == 1 else None)
            ok = src is not None and all(has(x, lambda y: y[0] == "call" and last(y[1]) == src) for x in v)
            ck.ob(tag + "code:%s" % (k[0] if k else "?"), ok, "%s is %s" % (k, [show_(x) for x in v]), g.loc(n.i))


def zipped(e, i):
    """component i of what belongs together: the trace id of the root span and the id of the event's span"""
    key = ("trace_id", "span_id")[i]
    e = norm(bare(e))
    src = e
    if e[0] == "fld" and has(e, lambda y: y[0] == "call" and last(y[1]) == "zip"):
        proj = []
        while e[0] == "fld":
            proj.append(e[2])
            e = norm(e[1])
        path = ".".join(reversed(proj)).split(".")
        if e[0] != "call" or last(e[1]) != "zip" or path[-1] not in ("0", "1"):
            return False
        src = e[2][int(path[-1])]
    vs = [x for x in flat(src) if not (x[0] == "agg" and x[2] == "None")]
    root = lambda y: y[0] == "call" and last(y[1]) in ("last", "root", "from_root")
    return bool(vs) and all(has(x, lambda y: y[0] == "fld" and y[2].split(".")[0] == key or y[0] == "fld" and key in y[2].split(".")) and has(x, root) == (i == 0) for x in vs)


NAMES = ("message", "x", "msg", "log.other", "log.file", "log.line", "log.module_path", "log.target")


class Name:
    """the name of the field is this text"""

    def __init__(self, p, name, fits=None):
        self.p, self.name, self.fits = p, name, fits

    def text(self, e):
        e = plain(e)
        if method_of(e, "name", A1):
            return self.name
        if e[0] == "const":
            return const_str(e)
        if e[0] == "fld" and e[2] == "Some.0" and e[1][0] == "call" and last(e[1][1]) == "strip_prefix":
            t, x = self.text(e[1][2][0]), self.text(e[1][2][1])
            return t[len(x):] if t is not None and x is not None and t.startswith(x) else None
        return None

    def env(self, e):
        if e[0] == "call":
            m = last(e[1])
            if len(e[2]) == 2 and m in ("eq", "ne", "starts_with", "strip_prefix"):
                a, b = self.text(e[2][0]), self.text(e[2][1])
                if a is not None and b is not None:
                    return {"eq": a == b, "ne": a != b, "starts_with": a.startswith(b), "strip_prefix": V("Some" if a.startswith(b) else "None")}[m]
            if m in ("try_from", "try_into") and len(e[2]) == 1 and self.fits is not None and norm(e[2][0]) == A2:
                return V("Ok" if self.fits else "Err")
        return None


def cases(q, C, cut):
    r = q.reach(q.entry(), cut=cut)
    return [n for n in C if q.S([n]) & r], r


def fields(ck, p, cfg):
    EV = "opentelemetry_appender_tracing::layer::EventVisitor"
    conv = lambda x: x[0] == "fld" and x[2] == "Ok.0" and x[1][0] == "call" and last(x[1][1]) in ("try_from", "try_into") and norm(x[1][2][0]) == A2
    KIND = {"record_debug": ("String", A2), "record_str": ("String", A2), "record_bool": ("Boolean", A2), "record_f64": ("Double", A2), "record_bytes": ("Bytes", A2), "record_i64": ("Int", A2),
            "record_u64": (("Int", conv), ("String", A2)), "record_i128": (("Int", conv), ("String", A2)), "record_u128": (("Int", conv), ("String", A2))}
    REC = F(A0, "log_record")
    for m, kind in KIND.items():
        fs = p.method(EV, m)
        if not fs:
            ck.ob("%s:%s" % (cfg, m), m in ("record_bytes",), "fields of this kind go through their debug form", "opentelemetry-appender-tracing/src/layer.rs")
            continue
        f = ck.one(fs, m)
        q = Q(ck.graph(f))
        q.deep = True
        g = q.g
        body = [n for n in q.calls(lambda c: c.m == "set_body" and len(c.args) == 2)]
        attr = [n for n in q.calls(lambda c: c.m == "add_attribute" and len(c.args) == 3)]
        wide = isinstance(kind[0], tuple)
        for name, fits in itertools.product(NAMES, (True, False) if wide else (None,)):
            N = Name(p, name, fits)
            C = under_env(N.env, p)
            b, r = cases(q, body, C)
            a, r = cases(q, attr, C)
            key = "%s:%s:%s%s" % (cfg, m, name, "" if fits is None else ":fits" if fits else ":large")
            vk = kind if not wide else kind[0] if fits else kind[1]
            dup = cfg == "all" and name in ("log.file", "log.line", "log.module_path", "log.target")
            where = loc(f)
            if name == "message" and m in ("record_debug", "record_str"):
                ok = bool(b) and not a and not q.reach(q.entry(), avoid=q.S(b), cut=C) & q.exits() and q.can_follow(b, b, cut=C) is None
                ck.ob(key, ok, "the message is not made the body, once", where)
                for n in b:
                    v = alts(opnd(q, n, n.d.args[1], cut=C))
                    ck.ob(key + ":value", bool(v) and all(is_val(x, *vk) for x in v), "the body is %s" % [show_(x) for x in v], g.loc(n.i))
                continue
            if name == "message" and b and not a:
                a = b
            miss = q.reach(q.entry(), avoid=q.S(a), cut=C) & q.exits()
            if dup and not a:
                continue
            ck.ob(key, bool(a) and not miss and q.can_follow(a, a, cut=C) is None and (a is b or not b), "a field named %s may not become one attribute" % name, where)
            for n in a:
                if n.d.m == "add_attribute":
                    k = shown(opnd(q, n, n.d.args[1], cut=C))
                    ck.ob(key + ":key", bool(k) and all(method_of(x, "name", A1) for x in k), "its key is %s" % [show_(x) for x in k], g.loc(n.i))
                rc = shown(g.ev(n.d.args[0], n.i))
                ck.ob(key + ":record", bool(rc) and all(x == REC for x in rc), "it is put on %s" % [show_(x) for x in rc], g.loc(n.i))
                v = alts(opnd(q, n, n.d.args[-1], cut=C))
                ck.ob(key + ":value", bool(v) and all(is_val(x, *vk) for x in v), "its value is %s" % [show_(x) for x in v], g.loc(n.i))
    for f in p.method(EV, "record_error"):
        q = Q(ck.graph(f))
        g = q.g
        a = [n for n in q.calls(lambda c: c.m == "add_attribute" and len(c.args) == 3)]
        ck.ob(cfg + ":record_error", bool(a) and not q.reach(q.entry(), avoid=q.S(a)) & q.exits(), "an error may be left out", loc(f))
        for n in a:
            v = alts(g.ev(n.d.args[2], n.i))
            ck.ob(cfg + ":record_error:value", all(is_val(x, "String", A2) for x in v), "its value is %s" % [show_(x) for x in v], g.loc(n.i))


def ok_of(x):
    return x[3][0][1] if x[0] == "agg" and x[2] == "Ok" and x[3] else None


def pairs(ck, p, cfg):
    """key-value pairs of the log crate"""
    f = ck.one(p.method("opentelemetry_appender_log::log_attributes::AttributeVisitor", "visit_pair"), "visit_pair")
    q = Q(ck.graph(f, opaque=lambda fn: fn.item == "serialize" and "any_value" in fn.name))
    q.deep = True
    g = q.g
    P = [n for n in q.calls(lambda c: c.m == "push" and len(c.args) == 2)]
    ser = lambda e: e[0] == "call" and last(e[1]) == "serialize" and len(e[2]) == 1 and plain(e[2][0]) == A2
    none_ = lambda l: l[0] == "v" and ser(norm(l[1])) and l[3] == ("None",)
    ck.ob(cfg + ":pair:kept", bool(P) and not q.reach(q.entry(), avoid=q.S(P), cut=none_) & q.exits() and q.can_follow(P, P) is None, "a pair that has a value may not be kept once", loc(f))
    for n in P:
        ck.ob(cfg + ":pair:list", norm(g.ev(n.d.args[0], n.i)) == F(A0, "0"), "it is put elsewhere", g.loc(n.i))
        for x in flat(g.ev(n.d.args[1], n.i)):
            ok = x[0] == "tuple" and shown(x[1][0]) == [A1] and all(y[0] == "fld" and y[2] == "Some.0" and ser(y[1]) for y in shown(x[1][1]))
            ck.ob(cfg + ":pair", ok, "the pair becomes %s" % show_(x), g.loc(n.i))
    v = [norm(bare(x)) for x in flat(q.result_from(q.entry()))]
    ck.ob(cfg + ":pair:goes-on", bool(v) and all(x[0] == "agg" and x[2] == "Ok" for x in v), "a pair ends the visit: the pairs after it are lost", loc(f))


CONV = lambda x: x[0] == "fld" and x[2] == "Ok.0" and x[1][0] == "call" and last(x[1][1]) in ("try_from", "try_into") and norm(x[1][2][0]) == A1
BITS_ = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32}


def holds(frm, to):
    """every value of the one type is a value of the other"""
    if frm[0] == "f" or to[0] == "f":
        return to[0] == "f" and (int(to[1:]) >= int(frm[1:]) if frm[0] == "f" else BITS_[frm] <= 32)
    if to not in BITS_ or frm not in BITS_:
        return False
    return BITS_[to] >= BITS_[frm] if to[0] == frm[0] else frm[0] == "u" and BITS_[to] > BITS_[frm]


def widened(src):
    def ok(x):
        while x[0] == "cast":
            if not holds(src, str(x[2])):
                return False
            x = norm(bare(x[1]))
        return x == A1
    return ok


class Fit:
    def __init__(self, fits):
        self.fits = fits

    def __call__(self, e):
        if e[0] == "call" and last(e[1]) in ("try_from", "try_into") and len(e[2]) == 1 and norm(e[2][0]) == A1:
            return V("Ok" if self.fits else "Err")
        return None


def visitor(ck, p):
    """values, without serde"""
    VV = "opentelemetry_appender_log::any_value::serialize::ValueVisitor"
    KIND = {"visit_any": ("String", A1), "visit_bool": ("Boolean", A1), "visit_str": ("String", A1), "visit_i64": ("Int", A1), "visit_f64": ("Double", A1), "visit_u64": None, "visit_i128": None, "visit_u128": None}
    for m, kind in KIND.items():
        f = ck.one(p.method(VV, m), m)
        q = Q(ck.graph(f))
        q.deep = True
        for fits in (True, False) if kind is None else (None,):
            C = under_env(Fit(fits), p)
            r = q.reach(q.entry(), cut=C)
            st = [(n, v) for n, pth, v in stores(q) if pth == F(A0, "0") and q.S([n]) & r]
            vk = kind or (("Int", CONV) if fits else ("String", A1))
            key = "plain:%s%s" % (m, "" if fits is None else ":fits" if fits else ":large")
            ok = bool(st) and not q.reach(q.entry(), avoid=q.S([n for n, _ in st]), cut=C) & q.exits()
            ck.ob(key, ok, "a value may be left out", loc(f))
            for n, v in st:
                vs = [norm(bare(x)) for x in alts(v)]
                ck.ob(key + ":value", bool(vs) and all(x[0] == "agg" and x[2] == "Some" and all(is_val(y, *vk) for y in alts(x[3][0][1])) for x in vs), "the value becomes %s" % [show_(x) for x in vs], q.g.loc(n.i))
            v = [norm(bare(x)) for x in flat(q.result_from(q.entry(), cut=C))]
            ck.ob(key + ":ok", bool(v) and all(x[0] == "agg" and x[2] == "Ok" for x in v), "it fails", loc(f))
    f = ck.one([f for f in p.fns.values() if f.name.endswith("appender_log::any_value::serialize")], "serialize")
    q = Q(ck.graph(f))
    S = [n for n in q.calls(lambda c: c.m == "visit" and len(c.args) == 2) if shown(q.g.ev(n.d.args[0], n.i)) == [A0]]
    ck.ob("plain:visited", bool(S) and not q.reach(q.entry(), avoid=q.S(S)) & q.exits(), "the value is not looked at", loc(f))


def serde(ck, p):
    VS = "opentelemetry_appender_log::any_value::ValueSerializer"

    def res(m, cut=None):
        f = ck.one(p.method(VS, m), m)
        q = Q(ck.graph(f))
        q.deep = True
        return f, [norm(bare(x)) for x in alts(q.result_from(q.entry(), cut=cut))]

    def gives(x, variant, *want):
        y = ok_of(x)
        ys = [norm(bare(z)) for z in alts(y)] if y is not None else []
        return bool(ys) and all(z[0] == "agg" and z[2] == "Some" and all(is_val(w, variant, *want) for w in alts(z[3][0][1])) for z in ys)

    def as_text(x):
        return x[0] == "call" and last(x[1]) in ("collect_str", "serialize_str") and len(x[2]) == 2 and plain(x[2][1]) == A1 or gives(x, "String", A1)

    def again(i):
        return lambda x: x[0] == "call" and last(x[1]) == "serialize" and len(x[2]) == 2 and plain(x[2][0]) == ("arg", i) or x[0] == "call" and last(x[1]) == "serialize_str" and plain(x[2][1]) == ("arg", i) or gives(x, "String", ("arg", i))
    nothing = lambda x: ok_of(x) is not None and all(z[0] == "agg" and z[2] == "None" for z in flat(ok_of(x)))
    T = {"serialize_bool": lambda x: gives(x, "Boolean", A1), "serialize_f32": lambda x: gives(x, "Double", widened("f32")), "serialize_f64": lambda x: gives(x, "Double", A1), "serialize_char": as_text, "serialize_str": as_text,
         "serialize_bytes": lambda x: gives(x, "Bytes", A1), "serialize_none": nothing, "serialize_unit": nothing, "serialize_some": again(1), "serialize_newtype_struct": again(2), "serialize_unit_struct": again(1), "serialize_unit_variant": again(3)}
    for t in BITS_:
        T["serialize_" + t] = lambda x, t=t: gives(x, "Int", widened(t))
    for m, want in T.items():
        f, v = res(m)
        ck.ob("serde:" + m, bool(v) and all(want(x) for x in v), "it becomes %s" % [show_(x) for x in v], loc(f))
    for m in ("u64", "i128", "u128"):
        for fits in (True, False):
            f, v = res("serialize_" + m, under_env(Fit(fits), p))
            ck.ob("serde:serialize_%s:%s" % (m, "fits" if fits else "large"), bool(v) and all(gives(x, "Int", CONV) if fits else as_text(x) for x in v), "it becomes %s" % [show_(x) for x in v], loc(f))
    # containers: start empty
    for m, part in {"serialize_seq": None, "serialize_tuple": None, "serialize_tuple_struct": None, "serialize_tuple_variant": 3, "serialize_map": None, "serialize_struct": None, "serialize_struct_variant": 3}.items():
        f, v = res(m)
        ok = bool(v)
        for x in v:
            y = ok_of(x)
            d = dict(y[3]) if y is not None and y[0] == "agg" else {}
            e = norm(bare(d.get("value", ("unk",))))
            ok = ok and e[0] == "call" and last(e[1]) in ("new", "with_capacity", "default") and (part is None or plain(d.get("variant", ("unk",))) == ("arg", part))
        ck.ob("serde:" + m, ok, "it starts as %s" % [show_(x) for x in v], loc(f))
    # elements and ends
    PRE = "opentelemetry_appender_log::any_value::ValueSerialize"
    val_ = lambda i: lambda e: e[0] == "call" and last(e[1]) == "serialize" and len(e[2]) == 2 and plain(e[2][0]) == ("arg", i)
    for t, m, i, key in (("Seq", "serialize_element", 1, None), ("Tuple", "serialize_element", 1, None), ("TupleStruct", "serialize_field", 1, None), ("TupleVariant", "serialize_field", 1, None),
                         ("Map", "serialize_value", 1, F(A0, "key", "Some.0")), ("Struct", "serialize_field", 2, A1), ("StructVariant", "serialize_field", 2, A1)):
        f = ck.one(p.method(PRE + t, m), t + "::" + m)
        q = Q(ck.graph(f))
        q.deep = True
        g = q.g
        s = val_(i)
        P = [n for n in q.calls(lambda c: c.m in ("push", "insert")) if norm(g.ev(n.d.args[0], n.i)) == F(A0, "value")]
        miss = lambda l: l[0] == "v" and (s(norm(l[1])) and l[3] in (("Err",), ("Break",)) or l[3] == ("None",) and norm(l[1])[0] == "fld" and s(norm(l[1])[1]) or l[3] == ("None",) and norm(l[1]) == F(A0, "key") or l[3] in (("Err",), ("Break",)) and has(l[1], lambda y: y == F(A0, "key")))
        ck.ob("serde:%s:kept" % t, bool(P) and not q.reach(q.entry(), avoid=q.S(P), cut=miss) & q.exits() and q.can_follow(P, P) is None, "an element may be left out", loc(f))
        for n in P:
            v = shown(g.ev(n.d.args[-1], n.i))
            ok = bool(v) and all(x[0] == "fld" and x[2] == "Some.0" and x[1][0] == "fld" and x[1][2] == "Ok.0" and s(x[1][1]) or x[0] == "fld" and x[2] == "Ok.0.Some.0" and s(x[1]) for x in v)
            if key is not None:
                k = shown(g.ev(n.d.args[1], n.i))
                ok = ok and bool(k) and all(x == key for x in k)
            ck.ob("serde:%s:element" % t, ok, "an element becomes %s" % [show_(norm(g.ev(a, n.i))) for a in n.d.args[1:]], g.loc(n.i))
    for t, variant in (("Seq", "ListAny"), ("Tuple", "ListAny"), ("TupleStruct", "ListAny"), ("TupleVariant", "ListAny"), ("Map", "Map"), ("Struct", "Map"), ("StructVariant", "Map")):
        f = ck.one(p.method(PRE + t, "end"), t + "::end")
        q = Q(ck.graph(f))
        q.deep = True
        g = q.g
        v = [norm(bare(x)) for x in alts(q.result_from(q.entry()))]
        mine = lambda x: is_val(x, variant, F(A0, "value"))
        if "Variant" in t:
            P = [n for n in q.calls(lambda c: c.m == "insert" and len(c.args) == 3) if shown(g.ev(n.d.args[1], n.i)) == [F(A0, "variant")] and all(mine(x) for x in alts(g.ev(n.d.args[2], n.i)))]
            ok = bool(P) and not q.reach(q.entry(), avoid=q.S(P)) & q.exits() and all(gives(x, "Map", lambda y: True) for x in v)
        else:
            ok = bool(v) and all(ok_of(x) is not None and all(z[0] == "agg" and z[2] == "Some" and all(mine(w) for w in alts(z[3][0][1])) for z in alts(ok_of(x))) for x in v)
        ck.ob("serde:%s:end" % t, ok, "it becomes %s" % [show_(x) for x in v], loc(f))


def check(ck):
    ck.rule("an event that is enabled is emitted exactly once, with the severity of its level, its target (and name), its text as body, and every field: a message as the body, others as an attribute under the field's name whose value keeps the type and the number; integers that do not fit become text")
    for cfg in ("all", "sdk"):
        p = ck.program(cfg)
        events(ck, p, cfg)
        fields(ck, p, cfg)
        pairs(ck, p, cfg)
        (serde if cfg == "all" else visitor)(ck, p)
