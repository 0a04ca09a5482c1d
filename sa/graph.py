"""Inlined control-flow graph of one entry point, with flow-sensitive value
provenance and a path-sensitive (property-simulation style) exploded graph.

Nodes are program points; calls to workspace functions and closures are
inlined, so the same behaviour written with a helper, a combinator or a loop
gives the same facts.
"""
import ast
import sys
from collections import deque

sys.setrecursionlimit(20000)

OPT = "core::option::Option"
RES = "core::result::Result"

# calls whose result stands for (a view of) their first argument
TRANSPARENT_LAST = {
    "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "cloned", "copied", "into", "from",
    "to_owned", "to_string", "to_vec", "as_str", "as_slice", "as_bytes", "into_boxed_str", "into_boxed_slice", "as_deref",
    "as_deref_mut", "into_iter", "iter", "iter_mut", "by_ref", "into_future", "new_unchecked", "as_mut_slice", "into_owned",
    "into_inner", "get_mut", "get_ref", "into_string", "into_vec", "from_fn_ptr", "must_use", "to_str", "clone_from_ref",
    "unsize", "borrow_mut", "as_pin_mut", "map_unchecked_mut", "get_unchecked_mut", "drain_all", "as_path", "identity", "black_box",
    "pin", "get_pin_mut",
}
TRANSPARENT_FULL = {
    "core::pin::Pin::new", "alloc::boxed::Box::new", "alloc::rcs::arc::Arc::new", "alloc::rc::Rc::new", "alloc::boxed::Box::pin",
    "alloc::rcs::rc::Rc::new",
    "core::mem::manually_drop::ManuallyDrop::new", "core::cell::RefCell::new", "core::cell::Cell::new",
}
NOT_TRANSPARENT = {
    # same last segment, different meaning
    "std::sync::mpsc::SyncSender::clone",
}
GUARD_CALLS = {  # lock-like calls: the value is a guard on arg0
}


class Frame:
    __slots__ = ("id", "fn", "parent", "gen", "depth", "entry", "ret", "callnode", "stack")

    def __init__(self, id, fn, parent, gen, depth, callnode, stack):
        self.id, self.fn, self.parent, self.gen, self.depth, self.callnode, self.stack = id, fn, parent, gen, depth, callnode, stack


class Call:
    """a call site that was left as an event (not inlined)"""
    __slots__ = ("name", "m", "tr", "res", "args", "dest", "f", "fr", "recv_ty", "inlined", "rk", "clo")

    def __repr__(self):
        return "Call(%s)" % self.name


class Node:
    __slots__ = ("i", "k", "fr", "d", "succ", "line", "log")

    def __init__(self, i, k, fr, d, line, log=False):
        self.i, self.k, self.fr, self.d, self.line, self.log = i, k, fr, d, line, log
        self.succ = []  # list of (label, target)


class Graph:
    def __init__(self, prog, entry, opaque=None, inline=None, max_depth=10, max_nodes=60000, drive=True, spawn_inline=False, skip_crates=(), fatal_overflow=True, solid=(), indexed=False):
        """opaque(fn)->bool: leave calls to fn as events. inline(fn)->bool: restrict inlining."""
        self.p = prog
        self.entry_fn = entry
        self.opaque = opaque or (lambda f: False)
        self.inline = inline or (lambda f: True)
        self.max_depth, self.max_nodes = max_depth, max_nodes
        self.spawn_inline = spawn_inline
        self.solid = frozenset(solid)   # method names whose result is a value of its own, not a view of the receiver
        self.indexed = {} if indexed else None   # assignments of an element of a slice -> its index
        self.nodes = []
        self._bd = {}  # build-time definitions: (frame, local) -> nodes
        self.frames = []
        self.overflow = False
        self.skip_crates = skip_crates
        self.tmpc = 0
        self.exit = None
        self._build(entry, drive)
        self._index()

    # ------------------------------------------------------------------ build
    def node(self, k, fr, d=None, line=0, log=False):
        n = Node(len(self.nodes), k, fr, d, line, log)
        self.nodes.append(n)
        if d is not None and (k == "as" or k == "call"):
            p = d[0] if k == "as" else d.dest
            self._bd.setdefault((p[0], p[1]), []).append(n)
        return n

    def link(self, a, b, label=None):
        a.succ.append((label, b.i))

    def frame(self, fn, parent=None, gen=None, callnode=None):
        stack = (parent.stack if parent else ()) + (fn.id,)
        f = Frame(len(self.frames), fn, parent, gen or {}, (parent.depth + 1) if parent else 0, callnode, stack)
        self.frames.append(f)
        return f

    def tmp(self, fr):
        self.tmpc += 1
        return (fr.id, "t%d" % self.tmpc, ())

    def place(self, fr, pj):
        proj = []
        for e in pj[1:]:
            if e == "*":
                proj.append("*")
            elif isinstance(e, str):
                proj.append(("?", e))
            elif e[0] == "f":
                proj.append(("f", e[1]))
            elif e[0] == "v":
                proj.append(("v", e[1]))
            elif e[0] == "i":
                proj.append(("i",))
            elif e[0] == "ci":
                proj.append(("ci", e[1], e[2]))
        return (fr.id, pj[0], tuple(proj))

    def place_ty(self, fr, pj):
        t = fr.fn.local_ty(pj[0])
        for e in pj[1:]:
            if e == "*":
                if t is None:
                    return None
                if t.k in ("ref", "ptr"):
                    t = t.sub(t.d["t"])
                elif t.k == "adt" and t.d["a"]:
                    t = t.sub(t.d["a"][0])
                else:
                    t = None
            elif isinstance(e, list) and e[0] == "f":
                t = self.p.ty(fr.fn.crate, e[3])
            elif isinstance(e, list) and e[0] == "v":
                pass
            elif isinstance(e, list) and e[0] in ("i", "ci"):
                t = t.sub(t.d["t"]) if t is not None and t.k in ("slice", "array") else None
            else:
                t = None
        return t

    def operand(self, fr, o):
        if o[0] == "k":
            return ("k", o[1], fr.fn.crate, fr.id)
        return ("p", self.place(fr, o[1]), o[0])

    def operand_ty(self, fr, o):
        if o[0] == "k":
            return self.p.ty(fr.fn.crate, o[1]["t"]) if "t" in o[1] else None
        return self.place_ty(fr, o[1])

    def subst(self, t, fr):
        """substitute a bare type parameter through the frame's generic bindings"""
        n = 0
        while t is not None and n < 10:
            n += 1
            u = t.peel()
            if u.k == "param" and u.s in fr.gen:
                t = fr.gen[u.s]
                continue
            break
        return t

    def _build(self, entry, drive):
        fr = self.frame(entry)
        self.root = fr
        self.entry = self.node("entry", fr)
        self.exit = self.node("exit", fr)
        coro = None
        if drive:
            cs = [c for c in self.p.children.get(entry.id, []) if c.kind == "coroutine"]
            if len(cs) == 1 and entry.kind == "fn":
                # future-returning entry (async fn / async_trait): drive the future
                ret_ty = entry.local_ty(0)
                if entry.trait is not None and ret_ty.adt == "core::pin::Pin" or self._is_async_shape(entry, cs[0]):
                    coro = cs[0]
        if coro is not None:
            mid = self.node("nop", fr)
            start = self._inline_body(fr, mid)
            self.link(self.entry, start)
            cfr = self.frame(coro, fr, dict(fr.gen))
            b = self.node("as", cfr, ((cfr.id, 1, ()), ("use", ("p", (fr.id, 0, ()), "m"))))
            self.link(mid, b)
            st = self._inline_body(cfr, self.exit)
            self.link(b, st)
            self.result_place = (cfr.id, 0, ())
        else:
            start = self._inline_body(fr, self.exit)
            self.link(self.entry, start)
            self.result_place = (fr.id, 0, ())

    def _is_async_shape(self, fn, coro):
        # the last thing the fn does is build the coroutine into _0 (async fn / async block)
        rt = fn.local_ty(0)
        if rt.k in ("coroutine", "alias"):
            return True
        return False

    def _inline_body(self, fr, cont):
        """creates nodes of fr's body; returns entry node; every return flows to cont"""
        fn = fr.fn
        bbs = fn.d["bb"]
        first = {}
        # reachable blocks only, created lazily
        order = []
        st = [0]
        seen = {0}
        while st:
            b = st.pop()
            order.append(b)
            for t in self._targets(bbs[b][1], bbs[b]):
                if t not in seen and bbs[t] is not None:
                    seen.add(t)
                    st.append(t)
        for b in order:
            first[b] = self.node("nop", fr, None, bbs[b][2])
        for b in order:
            blk = bbs[b]
            cur = first[b]
            for s in blk[0]:
                if s[0] == "=":
                    n = self.node("as", fr, (self.place(fr, s[1]), self.rvalue(fr, s[2])), s[3], len(s) > 4)
                    if self.indexed is not None and n.d[1][0] in ("use", "ref"):
                        pj = s[2][1][1] if n.d[1][0] == "use" and s[2][1][0] != "k" else s[2][1] if n.d[1][0] == "ref" and isinstance(s[2][1], list) else None
                        if pj and isinstance(pj[-1], list) and pj[-1][0] == "i":
                            self.indexed[n.i] = (fr.id, pj[-1][1], ())
                elif s[0] == "dead":
                    n = self.node("dead", fr, (fr.id, s[1], ()))
                elif s[0] == "sd":
                    n = self.node("as", fr, (self.place(fr, s[1]), ("other", "sd")))
                else:
                    continue
                self.link(cur, n)
                cur = n
            log = len(blk) > 3
            self._term(fr, blk[1], cur, first, cont, blk[2], log)
        return first[0]

    def _targets(self, t, blk):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            if len(blk) > 3:  # log macro guard: only the disabled edge
                z = [b for v, b in t[2] if v == 0]
                if z:
                    return z
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        if k == "yield":
            return [t[2]]
        return []

    def rvalue(self, fr, r):
        k = r[0]
        if k == "use":
            return ("use", self.operand(fr, r[1]))
        if k == "ref":
            return ("ref", self.place(fr, r[1]), r[2])
        if k == "cast":
            return ("cast", self.operand(fr, r[1]), r[3], (fr.fn.crate, r[2]))
        if k == "bin":
            return ("bin", r[1], self.operand(fr, r[2]), self.operand(fr, r[3]))
        if k == "un":
            return ("un", r[1], self.operand(fr, r[2]))
        if k == "disc":
            return ("disc", self.place(fr, r[1]), self.p.ty(fr.fn.crate, r[2]).adt)
        if k == "agg":
            return ("agg", r[1], tuple(self.operand(fr, o) for o in r[2]))
        if k == "rep":
            return ("rep", self.operand(fr, r[1]))
        return ("other", r[1] if len(r) > 1 else "")

    def _term(self, fr, t, cur, first, cont, line, log):
        k = t[0]
        if k == "goto":
            self.link(cur, first[t[1]])
        elif k == "switch":
            if log:
                z = [b for v, b in t[2] if v == 0]
                if z:
                    n = self.node("log", fr, None, line, True)
                    self.link(cur, n)
                    self.link(n, first[z[0]])
                    return
            ty = self.p.ty(fr.fn.crate, t[4])
            n = self.node("sw", fr, (self.operand(fr, t[1]), [v for v, _ in t[2]], ty.s), line)
            self.link(cur, n)
            for v, b in t[2]:
                if b in first:
                    n.succ.append((v, first[b].i))
            if t[3] in first and not self._is_unreach(fr, t[3]):
                n.succ.append(("else", first[t[3]].i))
        elif k == "drop":
            n = self.node("drop", fr, (self.place(fr, t[1]), self.p.ty(fr.fn.crate, t[3]), t[4]), line)
            self.link(cur, n)
            self.link(n, first[t[2]])
        elif k == "assert":
            n = self.node("assert", fr, (self.operand(fr, t[1]), t[2], t[4]), line)
            self.link(cur, n)
            self.link(n, first[t[3]])
        elif k == "yield":
            n = self.node("yield", fr, None, line)
            self.link(cur, n)
            self.link(n, first[t[2]])
        elif k == "ret":
            n = self.node("ret", fr, None, line)
            self.link(cur, n)
            self.link(n, cont)
        elif k == "call":
            self._call(fr, t, cur, first[t[4]] if t[4] is not None else None, line, log)
        else:
            n = self.node("unreach", fr, None, line)
            self.link(cur, n)

    def _is_unreach(self, fr, b):
        blk = fr.fn.d["bb"][b]
        return blk is not None and blk[1][0] == "unreachable" and not blk[0]

    # ------------------------------------------------------------- calls
    def _call(self, fr, t, cur, nxt, line, log):
        f, args, dest = t[1], t[2], self.place(fr, t[3])
        ops = [self.operand(fr, a) for a in args]
        tys = [self.subst(self.operand_ty(fr, a), fr) if self.operand_ty(fr, a) is not None else None for a in args]
        if nxt is None:
            nxt = self.node("unreach", fr, None, line)
        if "o" in f:
            # indirect call through a fn pointer / closure value
            c = self._mkcall(fr, "<indirect>", f, ops, dest, None)
            n = self.node("call", fr, c, line, log)
            self.link(cur, n)
            self.link(n, nxt)
            return
        if log:
            c = self._mkcall(fr, f["n"], f, ops, dest, None)
            n = self.node("call", fr, c, line, True)
            self.link(cur, n)
            self.link(n, nxt)
            return
        self.emit_call(fr, f, fr.fn.crate, ops, tys, dest, cur, nxt, line)

    def _mkcall(self, fr, name, f, ops, dest, recv_ty):
        c = Call()
        c.name, c.f, c.args, c.dest, c.fr = name, f, ops, dest, fr
        c.m = f.get("m") or name.split("::")[-1]
        c.tr = f.get("tr")
        c.res = f.get("r", {}).get("n")
        c.rk = f.get("r", {}).get("k")
        c.recv_ty = recv_ty
        c.inlined = None
        c.clo = ()
        return c

    def resolve(self, fr, f, crate):
        """-> Fn or None"""
        r = f.get("r")
        if r:
            if r["k"] in ("item", "closure_once") and r["d"] in self.p.fns:
                return self.p.fns[r["d"]]
            if r["k"] == "default" and f["d"] in self.p.fns:
                return self.p.fns[f["d"]]
            if r["k"] in ("dyn",):
                return None
        if f.get("tr") and not (r and r["k"] == "item"):
            # substitute the receiver's type parameter
            if f["g"]:
                st = self.subst(self.p.ty(crate, f["g"][0]), fr).peel()
                if st.k in ("closure", "coroutine") and f["tr"].startswith(("core::ops::function::", "core::future::", "core::ops::async_function")):
                    return self.p.fns.get(st.d["d"])
                key = (f["tr"], st.adt or st.s)
                ims = self.p.impl_ix.get(key, [])
                if len(ims) == 1:
                    m = f.get("m")
                    if m in ims[0]["items"]:
                        return self.p.fns.get(ims[0]["items"][m])
                    return self.p.fns.get(f["d"])
            return None
        return self.p.fns.get(f["d"])

    def can_inline(self, fr, fn):
        if fn.kind not in ("fn", "closure", "coroutine") or fn.derived and fn.item not in ("default",):
            return False
        if fn.id in fr.stack or fr.depth >= self.max_depth or fn.crate in self.skip_crates:
            return False
        if len(self.nodes) > self.max_nodes:
            self.overflow = True
            return False
        return not self.opaque(fn) and self.inline(fn)

    def bind_gen(self, fr, fn, gl, crate):
        """bind callee generic names to (substituted) types"""
        g = {}
        names = fn.gen
        for n, i in zip(names, gl):
            g[n] = self.subst(self.p.ty(crate, i), fr)
        return g

    def do_inline(self, fr, fn, ops, dest, cur, nxt, line, gen, marker=None):
        cfr = self.frame(fn, fr, gen, marker)
        for i, o in enumerate(ops):
            n = self.node("as", cfr, ((cfr.id, i + 1, ()), ("use", o)), line)
            self.link(cur, n)
            cur = n
        fin = self.node("as", fr, (dest, ("use", ("p", (cfr.id, 0, ()), "m"))), line)
        st = self._inline_body(cfr, fin)
        self.link(cur, st)
        self.link(fin, nxt)
        return cfr

    def emit_call(self, fr, f, crate, ops, tys, dest, cur, nxt, line):
        name = f["n"]
        last = f.get("m") or name.split("::")[-1]
        rn = f.get("r", {}).get("n") or name
        # --- closure invocation
        if f.get("tr") in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            st = self.subst(self.p.ty(crate, f["g"][0]), fr)
            tgt = st.peel()
            args = self._untuple(fr, ops[1])
            if self._invoke(fr, ops[0], tgt, args, dest, cur, nxt, line):
                return
        # --- await of a known coroutine
        if f.get("tr") == "core::future::future::Future" and last == "poll":
            r = f.get("r", {})
            cf = self.p.fns.get(r.get("d")) if r.get("k") == "item" else None
            if cf is None and f["g"]:
                st = self.subst(self.p.ty(crate, f["g"][0]), fr).peel()
                if st.k == "coroutine":
                    cf = self.p.fns.get(st.d["d"])
            cfs = [cf] if cf is not None else self._future_coroutine(ops[0])
            if cfs and all(cf.kind == "coroutine" and self.can_inline(fr, cf) for cf in cfs):
                for cf in cfs:
                    t0 = self.tmp(fr)
                    fin = self.node("as", fr, (dest, ("agg", {"k": "adt", "p": "core::task::poll::Poll", "v": "Ready", "f": ["0"]}, (("p", t0, "m"),))), line)
                    owner = self._closure_owner_any(cf)
                    gen = dict(owner.gen) if owner is not None else dict(fr.gen)
                    self.do_inline(fr, cf, [ops[0]], t0, cur, fin, line, gen)
                    self.link(fin, nxt)
                return
        # --- models of Option/Result/mem operations
        if self._model(fr, f, crate, name, rn, last, ops, tys, dest, cur, nxt, line):
            return
        fn = self.resolve(fr, f, crate)
        if fn is not None and fn.crate in self.p.crates and self.can_inline(fr, fn):
            r = f.get("r", {})
            gl = r["g"] if r.get("k") in ("item",) and r.get("d") == fn.id else f["g"]
            if f.get("tr") and not (r.get("k") == "item" and r.get("d") == fn.id):
                if fn.id == f["d"]:
                    gen = self.bind_gen(fr, fn, f["g"], crate)
                else:
                    # impl found by substitution: bind Self args by position of the impl's own parameters
                    st = self.subst(self.p.ty(crate, f["g"][0]), fr).peel()
                    gen = {}
                    it = fn.self_ty
                    if it is not None and it.adt and st.adt == it.adt:
                        for a, b in zip(it.peel().args(), st.args()):
                            if a.k == "param":
                                gen[a.s] = b
                    # method's own generics come after the trait's
                    own = [g for g in fn.gen if g not in gen]
                    extra = f["g"][-len(own):] if own and len(f["g"]) > 1 else []
                    for n, i in zip(own, extra):
                        gen[n] = self.subst(self.p.ty(crate, i), fr)
            else:
                gen = self.bind_gen(fr, fn, gl, crate)
            m = self.node("inl", fr, self._mkcall(fr, name, f, ops, dest, tys[0] if tys else None), line)
            m.d.inlined = fn
            self.link(cur, m)
            self.do_inline(fr, fn, ops, dest, m, nxt, line, gen, m)
            return
        # --- opaque / external call
        c = self._mkcall(fr, name, f, ops, dest, tys[0] if tys else None)
        if fn is not None:
            c.inlined = fn  # resolved but left opaque
        n = self.node("call", fr, c, line)
        self.link(cur, n)
        # closures handed to an external function may run 0..n times
        cl = []
        for o, ty in zip(ops, tys):
            tt = ty.peel() if ty is not None else None
            if tt is not None and tt.k == "closure" and tt.d["d"] in self.p.fns:
                cl.append((o, tt))
            elif tt is not None and tt.k == "fndef" and tt.d["f"]["d"] in self.p.fns:
                cl.append((o, tt))
        if self.spawn_inline and self._is_spawn(name) and not cl:
            bodies = [b for o in ops for b in self._spawned_coroutines(o)]
            bodies = [b for b in bodies if self.can_inline(fr, b[0])]
            if bodies:
                for cf, op in bodies:
                    t0 = self.tmp(fr)
                    owner = self._closure_owner_any(cf)
                    gen = dict(owner.gen) if owner is not None else dict(fr.gen)
                    self.do_inline(fr, cf, [op], t0, n, nxt, line, gen)
                return
        if cl and not (fn is not None and not self.spawn_ok(name)) and not (self._is_spawn(name) and not self.spawn_inline):
            once = name in ONCE_CALLS or last in ONCE_LAST or self._is_spawn(name)
            if fn is not None and fn.crate in self.p.crates:
                pass
            join = self.node("nop", fr, None, line)
            self.link(join, nxt)
            if not once:
                self.link(n, join, "skip")
            n.d.clo = []
            for o, tt in cl:
                back = self.node("nop", fr, None, line)
                elem = self.tmp(fr)
                en = self.node("as", fr, (elem, ("elem", ops[0] if ops[0] is not o else None, n.i)), line)
                nargs = self._closure_argc(tt)
                if not (last == "fold" and nargs == 2 and len(ops) == 3):
                    self.link(n, en, "closure")
                rp = self.tmp(fr)
                n.d.clo.append((rp, back.i))
                cargs = [("p", (elem[0], elem[1], ()), "c")] * nargs
                acc = None
                if last == "fold" and nargs == 2 and len(ops) == 3:
                    # the first argument is the initial value or what the closure returned before
                    acc = self.tmp(fr)
                    a0 = self.node("as", fr, (acc, ("use", ops[1])), line)
                    self.link(n, a0, "closure")
                    self.link(a0, en)
                    cargs[0] = ("p", (acc[0], acc[1], ()), "c")
                if not self._invoke(fr, o, tt, cargs, rp, en, back, line, unknown_args=True):
                    self.link(en, back)
                if acc is not None:
                    a1 = self.node("as", fr, (acc, ("use", ("p", (rp[0], rp[1], ()), "c"))), line)
                    self.link(back, a1)
                    back = a1
                self.link(back, join)
                if not once:
                    self.link(back, en)
            if once and not cl:
                self.link(n, nxt)
        else:
            self.link(n, nxt)

    def spawn_ok(self, name):
        return True

    def _is_spawn(self, name):
        return name.endswith("::spawn") or name.endswith("thread::Builder::spawn") or name == "std::thread::functions::spawn"

    def _closure_argc(self, tt):
        if tt.k == "closure":
            return max(0, self.p.fns[tt.d["d"]].argc - 1)
        f = self.p.fns.get(tt.d["f"]["d"])
        return f.argc if f else 1

    def _future_coroutine(self, op):
        """chase a polled operand to the coroutine aggregates that created it (build-time, structural)
        -> list of coroutine bodies, or [] when some origin is unknown"""
        if op[0] != "p":
            return []
        out, work, seen = [], [(op[1][0], op[1][1], strip(op[1][2]))], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 400:
                return []
            fr, loc, P = x
            if fr == self.root.id and isinstance(loc, int) and 1 <= loc <= self.root.fn.argc:
                return []
            found = False
            for nd in self._bd.get((fr, loc), []):
                q = strip((nd.d[0] if nd.k == "as" else nd.d.dest)[2])
                if q != P[: len(q)]:
                    continue
                found = True
                rest = P[len(q):]
                if nd.k == "call":
                    if not self.is_transparent(nd.d) or not nd.d.args or nd.d.args[0][0] != "p":
                        return []
                    p = nd.d.args[0][1]
                    work.append((p[0], p[1], strip(p[2]) + rest))
                    continue
                rv = nd.d[1]
                if rv[0] in ("use", "cast") and rv[1][0] == "p":
                    p = rv[1][1]
                    work.append((p[0], p[1], strip(p[2]) + rest))
                elif rv[0] == "ref":
                    p = rv[1]
                    work.append((p[0], p[1], strip(p[2]) + rest))
                elif rv[0] == "agg":
                    a = rv[1]
                    if a["k"] == "coroutine" and not rest:
                        f = self.p.fns.get(a["d"])
                        if f is None:
                            return []
                        if f not in out:
                            out.append(f)
                        continue
                    r = rest
                    if a["k"] == "adt" and a["p"] == "core::pin::Pin" and r[:1] != (("f", "0"),):
                        r = (("f", a["f"][0]),) + r
                    if r and r[0][0] == "v":
                        if a.get("v") != r[0][1]:
                            continue
                        r = r[1:]
                    if not r or r[0][0] != "f":
                        return []
                    if a["k"] == "adt":
                        ix = a["f"].index(r[0][1]) if r[0][1] in a["f"] else None
                    else:
                        s = r[0][1].lstrip("^")
                        ix = int(s) if s.isdigit() else None
                    if ix is None or ix >= len(rv[2]) or rv[2][ix][0] != "p":
                        return []
                    p = rv[2][ix][1]
                    work.append((p[0], p[1], strip(p[2]) + r[1:]))
                else:
                    return []
            if not found:
                return []
        return out

    def _spawned_coroutines(self, op):
        """coroutine aggregates a spawned future is made of, looking through wrapper structs"""
        if op[0] != "p":
            return []
        out, work, seen = [], [(op[1][0], op[1][1], strip(op[1][2]))], set()
        while work and len(seen) < 200:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            fr, loc, P = x
            for nd in self._bd.get((fr, loc), []):
                q = strip((nd.d[0] if nd.k == "as" else nd.d.dest)[2])
                if q != P[: len(q)]:
                    continue
                rest = P[len(q):]
                if nd.k == "call":
                    if nd.d.args and nd.d.args[0][0] == "p" and (self.is_transparent(nd.d) or nd.d.m in ("boxed", "boxed_local", "fuse", "with_context", "instrument")):
                        p = nd.d.args[0][1]
                        work.append((p[0], p[1], strip(p[2]) + rest))
                    continue
                rv = nd.d[1]
                if rv[0] in ("use", "cast") and rv[1][0] == "p":
                    p = rv[1][1]
                    work.append((p[0], p[1], strip(p[2]) + rest))
                elif rv[0] == "ref":
                    work.append((rv[1][0], rv[1][1], strip(rv[1][2]) + rest))
                elif rv[0] == "agg":
                    a = rv[1]
                    if a["k"] == "coroutine" and not rest:
                        f = self.p.fns.get(a["d"])
                        if f is not None and all(f is not g for g, _ in out):
                            out.append((f, ("p", (nd.d[0][0], nd.d[0][1], nd.d[0][2]), "m")))
                    elif a["k"] in ("adt", "tuple"):
                        for i, o in enumerate(rv[2]):
                            if o[0] == "p" and (not rest or rest[0][0] != "f" or a["k"] == "adt" and rest[0][1] == a["f"][i] or rest[0][1] == str(i)):
                                work.append((o[1][0], o[1][1], strip(o[1][2]) + (rest[1:] if rest and rest[0][0] == "f" else ())))
        return out

    def _closure_owner_any(self, fn):
        for f in reversed(self.frames):
            if fn.parent == f.fn.id:
                return f
        return None

    def _untuple(self, fr, op):
        if op[0] == "p":
            # arguments of the call are the tuple's fields
            return ("tuple", op)
        return ("tuple", op)

    def _invoke(self, fr, fop, tt, args, dest, cur, nxt, line, unknown_args=False):
        """invoke callable value `fop` of type tt with args (list of operands or ('tuple', op))"""
        if tt is None:
            return False
        if tt.k == "closure":
            fn = self.p.fns.get(tt.d["d"])
            if fn is None or not self.can_inline(fr, fn):
                return False
            n = fn.argc - 1
            if isinstance(args, tuple) and args[0] == "tuple":
                base = args[1]
                if base[0] == "p":
                    al = [("p", (base[1][0], base[1][1], base[1][2] + (("f", str(i)),)), base[2]) for i in range(n)]
                else:
                    al = [base] * n
            else:
                al = args[:n]
            owner = self._closure_owner_frame(fr, fn)
            gen = dict(owner.gen) if owner is not None else dict(fr.gen)
            self.do_inline(fr, fn, [fop] + al, dest, cur, nxt, line, gen)
            return True
        if tt.k == "fndef":
            f = tt.d["f"]
            if isinstance(args, tuple) and args[0] == "tuple":
                base = args[1]
                fn = self.p.fns.get(f["d"])
                n = fn.argc if fn else 1
                al = [("p", (base[1][0], base[1][1], base[1][2] + (("f", str(i)),)), base[2]) for i in range(n)] if base[0] == "p" else [base] * n
            else:
                al = args
            name = f["n"]
            # enum/struct constructor used as a function
            ctor = self._ctor(name)
            if ctor:
                n2 = self.node("as", fr, (dest, ("agg", ctor, tuple(al))), line)
                self.link(cur, n2)
                self.link(n2, nxt)
                return True
            self.emit_call(fr, f, tt.c, al, [None] * len(al), dest, cur, nxt, line)
            return True
        return False

    def _ctor(self, name):
        parts = name.split("::")
        # <path>::Variant::{constructor}? def_path of a ctor ends with {constructor#0}
        if parts[-1].startswith("{constructor"):
            p = "::".join(parts[:-1])
            if p in self.p.adts:
                v = self.p.adts[p]["v"][0]
                return {"k": "adt", "p": p, "v": v["n"], "f": [x[0] for x in v["f"]]}
            e = "::".join(parts[:-2])
            if e in self.p.adts:
                for v in self.p.adts[e]["v"]:
                    if v["n"] == parts[-2]:
                        return {"k": "adt", "p": e, "v": v["n"], "f": [x[0] for x in v["f"]]}
        return None

    def _closure_owner_frame(self, fr, fn):
        f = fr
        while f is not None:
            if fn.parent == f.fn.id:
                return f
            f = f.parent
        return None

    # ------------------------------------------------------------- models
    def _sw(self, fr, place, adt, cur, line, arms):
        """switch on the variant of `place`; arms: {variant: node}"""
        t = self.tmp(fr)
        d = self.node("as", fr, (t, ("disc", place, adt)), line)
        self.link(cur, d)
        vals = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Ready": 0, "Pending": 1}
        n = self.node("sw", fr, (("p", t, "m"), [vals[a] for a in arms], "isize"), line)
        self.link(d, n)
        for a, tgt in arms.items():
            n.succ.append((vals[a], tgt.i))

    def _ev(self, adt, variant, ops):
        return ("agg", {"k": "adt", "p": adt, "v": variant, "f": ["0"] if ops else []}, tuple(ops))

    def _model(self, fr, f, crate, name, rn, last, ops, tys, dest, cur, nxt, line):
        def asn(d, rv):
            n = self.node("as", fr, (d, rv), line)
            return n

        def recv_place():
            t = self.tmp(fr)
            n = self.node("as", fr, (t, ("use", ops[0])), line)
            return t, n

        def payload(t, v):
            return ("p", (t[0], t[1], (("v", v), ("f", "0"))), "m")

        if name == "core::ops::try_trait::Try::branch":
            adt = tys[0].adt if tys[0] is not None else None
            if adt in (OPT, RES):
                t, n0 = recv_place()
                self.link(cur, n0)
                good, bad = ("Some", "None") if adt == OPT else ("Ok", "Err")
                CF = "core::ops::control_flow::ControlFlow"
                a = asn(dest, self._ev(CF, "Continue", [payload(t, good)]))
                if adt == OPT:
                    rt = self.tmp(fr)
                    b0 = asn(rt, self._ev(OPT, "None", []))
                else:
                    rt = self.tmp(fr)
                    b0 = asn(rt, self._ev(RES, "Err", [payload(t, bad)]))
                b = asn(dest, self._ev(CF, "Break", [("p", rt, "m")]))
                self.link(b0, b)
                self._sw(fr, t, adt, n0, line, {good: a, bad: b0})
                self.link(a, nxt)
                self.link(b, nxt)
                return True
            return False
        if name == "core::ops::try_trait::FromResidual::from_residual":
            # Err(e) -> Err(From::from(e)); None -> None
            dt = None
            if len(f["g"]) > 0:
                dt = self.subst(self.p.ty(crate, f["g"][0]), fr).adt
            if dt == RES:
                t, n0 = recv_place()
                self.link(cur, n0)
                # error conversion through From
                rty = tys[0]
                ety = self.p.ty(crate, f["g"][0]).args()[1] if self.p.ty(crate, f["g"][0]).k == "adt" and len(self.p.ty(crate, f["g"][0]).args()) > 1 else None
                sty = rty.args()[1] if rty is not None and rty.k == "adt" and len(rty.args()) > 1 else None
                b = asn(dest, self._ev(RES, "Err", [payload(t, "Err")]))
                self.link(b, nxt)
                if ety is not None and sty is not None and ety.s != sty.s:
                    # find the From impl in the workspace
                    for im in self.p.impl_ix.get(("core::convert::From", ety.adt or ety.s), []):
                        ta = self.p.ty(im["crate"], im["ta"][0])
                        if ta.s == sty.s and "from" in im["items"]:
                            fn = self.p.fns.get(im["items"]["from"])
                            if fn and self.can_inline(fr, fn):
                                ct = self.tmp(fr)
                                b2 = asn(dest, self._ev(RES, "Err", [("p", ct, "m")]))
                                self.do_inline(fr, fn, [payload(t, "Err")], ct, n0, b2, line, {})
                                self.link(b2, nxt)
                                return True
                self.link(n0, b)
                return True
            if dt == OPT:
                b = asn(dest, self._ev(OPT, "None", []))
                self.link(cur, b)
                self.link(b, nxt)
                return True
            return False
        if rn.startswith("core::option::Option::") or rn.startswith("<core::option::Option as "):
            adt, good, bad = OPT, "Some", "None"
        elif rn.startswith("core::result::Result::") or rn.startswith("<core::result::Result as "):
            adt, good, bad = RES, "Ok", "Err"
        elif name == "core::bool::{impl#0}::then" or rn.startswith("bool::then"):
            tt = tys[1].peel() if tys[1] is not None else None
            rt = self.tmp(fr)
            some = asn(dest, self._ev(OPT, "Some", [("p", rt, "m")]))
            none = asn(dest, self._ev(OPT, "None", []))
            self.link(some, nxt)
            self.link(none, nxt)
            n = self.node("sw", fr, (ops[0], [0], "bool"), line)
            self.link(cur, n)
            pre = self.node("nop", fr, None, line)
            n.succ.append((0, none.i))
            n.succ.append(("else", pre.i))
            if rn.endswith("then_some"):
                some.d = (dest, self._ev(OPT, "Some", [ops[1]]))
                self.link(pre, some)
                return True
            if not self._invoke(fr, ops[1], tt, [], rt, pre, some, line):
                self.link(pre, some)
            return True
        elif name in ("core::mem::take", "core::mem::replace", "core::mem::swap") and name != "core::mem::swap":
            # dest = *arg0 ; *arg0 = fresh
            src = self._deref_op(ops[0])
            a = asn(dest, ("use", ("p", src, "c")))
            self.link(cur, a)
            mk = self.node("call", fr, self._mkcall(fr, name, f, ops, self.tmp(fr), tys[0]), line)
            self.link(a, mk)
            if name.endswith("replace"):
                b = asn(src, ("use", ops[1]))
            else:
                b = asn(src, ("other", "default"))
            self.link(mk, b)
            self.link(b, nxt)
            return True
        else:
            return False

        def unit(v, ops_=None):
            n = asn(dest, self._ev(adt, v, ops_ or []))
            self.link(n, nxt)
            return n

        def konst(v):
            n = asn(dest, ("use", ("k", {"v": v}, crate, fr.id)))
            self.link(n, nxt)
            return n

        def clo(i):
            ty = tys[i]
            return ty.peel() if ty is not None else None

        m = last
        if m in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "clone", "into_iter", "iter", "as_slice"):
            if m in ("into_iter", "iter", "as_slice"):
                return False
            n = asn(dest, ("use", self._c(ops[0])))
            self.link(cur, n)
            self.link(n, nxt)
            return True
        if m == "take" and adt == OPT:
            src = self._deref_op(ops[0])
            mk = self.node("call", fr, self._mkcall(fr, name, f, ops, self.tmp(fr), tys[0]), line)
            a = asn(dest, ("use", ("p", src, "c")))
            b = asn(src, self._ev(OPT, "None", []))
            self.link(cur, a)
            self.link(a, mk)
            self.link(mk, b)
            self.link(b, nxt)
            return True
        if m in ("is_some", "is_ok", "is_none", "is_err"):
            t, n0 = recv_place()
            n0.d = (t, ("use", ("p", self._deref_op(ops[0]), "c") if ops[0][0] == "p" else ops[0]))
            self.link(cur, n0)
            pos = m in ("is_some", "is_ok")
            self._sw(fr, t, adt, n0, line, {good: konst(pos), bad: konst(not pos)})
            return True
        if m in ("unwrap", "expect", "unwrap_unchecked"):
            t, n0 = recv_place()
            self.link(cur, n0)
            a = asn(dest, ("use", payload(t, good)))
            self.link(a, nxt)
            b = self.node("panic", fr, name, line)
            self._sw(fr, t, adt, n0, line, {good: a, bad: b})
            return True
        if m in ("unwrap_or", "unwrap_or_default"):
            t, n0 = recv_place()
            self.link(cur, n0)
            a = asn(dest, ("use", payload(t, good)))
            b = asn(dest, ("use", ops[1]) if m == "unwrap_or" else ("other", "default"))
            self.link(a, nxt)
            self.link(b, nxt)
            self._sw(fr, t, adt, n0, line, {good: a, bad: b})
            return True
        if m in ("ok", "err"):
            t, n0 = recv_place()
            self.link(cur, n0)
            v = "Ok" if m == "ok" else "Err"
            a = asn(dest, self._ev(OPT, "Some", [payload(t, v)]))
            b = asn(dest, self._ev(OPT, "None", []))
            self.link(a, nxt)
            self.link(b, nxt)
            self._sw(fr, t, adt, n0, line, {v: a, ("Err" if v == "Ok" else "Ok"): b})
            return True
        if m == "ok_or":
            t, n0 = recv_place()
            self.link(cur, n0)
            a = asn(dest, self._ev(RES, "Ok", [payload(t, "Some")]))
            b = asn(dest, self._ev(RES, "Err", [ops[1]]))
            self.link(a, nxt)
            self.link(b, nxt)
            self._sw(fr, t, adt, n0, line, {"Some": a, "None": b})
            return True
        if m in ("and", "or", "xor", "zip") and m in ("and", "or"):
            t, n0 = recv_place()
            self.link(cur, n0)
            other = asn(dest, ("use", ops[1]))
            self.link(other, nxt)
            same = asn(dest, ("use", ("p", t, "m")))
            self.link(same, nxt)
            if m == "and":
                self._sw(fr, t, adt, n0, line, {good: other, bad: same})
            else:
                self._sw(fr, t, adt, n0, line, {good: same, bad: other})
            return True
        if m in ("flatten",) and adt == OPT:
            t, n0 = recv_place()
            self.link(cur, n0)
            a = asn(dest, ("use", payload(t, "Some")))
            b = asn(dest, self._ev(OPT, "None", []))
            self.link(a, nxt)
            self.link(b, nxt)
            self._sw(fr, t, adt, n0, line, {"Some": a, "None": b})
            return True
        HO = {"map", "and_then", "map_err", "map_or", "map_or_else", "unwrap_or_else", "or_else", "ok_or_else", "is_some_and", "is_ok_and", "is_none_or", "is_err_and", "inspect", "inspect_err", "filter", "get_or_insert_with", "unwrap_or_default"}
        if m not in HO:
            return False
        ci = {"map_or": 2}.get(m, 1)
        tt = clo(ci)
        if tt is None or tt.k not in ("closure", "fndef"):
            return False
        if m == "get_or_insert_with":
            src = self._deref_op(ops[0])
            t = src
            n0 = self.node("nop", fr, None, line)
        else:
            t, n0 = recv_place()
        self.link(cur, n0)
        rt = self.tmp(fr)
        pre = self.node("nop", fr, None, line)

        def go(args, post):
            if not self._invoke(fr, ops[ci], tt, args, rt, pre, post, line):
                # unknown callable: opaque result
                n = asn(rt, ("other", "closure"))
                self.link(pre, n)
                self.link(n, post)

        R = ("p", rt, "m")
        if m == "map":
            post = unit(good, [R])
            go([payload(t, good)], post)
            oth = asn(dest, self._ev(adt, bad, [] if adt == OPT else [payload(t, bad)]))
            self.link(oth, nxt)
            self._sw(fr, t, adt, n0, line, {good: pre, bad: oth})
        elif m == "and_then":
            post = asn(dest, ("use", R))
            self.link(post, nxt)
            go([payload(t, good)], post)
            oth = asn(dest, self._ev(adt, bad, [] if adt == OPT else [payload(t, bad)]))
            self.link(oth, nxt)
            self._sw(fr, t, adt, n0, line, {good: pre, bad: oth})
        elif m == "map_err":
            post = unit("Err", [R])
            go([payload(t, "Err")], post)
            oth = unit("Ok", [payload(t, "Ok")])
            self._sw(fr, t, adt, n0, line, {"Err": pre, "Ok": oth})
        elif m in ("map_or", "map_or_else"):
            post = asn(dest, ("use", R))
            self.link(post, nxt)
            if m == "map_or":
                go([payload(t, good)], post)
                oth = asn(dest, ("use", ops[1]))
                self.link(oth, nxt)
            else:
                ci = 2
                tt2, tt = tt, clo(2)
                if tt is None or tt.k not in ("closure", "fndef"):
                    return False
                go([payload(t, good)], post)
                oth = self.node("nop", fr, None, line)
                rt2 = self.tmp(fr)
                post2 = asn(dest, ("use", ("p", rt2, "m")))
                self.link(post2, nxt)
                if not self._invoke(fr, ops[1], tt2, [] if adt == OPT else [payload(t, bad)], rt2, oth, post2, line):
                    self.link(oth, post2)
            self._sw(fr, t, adt, n0, line, {good: pre, bad: oth})
        elif m in ("unwrap_or_else",):
            post = asn(dest, ("use", R))
            self.link(post, nxt)
            go([] if adt == OPT else [payload(t, bad)], post)
            oth = asn(dest, ("use", payload(t, good)))
            self.link(oth, nxt)
            self._sw(fr, t, adt, n0, line, {bad: pre, good: oth})
        elif m == "or_else":
            post = asn(dest, ("use", R))
            self.link(post, nxt)
            go([] if adt == OPT else [payload(t, bad)], post)
            oth = unit(good, [payload(t, good)])
            self._sw(fr, t, adt, n0, line, {bad: pre, good: oth})
        elif m == "ok_or_else":
            post = asn(dest, self._ev(RES, "Err", [R]))
            self.link(post, nxt)
            go([], post)
            oth = asn(dest, self._ev(RES, "Ok", [payload(t, "Some")]))
            self.link(oth, nxt)
            self._sw(fr, t, adt, n0, line, {"None": pre, "Some": oth})
        elif m in ("is_some_and", "is_ok_and", "is_none_or", "is_err_and"):
            post = asn(dest, ("use", R))
            self.link(post, nxt)
            v = "Err" if m == "is_err_and" else good
            go([payload(t, v)], post)
            oth = konst(m == "is_none_or")
            self._sw(fr, t, adt, n0, line, {v: pre, (bad if v == good else "Ok"): oth})
        elif m in ("inspect", "inspect_err"):
            v = "Err" if m == "inspect_err" else good
            post = asn(dest, ("use", ("p", t, "m")))
            self.link(post, nxt)
            go([payload(t, v)], post)
            self._sw(fr, t, adt, n0, line, {v: pre, (bad if v == good else "Ok"): post})
        elif m == "filter":
            post = self.node("sw", fr, (R, [0], "bool"), line)
            go([payload(t, "Some")], post)
            keep = asn(dest, ("use", ("p", t, "m")))
            none = asn(dest, self._ev(OPT, "None", []))
            self.link(keep, nxt)
            self.link(none, nxt)
            post.succ.append((0, none.i))
            post.succ.append(("else", keep.i))
            self._sw(fr, t, adt, n0, line, {"Some": pre, "None": none})
        elif m == "get_or_insert_with":
            post = asn(src, self._ev(OPT, "Some", [R]))
            go([], post)
            fin = asn(dest, ("ref", (src[0], src[1], src[2] + (("v", "Some"), ("f", "0"))), True))
            self.link(post, fin)
            self.link(fin, nxt)
            self._sw(fr, t, adt, n0, line, {"None": pre, "Some": fin})
        else:
            return False
        return True

    def _c(self, op):
        return op

    def _deref_op(self, op):
        if op[0] == "p":
            return (op[1][0], op[1][1], op[1][2] + ("*",))
        return self.tmp(self.root)

    # ------------------------------------------------------------------ index
    def _index(self):
        n = len(self.nodes)
        self.pred = [[] for _ in range(n)]
        # reachable prune
        seen = [False] * n
        st = [self.entry.i]
        seen[self.entry.i] = True
        while st:
            x = st.pop()
            for lab, t in self.nodes[x].succ:
                self.pred[t].append(x)
                if not seen[t]:
                    seen[t] = True
                    st.append(t)
        self.live = seen
        self.defs = {}  # (frame, local) -> [node ids] writing it or a part of it (syntactically rooted)
        for nd in self.nodes:
            if not seen[nd.i]:
                continue
            if nd.k == "as":
                d = nd.d[0]
            elif nd.k in ("call",):
                d = nd.d.dest
            else:
                continue
            self.defs.setdefault((d[0], d[1]), []).append(nd.i)
        self._single = {}
        for k, v in self.defs.items():
            whole = []
            for i in v:
                nd = self.nodes[i]
                d = nd.d[0] if nd.k == "as" else nd.d.dest
                if not d[2]:
                    whole.append(i)
                elif d[2][0] != "*":
                    whole = None
                    break
            if whole is not None and len(whole) == 1:
                self._single[k] = whole[0]
        self._canon = {}
        # canonical defs
        self.cdefs = {}
        for nd in self.nodes:
            if not seen[nd.i]:
                continue
            d = nd.d[0] if nd.k == "as" else nd.d.dest if nd.k == "call" else None
            if d is None:
                continue
            c = self.canon(d)
            if nd.k == "as" and nd.d[1][0] == "use" and nd.d[1][1][0] == "p" and self.canon(nd.d[1][1][1]) == c:
                continue  # the move that makes dest an alias of its source
            self.cdefs.setdefault((c[0], c[1]), []).append((nd.i, strip(c[2])))
        self._memo = {}
        self._ex = None

    def is_transparent(self, c):
        nm = c.res or c.name
        if c.name in TRANSPARENT_FULL or nm in TRANSPARENT_FULL:
            return True
        if c.inlined is not None and c.inlined.kind == "fn" and not c.inlined.derived:
            return False
        if c.m == "from" and c.args and c.name == "core::convert::From::from":
            return True
        if c.m in self.solid:
            return False
        if c.m in ("to_vec", "to_string") and not c.name.lstrip("<").startswith(("alloc::", "core::", "std::", "[", "str")):
            return False    # an encoder
        return c.m in TRANSPARENT_LAST and len(c.args) == 1 and c.name not in NOT_TRANSPARENT and not (c.m == "into_inner" and False)

    def canon(self, pl, depth=0):
        """resolve reference temporaries to the memory they denote"""
        r = self._canon.get(pl)
        if r is not None:
            return r
        fr, loc, proj = pl
        res = pl
        if depth < 60:
            s = self._single.get((fr, loc))
            is_arg_root = fr == self.root.id and isinstance(loc, int) and 1 <= loc <= self.root.fn.argc
            if s is not None and not is_arg_root:
                nd = self.nodes[s]
                if nd.k == "as":
                    rv = nd.d[1]
                    if rv[0] == "use" and rv[1][0] == "p":
                        if rv[1][2] == "m" or self._is_ref(fr, loc) or not isinstance(loc, int):
                            q = rv[1][1]
                            if self._movesafe(q, rv[1][2]):
                                res = self.canon((q[0], q[1], q[2] + proj), depth + 1)
                    elif rv[0] == "ref" and proj and proj[0] == "*":
                        q = rv[1]
                        res = self.canon((q[0], q[1], q[2] + proj[1:]), depth + 1)
                    elif rv[0] == "cast" and rv[1][0] == "p" and proj:
                        q = rv[1][1]
                        res = self.canon((q[0], q[1], q[2] + proj), depth + 1)
                    elif rv[0] == "agg" and proj and proj[0] != "*" and rv[1]["k"] in ("closure", "coroutine", "tuple"):
                        e = proj[0]
                        if e[0] == "f":
                            ix = int(e[1].lstrip("^")) if e[1].lstrip("^").isdigit() else None
                            if ix is not None and ix < len(rv[2]) and rv[2][ix][0] == "p":
                                q = rv[2][ix][1]
                                if rv[2][ix][2] == "m" or self._is_ref_place(q):
                                    res = self.canon((q[0], q[1], q[2] + proj[1:]), depth + 1)
                elif nd.k == "call" and proj and nd.d.args and nd.d.args[0][0] == "p" and self.is_transparent(nd.d) and nd.d.m not in ("clone", "to_owned", "to_string", "to_vec", "cloned", "copied", "from", "into", "iter", "into_iter"):
                    q = nd.d.args[0][1]
                    res = self.canon((q[0], q[1], q[2] + ("*",) + proj), depth + 1) if False else self.canon((q[0], q[1], q[2] + proj), depth + 1)
        # a '*' applied on something already canonical through a reborrow of a ref value
        self._canon[pl] = res
        return res

    def _movesafe(self, q, how):
        return True

    def _is_ref(self, fr, loc):
        if not isinstance(loc, int):
            return False
        t = self.frames[fr].fn.local_ty(loc)
        return t.k in ("ref", "ptr")

    def _is_ref_place(self, q):
        return not q[2] and self._is_ref(q[0], q[1])

    # ------------------------------------------------------------------ eval
    def rdefs(self, cpl, at):
        """reaching definitions of canonical place (no derefs in proj) before node `at`.
        -> (list of (node, defproj), reaches_entry)"""
        root = (cpl[0], cpl[1])
        P = strip(cpl[2])
        ds = self.cdefs.get(root, [])
        if not ds:
            return [], True
        rel = [(i, q) for i, q in ds if q == P[: len(q)] or P == q[: len(P)]]
        if not rel:
            return [], True
        relm = {}
        for i, q in rel:
            relm[i] = q
        if len(rel) == 1 and len(rel[0][1]) <= len(P) and rel[0][0] != at:
            # single definition: does it always precede?  (locals: yes; memory behind args: maybe not)
            if not self._is_entry_mem(root):
                return rel, False
        out = []
        entry = False
        seen = set()
        st = [p for p in self.pred[at] if self.live[p]]
        seen.update(st)
        while st:
            x = st.pop()
            q = relm.get(x)
            if q is not None:
                out.append((x, q))
                if len(q) <= len(P):
                    continue
            if x == self.entry.i:
                entry = True
            for p in self.pred[x]:
                if p not in seen and self.live[p]:
                    seen.add(p)
                    st.append(p)
        return out, entry

    def _is_entry_mem(self, root):
        fr, loc = root
        return fr == self.root.id and isinstance(loc, int) and 1 <= loc <= self.root.fn.argc

    def ev(self, op, at, depth=0):
        """symbolic provenance of an operand just before node `at`"""
        if op is None:
            return ("unk", "none")
        if op[0] == "k":
            return self.ev_const(op)
        return self.evp(op[1], at, depth)

    def place_expr(self, pl, at):
        """access path denoted by a written place (the memory it names, not its content)"""
        c = self.canon(pl)
        fr, loc, proj = c
        if self._is_entry_mem((fr, loc)):
            return proj_expr(("arg", loc - 1), strip(proj))
        # value of the pointer the place goes through, then the remaining projections
        k = 0
        for j, e in enumerate(proj):
            if e == "*":
                k = j + 1
        base = self.evp((fr, loc, proj[:k]), at) if k else self.evp((fr, loc, ()), at)
        return proj_expr(base, strip(proj[k:]))

    def ev_const(self, op):
        k = op[1]
        if "pr" in k:
            f = self.p.fns.get(k["pr"])
            if f is not None:
                return self.ev_promoted(f)
            return ("unk", "promoted")
        if "st" in k:
            return ("static", k["st"])
        if "v" in k:
            v = k["v"]
            if isinstance(v, dict):
                v = bytes.fromhex(v["by"]) if "by" in v else chr(v["ch"]) if "ch" in v else byte_text(v["pp"])
            return ("const", v, k.get("p"))
        if "t" in k:
            t = self.p.ty(op[2], k["t"])
            if t.k == "fndef":
                return ("fn", t.d["f"]["n"])
            return ("const", t.s, k.get("p"))
        return ("const", None, k.get("p"))

    def ev_promoted(self, f):
        memo = self.p.__dict__.setdefault("_prom", {})
        if f.id in memo:
            return memo[f.id]
        memo[f.id] = ("unk", "rec")
        g = Graph(self.p, f, drive=False, max_depth=3)
        e = g.evp((0, 0, ()), g.exit.i)
        memo[f.id] = e
        return e

    def evp(self, pl, at, depth=0):
        key = (pl, at)
        m = self._memo.get(key)
        if m is not None:
            return m
        if depth > 120:
            return ("unk", "depth")
        self._memo[key] = ("unk", "rec")
        r = self._evp(pl, at, depth)
        self._memo[key] = r
        return r

    def _evp(self, pl, at, depth):
        c = self.canon(pl)
        P = strip(c[2])
        ds, entry = self.rdefs(c, at)
        alts = []
        for i, q in ds:
            if len(q) <= len(P):
                rest = P[len(q):]
                e = self.ev_def(i, rest, depth + 1)
            else:
                # partial overwrite of a component
                e = ("part", q[len(P):], self.ev_def(i, (), depth + 1))
            alts.append(e)
        if entry or not ds:
            alts.append(self.base(c, P, at, depth))
        return phi(alts)

    def base(self, c, P, at, depth):
        fr, loc, _ = c
        if fr == self.root.id and isinstance(loc, int) and 1 <= loc <= self.root.fn.argc:
            b = ("arg", loc - 1)
        else:
            b = ("undef", fr, loc)
        return proj_expr(b, P)

    def ev_def(self, i, rest, depth):
        nd = self.nodes[i]
        if nd.k == "call":
            return self.ev_call(nd, rest, depth)
        rv = nd.d[1]
        k = rv[0]
        if self.indexed and i in self.indexed:
            q = rv[1][1] if k == "use" else rv[1]
            at = ("call", "core::ops::index::Index::index", (self.evp((q[0], q[1], q[2][:-1]), i, depth), self.evp(self.indexed[i], i, depth)), i)
            return proj_expr(at, rest)
        if k == "use":
            if rv[1][0] == "k":
                return proj_expr(self.ev_const(rv[1]), rest)
            q = rv[1][1]
            return self.evp((q[0], q[1], q[2] + rest), i, depth)
        if k == "ref":
            q = rv[1]
            return self.evp((q[0], q[1], q[2] + rest), i, depth)
        if k == "cast":
            if rv[1][0] == "k":
                return self.ev_const(rv[1])
            q = rv[1][1]
            e = self.evp((q[0], q[1], q[2] + rest), i, depth)
            if rv[2].startswith(("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat")):
                return ("cast", e, self.p.ty(*rv[3]).s, rv[2])
            return e
        if k == "bin":
            # checked arithmetic gives (value, overflow)
            if rest and rest[0] == ("f", "0"):
                rest = rest[1:]
            return proj_expr(("bin", rv[1].replace("WithOverflow", ""), self.ev(rv[2], i, depth), self.ev(rv[3], i, depth)), rest)
        if k == "un":
            return proj_expr(("un", rv[1], self.ev(rv[2], i, depth)), rest)
        if k == "disc":
            return ("disc", self.evp(rv[1], i, depth), rv[2])
        if k == "agg":
            a, ops = rv[1], rv[2]
            if rest:
                r = rest
                if r[0][0] == "v":
                    if a["k"] == "adt" and a.get("v") != r[0][1]:
                        return ("never",)
                    r = r[1:]
                if not r:
                    return self._agg(nd, a, ops, depth)
                e = r[0]
                ix = None
                if a["k"] == "adt" and e[0] == "f":
                    ix = a["f"].index(e[1]) if e[1] in a["f"] else None
                elif e[0] == "f":
                    s = e[1].lstrip("^")
                    ix = int(s) if s.isdigit() else None
                elif e[0] == "ci" and a["k"] == "array" and not e[2]:
                    ix = e[1]
                elif e[0] == "i":
                    return phi([self._opproj(o, r[1:], i, depth) for o in ops])
                if ix is not None and ix < len(ops):
                    return self._opproj(ops[ix], r[1:], i, depth)
                if ix is None and a["k"] == "adt" and e[0] == "f":   # a part of what the value was converted into
                    return proj_expr(("fld", self._agg(nd, a, ops, depth), e[1]), r[1:])
                return ("unk", "agg-proj")
            return self._agg(nd, a, ops, depth)
        if k == "elem":
            return proj_expr(("elem", self.ev(rv[1], i, depth) if rv[1] is not None else ("unk", "elem"), rv[2]), rest)
        if k == "rep":
            return ("rep", self.ev(rv[1], i, depth))
        return proj_expr(("unk", rv[1] if len(rv) > 1 else ""), rest)

    def _opproj(self, o, rest, i, depth):
        if o[0] == "k":
            return proj_expr(self.ev_const(o), rest)
        q = o[1]
        return self.evp((q[0], q[1], q[2] + rest), i, depth)

    def _agg(self, nd, a, ops, depth):
        vals = tuple(self.ev(o, nd.i, depth + 1) for o in ops)
        if a["k"] == "adt":
            return ("agg", a["p"], a["v"], tuple(zip(a["f"], vals)), nd.i)
        if a["k"] in ("closure", "coroutine"):
            return ("closure", a["d"], vals)
        return (a["k"], vals)

    def ev_call(self, nd, rest, depth):
        c = nd.d
        if self.is_transparent(c) and c.args:
            o = c.args[0]
            if o[0] == "k":
                return proj_expr(self.ev_const(o), rest)
            q = o[1]
            return self.evp((q[0], q[1], q[2] + rest), nd.i, depth)
        if c.m in ("next", "next_back") and c.tr and "terator" in c.tr and len(rest) >= 2 and rest[0] == ("v", "Some") and rest[1] == ("f", "0"):
            return proj_expr(("elem", self.ev(c.args[0], nd.i, depth + 1), -1), rest[2:])
        args = tuple(self.ev(o, nd.i, depth + 1) for o in c.args)
        if c.clo:
            # what the closures handed to this call return
            args += tuple(("clo", self.evp(rp, b, depth + 1)) for rp, b in c.clo)
        return proj_expr(("call", c.res or c.name, args, nd.i), rest)

    # ------------------------------------------------------------- exploded graph
    def exploded(self, cap=48):
        if self._ex is None:
            self._ex = Exploded(self, cap)
        return self._ex

    def assuming(self, cut, cap=48):
        """the same graph without the branches an assumption rules out (a fresh product: fewer fact combinations)"""
        return Exploded(self, cap, cut)

    def loc(self, i):
        n = self.nodes[i]
        f = n.fr.fn
        return "%s:%s (%s)" % (f.file, n.line, f.name)

    def calls(self, pred=None):
        return [n for n in self.nodes if n.k == "call" and self.live[n.i] and not n.log and (pred is None or pred(n.d))]


ONCE_CALLS = {
    "std::thread::local::LocalKey::with", "std::thread::local::LocalKey::try_with",
    "std::panic::catch_unwind", "std::thread::local::{impl#2}::with",
}
ONCE_LAST = {"with", "try_with", "catch_unwind", "temporarily"}


def strip(proj):
    return tuple(e for e in proj if e != "*")


def phi(alts):
    flat = []
    for a in alts:
        if a[0] == "never":
            continue
        if a[0] == "phi":
            for x in a[1]:
                if x not in flat:
                    flat.append(x)
        elif a not in flat:
            flat.append(a)
    if not flat:
        return ("never",)
    if len(flat) == 1:
        return flat[0]
    # drop recursion artefacts
    f2 = [x for x in flat if x != ("unk", "rec")]
    if len(f2) == 1:
        return f2[0]
    return ("phi", tuple(f2 or flat))


def byte_text(s):
    """the bytes of a byte-string constant shown as source text"""
    if isinstance(s, str) and s.startswith('*b"') and s.endswith('"'):
        try:
            return ast.literal_eval(s[1:])
        except (ValueError, SyntaxError):
            pass
    return s


def proj_expr(e, P):
    """apply projections to an expression"""
    P = list(P)
    while P:
        if e[0] == "phi":
            return phi([proj_expr(x, tuple(P)) for x in e[1]])
        if e[0] == "agg":
            v = None
            if P[0][0] == "v":
                if e[2] != P[0][1]:
                    return ("never",)
                P.pop(0)
                if not P:
                    return e
            if P[0][0] == "f":
                d = dict(e[3])
                if P[0][1] in d:
                    e = d[P[0][1]]
                    P.pop(0)
                    continue
            return ("unk", "proj")
        if e[0] in ("tuple", "array") and P[0][0] == "f" and P[0][1].isdigit() and int(P[0][1]) < len(e[1]):
            e = e[1][int(P[0][1])]
            P.pop(0)
            continue
        if e[0] == "closure" and P[0][0] == "f":
            ix = int(P[0][1].lstrip("^"))
            if ix < len(e[2]):
                e = e[2][ix]
                P.pop(0)
                continue
        h = P.pop(0)
        if h[0] == "v":
            if P and P[0][0] == "f":
                nf = P.pop(0)
                e = ("fld", e, "%s.%s" % (h[1], nf[1]))
            else:
                e = ("var", e, h[1])
        elif h[0] == "f":
            e = ("fld", e, h[1])
        elif h[0] == "i":
            e = ("elem", e, -1)
        elif h[0] == "ci":
            e = ("elem", e, ("ci", -h[1] if h[2] else h[1]))
        else:
            e = ("unk", "proj")
    return e


def show(e, d=0):
    k = e[0]
    if d > 14:
        return "…"
    if k == "arg":
        return "arg%d" % e[1]
    if k == "fld":
        return "%s.%s" % (show(e[1], d + 1), e[2])
    if k == "var":
        return "(%s as %s)" % (show(e[1], d + 1), e[2])
    if k == "const":
        return "%s" % (repr(e[1])[:60] if len(e) < 3 or e[2] is None else "%s=%s" % (e[2].split("::")[-1], repr(e[1])[:40]))
    if k == "static":
        return e[1].split("::")[-1]
    if k == "fn":
        return "fn " + e[1].split("::")[-1]
    if k == "call":
        return "%s(%s)" % ("::".join(e[1].split("::")[-2:]), ", ".join(show(a, d + 1) for a in e[2]))
    if k == "agg":
        return "%s::%s{%s}" % (e[1].split("::")[-1], e[2], ", ".join("%s: %s" % (n, show(v, d + 1)) for n, v in e[3]))
    if k in ("tuple", "array"):
        return "%s(%s)" % (k, ", ".join(show(a, d + 1) for a in e[1]))
    if k == "closure":
        return "closure(%s)" % ", ".join(show(a, d + 1) for a in e[2])
    if k == "bin":
        return "(%s %s %s)" % (show(e[2], d + 1), e[1], show(e[3], d + 1))
    if k == "un":
        return "%s(%s)" % (e[1], show(e[2], d + 1))
    if k == "disc":
        return "disc(%s)" % show(e[1], d + 1)
    if k == "phi":
        return "φ[%s]" % " | ".join(show(a, d + 1) for a in e[1])
    if k == "cast":
        return "(%s as %s)" % (show(e[1], d + 1), e[2])
    if k == "elem":
        return "%s[]" % show(e[1], d + 1)
    if k == "part":
        return "part(%s=%s)" % (".".join(str(x[-1]) for x in e[1]), show(e[2], d + 1))
    if k == "clo":
        return "->" + show(e[1], d + 1)
    if k == "rep":
        return "[%s; n]" % show(e[1], d + 1)
    return str(e)


def walk(e, f=None, _seen=None):
    """all sub-expressions"""
    out = []
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        k = x[0]
        if k in ("fld", "var", "cast", "elem", "disc", "rep", "clo"):
            st.append(x[1])
        elif k == "call":
            st.extend(x[2])
        elif k == "agg":
            st.extend(v for _, v in x[3])
        elif k in ("tuple", "array"):
            st.extend(x[1])
        elif k == "closure":
            st.extend(x[2])
        elif k == "bin":
            st.extend((x[2], x[3]))
        elif k == "un":
            st.append(x[2])
        elif k == "phi":
            st.extend(x[1])
        elif k == "part":
            st.append(x[2])
    return out


class Exploded:
    """(node, facts) product graph: facts record constants / enum variants / defining nodes of
    locals that later decide a branch, so infeasible path combinations are pruned."""

    def __init__(self, g, cap, prune=None):
        self.g = g
        self.cap = cap
        self.prune = prune
        self._moved = None
        self._relevant()
        self._liveness()
        self._run()

    def _liveness(self):
        """facts about a local are dropped once no later branch can depend on it"""
        g, R = self.g, self.R
        bit = {r: 1 << i for i, r in enumerate(R)}
        N = len(g.nodes)
        use, kill = [0] * N, [0] * N

        def ub(pl):
            c = g.canon(pl)
            return bit.get((c[0], c[1]), 0) | bit.get((pl[0], pl[1]), 0)

        def ud(pl):
            c = self.pkey(pl)
            return ub(pl) | bit.get((c[0], c[1]), 0)

        def uo(o):
            return ub(o[1]) if o and o[0] == "p" else 0
        for n in g.nodes:
            if not g.live[n.i]:
                continue
            u = 0
            if n.k == "as":
                dest, rv = n.d
                if rv[0] in ("use", "cast"):
                    u = uo(rv[1])
                elif rv[0] == "un":
                    u = uo(rv[2])
                elif rv[0] == "disc":
                    u = ud(rv[1])
                elif rv[0] == "bin":
                    u = uo(rv[2]) | uo(rv[3])
                elif rv[0] == "agg":
                    for o in rv[2]:
                        u |= uo(o)
                k = self.key(dest)
                if not k[2]:
                    kill[n.i] = bit.get((k[0], k[1]), 0)
            elif n.k == "call":
                k = self.key(n.d.dest)
                if not k[2]:
                    kill[n.i] = bit.get((k[0], k[1]), 0)
            elif n.k == "dead" and not self.moved(n.d):
                kill[n.i] = bit.get((n.d[0], n.d[1]), 0)
            elif n.k == "sw":
                o = n.d[0]
                u = uo(o)
                if o[0] == "p":
                    c = g.canon(o[1])
                    for rt in {(c[0], c[1]), (o[1][0], o[1][1])}:
                        for i in [i for i, _ in g.cdefs.get(rt, [])] + list(g.defs.get(rt, [])):
                            nd = g.nodes[i]
                            if nd.k == "as" and nd.d[1][0] == "disc":
                                u |= ud(nd.d[1][1])
            use[n.i] = u
        lv = list(use)
        pred = [[] for _ in range(N)]
        for n in g.nodes:
            for _, t in n.succ:
                pred[t].append(n.i)
        out = [0] * N
        work = deque(i for i in range(N - 1, -1, -1) if g.live[i])
        inq = set(work)
        while work:
            i = work.popleft()
            inq.discard(i)
            o = 0
            for _, t in g.nodes[i].succ:
                o |= lv[t]
            out[i] = o
            v = use[i] | (o & ~kill[i])
            if v != lv[i] or o:
                if v != lv[i]:
                    lv[i] = v
                    for pr in pred[i]:
                        if pr not in inq and g.live[pr]:
                            inq.add(pr)
                            work.append(pr)
        self.bit, self.lv = bit, lv

    def _roots_of_op(self, op):
        if op and op[0] == "p":
            c = self.g.canon(op[1])
            return [(c[0], c[1])]
        return []

    def _relevant(self):
        g = self.g
        R = set()
        work = []

        def add(r):
            if r not in R:
                R.add(r)
                work.append(r)

        for n in g.nodes:
            if g.live[n.i] and n.k == "sw":
                for r in self._roots_of_op(n.d[0]):
                    add(r)
                if n.d[0][0] == "p":
                    add((n.d[0][1][0], n.d[0][1][1]))
        while work:
            r = work.pop()
            for i, q in g.cdefs.get(r, []) + [(j, ()) for j in g.defs.get(r, [])]:
                nd = g.nodes[i]
                if nd.k != "as":
                    continue
                rv = nd.d[1]
                if rv[0] in ("use", "cast"):
                    ops = [rv[1]]
                elif rv[0] == "un":
                    ops = [rv[2]]
                elif rv[0] == "disc":
                    ops = [("p", rv[1], "c")]
                    c = self.pkey(rv[1])
                    add((c[0], c[1]))
                elif rv[0] == "agg":
                    ops = rv[2]
                elif rv[0] == "bin" and rv[1] in ("Eq", "Ne", "BitAnd", "BitOr"):
                    ops = [rv[2], rv[3]]
                else:
                    ops = []
                for o in ops:
                    for x in self._roots_of_op(o):
                        add(x)
        self.R = R

    def key(self, pl):
        c = self.g.canon(pl)
        return (c[0], c[1], strip(c[2]))

    def _run(self):
        g = self.g
        self.states = []  # (node, facts frozenset-dict)
        self.ix = {}
        self.succ = []
        self.pernode = {}
        self.capped = False

        def intern(node, facts):
            k = (node, facts)
            s = self.ix.get(k)
            if s is not None:
                return s, False
            cnt = self.pernode.get(node, 0)
            if cnt >= self.cap:
                self.capped = True
                k = (node, frozenset())
                s = self.ix.get(k)
                if s is not None:
                    return s, False
                facts = frozenset()
            self.pernode[node] = cnt + 1
            s = len(self.states)
            self.ix[k] = s
            self.states.append((node, facts))
            self.succ.append(None)
            return s, True

        s0, _ = intern(g.entry.i, frozenset())
        work = deque([s0])
        while work:
            s = work.popleft()
            node, facts = self.states[s]
            out = []
            for lab, t, nf in self._step(g.nodes[node], dict(facts)):
                if self.prune is not None and isinstance(lab, tuple) and self._out(node, s, lab):
                    continue
                l = self.lv[t]
                fs = frozenset((k, v) for k, v in nf.items() if self.bit.get((k[0], k[1]), 0) & l)
                x, new = intern(t, fs)
                out.append((lab, x))
                if new:
                    work.append(x)
            self.succ[s] = out
        self.pred = [[] for _ in self.states]
        for s, o in enumerate(self.succ):
            for lab, x in o:
                self.pred[x].append((lab, s))
        self.by_node = {}
        for s, (n, _) in enumerate(self.states):
            self.by_node.setdefault(n, []).append(s)

    def _out(self, node, s, lab):
        k = (node, lab)
        m = self.__dict__.setdefault("_outm", {})
        if k not in m:
            l = self.literal(s, lab)
            m[k] = l is not None and bool(self.prune(l))
        return m[k]

    def moved(self, d):
        """the local stands for a value that was moved out of it under another name"""
        if self._moved is None:
            self._moved = set()
            for pl, c in list(self.g._canon.items()):
                if (pl[0], pl[1]) != (c[0], c[1]):
                    nd = self.g._single.get((pl[0], pl[1]))
                    nd = self.g.nodes[nd] if nd is not None else None
                    if nd is not None and nd.k == "as" and nd.d[1][0] == "use" and not self.g._is_ref(pl[0], pl[1]):
                        self._moved.add((c[0], c[1]))
        return (d[0], d[1]) in self._moved

    def pkey(self, pl):
        """the memory behind a reference that is matched on as if it were the value (a desugared as_ref / as_mut)"""
        c = self.g.canon((pl[0], pl[1], pl[2] + ("*",)))
        return (c[0], c[1], strip(c[2]))

    def _vfact(self, F, pl):
        v = F.get(self.key(pl))
        return v if v and v[0] == "v" else F.get(self.pkey(pl)) if not pl[2] or pl[2][-1] != "*" else v

    def _kill(self, F, key):
        fr, loc, P = key
        for k in [k for k in F if k[0] == fr and k[1] == loc and (k[2][: len(P)] == P or P[: len(k[2])] == k[2] and len(k[2]) > 0 and False)]:
            del F[k]

    def _step(self, n, F):
        g = self.g
        k = n.k
        if k == "as":
            self._assign(n, F)
        elif k == "call":
            c = n.d
            key = self.key(c.dest)
            self._kill(F, key)
            if (key[0], key[1]) in self.R:
                F[key] = ("d", n.i)
            for o in c.args:
                if o[0] == "p":
                    # &mut arguments invalidate facts about what they point to
                    s = g._single.get((o[1][0], o[1][1]))
                    if s is not None and g.nodes[s].k == "as" and g.nodes[s].d[1][0] == "ref" and g.nodes[s].d[1][2]:
                        self._kill(F, self.key(g.nodes[s].d[1][1]))
        elif k == "dead":
            if not self.moved(n.d):
                self._kill(F, (n.d[0], n.d[1], ()))
        elif k == "ret":
            # facts of the returning frame die, except its return place (consumed by the next node)
            fid = n.fr.id
            if n.fr is not g.root:
                for kk in [kk for kk in F if kk[0] == fid and kk[1] != 0]:
                    del F[kk]
        elif k == "sw":
            return self._switch(n, F)
        return [(lab, t, F) for lab, t in n.succ]

    def _assign(self, n, F):
        g = self.g
        dest, rv = n.d
        key = self.key(dest)
        root = (key[0], key[1])
        rel = root in self.R
        if rv[0] == "use" and rv[1][0] == "p":
            src = self.key(rv[1][1])
            if src == key:
                return
            if rel:
                sub = [(k[2][len(src[2]):], v) for k, v in F.items() if k[0] == src[0] and k[1] == src[1] and k[2][: len(src[2])] == src[2]]
                self._kill(F, key)
                for p, v in sub:
                    F[(key[0], key[1], key[2] + p)] = v
                if not any(p == () for p, _ in sub):
                    F[key] = ("d", n.i)
            else:
                self._kill(F, key)
            if src[1] == 0 and src[0] != g.root.id:
                # return place of an inlined frame: drop it now
                for kk in [kk for kk in F if kk[0] == src[0]]:
                    del F[kk]
            return
        self._kill(F, key)
        if not rel:
            return
        if rv[0] == "use" and rv[1][0] == "k":
            kv = rv[1][1]
            if "v" in kv and not isinstance(kv["v"], dict):
                F[key] = ("c", kv["v"])
            elif "v" in kv and isinstance(kv["v"], dict):
                v = self._const_variant(kv)
                F[key] = ("v", v) if v else ("d", n.i)
            else:
                F[key] = ("d", n.i)
        elif rv[0] == "agg":
            a = rv[1]
            if a["k"] == "adt":
                if g.p.adts.get(a["p"], {}).get("k") == "enum":
                    F[key] = ("v", a["v"])
                    base = key[2] + (("v", a["v"]),)
                else:
                    base = key[2]
                names = a["f"]
            elif a["k"] in ("tuple",):
                base, names = key[2], [str(i) for i in range(len(rv[2]))]
            else:
                return
            for nm, o in zip(names, rv[2]):
                kk = (key[0], key[1], base + (("f", nm),))
                if o[0] == "k":
                    kv = o[1]
                    if "v" in kv and not isinstance(kv["v"], dict):
                        F[kk] = ("c", kv["v"])
                else:
                    src = self.key(o[1])
                    for k2, v in [(k2, v) for k2, v in F.items() if k2[0] == src[0] and k2[1] == src[1] and k2[2][: len(src[2])] == src[2]]:
                        F[(kk[0], kk[1], kk[2] + k2[2][len(src[2]):])] = v
        elif rv[0] == "disc":
            v = self._vfact(F, rv[1])
            if v and v[0] == "v":
                dv = self._discr(rv[2], v[1])
                if dv is not None:
                    F[key] = ("c", dv)
                    return
            F[key] = ("d", n.i)
        elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] == "p":
            v = F.get(self.key(rv[2][1]))
            if v and v[0] == "c" and isinstance(v[1], bool):
                F[key] = ("c", not v[1])
            else:
                F[key] = ("d", n.i)
        elif rv[0] == "bin" and rv[1] in ("Eq", "Ne", "BitAnd", "BitOr"):
            va = [self._opfact(o, F) for o in (rv[2], rv[3])]
            r = None
            if rv[1] in ("Eq", "Ne") and va[0] is not None and va[1] is not None:
                r = (va[0] == va[1]) == (rv[1] == "Eq")
            elif rv[1] == "BitAnd" and (va[0] is False or va[1] is False):
                r = False
            elif rv[1] == "BitOr" and (va[0] is True or va[1] is True):
                r = True
            F[key] = ("c", r) if r is not None else ("d", n.i)
        else:
            F[key] = ("d", n.i)

    def _opfact(self, o, F):
        if o[0] == "k":
            v = o[1].get("v")
            return v if not isinstance(v, dict) else v.get("ch")
        v = F.get(self.key(o[1]))
        return v[1] if v and v[0] == "c" else None

    def _const_variant(self, kv):
        s = kv["v"].get("pp", "")
        t = s.replace("const ", "").strip()
        last = t.split("::")[-1]
        return last if last.isidentifier() and "::" in t else None

    def _discr(self, adt, variant):
        for v in self.g.p.adts.get(adt, {}).get("v", []):
            if v["n"] == variant:
                return v["d"]
        return None

    def _switch(self, n, F):
        g = self.g
        op, vals, tys = n.d
        known = None
        key = None
        if op[0] == "k":
            known = op[1].get("v")
            if isinstance(known, dict):
                known = None
        else:
            key = self.key(op[1])
            v = F.get(key)
            if v and v[0] == "c":
                known = v[1]
            elif v is None or v[0] == "d":
                # the operand may be a discriminant of a place with a known variant
                dn = self._disc_node(op[1], v)
                if dn is not None:
                    fv = self._vfact(F, dn.d[1][1])
                    if fv and fv[0] == "v":
                        known = self._discr(dn.d[1][2], fv[1])
        if known is not None:
            kv = int(known) if isinstance(known, (bool, int)) else known
            for lab, t in n.succ:
                if lab == kv:
                    return [((lab, "known"), t, F)]
            for lab, t in n.succ:
                if lab == "else":
                    return [((lab, "known"), t, F)]
            return []
        out = []
        v = F.get(key) if key else None
        defn = v[1] if v and v[0] == "d" else None
        for lab, t in n.succ:
            F2 = dict(F)
            if key is not None:
                if tys == "bool":
                    F2[key] = ("c", lab != 0)
                    self._push(op[1], v, lab != 0, F2)
                elif lab != "else":
                    F2[key] = ("c", lab)
                dn = self._disc_node(op[1], v)
                if dn is not None:
                    adt = dn.d[1][2]
                    if lab == "else":
                        rest = [x["n"] for x in g.p.adts.get(adt, {}).get("v", []) if x["d"] not in vals]
                        if len(rest) == 1:
                            F2[self.key(dn.d[1][1])] = ("v", rest[0])
                    else:
                        nm = g.p.variant_by_discr(adt, lab)
                        if nm:
                            F2[self.key(dn.d[1][1])] = ("v", nm)
                # only keep facts for relevant roots
                for kk in [kk for kk in F2 if (kk[0], kk[1]) not in self.R]:
                    del F2[kk]
            out.append(((lab, defn), t, F2))
        return out

    def _push(self, pl, v, val, F):
        """propagate a bool outcome back through copies / negations with a single definition"""
        g = self.g
        i = v[1] if v and v[0] == "d" else g._single.get((pl[0], pl[1]))
        if i is None:
            return
        nd = g.nodes[i]
        if nd.k == "as" and nd.d[1][0] == "use" and nd.d[1][1][0] == "p":
            k = self.key(nd.d[1][1][1])
            if (k[0], k[1]) in self.R:
                F[k] = ("c", val)
        elif nd.k == "as" and nd.d[1][0] == "un" and nd.d[1][1] == "Not" and nd.d[1][2][0] == "p":
            k = self.key(nd.d[1][2][1])
            if (k[0], k[1]) in self.R:
                F[k] = ("c", not val)

    def _disc_node(self, pl, v):
        g = self.g
        i = v[1] if v and v[0] == "d" else g._single.get((pl[0], pl[1]))
        if i is None:
            return None
        nd = g.nodes[i]
        if nd.k == "as" and nd.d[1][0] == "disc":
            return nd
        return None

    # ---- literals ------------------------------------------------------------
    def literal(self, s, lab):
        """normalised condition established by leaving switch-state s through label
        -> ('b', expr, bool) | ('v', expr, adt, variant|('not', [..])) | ('i', expr, value) | None"""
        n = self.g.nodes[self.states[s][0]]
        if n.k != "sw":
            return None
        value, defn = lab
        if defn == "known":
            return None
        op, vals, tys = n.d
        if isinstance(defn, int):
            e = self.g.ev_def(defn, (), 0)
        else:
            e = self.g.ev(op, n.i)
        return norm_lit(self.g.p, e, value, vals, tys)


def norm_lit(p, e, value, vals, tys):
    if tys == "bool":
        b = value != 0
        while True:
            if e[0] == "un" and e[1] == "Not":
                e, b = e[2], not b
                continue
            if e[0] == "bin" and e[1] in ("Eq", "Ne"):
                # x == true / x == false
                done = False
                for x, y in ((e[2], e[3]), (e[3], e[2])):
                    if y[0] == "const" and isinstance(y[1], bool):
                        b = b == ((e[1] == "Eq") == y[1])
                        e = x
                        done = True
                        break
                if done:
                    continue
            break
        if e[0] == "call" and e[1].split("::")[-1] == "ne" and len(e[2]) == 2:
            e = ("call", e[1][:-2] + "eq", e[2], e[3])
            b = not b
        if e[0] == "call" and e[1].split("::")[-1] == "eq" and len(e[2]) == 2 and "PartialEq" in e[1]:
            # comparison with a payload-free variant of an enum
            for x, y in (e[2], e[2][::-1]):
                vs = [v["n"] for v in p.adts.get(y[1], {}).get("v", [])] if y[0] == "agg" and not y[3] else []
                if len(vs) > 1 and y[2] in vs:
                    return ("v", x, y[1], (y[2],) if b else tuple(v for v in vs if v != y[2]))
        if e[0] == "bin":
            op, x, y = e[1], e[2], e[3]
            if not b:
                op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op)
                if op is None:
                    return ("b", e, b)
            if op in ("Gt", "Ge"):
                op = {"Gt": "Lt", "Ge": "Le"}[op]
                x, y = y, x
            if op in ("Lt", "Le", "Eq", "Ne"):
                return ("cmp", op, x, y)
        return ("b", e, b)
    if e[0] == "disc":
        adt = e[2]
        if value == "else":
            names = [v["n"] for v in p.adts.get(adt, {}).get("v", []) if v["d"] not in vals]
            return ("v", e[1], adt, tuple(names))
        nm = p.variant_by_discr(adt, value)
        return ("v", e[1], adt, (nm,))
    return ("i", e, value, tuple(vals))
