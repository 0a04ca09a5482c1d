"""No application code runs while the context stack or a global registry is exclusively held."""
from checks.util import *
from checks.c02 import is_pos, is_len

TITLE = "No application code runs under the context stack or a global registry lock"
FLOOR = 12

GUARDS = ("core::cell::RefMut", "std::sync::poison::rwlock::RwLockWriteGuard", "std::sync::poison::mutex::MutexGuard")


def is_acquire(c):
    n = c.name
    return c.m in ("borrow_mut", "try_borrow_mut") and "RefCell" in n or c.m in ("write", "try_write") and "RwLock" in n or c.m in ("lock", "try_lock") and "sync::poison::mutex::Mutex" in n


def on_static(e):
    """the lock lives in a static / thread-local"""
    return has(e, lambda x: x[0] == "static" or x[0] == "const" and "LocalKey" in str(x[1]))


def guard_ty(t):
    return t is not None and any(s in t.s for s in ("RefMut<", "RwLockWriteGuard<", "MutexGuard<"))


def runs_user(dropinfo):
    return any(x.startswith(("dyn:", "param:")) for x in dropinfo)


def entries(p):
    """outermost functions whose inlined body acquires an exclusive hold on a static"""
    out = []
    for f in p.fns.values():
        if f.crate != "opentelemetry" or not f.d.get("bb"):
            continue
        for b in f.d["bb"]:
            if b and b[1][0] == "call" and "n" in b[1][1]:
                c = b[1][1]
                m, n = c["n"].split("::")[-1], c["n"]
                if m in ("borrow_mut", "try_borrow_mut") and "RefCell" in n or m in ("write", "try_write") and "RwLock" in n:
                    o = f
                    while o.parent and o.parent in p.fns:
                        o = p.fns[o.parent]
                    if o not in out:
                        out.append(o)
    return out


def check(ck):
    p = ck.program("all")
    ck.rule("between acquiring an exclusive hold (mutable borrow of the thread's context stack, write lock of a global registry) and dropping its guard there is no destructor of a value that may contain application data, no call of a trait object / generic parameter / application closure, and no diagnostic event")
    hs = entries(p)
    names = sorted(h.name for h in hs)
    need = {"opentelemetry::context::Context::attach": 1, "<opentelemetry::context::ContextGuard as core::ops::drop::Drop>::drop": 1}
    for k in need:
        ck.ob("holder:" + k, any(k == n for n in names), "expected holder not found: %s" % names)
    ck.count("holders", len(hs))
    ck.floor("holders", 5)
    for fn in hs:
        q = Q(ck.graph(fn))
        g = q.g
        short = fn.name.split("::")[-1] if fn.item != "drop" else "guard-drop"
        acq = [n for n in q.calls(is_acquire) if on_static(g.ev(n.d.args[0], n.i)) or n.d.args and has(g.ev(n.d.args[0], n.i), lambda x: x[0] == "call" and "get_or_init" in x[1])]
        ck.ob("%s:acquires" % short, bool(acq), "the acquisition was not found", loc(fn))
        rel = []
        for n in g.nodes:
            if n.i not in q.ex.by_node:
                continue
            if n.k == "drop" and guard_ty(n.d[1]):
                rel.append(n)
            elif n.k == "call" and n.d.m == "drop" and "mem" in n.d.name and n.d.f.get("g") and guard_ty(g.p.ty(n.fr.fn.crate, n.d.f["g"][0])):
                rel.append(n)
        w = q.not_after(acq, rel)
        ck.ob("%s:released" % short, bool(rel), "no release of the guard found", loc(fn))
        aq = {n.i for n in acq}

        def poisoned(l):
            return variant_lit(l, "Err", lambda e: e[0] == "call" and e[3] in aq)

        def impossible(l):
            # a live guard's position is in 1..=len (established by the attach/detach discipline, see C02)
            return (cmp_lit(l, ("Eq",), is_pos, lambda e: intval(e) in (0, 65535)) or cmp_lit(l, ("Eq",), lambda e: intval(e) in (0, 65535), is_pos)
                    or cmp_lit(l, ("Le", "Lt"), is_len, is_pos))
        region = q.reach(q.after(q.S(acq)), avoid=q.S(rel), cut=poisoned)
        diag = q.reach(q.after(q.S(acq)), avoid=q.S(rel), cut=lambda l: poisoned(l) or impossible(l))
        bad = {}
        for s in region:
            n = g.nodes[q.ex.states[s][0]]
            if n.log or n.k == "log":
                if s not in diag:
                    continue
                bad.setdefault("diagnostic", (n, "a diagnostic event is emitted (application subscribers run)"))
                continue
            if n.k == "drop" and runs_user(n.d[2]):
                e = g.evp(n.d[0], n.i)
                if released_slot(q, n, e):
                    ck.count("excused_empty_drops")
                    continue
                bad.setdefault("drop:%s" % show(short_e(e))[:60], (n, "drops %s of type %s" % (show(e)[:120], n.d[1].s[:80])))
            elif n.k == "call":
                c = n.d
                if c.name == "<indirect>":
                    bad.setdefault("indirect", (n, "calls a function value"))
                elif c.rk == "dyn" or c.tr and c.res is None and not c.tr.startswith(("core::convert", "core::ops::deref", "core::clone", "core::default")):
                    if not c.tr.startswith("core::ops::function") or not c.clo:
                        bad.setdefault("call:%s::%s" % (c.tr.split("::")[-1], c.m), (n, "calls %s::%s on a trait object or generic parameter" % (c.tr, c.m)))
                elif c.tr and c.res is None and c.recv_ty is not None and c.recv_ty.peel().k == "param":
                    bad.setdefault("call:%s::%s" % (c.tr.split("::")[-1], c.m), (n, "calls %s on a generic parameter" % c.name))
                elif c.m in ("drop", "clear", "truncate", "drain", "retain") and c.args:
                    t = c.recv_ty
                    if not guard_ty(t):
                        bad.setdefault("drop-call:%s" % c.m, (n, "%s destroys values" % c.name))
        ck.count("region_states", len(region))
        ck.ob("%s:region" % short, len(region) > 0, "empty exclusive region", loc(fn))
        ck.ob("%s:clean" % short, True)
        for k, (n, why) in sorted(bad.items()):
            ck.ob("%s:%s" % (short, k), False, why + " while the exclusive hold is active", g.loc(n.i))


def released_slot(q, n, e):
    """dropping a popped slot that is known to be empty"""
    if not (e[0] == "call" and e[1].endswith("Vec::pop")):
        return False
    st = e[2][0]

    def lit(l):
        return l[0] == "v" and l[3] == ("None",) and (
            l[1][0] == "fld" and l[1][2] == "Some.0" and l[1][1][0] == "call" and (l[1][1][1].split("::")[-1] in ("last", "last_mut") and l[1][1][2][0] == st or l[1][1] == e) or l[1] == e)
    return q.unguarded([n], lit) is None


def short_e(e):
    return norm(e)
