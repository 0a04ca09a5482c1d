"""Loads the MIR facts written by the rustc driver and indexes the program."""
import json, os, glob


class Ty:
    __slots__ = ("p", "c", "i", "d")

    def __init__(self, p, c, i):
        self.p, self.c, self.i = p, c, i
        self.d = p.crates[c]["types"][i]

    @property
    def s(self):
        return self.d["s"]

    @property
    def k(self):
        return self.d["k"]

    def sub(self, i):
        return self.p.ty(self.c, i)

    def peel(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.sub(t.d["t"])
        return t

    @property
    def adt(self):
        t = self.peel()
        return t.d["p"] if t.k == "adt" else None

    def args(self):
        return [self.sub(i) for i in self.d.get("a", [])]

    def deep(self, wrappers=("alloc::rcs::arc::Arc", "alloc::boxed::Box", "core::pin::Pin", "alloc::rc::Rc", "alloc::rcs::rc::Rc")):
        """peel references and owning smart pointers"""
        t = self.peel()
        while t.k == "adt" and t.d["p"] in wrappers and t.d["a"]:
            t = t.sub(t.d["a"][0]).peel()
        return t

    def __repr__(self):
        return "Ty(%s)" % self.s


class Fn:
    def __init__(self, p, crate, d):
        self.p, self.crate, self.d = p, crate, d
        self.id, self.name, self.kind = d["id"], d["n"], d["k"]
        self.item = d.get("item")
        self.trait = d.get("trait")
        self.parent = d.get("parent")
        self.file, self.line = d["file"], d["line"]
        self.argc = d["argc"]
        self.gen = d.get("gen", [])
        self.derived = d.get("derived", False)

    @property
    def self_ty(self):
        return self.p.ty(self.crate, self.d["self"]) if "self" in self.d else None

    @property
    def self_adt(self):
        t = self.self_ty
        return t.adt if t else None

    def local_ty(self, l):
        return self.p.ty(self.crate, self.d["locals"][l][0])

    def local_name(self, l):
        x = self.d["locals"][l]
        return x[1] if len(x) > 1 else None

    def __repr__(self):
        return "Fn(%s)" % self.name


class Program:
    def __init__(self, outdir, only=None):
        self.crates = {}
        self.fns = {}
        self.byname = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self._ty = {}
        for f in sorted(glob.glob(os.path.join(outdir, "*.json"))):
            nm = os.path.basename(f)[:-5]
            if only and nm not in only:
                continue
            with open(f) as fh:
                d = json.load(fh)
            c = d["crate"]
            self.crates[c] = d
            for x in d["fns"]:
                fn = Fn(self, c, x)
                self.fns[fn.id] = fn
                self.byname.setdefault(fn.name, []).append(fn)
            for k, v in d["adts"].items():
                if v["local"] or k not in self.adts:
                    v["crate"] = c
                    self.adts[k] = v
            for k, v in d["traits"].items():
                self.traits.setdefault(k, dict((a, b) for a, b in v))
            for im in d["impls"]:
                im["crate"] = c
                im["self_ty"] = self.ty(c, im["self"])
                self.impls.append(im)
        self.children = {}
        for f in self.fns.values():
            if f.parent:
                self.children.setdefault(f.parent, []).append(f)
        self.impl_ix = {}
        for im in self.impls:
            if "trait" in im:
                self.impl_ix.setdefault((im["trait"], im["self_ty"].adt or im["self_ty"].s), []).append(im)

    def ty(self, c, i):
        k = (c, i)
        t = self._ty.get(k)
        if t is None:
            t = self._ty[k] = Ty(self, c, i)
        return t

    # ---- lookups -----------------------------------------------------
    def find(self, suffix, kind="fn"):
        """functions whose name ends with suffix ('A::b' or '<T as Tr>::m' style)"""
        return [f for f in self.fns.values() if f.kind == kind and (f.name == suffix or f.name.endswith("::" + suffix) or f.name.endswith(suffix) and suffix.startswith("<"))]

    def method(self, adt, item, trait=None, inherent=False):
        """method `item` of type whose path ends with `adt` (optionally of trait ending with `trait`)"""
        out = []
        for f in self.fns.values():
            if f.item != item or f.kind != "fn" or "self" not in f.d:
                continue
            a = f.self_adt
            if a is None or not (a == adt or a.endswith("::" + adt)):
                continue
            if trait is not None and not (f.trait and (f.trait == trait or f.trait.endswith("::" + trait))):
                continue
            if inherent and f.trait:
                continue
            out.append(f)
        return out

    def adt_path(self, suffix):
        r = [k for k in self.adts if k == suffix or k.endswith("::" + suffix)]
        return r

    def impls_of(self, trait):
        return [im for im in self.impls if im.get("trait") and (im["trait"] == trait or im["trait"].endswith("::" + trait))]

    def variants(self, adt):
        return self.adts[adt]["v"] if adt in self.adts else None

    def variant_by_discr(self, adt, val):
        for v in self.adts.get(adt, {}).get("v", []):
            if v["d"] == val:
                return v["n"]
        return None
