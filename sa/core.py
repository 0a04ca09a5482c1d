"""Check harness: facts (re)build, obligations, reports, evidence."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OTEL_REPO", "/repo")
TGT = os.environ.get("OTEL_TGT", os.path.join(VERIF, "target"))
sys.path.insert(0, os.path.join(VERIF, "sa"))
from program import Program  # noqa: E402
from graph import Graph, show, walk, phi  # noqa: E402

PKGS = ["opentelemetry", "opentelemetry_sdk", "opentelemetry-http", "opentelemetry-otlp", "opentelemetry-proto", "opentelemetry-stdout",
        "opentelemetry-zipkin", "opentelemetry-jaeger-propagator", "opentelemetry-appender-log", "opentelemetry-appender-tracing"]
# configuration "all": every feature; "sdk": the SDK and the log bridges with default features (code that all-features compiles out)
CONFIGS = {
    "all": ["--all-features"] + sum([["-p", p] for p in PKGS], []),
    "sdk": ["-p", "opentelemetry_sdk", "-p", "opentelemetry-appender-log", "-p", "opentelemetry-appender-tracing"],
}
EXPECT = {
    "all": ["opentelemetry", "opentelemetry_sdk", "opentelemetry_http", "opentelemetry_otlp", "opentelemetry_proto", "opentelemetry_stdout",
            "opentelemetry_zipkin", "opentelemetry_jaeger_propagator", "opentelemetry_appender_log", "opentelemetry_appender_tracing"],
    "sdk": ["opentelemetry", "opentelemetry_sdk", "opentelemetry_appender_log", "opentelemetry_appender_tracing"],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ("target", ".git", "node_modules")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".proto")):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    for f in ("driver/src/main.rs", "driver/src/facts.rs", "driver/src/json.rs", "driver/Cargo.toml"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def env():
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = "--cap-lints=warn"
    return e


def build_driver():
    e = env()
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml"),
                        "--target-dir", os.path.join(TGT, "driver")], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("driver build failed:\n" + r.stdout[-3000:])
    return os.path.join(TGT, "driver/debug/otel-facts")


def facts(cfg="all"):
    """directory with this tree's facts for a configuration, extracting them if needed"""
    os.makedirs(TGT, exist_ok=True)
    with open(os.path.join(TGT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(TGT, "facts-%s-%s" % (cfg, tree_hash()))
        if os.path.exists(os.path.join(out, "OK")):
            return out
        drv = build_driver()
        for d in os.listdir(TGT):
            if d.startswith("facts-%s-" % cfg):
                shutil.rmtree(os.path.join(TGT, d))
        os.makedirs(out)
        e = env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["OTEL_FACTS_OUT"] = out
        td = os.path.join(TGT, "check")
        for fp in ("debug/.fingerprint", "debug/build"):  # cargo's freshness cache would skip the wrapper
            fp = os.path.join(td, fp)
            for d in os.listdir(fp) if os.path.isdir(fp) else ():
                if d.startswith("opentelemetry"):
                    shutil.rmtree(os.path.join(fp, d))
        t = time.time()
        lock = os.path.join(REPO, "Cargo.lock")
        had = os.path.exists(lock)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", td] + CONFIGS[cfg], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not had and os.path.exists(lock):
            pass
        miss = [c for c in EXPECT[cfg] if not os.path.exists(os.path.join(out, c + ".json"))]
        if r.returncode or miss:
            raise RuntimeError("fact extraction failed (%s), missing %s:\n%s" % (cfg, miss, r.stdout[-3000:]))
        with open(os.path.join(out, "OK"), "w") as fh:
            fh.write("ok")
        log("facts[%s] extracted in %.1fs" % (cfg, time.time() - t))
        return out


_prog = {}


def program(cfg="all"):
    if cfg not in _prog:
        _prog[cfg] = Program(facts(cfg))
    return _prog[cfg]


class Missing(Exception):
    pass


class Check:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.obs = []       # (key, ok, detail, loc)
        self.fnset = set()
        self.rules = []
        self.counts = {}
        self.samples = []
        self.t0 = time.time()
        self.configs = []

    def program(self, cfg="all"):
        if cfg not in self.configs:
            self.configs.append(cfg)
        return program(cfg)

    def rule(self, text):
        self.rules.append(text)

    def ob(self, key, ok, detail="", loc=""):
        """one proof obligation; key has no line numbers"""
        self.obs.append((key, bool(ok), detail, loc))
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, have=None):
        have = self.counts.get(name, 0) if have is None else have
        self.ob("floor:%s>=%d" % (name, n), have >= n, "only %d instances of %s found (expected at least %d): the rule would pass vacuously" % (have, name, n))

    def one(self, lst, what):
        if len(lst) != 1:
            raise Missing("%s: expected exactly one, found %d %s" % (what, len(lst), [getattr(x, "name", x) for x in lst][:6]))
        return lst[0]

    def graph(self, fn, **kw):
        g = Graph(fn.p, fn, **kw)
        for f in g.frames:
            self.fnset.add(f.fn.name)
        self.count("graph_nodes", len(g.nodes))
        if g.overflow:
            raise Missing("graph overflow for " + fn.name)
        return g


def known_findings():
    try:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def run(pid, title, fn, floor_obs=1, technique=""):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(pid, tier)
    try:
        fn(ck)
        if len(ck.obs) < floor_obs:
            ck.ob("floor:obligations", False, "only %d obligations were generated (expected at least %d)" % (len(ck.obs), floor_obs))
    except Missing as m:
        ck.ob("anchor:" + str(m)[:160], False, "an anchor of the rule could not be found in the current source: %s" % m)
    except Exception as ex:  # fail closed: the property was not established
        tb = traceback.format_exc()
        log(tb)
        ck.ob("analysis-error:" + type(ex).__name__, False, "the analysis could not establish the property: " + tb[-1500:])
    kf = known_findings()
    known = {(k["property"], k["key"]): k for k in kf["findings"]}
    bad, seen = [], {}
    for key, ok, detail, loc in ck.obs:
        if ok:
            continue
        if (pid, key) in known:
            seen[key] = known[(pid, key)]
        else:
            bad.append((key, detail, loc))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k, v in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, v.get("what", k)))
    replay = "evidence/%s-report.txt" % pid
    if bad:
        with open(os.path.join(VERIF, replay), "w") as f:
            f.write("property %s: %s\n\n" % (pid, title))
            for key, detail, loc in bad:
                f.write("VIOLATED obligation: %s\n  at: %s\n  %s\n\n" % (key, loc, detail))
            f.write("rules:\n" + "\n".join(" - " + r for r in ck.rules) + "\n")
        for key, detail, loc in bad[:40]:
            print("  violated: %s\n      at %s\n      %s" % (key, loc, str(detail)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(VERIF, replay)))
    elif os.path.exists(os.path.join(VERIF, replay)):
        os.remove(os.path.join(VERIF, replay))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo (MIR with resolved callees extracted on this run, configurations: %s). Rules: %s"
                           % (", ".join(ck.configs) or "-", " | ".join(ck.rules)),
            "obligations": len(ck.obs), "discharged": sum(1 for o in ck.obs if o[1]),
            "functions_analysed": len(ck.fnset),
            "functions": sorted(ck.fnset)[:400],
            "counts": ck.counts,
            "obligation_list": [o[0] for o in ck.obs][:400],
            "samples": ck.samples[:20] or [o[0] + ((" @ " + o[3]) if o[3] else "") for o in ck.obs[:10]],
            "known_findings": sorted(seen),
        },
        "assumptions": ["models of core::option/result combinators, transparent (clone/deref/into) calls and iterator adapters as in sa/graph.py",
                        "unwinding paths are not analysed"],
        "wall_s": round(time.time() - ck.t0, 2), "violations": len(bad),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d violated, %d known, %d functions, %.1fs" % (pid, title, len(ck.obs), len(bad), len(seen), len(ck.fnset), time.time() - ck.t0))
    return 1 if bad else 0
