"""Obligations, evidence and verdicts."""
import contextlib, json, os, time, sys
import extract
from facts import Crate

VERIF = extract.VERIF
REG = {}

def prop(pid, title, **kw):
    def d(f):
        REG[pid] = (f, title, kw)
        return f
    return d

class Missing(Exception): pass

_crates = {}
CACHED = False
STRIP = {"pact_matching": "pact_models::"} # names of the models are the same in the facts of both crates
def crate(name, variant="native"):
    k = (name, variant)
    if k not in _crates:
        if CACHED:
            f = os.path.join(extract.WORK, "facts", name + ("" if variant == "native" else "-" + variant) + ".jsonl")
            _crates[k] = Crate(f, STRIP.get(name))
        else:
            cs = ("pact_models",) if name == "pact_models" else ("pact_models", "pact_matching")
            r = extract.facts(cs, variant)
            for c, f in r.items():
                if (c, variant) not in _crates: _crates[(c, variant)] = Crate(f, STRIP.get(c))
    return _crates[k]

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []          # (key, status, rule, where, detail)
        self.functions = set()
        self.rules = []
        self.assume = []
        self.notes = []
        self.unknown = {}
        self.prefix = ""

    @contextlib.contextmanager
    def part(self, name):
        """Obligations of a component this property rests on, recorded under its name."""
        old, self.prefix = self.prefix, self.prefix + name + "/"
        try: yield self
        finally: self.prefix = old

    def models(self): return crate("pact_models")
    def matching(self): return crate("pact_matching")

    def spread(self, jobs):
        """Independent groups of obligations, each decided in a process of its own; recorded in the order of the jobs."""
        import pickle, traceback
        self.models()
        sys.stdout.flush(); sys.stderr.flush()
        kids = []
        for f in jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for x, _ in kids: os.close(x)
                    self.obs, self.functions, self.unknown = [], set(), {}
                    try: f(); err = None
                    except Missing: err = None
                    except BaseException: err = traceback.format_exc()
                    with os.fdopen(w, "wb") as fh: pickle.dump((self.obs, self.functions, self.unknown, self.rules, self.assume, self.notes, err), fh)
                    code = 0
                finally: os._exit(code)
            os.close(w)
            kids.append((r, pid))
        errs = []
        for r, pid in kids:
            with os.fdopen(r, "rb") as fh: data = fh.read()
            os.waitpid(pid, 0)
            if not data: errs.append("a part ended without a result"); continue
            obs, fns, unk, rules, assume, notes, err = pickle.loads(data)
            self.obs += obs; self.functions |= fns
            for k, n in unk.items(): self.unknown[k] = self.unknown.get(k, 0) + n
            for mine, theirs in ((self.rules, rules), (self.assume, assume), (self.notes, notes)): mine += [x for x in theirs if x not in mine]
            if err: errs.append(err)
        if errs: raise RuntimeError("\n".join(errs))

    def ob(self, key, ok, detail="", where="", rule=""):
        """Records one obligation: ok True (discharged), False (violated) or None (left open)."""
        key = self.prefix + key
        self.obs.append((key, "ok" if ok is True else "open" if ok is None else "bad", rule, where, detail))
        return ok

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def where(self, fn, c=None):
        r = (c or self.models()).fns.get(fn) or next((x.fns[fn] for x in _crates.values() if fn in x.fns), None)
        if r is None: return fn
        sp = r["span"]
        return "rust/%s:%d (%s)" % (sp[0], sp[1], fn)

    def need(self, fn, c=None):
        """The function must exist: it is part of the public surface the property is anchored on."""
        c = c or next((x for x in _crates.values() if fn in x.fns), None) or self.models()
        if fn not in c.fns:
            self.ob("anchor:" + fn, False, "the anchor %s no longer exists; the property cannot be established" % fn, fn, "anchor")
            raise Missing(fn)
        return fn

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return {}
    with open(p) as f: d = json.load(f)
    return {(k["property"], k["key"]): k for k in d.get("known", [])}

def short(s, n=1500): return s if len(s) <= n else s[:n] + "…"

def run(pid, tier, seed):
    f, title, kw = REG[pid]
    ctx = Ctx(pid, tier, seed)
    try: f(ctx)
    except Missing: pass
    kf = known_findings()
    bad = [o for o in ctx.obs if o[1] == "bad"]
    new, old = [], []
    for o in bad: (old if (pid, o[0]) in kf else new).append(o)
    n_ok = sum(1 for o in ctx.obs if o[1] == "ok")
    n_open = sum(1 for o in ctx.obs if o[1] == "open")
    floor = kw.get("floor", 1)
    if n_ok + len(old) + n_open + len(new) < floor:
        new.append(("coverage", "bad", "floor", "", "only %d obligations were found where at least %d are expected: the check no longer sees the code it is about" % (len(ctx.obs), floor)))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: " + " ".join(ctx.rules or [title]),
            "obligations": len(ctx.obs), "discharged": n_ok, "left_open": n_open, "known_findings": len(old),
            "functions_analysed": len(ctx.functions), "functions": sorted(ctx.functions)[:2000],
            "obligation_list": [{"key": o[0], "status": o[1], "where": o[3]} | ({"detail": short(o[4], 400)} if o[1] != "ok" and o[4] else {}) for o in sorted(ctx.obs, key=lambda o: {"bad": 0, "open": 1, "ok": 2}[o[1]])][:600],
            "library_calls_without_transfer_function": dict(sorted(ctx.unknown.items(), key=lambda x: -x[1])[:40]),
        },
        "assumptions": ctx.assume, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    for o in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[(pid, o[0])].get("what", o[0])))
    if new:
        rp = os.path.join("evidence", pid + ".violation.json")
        with open(os.path.join(VERIF, rp), "w") as fh:
            json.dump({"property": pid, "violations": [{"key": o[0], "rule": o[2], "where": o[3], "detail": o[4]} for o in new], "replay": "cd /verif && python3 check.py " + pid}, fh, indent=1)
        for o in new:
            print("  %s [%s] %s: %s" % (pid, o[0], o[3], short(o[4], 700)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s: %d obligations, %d discharged, %d open, %d known, %d violated, %.1fs" % (pid, len(ctx.obs), n_ok, n_open, len(old), len(new), time.time() - ctx.t0))
    return 1 if new else 0
