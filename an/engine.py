"""Abstract interpreter over MIR.

It computes, for a function of the analysed crate, a *value graph*: every value the function produces is a hash-consed
term over the function's inputs (fields read, library calls applied, constants, alternatives joined with the branch
conditions that select them).  Nothing is executed: branches on unknown values are joined, loops are taken to a
fixpoint, calls to functions of the crate are analysed in their calling context, and library calls are terms or are
described by the transfer functions in models.py.
"""
import re
import sys
from guards import *
import guards
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------------------------------------- terms

class T:
    __slots__ = ("op", "args", "id", "_depth", "_atoms")
    def __repr__(self): return show(self)

_tab = {}
def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = len(_tab); t._depth = None; t._atoms = None
        _tab[k] = t
    return t

def const(kind, v): return mk("const", kind, v)
TRUE, FALSE = const("bool", True), const("bool", False)
RECORD = {}       # calls of functions given by a check: name -> [(arguments, guard)]
UNIT = mk("agg", "()", "", ())
UNDEF = mk("undef")
def cstr(s): return const("str", s)
def sym(n): return mk("sym", n)
# library functions without a model that were met: their values are only ever compared as they are
UNKNOWN = set()

def agg(ty, variant, fields): return mk("agg", ty, variant, tuple(fields))
def call(name, *args): return mk("call", name, tuple(args))
OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
def some(x): return agg(OPT, "Some", (x,))
NONE = agg(OPT, "None", ())
def ok(x): return agg(RES, "Ok", (x,))
def err(x): return agg(RES, "Err", (x,))
def boolc(b): return TRUE if b else FALSE

def subterms(t):
    """Direct sub-terms of t (values only, guards included)."""
    out = []
    def walk(a):
        if isinstance(a, T): out.append(a)
        elif isinstance(a, (tuple, frozenset)):
            for x in a: walk(x)
        elif isinstance(a, G): out.extend(support(a))
    for a in t.args: walk(a)
    return out

def atoms(t):
    """Ids of all terms reachable from t."""
    if t._atoms is None:
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x.id in seen: continue
            seen.add(x.id)
            stack.extend(subterms(x))
        t._atoms = seen
    return t._atoms

def contains(t, s): return s.id in atoms(t)

def find_all(t, pred):
    seen, stack, out = set(), [t], []
    while stack:
        x = stack.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if pred(x): out.append(x)
        stack.extend(subterms(x))
    return out

def depth(t):
    if t._depth is None:
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x._depth is not None: continue
            if done:
                x._depth = 1 + max([s._depth or 0 for s in subterms(x)] or [0])
            else:
                stack.append((x, True))
                for s in subterms(x):
                    if s._depth is None: stack.append((s, False))
    return t._depth

def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, (tuple, list)): return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset): return "{" + ", ".join(sorted(show(x, d) for x in t)) + "}"
        return str(t)
    if d <= 0: return "…"
    o, a = t.op, t.args
    if o == "const": return repr(a[1]) if a[0] == "str" else "%s" % (a[1],)
    if o == "sym": return a[0]
    if o == "achar":
        m = sorted(a[0])
        return "‹%s%s#%s›" % ("".join(m[:4]), "…" if len(m) > 4 else "", a[1])
    if o == "text": return "`" + "".join(str(c.args[1]) if c.op == "const" else show(c) for c in a[0]) + "`"
    if o == "field":
        b = show(a[0], d)
        return "%s%s.%s" % (b, ":" + a[1] if a[1] else "", a[2])
    if o == "agg":
        nm = a[0].split("::")[-1] + ("::" + a[1] if a[1] and a[1] != a[0].split("::")[-1] else "")
        return nm + "(" + ", ".join(show(x, d - 1) for x in a[2]) + ")" if a[2] else nm
    if o == "call": return a[0].split("::")[-1].replace(">", "") + "(" + ", ".join(show(x, d - 1) for x in a[1]) + ")"
    if o == "phi": return "φ{" + " | ".join(sorted(show_g(g, d - 2) + show(v, d - 1) for g, v in a[0])) + "}"
    if o == "coll": return "[" + "; ".join(sorted(["*" + show(b, d - 1) for b in a[0]] + [show_g(g, d - 2) + (show(k, d - 1) + "=>" if k is not None else "") + show(v, d - 1) for k, v, g in a[1]])) + "]"
    if o == "loop": return "loop%s" % (t.id,)
    if o == "mref": return "&mut %s" % (a,)
    return o + "(" + ", ".join(show(x, d - 1) for x in a) + ")"

def show_g(g, d=3):
    if g is None: return "⟨never⟩"
    if g is TT: return ""
    out = []
    for c in cubes(g, 6):
        out.append(" ∧ ".join(sorted("%s=%s" % (show(v, max(d, 2)), "|".join(sorted(map(str, o)))) for v, o in c.items())))
    return "⟨" + " ∨ ".join(sorted(out)) + "⟩"

# ---------------------------------------------------------------------------------------------- alternatives

MAXALT = 24

def phi(alts):
    """Join of (guards, value) alternatives; nested joins are flattened."""
    out = {}
    for g, v in alts:
        if v is UNDEF or g is None: continue
        if v.op == "phi":
            for g2, v2 in v.args[0]:
                gg = conj(g, g2)
                if gg is not None: out.setdefault(v2, []).append(gg)
        else: out.setdefault(v, []).append(g)
    if not out: return UNDEF
    if len(out) == 1: return next(iter(out))
    res = set()
    for v, gs in out.items():
        res.add((disj(gs), v))
    if len(res) > MAXALT:
        vs = frozenset(v for _, v in res)
        return mk("many", vs)
    return mk("phi", frozenset(res))

def alts(t):
    """Alternatives of a term as (guards, value)."""
    if t.op == "phi": return list(t.args[0])
    if t.op == "many": return [(TT, v) for v in t.args[0]]
    return [(TT, t)]

# ---------------------------------------------------------------------------------------------- program structure

class Fn:
    """CFG facts of one MIR body."""
    def __init__(self, rec):
        self.r = rec
        self.id = rec["id"]
        bl = rec["blocks"]
        n = len(bl)
        self.n = n
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b is None: continue
            self.succ[i] = [s for s in term_succ(b["t"]) if bl[s] is not None]
        # RPO
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = [[] for _ in range(n)]
        for b in order:
            for s in self.succ[b]: self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]: x = idom[x]
                        while self.rpo[y] > self.rpo[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(self.pred[x])
        # address-taken locals (by &mut or raw pointer), and locals assigned in loops
        self.addr = set()
        asg = [set() for _ in range(n)]
        use = [set() for _ in range(n)]
        full = [set() for _ in range(n)]
        def u(b, x):
            for l in place_locals(x):
                if l not in full[b]: use[b].add(l)
        for i in order:
            b = bl[i]
            for pl, rv, _ in b["s"]:
                k = rv[0]
                if k == "ref" and rv[1] and "*" not in rv[2][1:]: self.addr.add(rv[2][0])
                if k == "rawptr" and "*" not in rv[1][1:]: self.addr.add(rv[1][0])
                for x in rvalue_places(rv): u(i, x)
                if len(pl) > 1: u(i, pl)
                asg[i].add(pl[0])
                if len(pl) == 1: full[i].add(pl[0])
            t = b["t"]
            for x in term_places(t): u(i, x)
            if t["t"] in ("call", "yield"):
                pl = t["dst"]
                if len(pl) > 1: u(i, pl)
                asg[i].add(pl[0])
                if len(pl) == 1: full[i].add(pl[0])
        self.asg = asg
        # liveness
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]: o |= live[s]
                i_ = use[b] | (o - full[b])
                if bl[b]["t"]["t"] == "return": i_ = i_ | ({0} if 0 not in full[b] else set())
                if i_ != live[b]: live[b] = i_; changed = True
        self.live = live
        # iterator local that a loop draws from: the operand of the call to next at its head
        self.loop_it = {}
        for h, body in self.loops.items():
            b, refs = h, {}
            for _ in range(4):
                for pl, rv, _sp in bl[b]["s"]:
                    if rv[0] == "ref" and rv[1] and len(pl) == 1: refs[pl[0]] = rv[2]
                t = bl[b]["t"]
                if t["t"] == "call":
                    fo = t["f"]
                    if t["args"] and "m" in t["args"][0] and len(t["args"][0]["m"]) == 1:
                        src = refs.get(t["args"][0]["m"][0])
                        while src is not None and len(src) == 2 and src[1] == "*" and src[0] in refs: src = refs[src[0]]
                        if src is not None: self.loop_it[h] = (src, fo)
                    break
                if t["t"] not in ("goto", "drop") or t["to"] not in body: break
                b = t["to"]
        self.loop_asg = {h: set().union(*[asg[x] for x in body]) for h, body in self.loops.items()}

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0 or b not in self.idom: return False
            b = self.idom[b]

def term_succ(t):
    k = t["t"]
    if k in ("goto", "drop", "assert", "yield"): return [t["to"]]
    if k == "call": return [t["to"]] if t["to"] is not None else []
    if k == "switch":
        out = []
        for _, b in t["ts"]:
            if b not in out: out.append(b)
        if t["else"] not in out: out.append(t["else"])
        return out
    return []

def op_places(o):
    if "c" in o: return [o["c"]]
    if "m" in o: return [o["m"]]
    return []

def rvalue_places(rv):
    k = rv[0]
    if k == "use": return op_places(rv[1])
    if k == "repeat": return op_places(rv[1])
    if k == "ref": return [rv[2]]
    if k == "rawptr": return [rv[1]]
    if k == "cast": return op_places(rv[2])
    if k == "bin": return op_places(rv[2]) + op_places(rv[3])
    if k == "un": return op_places(rv[2])
    if k == "discr": return [rv[1]]
    if k == "agg":
        out = []
        for o in rv[2]: out += op_places(o)
        return out
    return []

def term_places(t):
    k = t["t"]
    if k == "switch": return op_places(t["d"])
    if k == "call":
        out = op_places(t["f"])
        for a in t["args"]: out += op_places(a)
        return out
    if k == "assert":
        out = op_places(t["cond"])
        for o in t["msg"][1:]:
            if isinstance(o, dict): out += op_places(o)
        return out
    if k == "yield": return op_places(t["v"])
    return []

def place_locals(p):
    out = [p[0]]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i": out.append(e[1])
    return out

LOGMAC = {"trace", "debug", "warn", "error", "info", "event", "instrument", "span"}

def in_log(sp):
    return len(sp) > 3 and any(m in LOGMAC or m.endswith("::event") for m in sp[3])

class Budget(Exception): pass

MAXPEEL = 40        # ... or iterations of a loop whose exits are all determined
MAXUNROLL = 6       # lists of at most this many known elements are followed element by element

# ---------------------------------------------------------------------------------------------- the interpreter

class Event:
    __slots__ = ("kind", "fn", "span", "data", "guards", "uid", "bb")
    def __init__(self, kind, fn, span, data, guards, uid, bb):
        self.kind, self.fn, self.span, self.data, self.guards, self.uid, self.bb = kind, fn, span, data, guards, uid, bb

_programs = {}
def program(crates):
    """Tables of the functions and types of a list of crates, shared between interpreters."""
    k = tuple(id(c) for c in crates)
    if k not in _programs:
        recs, adts, ctors = {}, {}, {}
        for c in crates:
            for n, r in c.fns.items(): recs.setdefault(n, (r, c))
            for n, a in c.adts.items():
                if n not in adts or a.get("local"): adts[n] = a
        for p, a in adts.items():
            if a["kind"] == "enum":
                for v in a["variants"]: ctors[p + "::" + v["name"]] = (p, v["name"])
            else: ctors[p] = (p, p.split("::")[-1])
        _programs[k] = ({}, recs, adts, ctors, {}, list(crates))
    return _programs[k][:5]

class Interp:
    def __init__(self, crates, opaque=lambda n: False, maxdepth=14, budget=400000, keep=None):
        self.crates = crates
        self.fmemo = {}
        self.fns, self.recs, self.adts, self.ctors, self._lazy = program(crates)
        self.opaque = opaque
        self.maxdepth = maxdepth
        self.budget = budget
        self.keep = keep
        self.events = {}
        self.loopin = {}
        self.inlined = set()
        self.unknown = {}
        self.stack, self.sizes = [], []
        self.maporder = None      # "asc"/"desc": follow the iteration of maps with known entries in this order
        self.maxpeel = MAXPEEL
        self.peel = False         # also follow loops of any other form, as long as every decision in them is determined
        self.sumloop = False      # inside a loop that is summarised rather than followed
        self.closloop = True      # closures handed to library functions may run any number of times
        import models
        self.models = models.Models(self)

    # -- program access
    def fn(self, name):
        f = self.fns.get(name)
        if f is None and name in self.recs:
            f = self.fns[name] = Fn(self.recs[name][0])
            f.crate = self.recs[name][1]
        return f

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v["name"] for v in a["variants"]] if a else []

    # -- values
    def field(self, b, variant, name, idx=None):
        if b.op in ("phi", "many", "with"):
            k = (b, variant, name, idx)
            r = self.fmemo.get(k)
            if r is None: r = self.fmemo[k] = self.field1(b, variant, name, idx)
            return r
        return self.field1(b, variant, name, idx)

    def field1(self, b, variant, name, idx=None):
        o = b.op
        if o == "agg":
            if variant and b.args[1] != variant: return UNDEF
            i = idx if idx is not None else self.fidx(b.args[0], b.args[1], name)
            if i is not None and i < len(b.args[2]): return b.args[2][i]
            return UNDEF
        if o == "phi": return phi([(g, self.field(v, variant, name, idx)) for g, v in b.args[0]])
        if o == "many": return phi([(TT, self.field(v, variant, name, idx)) for v in b.args[0]])
        if o == "with":
            base, ups = b.args
            for p, v in ups:
                if p == (variant, name): return v
            return self.field(base, variant, name, idx)
        if o == "tryb":
            kind, x = b.args
            if variant == "Continue": return self.field(x, "Ok" if kind == RES else "Some", "0", 0)
            if variant == "Break": return mk("residual", kind, x)
        if o == "next":
            if variant == "Some": return self.models.elem(b.args[0])
        if o == "undef": return UNDEF
        if o == "entry": return b
        if o == "closure":
            i = idx if idx is not None else int(name)
            return b.args[1][i] if i < len(b.args[1]) else UNDEF
        if o == "optcast":      # Option payload extractors such as as_str(v)
            if variant == "Some": return b.args[1]
        if o == "call":
            r = self.models.field_of_call(b, variant, name)
            if r is not None: return r
        return mk("field", b, variant, name)

    def fidx(self, adt, variant, name):
        if name.isdigit(): return int(name)
        a = self.adts.get(adt)
        if a:
            for v in a["variants"]:
                if not variant or v["name"] == variant or a["kind"] != "enum":
                    for i, f in enumerate(v["fields"]):
                        if f[0] == name: return i
        return None

    def with_field(self, b, variant, name, idx, val):
        if b.op == "agg" and (not variant or b.args[1] == variant):
            i = idx if idx is not None else self.fidx(b.args[0], b.args[1], name)
            if i is not None and i < len(b.args[2]):
                fs = list(b.args[2]); fs[i] = val
                return mk("agg", b.args[0], b.args[1], tuple(fs))
        if b.op == "phi":
            return phi([(g, self.with_field(v, variant, name, idx, val)) for g, v in b.args[0]])
        if b.op == "with":
            base, ups = b.args
            d = dict(ups)
        else: base, d = b, {}
        d[(variant, name)] = val
        return mk("with", base, tuple(sorted(d.items(), key=lambda kv: (kv[0][0] or "", kv[0][1]))))

    def discr(self, t, adt):
        """Discriminant of t: a known variant name, or a term."""
        o = t.op
        if o == "agg": return ("known", t.args[1])
        if o == "entry" and len(t.args) > 2: return ("known", t.args[2])
        if o == "optcast": return ("terms", self.models.optcast_guard(t))
        if o == "tryb":
            m = {"Ok": "Continue", "Err": "Break", "Some": "Continue", "None": "Break"}
            r = self.discr(t.args[1], t.args[0])
            if r[0] == "known": return ("known", m.get(r[1], r[1]))
            return ("try", t.args[1], t.args[0])
        if o == "phi":
            vs = set()
            for g, v in t.args[0]:
                r = self.discr(v, adt)
                vs.add(r[1] if r[0] == "known" else None)
            if len(vs) == 1 and None not in vs: return ("known", vs.pop())
        if o == "with": return self.discr(t.args[0], adt)
        d = mk("discr", t)
        if adt in self.adts and self.adts[adt]["kind"] == "enum":
            DOMAIN.setdefault(d, frozenset(self.variants(adt)))
        return ("term", d)

    # -- guards
    def lits(self, t, outcome):
        """Guard set equivalent to (term == outcome); None when impossible.  outcome: value or frozenset of values."""
        os = outcome if isinstance(outcome, frozenset) else frozenset([outcome])
        o = t.op
        if o == "const":
            return TT if t.args[1] in os else None
        if o == "achar":
            hit = t.args[0] & os
            return None if not hit else TT if t.args[0] <= os else lit(t, hit)
        if o == "discr":
            x = t.args[0]
            if x.op == "agg": return TT if x.args[1] in os else None
            if x.op == "entry" and len(x.args) > 2: return TT if x.args[2] in os else None
            if x.op == "phi":
                parts = []
                for g, v in x.args[0]:
                    if t in DOMAIN: DOMAIN.setdefault(mk("discr", v), DOMAIN[t])
                    l = self.lits(mk("discr", v), os) if v.op != "undef" else None
                    if l is None: continue
                    c = conj(g, l)
                    if c is not None: parts.append(c)
                if not parts: return None
                return disj(parts)
            if x.op == "tryb":
                m = {"Continue": ("Ok" if x.args[0] == RES else "Some"), "Break": ("Err" if x.args[0] == RES else "None")}
                o2 = frozenset(m[v] for v in os)
                d2 = mk("discr", x.args[1])
                DOMAIN.setdefault(d2, frozenset(m.values()))
                return self.lits(d2, o2)
            if x.op == "optcast":
                g = self.models.optcast_guard(x)
                if os == frozenset(["Some"]): return g
                if os == frozenset(["None"]): return neg(g)
                return TT
            if x.op == "next":
                if os == frozenset(["Some"]): return conj(lit(t, "Some"), self.models.elem_guard(x.args[0]))
                return TT
            if x.op == "with": return self.lits(mk("discr", x.args[0]), os)
        if o == "phi":
            parts = []
            for g, v in t.args[0]:
                l = self.lits(v, os)
                if l is None: continue
                c = conj(g, l)
                if c is not None: parts.append(c)
            if not parts: return None
            return disj(parts)
        if o == "un" and t.args[0] == "Not" and os <= frozenset([True, False]):
            return self.lits(t.args[1], frozenset(not x for x in os))
        if o == "isvar":
            d = mk("discr", t.args[0])
            vs = frozenset(t.args[1])
            dom = frozenset(t.args[2])
            DOMAIN.setdefault(d, dom)
            want = frozenset()
            if True in os: want |= vs
            if False in os: want |= dom - vs
            return self.lits(d, want)
        if os >= frozenset(dom_of(t)) and (t in DOMAIN or os == frozenset([True, False])): return TT
        r = self.models.lits(t, os)
        if r is not None: return r
        return lit(t, os)

    def neg(self, g): return neg(g)

    # -- memory
    def read_cell(self, st, m):
        cell, path = m.args
        v = st.get(cell, UNDEF)
        for p in path: v = self.proj1(v, p)
        return v

    def proj1(self, v, p):
        k = p[0]
        if k == "f": return self.field(v, p[1], p[2], p[3])
        if k == "key": return self.models.lookup_val(v, p[1])
        if k == "elem": return self.models.elem(v)
        if k == "at": return self.models.index(v, const("int", p[1]))
        if k == "val": return self.field(self.models.elem(v), None, "1", 1)
        if k == "json": return self.models.json_index(v, p[1])
        return UNDEF

    def upd1(self, v, path, val, guards):
        if not path: return val
        p, rest = path[0], path[1:]
        k = p[0]
        if k == "f":
            return self.with_field(v, p[1], p[2], p[3], self.upd1(self.field(v, p[1], p[2], p[3]), rest, val, guards))
        if k == "key":
            inner = self.upd1(self.models.lookup_val(v, p[1]), rest, val, guards)
            return self.models.coll_insert(v, p[1], inner, guards)
        if k == "at":
            if v.op == "agg" and v.args[0] == "[]" and p[1] < len(v.args[2]):
                inner = self.upd1(v.args[2][p[1]], rest, val, guards)
                return agg("[]", "", v.args[2][:p[1]] + (inner,) + v.args[2][p[1] + 1:])
            if v.op == "phi": return phi([(g, self.upd1(x, path, val, guards)) for g, x in v.args[0]])
            p, k = ("elem",), "elem"
        if k in ("elem", "val"):
            cur = self.proj1(v, p)
            inner = self.upd1(cur, rest, val, guards)
            return mk("mapelems", v, cur, inner) if inner is not cur else v
        if k == "json":
            inner = self.upd1(self.models.json_index(v, p[1]), rest, val, guards)
            return self.models.json_set(v, p[1], inner, guards)
        return v

    def write_cell(self, st, m, val, guards):
        cell, path = m.args
        st[cell] = self.upd1(st.get(cell, UNDEF), path, val, guards) if path else val

    # -- places
    def lkey(self, F, uid, l): return (uid, l) if l in F.addr else l

    def read_place(self, fr, st, p):
        v = st.get(self.lkey(fr.F, fr.uid, p[0]), UNDEF)
        variant = None
        for e in p[1:]:
            if e == "*":
                if v.op == "mref": v = self.read_cell(st, v)
                continue
            k = e[0]
            if v.op == "mref" and k == "f":
                # field of a by-value wrapper around a mutable reference (boxes, Unique, MaybeUninit)
                if e[4] in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit", "std::mem::ManuallyDrop"): continue
            if v.op == "phi" and any(x.op == "mref" for _, x in v.args[0]) and k == "f":
                pass
            if k == "v": variant = e[2]; continue
            if k == "f":
                if e[4] in ("std::boxed::Box", "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::ptr::Unique", "std::ptr::NonNull"): variant = None; continue
                v = self.field(v, variant, e[3], e[1]); variant = None
            elif k == "i": v = self.models.index(v, st.get(self.lkey(fr.F, fr.uid, e[1]), UNDEF))
            elif k == "c": v = self.models.index(v, const("int", e[1] if not e[3] else -e[1]))
            elif k == "s": v = mk("call", "subslice", (v, const("int", e[1]), const("int", e[2])))
        return v

    def deref_all(self, st, v):
        if v.op == "mref": return self.deref_all(st, self.read_cell(st, v))
        if v.op == "phi" and any(x.op == "mref" for _, x in v.args[0]):
            return phi([(g, self.deref_all(st, x)) for g, x in v.args[0]])
        return v

    def place_ref(self, fr, st, p):
        """A mutable reference to place p."""
        F, uid = fr.F, fr.uid
        base = st.get(self.lkey(F, uid, p[0]), UNDEF)
        if len(p) == 1: return mk("mref", self.lkey(F, uid, p[0]), ())
        cur = mk("mref", self.lkey(F, uid, p[0]), ()) if p[0] in F.addr else None
        val = base
        path = ()
        cell = self.lkey(F, uid, p[0])
        variant = None
        refs = [(TT, cell, ())]
        for e in p[1:]:
            if e == "*":
                out = []
                for g, cell, path in refs:
                    v = st.get(cell, UNDEF)
                    for q in path: v = self.proj1(v, q)
                    for g2, x in alts(v):
                        gg = conj(g, g2)
                        if gg is None: continue
                        if x.op == "mref": out.append((gg, x.args[0], x.args[1]))
                        else:
                            c = ("sym", x)
                            if c not in st: st[c] = x
                            out.append((gg, c, ()))
                refs = out
                continue
            k = e[0]
            if k == "v": variant = e[2]; continue
            if k == "f":
                if e[4] in ("std::boxed::Box", "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::ptr::Unique", "std::ptr::NonNull"): variant = None; continue
                step = ("f", variant, e[3], e[1]); variant = None
            elif k in ("i", "c", "s"): step = ("elem",)
            else: step = ("elem",)
            refs = [(g, c, pa + (step,)) for g, c, pa in refs]
        return phi([(g, mk("mref", c, pa)) for g, c, pa in refs])

    def write_place(self, fr, st, p, val, guards):
        F, uid = fr.F, fr.uid
        if len(p) == 1:
            st[self.lkey(F, uid, p[0])] = val; return
        r = self.place_ref(fr, st, p)
        al = alts(r)
        for g, m in al:
            if m.op != "mref": continue
            if len(al) == 1: self.write_cell(st, m, val, guards)
            else:
                old = self.read_cell(st, m)
                self.write_cell(st, m, phi([(g, val), (neg(g), old)]), guards)

    # -- operands and rvalues
    def operand(self, fr, st, o):
        if "c" in o: return self.read_place(fr, st, o["c"])
        if "m" in o: return self.read_place(fr, st, o["m"])
        return self.constant(fr, o["k"])

    def constant(self, fr, k):
        if "fn" in k: return self.fnterm(k["fn"])
        if "str" in k: return cstr(k["str"])
        if "bool" in k: return boolc(k["bool"])
        if "int" in k: return const("int", int(k["int"]))
        if "char" in k: return const("char", k["char"])
        if "float" in k: return const("float", k["float"])
        if "promoted" in k:
            return self.promoted(fr, k["promoted"])
        ty = fr.F.crate.tys[k["ty"]] if "ty" in k else None
        if "static" in k:
            # the initial value of an immutable list of constants
            r = self.run_const(k["static"]) if self.peel and k["static"] in self.recs and self.recs[k["static"]][0]["kind"] == "static" else None
            if r is not None and r.op == "agg" and r.args[0] == "[]": return r
            return mk("static", k["static"])
        if k.get("zst") and ty is not None:
            if ty["k"] == "tuple" and not ty["args"]: return UNIT
            if ty["k"] == "fndef": return self.fnterm(ty["fn"])
            if ty["k"] == "closure": return mk("closure", ty["def"], ())
            if ty["k"] == "adt" and ty["adt"] in self.adts: return agg(ty["adt"], self.adts[ty["adt"]]["variants"][0]["name"] if self.adts[ty["adt"]]["variants"] else "", ())
        if "named" in k and k["named"] in self.recs: 
            r = self.run_const(k["named"])
            if r is not None: return r
        if "named" in k: return mk("named", k["named"])
        return const("dbg", k.get("dbg") or str(k.get("ty")))

    def fnterm(self, f):
        n = f.get("r") or f["p"]
        if n in self.ctors: return mk("ctor",) + () if False else mk("ctor", *self.ctors[n])
        return mk("fn", n, f["p"], bool(f.get("virt")), tuple(f.get("a", ())))

    def run_const(self, name):
        key = ("constval", name)
        c = self.__dict__.setdefault("_consts", {})
        if name in c: return c[name]
        c[name] = None
        F = self.fn(name)
        if F is None or len(F.order) > 60: return None
        try:
            v, _ = self.exec(F, [], {}, TT, ("const", name), 0)
            c[name] = v
        except Budget: raise
        return c[name]

    def promoted(self, fr, pr):
        name, idx = pr
        key = "%s#promoted%d" % (name, idx)
        c = self.__dict__.setdefault("_consts", {})
        if key in c: return c[key]
        rec = self.recs.get(name)
        if rec is None or idx >= len(rec[0]["promoted"]):
            # duplicate ids: fall back to the frame's own record
            if idx < len(fr.F.r.get("promoted", [])): rec = (fr.F.r, fr.F.crate)
            else: return mk("named", key)
        r = dict(rec[0]["promoted"][idx]); r["id"] = key; r["promoted"] = []
        F = Fn(r); F.crate = rec[1]
        v, _ = self.exec(F, [], {}, TT, ("const", key), 0)
        c[key] = v
        return v

    def rvalue(self, fr, st, rv, guards, sp):
        k = rv[0]
        if k == "use": return self.operand(fr, st, rv[1])
        if k == "ref":
            if rv[1]: return self.place_ref(fr, st, rv[2])
            v = self.read_place(fr, st, rv[2])
            return v
        if k == "rawptr": return self.place_ref(fr, st, rv[1])
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == "adt": 
                return self.models.make_adt(kk[1], kk[3], ops)
            if kk[0] == "tuple": return agg("()", "", ops)
            if kk[0] == "array": return agg("[]", "", ops)
            if kk[0] in ("closure", "coroutine"): return mk("closure", kk[1], tuple(ops))
            return mk("agg", "?", "", tuple(ops))
        if k == "discr":
            v = self.deref_all(st, self.read_place(fr, st, rv[1]))
            ty = fr.F.crate.tys[rv[2]]
            adt = ty.get("adt")
            return mk("discrv", v, adt)
        if k == "cast":
            v = self.operand(fr, st, rv[2])
            kind = rv[1]
            if kind in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                t = fr.F.crate.ty(rv[3])
                if v.op == "const" and v.args[0] in ("int",) and kind == "IntToInt": return self.models.cast_const(v, t)
                if v in (TRUE, FALSE): return const("int", int(v is TRUE))
                if v.op != "const" and self.optype(fr, rv[2]) == "bool":
                    l1, l2 = self.lits(v, True), self.lits(v, False)
                    if l1 is not None and l2 is not None: return phi([(l1, const("int", 1)), (l2, const("int", 0))])
                if v.op == "const" and v.args[0] == "char": return const("int", ord(v.args[1]))
                if v.op == "achar" and all(ord(x) < (256 if t == "u8" else 1 << 31) for x in v.args[0]) and kind == "IntToInt": return v
                self.event("cast", fr, sp, (kind, v, t, self.optype(fr, rv[2])), guards)
                return mk("cast", kind, t, v, self.optype(fr, rv[2]))
            return v
        if k == "bin":
            a, b = self.deref_all(st, self.operand(fr, st, rv[2])), self.deref_all(st, self.operand(fr, st, rv[3]))
            return self.models.binop(rv[1], a, b)
        if k == "un":
            a = self.deref_all(st, self.operand(fr, st, rv[2]))
            return self.models.unop(rv[1], a)
        if k == "repeat": return mk("coll", frozenset(), frozenset([(None, self.operand(fr, st, rv[1]), TT)]))
        return mk("rv", k)

    def optype(self, fr, o):
        for key in ("c", "m"):
            if key in o and len(o[key]) == 1: return fr.F.crate.ty(fr.F.r["locals"][o[key][0]])
            if key in o:
                last = o[key][-1]
                if isinstance(last, list) and last[0] == "f": return fr.F.crate.ty(last[2])
        return None

    def event(self, kind, fr, sp, data, guards, extra=None):
        if self.quiet: return
        key = (fr.uid, fr.bb, kind, extra, sp[0], sp[1], sp[2])
        self.events[key] = Event(kind, fr.F.id, sp, data, conj(fr.ctx, guards) or TT, fr.uid, fr.bb)

    quiet = False

    # -- function execution
    def run(self, name, args=None, mem=None):
        """Interprets function `name` on symbolic arguments; returns (return value, final memory)."""
        F = self.fn(name)
        if F is None: raise KeyError(name)
        st = dict(mem or {})
        if args is None: args = []
        args = list(args)
        names = F.r["names"]
        for i in range(len(args), F.r["argc"]):
            n = names.get(str(i + 1), "arg%d" % (i + 1))
            ty = F.crate.tys[F.r["locals"][i + 1]]
            s = sym(n)
            if ty["k"] == "ref" and ty["mut"]:
                c = ("param", n); st[c] = s
                args.append(mk("mref", c, ()))
            else: args.append(s)
        return self.exec(F, args, st, TT, (name,), 0)

    def exec(self, F, args, st0, ctx, uid, dep):
        fr = Frame(); fr.F, fr.uid, fr.ctx, fr.dep = F, uid, ctx, dep
        fr.tpar, self.tnext = self.tnext, {}
        bl = F.r["blocks"]
        st = dict(st0)
        for i, a in enumerate(args): st[self.lkey(F, uid, i + 1)] = a
        # A node is a block together with the iteration number of every exactly known loop around it.
        outs = {}          # (pred node, node) -> state
        pred = {}          # node -> pred nodes
        edge_g = {}
        cond = {}          # node -> guards in this frame
        import heapq
        start = (0, ())
        def prio(n):
            o = []
            for h, i in n[1]: o += [F.rpo[h], i + 1]
            if exact.get(n): o += [F.rpo[n[0]], 0]
            o.append(F.rpo[n[0]])
            return tuple(o)
        exact = {}         # node of a loop head -> is the loop followed element by element
        work = [(prio(start), start)]
        inq = {start}
        visits = {}
        retst = {}
        prev_in = {}
        peeled = set()     # heads of loops that are followed as long as their exits are determined
        def demote(hn):
            """The loop with head node hn is summarised after all."""
            b, cx = hn
            exact[hn] = False
            peeled.discard(hn)
            def inside(x): return len(x[1]) > len(cx) and x[1][:len(cx)] == cx and x[1][len(cx)][0] == b
            for e in [e for e in outs if inside(e[0]) or inside(e[1]) or e[0] == hn]:
                del outs[e]; edge_g.pop(e, None); pred.get(e[1], set()).discard(e[0])
            for x in [x for x in retst if inside(x)]: del retst[x]
            for w in [w for w in work if inside(w[1])]: work.remove(w); inq.discard(w[1])
            heapq.heapify(work)
            prev_in.pop(hn, None); visits[hn] = 0
        while work:
            _, nd = heapq.heappop(work); inq.discard(nd)
            b, cx = nd
            visits[nd] = visits.get(nd, 0) + 1
            self.budget -= 1
            if self.budget < 0: raise Budget(F.id)
            if b in F.loops and nd not in exact and not (cx and cx[-1][0] == b): exact[nd] = (b in F.loop_it or self.peel) and b != 0
            def enter():
                if nd == start and visits[nd] == 1: return dict(st), TT
                return self.join(fr, nd, outs, edge_g, pred, cond, st if nd == start else None, visits[nd], exact)
            S, g = enter()
            if S is None: continue
            if exact.get(nd) and not (cx and cx[-1][0] == b):
                S2 = self.exact_loop(fr, b, S) if b in F.loop_it else None
                if S2 is not None: S = S2
                elif self.peel: peeled.add(nd)
                else:
                    demote(nd)
                    S, g = enter()
                    if S is None: continue
            if nd in prev_in and visits[nd] > 1:
                if prev_in[nd][0] == S and prev_in[nd][1] == g: continue
            if visits[nd] > 12: continue
            prev_in[nd] = (dict(S), g)
            cond[nd] = g
            fr.bb = nd if cx else b
            for pl, rv, spn in bl[b]["s"]:
                fr.log = in_log(spn)
                if rv[0] == "setdiscr": continue
                v = self.rvalue(fr, S, rv, g, spn)
                self.write_place(fr, S, pl, v, self.allg(fr, g))
            t = bl[b]["t"]
            k = t["t"]
            nxt = []
            if k == "return":
                retst[nd] = (self.read_place(fr, S, [0]), S, g)
            elif k in ("goto", "drop"): nxt = [(t["to"], TT)]
            elif k == "yield": nxt = [(t["to"], TT)]
            elif k == "assert":
                c = self.operand(fr, S, t["cond"])
                if not (c.op == "const" and c.args[1] == t["exp"]):
                    ops = tuple(self.deref_all(S, self.operand(fr, S, o)) if isinstance(o, dict) else o for o in t["msg"])
                    self.event("assert", fr, t["sp"], (t["msg"][0], ops, c, t["exp"]), g)
                l = self.lits(c, t["exp"]) if c.op != "undef" else TT
                if l is not None: nxt = [(t["to"], TT)]
            elif k == "switch":
                d = self.deref_all(S, self.operand(fr, S, t["d"]))
                nxt = self.switch(fr, S, t, d, g)
            elif k == "call":
                outer = self.sumloop
                if not outer and F.loops: self.sumloop = any(b in F.loops[h] and not any(x[0] == h for x in cx) and not (h == b and exact.get(nd)) for h in F.loops)
                try: r = self.do_call(fr, S, t, g)
                finally: self.sumloop = outer
                if t["to"] is not None and r is not None:
                    self.write_place(fr, S, t["dst"], r, self.allg(fr, g))
                    nxt = [(t["to"], TT)]
            targets = {}
            for to, gg in nxt: targets.setdefault(to, []).append(gg)
            here = cx + ((b, 0),) if exact.get(nd) and not (cx and cx[-1][0] == b) else cx
            if peeled:
                again = None
                for n, (h, i) in enumerate(here):
                    hn = (h, here[:n])
                    if hn not in peeled: continue
                    feas = [to for to in targets if any(conj(g, x, ctx) is not None for x in targets[to])]
                    ins = [to for to in feas if to in F.loops[h]]
                    if ins and len(ins) < len(feas) or h in ins and i >= self.maxpeel: again = hn; break
                if again is not None:
                    demote(again)
                    if again not in inq: inq.add(again); heapq.heappush(work, (prio(again), again))
                    continue
            for to in F.succ[b]:
                if to not in targets: continue
                eg = disj(targets[to])
                full = conj(g, eg)
                if full is None: continue
                if conj(ctx, full) is None: continue
                ncx = tuple(hi for hi in here if to in F.loops[hi[0]])
                if ncx and ncx[-1][0] == to:
                    i = ncx[-1][1] + 1
                    if i > (self.maxpeel if self.peel else MAXUNROLL): continue
                    ncx = ncx[:-1] + ((to, i),)
                n2 = (to, ncx)
                outs[(nd, n2)] = S if len(targets) == 1 else dict(S)
                edge_g[(nd, n2)] = full
                pred.setdefault(n2, set()).add(nd)
                if n2 not in inq:
                    inq.add(n2); heapq.heappush(work, (prio(n2), n2))
        if not retst: return None, None
        if len(retst) == 1:
            v, S, g = next(iter(retst.values()))
            return v, S
        common = disj([g for _, _, g in retst.values()])
        items = sorted(retst.items())
        v = phi([(restrict(g, common), v) for _, (v, _, g) in items])
        keys = set()
        for _, (_, S, _) in items: keys |= {k for k in S if isinstance(k, tuple)}
        out = {}
        for k in keys:
            vs = [(restrict(g, common), S[k]) for _, (_, S, g) in items if k in S]
            out[k] = self.models.join_values(vs)
        return v, out

    def allg(self, fr, g):
        c = conj(fr.ctx, g)
        return c if c is not None else TT

    def exact_loop(self, fr, h, S):
        """State at the head of a loop over a list whose elements are all known, or None."""
        src, fo = fr.F.loop_it[h]
        if len(src) > 1 and src[1:] != ["*"]: return None
        k = self.lkey(fr.F, fr.uid, src[0])
        v = S.get(k)
        if v is None: return None
        ref = None
        if v.op == "mref": ref, v = v, self.read_cell(S, v)
        items = self.models.exact_items(v)
        if items is None or len(items) > (self.maxpeel if self.peel else MAXUNROLL): return None
        S = dict(S)
        if ref is not None: self.write_cell(S, ref, mk("seq", tuple(items)), TT)
        else: S[k] = mk("seq", tuple(items))
        return S

    def join(self, fr, nd, outs, edge_g, pred, cond, st_entry, visit, exact):
        F = fr.F
        b, cx = nd
        edges = sorted(p for p in pred.get(nd, ()) if (p, nd) in outs)
        isloop = b in F.loops and not exact.get(nd) and not (cx and cx[-1][0] == b)
        fwd = [p for p in edges if not (isloop and p[0] in F.loops[b])]
        ent = []
        if st_entry is not None: ent = [("entry", st_entry, TT)]
        if not edges and not ent: return None, None
        # condition of the block
        gs = []
        for p in fwd:
            eg = edge_g[(p, nd)]
            # leaving a loop: only the condition under which the loop was entered remains
            for h, body in F.loops.items():
                if p[0] in body and b not in body:
                    hn = (h, tuple(x for x in p[1] if h in F.loops[x[0]] and x[0] != h))
                    if hn in cond and not exact.get(hn): eg = cond[hn]
            gs.append(eg)
        for _ in ent: gs.append(TT)
        g = disj(gs) if gs else TT
        if len(edges) + len(ent) == 1 and not isloop:
            return dict(outs[(edges[0], nd)]) if edges else dict(ent[0][1]), g
        live = F.live[b]
        allst = [(edge_g[(p, nd)], outs[(p, nd)], p) for p in edges] + [(eg, s, "entry") for _, s, eg in ent]
        keys = set()
        for _, s, _ in allst: keys |= s.keys()
        res = {}
        common = disj([eg for eg, _, _ in allst]) if allst else TT
        la = F.loop_asg.get(b, ())
        for k in keys:
            if not isinstance(k, tuple):
                if k not in live: continue
            vs = []
            for eg, s, p in allst:
                if k in s and s[k] is not UNDEF: vs.append((restrict(eg, common), s[k], p))
            if not vs: continue
            first = vs[0][1]
            if all(v is first for _, v, _ in vs):
                if isloop and visit == 1 and not isinstance(k, tuple) and k in la and k not in F.addr and first.op not in ("coll", "mref"):
                    # assigned in the loop: start from the loop symbol at once
                    s = mk("loop", fr.uid, nd if cx else b, k)
                    self.loopin[s] = {(TT, first)}
                    res[k] = s
                else: res[k] = first
                continue
            if isloop:
                s = mk("loop", fr.uid, nd if cx else b, k)
                if s not in self.loopin and all(v.op == "agg" and self.struct_of_colls(v) for _, v, _ in vs) and len({(v.args[0], v.args[1], len(v.args[2])) for _, v, _ in vs}) == 1:
                    # a structure of collections that grow in the loop
                    res[k] = self.models.join_values([(TT, v) for _, v, _ in vs])
                    continue
                if s in self.loopin or not all(self.models.is_coll(v) for _, v, _ in vs):
                    ii = set()
                    for eg, v, p in vs:
                        if v is not s: ii.add((eg, v))
                    others = {v for _, v in ii}
                    self.loopin[s] = ii
                    if all(self.models.is_coll(v) or v is s for _, v, _ in vs) and s not in [v for _, v, _ in vs]:
                        res[k] = self.models.join_values([(TT, v) for _, v, _ in vs])
                    elif len(others) == 1 and len(vs) > 1 and visit > 1 and others and all(v is s or v is next(iter(others)) for _, v, _ in vs) and not contains(next(iter(others)), s):
                        res[k] = next(iter(others))
                    else: res[k] = s
                    continue
                res[k] = self.models.join_values([(TT, v) for _, v, _ in vs])
                continue
            res[k] = self.models.join_values([(eg, v) for eg, v, _ in vs])
        return res, g

    def struct_of_colls(self, v):
        """A structure that holds at least one collection built here and otherwise plain values."""
        return v.args[0] not in ("[]", "()", OPT, RES) and any(self.models.is_coll(x) for x in v.args[2]) and all(self.models.is_coll(x) or x.op != "phi" for x in v.args[2])

    def switch(self, fr, S, t, d, g):
        out = []
        ctxg = conj(fr.ctx, g) or TT
        ty = fr.F.crate.tys[t["ty"]]
        known = dict()
        if d.op == "discrv":
            v, adt = d.args
            names = {}
            a = self.adts.get(adt)
            if a:
                for x in a["variants"]: names[str(int(x["discr"]))] = x["name"]
            dom = frozenset(names.values())
            dt = mk("discr", v)
            if v.op not in ("agg",) and dom: DOMAIN.setdefault(dt, dom)
            if v.op == "tryb": DOMAIN[dt] = frozenset(["Continue", "Break"])
            used = set()
            cases = []
            for val, to in t["ts"]:
                nm = names.get(val, "?" + val)
                used.add(nm)
                cases.append((frozenset([nm]), to))
            rest = dom - used
            if rest: cases.append((rest, t["else"]))
        else:
            isb = ty["s"] == "bool"
            cases = []
            used = set()
            for val, to in t["ts"]:
                if isb: o = (val != "0")
                elif ty["s"] == "char": o = chr(int(val))
                else: o = int(val)
                used.add(o)
                cases.append((frozenset([o]), to))
            if isb: cases.append((frozenset([True, False]) - used, t["else"]))
            else: cases.append((None, t["else"]))
            dt = d
        for os, to in cases:
            if os is not None and not os: continue
            if os is None:
                # default of an integer/char switch
                if dt.op == "const":
                    if dt.args[1] in used: continue
                    out.append((to, TT)); continue
                if dt.op == "achar" and dt.args[0] <= used: continue
                l = self.lits(dt, frozenset(used)) if used else None
                l = neg(l) if l is not None else TT
                if l is not None: out.append((to, l))
                continue
            if dt.op == "undef": out.append((to, TT)); continue
            if dt.op == "const" and dt.args[0] not in ("bool", "int", "char"): out.append((to, lit(dt, os))); continue
            l = self.lits(dt, os)
            if l is None: continue
            if conj(ctxg, l) is None: continue
            out.append((to, l))
        return out

    def call_closure(self, fr, st, f, args, g, tag, once=False):
        """Applies a function value (closure, fn item, constructor) to argument terms."""
        f = self.deref_all(st, f)
        if f.op == "phi":
            return phi([(gg, self.call_closure(fr, st, x, args, conj(g, gg) or TT, (tag, i), once) or UNDEF) for i, (gg, x) in enumerate(sorted(f.args[0], key=lambda y: y[1].id))])
        if f.op == "closure":
            F = self.fn(f.args[0])
            if F is None: return call("closure?" + f.args[0], *args)
            so, co = self.sumloop, self.closloop
            if not once: self.sumloop, self.closloop = so or co, True
            try: return self.inline(fr, st, F, [f] + list(args), g, tag)
            finally: self.sumloop, self.closloop = so, co
        if f.op == "recorder":
            RECORD.setdefault(f.args[0], []).append((tuple(self.deref_all(st, a) for a in args), conj(g, fr.ctx)))
            return UNIT
        if f.op == "ctor":
            return self.models.make_adt(f.args[0], f.args[1], list(args))
        if f.op == "agg" and f.args[0] == "nom" and len(args) == 1:
            import nomc
            r = nomc.apply(self.models, lambda x: self.deref_all(st, x), lambda h, xs, tg: self.call_closure(fr, st, h, xs, g, (tag, tg)), f, args[0])
            if r is not None: return r
        if f.op == "fn":
            return self.call_named(fr, st, f.args[0], f.args[1], f.args[2], list(args), g, tag, None)
        return call("apply", f, *[self.deref_all(st, a) for a in args])

    def inline(self, fr, st, F, args, g, tag):
        n, cut = sum(1 for s in self.stack if s == F.id), False
        sz = sum(depth(self.deref_all(st, a)) for a in args) if self.peel and F.r["kind"] != "closure" else 0
        if n >= 1 and F.r["kind"] != "closure": cut = not self.peel or sz >= self.sizes[len(self.stack) - 1 - self.stack[::-1].index(F.id)]      # recursion is followed into smaller arguments only
        elif n >= 3: cut = not self.peel
        if fr.dep >= (2 * self.maxdepth if self.peel else self.maxdepth) or cut:
            self.unknown.setdefault("cut:" + F.id, 0)
            return self.external(fr, st, F.id, args, g)
        uid = fr.uid + ((fr.bb, tag),)
        self.inlined.add(F.id)
        self.stack.append(F.id); self.sizes.append(sz)
        try:
            mem = {k: v for k, v in st.items() if isinstance(k, tuple)}
            self.tnext = self.type_params(fr, F, len(args))
            v, m = self.exec(F, args, mem, self.allg(fr, g), uid, fr.dep + 1)
        finally: self.stack.pop(); self.sizes.pop()
        if v is None: return None
        for k, x in m.items():
            if isinstance(k, tuple) and not (k and k[0] == uid) and not (isinstance(k[0], tuple) and k[0][:len(uid)] == uid and k[0] != fr.uid): st[k] = x
            elif isinstance(k, tuple) and k[0] == "box": st[k] = x
        return v

    def external(self, fr, st, name, args, g):
        """An opaque call: a term; mutable references handed to it are overwritten with a term of their own."""
        vals = tuple(self.deref_all(st, a) for a in args)
        for i, a in enumerate(args):
            for gg, m in alts(a):
                if m.op == "mref":
                    old = self.read_cell(st, m)
                    if depth(old) > 40: new = mk("mut", name, i, "deep")
                    else: new = mk("mut", name, i, vals)
                    self.write_cell(st, m, new if len(alts(a)) == 1 else phi([(gg, new), (neg(gg), old)]), g)
        return mk("call", name, vals)

    def do_call(self, fr, st, t, g):
        fk = t["f"].get("k", {}).get("fn") if "k" in t["f"] else None
        args = [self.operand(fr, st, a) for a in t["args"]]
        if fk is None:
            f = self.operand(fr, st, t["f"])
            return self.call_closure(fr, st, f, args, g, "c")
        name = fk.get("r") or fk["p"]
        fr.log = in_log(t["sp"])
        fr.sp = t["sp"]
        fr.targs = fk.get("a", ())
        fr.curt = t
        fr.dstty = None
        return self.call_named(fr, st, name, fk["p"], bool(fk.get("virt")), args, g, "c", t)

    tnext = {}
    def type_name(self, fr, ty):
        """A type as text, with the type parameters that are known here replaced; None when one is not known."""
        if ty["k"] == "param": return fr.tpar.get(ty["name"])
        if ty["k"] in ("adt", "ref", "tuple", "slice", "array", "ptr") and re.search(r"\b[A-Z][A-Z0-9]?\b", ty["s"]): return None
        return ty["s"]

    def type_params(self, fr, F, n):
        """The type parameters of a function that is called, as far as the declared types of its arguments give them."""
        if F.r["kind"] == "closure": return fr.tpar
        t, out = getattr(fr, "curt", None), {}
        if t is None or len(t["args"]) != n: return out
        for i, o in enumerate(t["args"]):
            p = F.crate.tys[F.r["locals"][i + 1]]
            if p["k"] != "param": continue
            pl = o.get("c") or o.get("m")
            x = fr.F.r["locals"][pl[0]] if pl and len(pl) == 1 else pl[-1][2] if pl and isinstance(pl[-1], list) and pl[-1][0] == "f" else o["k"].get("ty") if "k" in o else None
            x = self.type_name(fr, fr.F.crate.tys[x]) if x is not None else None
            if x is not None: out[p["name"]] = x
        return out

    def generic_impl(self, fr, path):
        """The method of the implementation that a call through type parameters reaches."""
        ix = getattr(self, "_gimpls", None)
        if ix is None:
            ix = self._gimpls = {}
            for n in self.recs:
                m = re.fullmatch(r"(?:<|.*<impl )(.*) (as|for) (.*)>::(\w+)", n)
                if not m or "{closure" in n: continue
                ty, tr = (m.group(1), m.group(3)) if m.group(2) == "as" else (m.group(3), m.group(1))
                ix.setdefault((tr.split("<")[0] + "::" + m.group(4), ty, tr.partition("<")[2][:-1]), n)
        ts = [self.type_name(fr, fr.F.crate.tys[a]) for a in fr.targs]
        if None in ts or not ts: return None
        return ix.get((path, ts[0], ", ".join(ts[1:])))

    def trait_method(self, path):
        """path is a method of a trait of this program that some type implements."""
        ms = getattr(self, "_tm", None)
        if ms is None:
            ms = self._tm = set()
            for n in self.recs:
                if n.startswith("<") and " as " in n and ">::" in n:
                    tr = n[n.index(" as ") + 4:].split("::{closure")[0]
                    if not tr.startswith(("std::", "core::", "alloc::", "serde")): ms.add(tr.replace(">::", "::", 1))
        return path in ms

    def impl_of(self, fr, ty, tr, me, t):
        """The method of the (only) implementation of a generic trait for a type, or of the one with the type of the result."""
        ix = getattr(self, "_impls", None)
        if ix is None:
            ix = self._impls = {}
            for n in self.recs:
                if n[0] != "<" or " as " not in n or "{closure" in n: continue
                a, _, b = n[1:].partition(" as ")
                b, _, m = b.rpartition(">::")
                ix.setdefault((a.split("<")[0], b.split("<")[0], m), []).append(n)
        c = ix.get((ty.split("<")[0], tr.split("<")[0], me), [])
        if len(c) > 1 and t is not None and len(t.get("dst", ())) == 1:
            want = fr.F.r["locals"][t["dst"][0]]
            c = [n for n in c if self.recs[n][0]["locals"][0] == want]
        return c[0] if len(c) == 1 else None

    def call_named(self, fr, st, name, path, virt, args, g, tag, t):
        if fr.log if hasattr(fr, "log") else False:
            if name.startswith("tracing") or "::__CALLSITE" in name: 
                return mk("log")
        if name in self.ctors: return self.models.make_adt(*self.ctors[name], args)
        if self.keep is not None:
            r = self.keep(self, fr, st, name, path, virt, args, g)
            if r is not None: return r
        if not virt and args and name == path and fr.tpar and t is not None:
            n = self.generic_impl(fr, path)
            if n is not None and not self.opaque(n): return self.inline(fr, st, self.fn(n), args, g, tag)
        if virt or args and name == path and self.trait_method(path):
            # a trait object, or a type parameter, of known type
            rc = self.deref_all(st, args[0]) if args else UNDEF
            ty = {x.args[0] for _, x in alts(rc) if x.op == "agg"} if all(x.op == "agg" for _, x in alts(rc)) else set()
            if len(ty) == 1:
                tr, _, me = path.rpartition("::")
                n = "<%s as %s>::%s" % (next(iter(ty)), tr, me)
                if n not in self.recs: n = self.impl_of(fr, next(iter(ty)), tr, me, t) or n
                if n not in self.recs and path in self.recs and next(iter(ty)) in self.adts: n = path
                if n in self.recs and not self.opaque(n): return self.inline(fr, st, self.fn(n), args, g, tag)
        if virt:
            r = self.models.call(fr, st, name, path, args, g, tag, t)
            if r is not NotImplemented: return r
            return self.external(fr, st, path, args, g)
        if name in self.recs and self.recs[name][0]["kind"] == "closure" and len(args) == 2 and path.rpartition("::")[2] in ("call", "call_mut", "call_once"):
            # a closure called directly: its arguments come as a tuple
            tup = self.deref_all(st, args[1])
            raw = args[1] if args[1].op == "agg" else tup
            return self.call_closure(fr, st, args[0], list(raw.args[2]) if raw.op == "agg" and raw.args[0] == "()" else [raw], g, tag, once=True)
        if name in self.recs and not self.opaque(name):
            r = self.models.local_override(fr, st, name, args, g)
            if r is not None: return r
            return self.inline(fr, st, self.fn(name), args, g, tag)
        if name in self.recs:
            return self.external(fr, st, name, args, g)
        r = self.models.call(fr, st, name, path, args, g, tag, t)
        if r is not NotImplemented: return r
        self.unknown[name] = self.unknown.get(name, 0) + 1
        UNKNOWN.add(name)
        return self.external(fr, st, name, args, g)

class Frame: pass

def under(t, g, memo=None):
    """t on the paths where g holds."""
    if g is TT: return t
    memo = {} if memo is None else memo
    def go(x):
        if not isinstance(x, T): return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is not None: return r
        if x.op in ("const", "sym", "undef", "fn", "ctor", "static", "named", "mref", "loop"): r = x
        elif x.op == "phi":
            out = []
            for h, v in x.args[0]:
                c = conj(g, h)
                if c is not None: out.append((guards.restrict(h, g), go(v)))
            r = phi(out)
        elif x.op == "coll":
            ent = set()
            for k, v, h in x.args[1]:
                if conj(g, h) is None: continue
                ent.add((go(k) if k is not None else None, go(v), guards.restrict(h, g)))
            r = mk("coll", frozenset(go(b) for b in x.args[0]), frozenset(ent))
        elif x.op == "many": r = mk("many", frozenset(go(v) for v in x.args[0]))
        else: r = mk(x.op, *[go(a) if isinstance(a, (T, tuple)) else a for a in x.args])
        memo[x] = r
        return r
    return go(t)
