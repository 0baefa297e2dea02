"""Normal forms of value-graph terms: a value that is taken apart and rebuilt unchanged is the value itself."""
from engine import *
import models
from models import VALUE, EMPTY

def map_guard(g, f, memo):
    """Rebuilds a guard with its variables normalised."""
    if g is None or g is TT: return g
    if g in memo: return memo[g]
    if not any(f(v) is not v for v in support(g)): memo[g] = g; return g
    r = None
    for o, k in zip(g.dom, g.kids):
        if k is guards.FF: continue
        kk = map_guard(k, f, memo)
        l = None
        v = f(g.var)
        if v is g.var: l = lit(v, o)
        else:
            if v not in DOMAIN and g.var in DOMAIN: DOMAIN[v] = DOMAIN[g.var]
            l = norm_lit(v, o)
        c = conj(l, kk) if l is not None else None
        if c is not None: r = c if r is None else disj([r, c])
    memo[g] = r
    return r

def wide(t, size):
    """Bits of an integer type; `size` for usize/isize."""
    return {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(t[1:], size) if t != "char" else 32

def norm_lit(v, o):
    """Literal over a normalised variable."""
    if v.op == "const":
        return TT if v.args[1] == o else None
    if v.op == "un" and v.args[0] == "Not" and isinstance(o, bool): return norm_lit(v.args[1], not o)
    if v.op == "discr":
        x = v.args[0]
        if x.op == "agg": return TT if x.args[1] == o else None
        if x.op == "phi":
            parts = []
            for g, y in x.args[0]:
                d = mk("discr", y)
                if v in DOMAIN: DOMAIN.setdefault(d, DOMAIN[v])
                l = norm_lit(d, o)
                c = conj(g, l) if l is not None else None
                if c is not None: parts.append(c)
            return disj(parts) if parts else None
    return lit(v, o)

_within = {}
def within(v, g):
    """The value where g holds: what g already says is left out of the guards inside."""
    if g is TT or g is None or v.op not in ("agg", "phi", "coll"): return v
    k = (v, g)
    r = _within.get(k)
    if r is not None: return r
    if v.op == "agg":
        xs = tuple(within(x, g) for x in v.args[2])
        r = v if all(x is y for x, y in zip(xs, v.args[2])) else mk("agg", v.args[0], v.args[1], xs)
    elif v.op == "phi":
        alt = [(x, y) for x, y in v.args[0] if conj(g, x) is not None]
        if not alt: r = v
        elif len(alt) == 1: r = within(alt[0][1], conj(g, alt[0][0]))
        else: r = phi([(guards.restrict(x, g), within(y, conj(g, x))) for x, y in alt])
    else:
        es = []
        for key, x, h in v.args[1]:
            if h is None or h is TT: es.append((key, within(x, g), h)); continue
            c = conj(g, h)
            if c is not None: es.append((key, within(x, c), guards.restrict(h, g)))
        r = mk("coll", v.args[0], frozenset(es))
    _within[k] = r
    return r

class Norm:
    """pairs: {reader function: (writer function, wrap)} -- reader(writer(x)) is x (wrapped in Ok when wrap)."""
    def __init__(self, adts, pairs=None, rules=None):
        self.adts = adts
        self.pairs = pairs or {}
        self.rules = rules or []
        self.memo = {}
        self.gmemo = {}
        self.used_pairs = set()

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t          # cycles cannot happen; guards against re-entry
            r = self.norm(t)
            self.memo[t] = r
        return r

    def g(self, g): return map_guard(g, self.var, self.gmemo)

    def var(self, v):
        """Normal form of a branch variable."""
        n = self(v)
        return n

    def norm(self, t):
        o, a = t.op, t.args
        if o in ("const", "sym", "undef", "fn", "ctor", "static", "named", "mref", "loop"): return t
        if o == "phi":
            alt = [(self.g(g), v) for g, v in a[0]]
            if len(alt) > 1: alt = [(g, within(v, g)) for g, v in alt]
            t2 = phi([(g, self(v)) for g, v in alt])
            return self.eta_phi(t2)
        if o == "many": return mk("many", frozenset(self(v) for v in a[0]))
        if o == "coll":
            c = mk("coll", frozenset(self(b) for b in a[0]), frozenset((self(k) if k is not None else None, self(v), gg) for k, v, g in a[1] for gg in [self.g(g)] if gg is not None))
            return self.eta_coll(c)
        if o == "agg":
            t2 = mk("agg", a[0], a[1], tuple(self(x) for x in a[2]))
            return self.eta_agg(t2)
        if o == "call":
            args = tuple(self(x) if isinstance(x, T) else x for x in a[1])
            t2 = mk("call", a[0], args)
            return self.call(t2)
        if o == "field":
            b = self(a[0])
            return self.field(b, a[1], a[2])
        if o == "elem":
            b = self(a[0])
            return self.elem(b)
        if o == "discr":
            b = self(a[0])
            t2 = mk("discr", b)
            if t in DOMAIN: DOMAIN.setdefault(t2, DOMAIN[t])
            return t2
        if o == "un" and a[0] == "Not":
            b = self(a[1])
            if b.op == "const": return boolc(not b.args[1])
            if b.op == "un" and b.args[0] == "Not": return b.args[1]
            return mk("un", "Not", b)
        if o == "isvar":
            b = self(a[0])
            if b.op == "agg": return boolc(b.args[1] in a[1])
            if b.op == "phi" and all(x.op == "agg" for _, x in b.args[0]):
                return self.eta_phi(phi([(g, boolc(x.args[1] in a[1])) for g, x in b.args[0]]))
            return mk("isvar", b, *a[1:])
        if o == "cast":
            b = self(a[2])
            if b.op == "num" and b.args[0] == a[1]: return b.args[1]
            if b.op == "const": return b
            # through a type at least as wide as the result: the middle step does not change the value
            src = a[3] if len(a) > 3 else None
            while a[0] == "IntToInt" and b.op == "cast" and b.args[0] == "IntToInt" and len(b.args) > 3 and b.args[3] and wide(b.args[1], 32) >= wide(a[1], 64):
                b, src = b.args[2], b.args[3]
            if a[0] == "IntToInt" and src == a[1]: return b
            if len(a) > 3: return mk("cast", a[0], a[1], b, src)
            return mk("cast", a[0], a[1], b, *a[3:])
        args = tuple(self(x) if isinstance(x, T) else tuple(self(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in a)
        return mk(o, *args)

    def field(self, b, variant, name):
        if b.op == "agg":
            if variant and b.args[1] != variant: return UNDEF
            if name.isdigit(): i = int(name)
            else:
                i = None
                for v in self.adts.get(b.args[0], {}).get("variants", ()):
                    for j, f in enumerate(v["fields"]):
                        if f[0] == name and (not variant or v["name"] == variant): i = j
            if i is not None and i < len(b.args[2]): return b.args[2][i]
        if b.op == "phi":
            return self.eta_phi(phi([(g, self.field(v, variant, name)) for g, v in b.args[0]]))
        # the payload of Ok(reader(writer(x)))
        if b.op == "call" and variant in ("Ok", "Some"):
            r = self.pair(b)
            if r is not None: return r
        return mk("field", b, variant, name)

    def elem(self, b):
        if b.op == "coll" and not b.args[0] and len(b.args[1]) == 1:
            k, v, g = next(iter(b.args[1]))
            if k is None: return v
            return mk("agg", "()", "", (k, v))
        return mk("elem", b)

    def pair(self, t):
        w = self.pairs.get(t.args[0])
        if w and t.args[1]:
            x = t.args[1][0]
            if x.op == "call" and x.args[0] == w[0]:
                self.used_pairs.add((w[0], t.args[0]))
                return x.args[1][0]
        return None

    def call(self, t):
        n, a = t.args
        w = self.pairs.get(n)
        if w and not w[1]:
            r = self.pair(t)
            if r is not None: return r
        if w and w[1]:
            r = self.pair(t)
            if r is not None: return mk("agg", w[1], "Ok" if w[1] == RES else "Some", (r,))
        if n == "any" and len(a) == 2:
            p = a[1]
            q = p.args[1] if p.op == "un" and p.args[0] == "Not" else mk("un", "Not", p)
            return mk("un", "Not", self(mk("call", "all", (a[0], q))))
        if n == "all" and len(a) == 2 and a[1] is TRUE: return TRUE
        if n in ("to_uppercase", "to_lowercase", "trim") and a[0].op == "call" and a[0].args[0] == n: return a[0]
        if n in ("to_uppercase", "to_lowercase") and a[0].op == "phi":
            return self.eta_phi(phi([(g, self(mk("call", n, (v,)))) for g, v in a[0].args[0]]))
        if n == "is_empty":
            x = a[0]
            if x.op == "coll" and not x.args[0] and len(x.args[1]) == 1:
                k, v, g = next(iter(x.args[1]))
                s = self.source(v) or (k is not None and self.source(k))
                if g is TT and s: return self(mk("call", "is_empty", (s,)))
            if x.op == "phi": return self.eta_phi(phi([(g, self(mk("call", "is_empty", (v,)))) for g, v in x.args[0]]))
            if x is EMPTY or (x.op == "const" and x.args == ("str", "")): return TRUE
            if x.op == "agg" and x.args[0] == "[]": return boolc(not x.args[2])
        for r in self.rules:
            x = r(self, t)
            if x is not None: return x
        return t

    def source(self, v):
        """The collection v is an element of (through field selections)."""
        while v.op == "field": v = v.args[0]
        return v.args[0] if v.op == "elem" else None

    # ---- eta rules
    def is_empty_value(self, v):
        if v is EMPTY or v is NONE or (v.op == "const" and v.args == ("str", "")): return True
        if v.op == "agg" and v.args[0] == "[]" and not v.args[2]: return True
        if v.op == "agg" and v.args[2] and v.args[0] not in (OPT, RES, VALUE, "()", "[]") and all(self.is_empty_value(x) for x in v.args[2]): return True
        return False

    def empty_cond(self, x):
        """Guards that say x is empty."""
        out = []
        e = mk("call", "is_empty", (x,))
        out.append(lit(e, True))
        return out

    def says_empty(self, g, x):
        """g implies that the container x (or its only container field) is empty."""
        for v in support(g):
            if v.op == "call" and v.args[0].split("::")[-1] == "is_empty" and v.args[1] and (v.args[1][0] is x or v.args[1][0].op == "field" and v.args[1][0].args[0] is x):
                if implies(g, lit(v, True)): return True
            if v.op == "call" and v.args[0].split("::")[-1] == "is_not_empty" and v.args[1] and v.args[1][0] is x:
                if implies(g, lit(v, False)): return True
            if v.op == "call" and v.args[0] == "all" and implies(g, lit(v, True)):
                # all(elements of x, is_empty(element))
                c, p = v.args[1]
                if p.op == "call" and p.args[0].split("::")[-1] == "is_empty":
                    s = p.args[1][0]
                    while s.op == "field": s = s.args[0]
                    if s.op == "elem" and contains(s.args[0], x): return True
        return False

    def recon(self, v):
        """(x, variant) when v is variant `variant` of x with x's own payload."""
        if v.op == "agg" and v.args[1] and v.args[2]:
            b = None
            for i, f in enumerate(v.args[2]):
                if f.op == "field" and f.args[1] == v.args[1] and self.fname(v, i) in (f.args[2], None):
                    if b is None: b = f.args[0]
                    elif b is not f.args[0]: return None
                else: return None
            return (b, v.args[1])
        return None

    def fname(self, v, i):
        a = self.adts.get(v.args[0])
        if a:
            for x in a["variants"]:
                if x["name"] == v.args[1] and i < len(x["fields"]): return x["fields"][i][0]
        return str(i)

    def eta_phi(self, t):
        if t.op != "phi": return t
        al = list(t.args[0])
        cands = set()
        for g, v in al:
            cands.add(v)
            r = self.recon(v)
            if r: cands.add(r[0])
        # booleans: phi{b: true, !b: false}
        if len(al) == 2 and {v for _, v in al} == {TRUE, FALSE}:
            gt = [g for g, v in al if v is TRUE][0]
            if len(support(gt)) == 1:
                v = next(iter(support(gt)))
                if gt is lit(v, True): return v
                if gt is lit(v, False): return self(mk("un", "Not", v))
        for x in sorted(cands, key=lambda c: c.id):
            if x.op in ("const",): continue
            good = True
            for g, v in al:
                if v is x: continue
                r = self.recon(v)
                if r and r[0] is x and implies(g, lit(mk("discr", x), r[1])): continue
                if v.op == "agg" and not v.args[2] and v.args[1] and mk("discr", x) in DOMAIN and implies(g, lit(mk("discr", x), v.args[1])): continue
                if self.is_empty_value(v) and self.says_empty(g, x): continue
                # x restricted to where it is empty
                good = False
                break
            if good: return x
        # alternatives equal up to a value known on that path
        return t

    def nonempty_in(self, c):
        """An element is handled only when the collection it comes from is not empty."""
        out, ch = [], False
        for k, v, g in c.args[1]:
            def f(w):
                if w.op == "call" and w.args[0] == "is_empty" and w.args[1][0].op == "coll":
                    for k2, v2, g2 in w.args[1][0].args[1]:
                        if k2 is k and v2 is v: return False
                return None
            h = cofactor(g, f)
            if h is not g and h is not None:
                ok_ = all(implies(h, g2) for w in support(g) if f(w) is False for k2, v2, g2 in w.args[1][0].args[1] if k2 is k and v2 is v)
                if ok_: g = h; ch = True
            out.append((k, v, g))
        return mk("coll", c.args[0], frozenset(out)) if ch else c

    def eta_coll(self, c):
        c = self.nonempty_in(c)
        if len(c.args[1]) != 1: return c
        k, v, g = next(iter(c.args[1]))
        src = None
        if k is None and v.op == "elem": src = v.args[0]
        elif k is not None and k.op == "field" and v.op == "field" and k.args[0] is v.args[0] and k.args[0].op == "elem" and k.args[2] == "0" and v.args[2] == "1" and not k.args[1] and not v.args[1]:
            src = k.args[0].args[0]
        elif k is None and v.op == "agg" and v.args[0] == "()" and len(v.args[2]) == 2:
            return self.eta_coll(mk("coll", c.args[0], frozenset([(v.args[2][0], v.args[2][1], g)])))
        if src is None: return c
        if c.args[0] and c.args[0] != frozenset([src]): return c
        # the source is not empty when an element of it is handled
        g2 = cofactor(g, lambda w: False if w.op == "call" and w.args[0] == "is_empty" and w.args[1][0] is src else None)
        return src if g2 is TT else c

    def eta_agg(self, t):
        ad, va, fs = t.args
        if not fs: return t
        if ad in (OPT, RES, VALUE) or ad in ("()", "[]"):
            if ad == "()" and len(fs) >= 2:
                bs = {f.args[0] if f.op == "field" and not f.args[1] and f.args[2] == str(i) else None for i, f in enumerate(fs)}
                if len(bs) == 1 and None not in bs: return next(iter(bs))
            return t
        a = self.adts.get(ad)
        if not a or a["kind"] == "enum": return t
        names = [f[0] for f in a["variants"][0]["fields"]] if a["variants"] else []
        if len(names) != len(fs): return t
        b = None
        for n, f in zip(names, fs):
            if f.op == "field" and not f.args[1] and f.args[2] == n:
                if b is None: b = f.args[0]
                elif b is not f.args[0]: return t
            else: return t
        return b
