"""Path conditions as multi-valued decision diagrams over discriminant terms.

A guard is a canonical (reduced, ordered, hash-consed) diagram: two guards that mean the same are the same object, a
condition that is always true is TT, one that never holds is None.  Variables are the terms branched on (enum
discriminants, booleans, integers compared with constants); every other relation between terms is ignored.
"""
DOMAIN = {}          # variable -> frozenset of its outcomes
BOOL = (False, True)
APPROX = [0]
LIMIT = 4000

class G:
    __slots__ = ("var", "dom", "kids", "id", "_sup", "_n")
    def __bool__(self): return self is not TT
    def __repr__(self):
        from engine import show_g
        return show_g(self)

def _leaf(i):
    g = G(); g.var, g.dom, g.kids, g.id, g._sup, g._n = None, (), (), i, frozenset(), 1
    return g
FF, TT = _leaf(0), _leaf(1)
_tab = {}
def node(var, dom, kids):
    k0 = kids[0]
    if all(k is k0 for k in kids): return k0
    key = (var.id, tuple(k.id for k in kids))
    g = _tab.get(key)
    if g is None:
        g = G(); g.var, g.dom, g.kids, g.id = var, dom, tuple(kids), len(_tab) + 2
        g._sup = None; g._n = None
        _tab[key] = g
    return g

_doms = {}
def dom_of(t):
    d = _doms.get(t)
    if d is None:
        s = DOMAIN.get(t)
        d = _doms[t] = tuple(sorted(s, key=str)) if s else BOOL
    return d

def lit(t, outcomes):
    """Guard (t in outcomes); None when impossible."""
    os = outcomes if isinstance(outcomes, (frozenset, set)) else frozenset([outcomes])
    d = dom_of(t)
    if not all(o in d and (type(o) is type(d[0])) for o in os):
        # integers, characters, unknown enums: one boolean per value
        from engine import mk
        r = [node(mk("is", t, o), BOOL, (FF, TT)) for o in os]
        g = disj(r)
        return g
    g = node(t, d, tuple(TT if o in os else FF for o in d))
    return None if g is FF else g

_apply = {}
def _and(a, b):
    if a is FF or b is FF: return FF
    if a is TT: return b
    if b is TT or a is b: return a
    if a.id > b.id: a, b = b, a
    k = (a.id, b.id)
    r = _apply.get(k)
    if r is not None: return r
    if a.var is b.var: r = node(a.var, a.dom, tuple(_and(x, y) for x, y in zip(a.kids, b.kids)))
    elif a.var.id < b.var.id: r = node(a.var, a.dom, tuple(_and(x, b) for x in a.kids))
    else: r = node(b.var, b.dom, tuple(_and(a, y) for y in b.kids))
    _apply[k] = r
    return r

_nots = {}
def _not(a):
    if a is TT: return FF
    if a is FF: return TT
    r = _nots.get(a)
    if r is None:
        r = _nots[a] = node(a.var, a.dom, tuple(_not(x) for x in a.kids)); _nots[r] = a
    return r

def _or(a, b): return _not(_and(_not(a), _not(b)))

def size(g):
    if g._n is None:
        seen, st = set(), [g]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id); st.extend(x.kids)
        g._n = len(seen)
    return g._n

def out(g): return None if g is FF else g

def conj(*gs):
    r = TT
    for g in gs:
        if g is None: return None
        n = _and(r, g)
        if n is FF: return None
        if size(n) > LIMIT: APPROX[0] += 1; continue
        r = n
    return r

def disj(gs):
    r = FF
    any_ = False
    for g in gs:
        if g is None: continue
        any_ = True
        r = _or(r, g)
        if r is TT: return TT
        if size(r) > LIMIT: APPROX[0] += 1; return TT
    return r if any_ else TT

def neg(g):
    """Negation; None when g always holds."""
    return out(_not(g if g is not None else FF))

_res = {}
def restrict(f, care):
    """A simple guard that agrees with f wherever care holds."""
    if care is TT or f is TT or f is FF or f is None or care is None: return f
    return _restrict(f, care)
def _restrict(f, c):
    if c is TT or f is TT or f is FF: return f
    if c is FF: return f
    if f is c: return TT
    k = (f.id, c.id)
    r = _res.get(k)
    if r is not None: return r
    if c.var.id < f.var.id:
        cc = FF
        for x in c.kids: cc = _or(cc, x)
        r = _restrict(f, cc)
    else:
        cs = c.kids if c.var is f.var else (c,) * len(f.kids)
        ks = [(_restrict(x, y) if y is not FF else None) for x, y in zip(f.kids, cs)]
        live = [x for x in ks if x is not None]
        if not live: r = f
        else:
            d = live[0]
            r = node(f.var, f.dom, tuple(x if x is not None else d for x in ks))
    _res[k] = r
    return r

def support(g):
    """Variables g depends on."""
    if g is None: return frozenset()
    if g._sup is None:
        seen, st, vs = set(), [g], set()
        while st:
            x = st.pop()
            if x.id in seen or x.var is None: continue
            seen.add(x.id); vs.add(x.var); st.extend(x.kids)
        g._sup = frozenset(vs)
    return g._sup

def exists(g, pred):
    """Projection of g on the variables for which pred is false."""
    if g is None: return None
    if not any(pred(v) for v in support(g)): return g
    memo = {}
    def go(x):
        if x.var is None: return x
        r = memo.get(x.id)
        if r is None:
            ks = [go(k) for k in x.kids]
            if pred(x.var):
                r = FF
                for k in ks: r = _or(r, k)
            else: r = node(x.var, x.dom, tuple(ks))
            memo[x.id] = r
        return r
    return out(go(g))

def cofactor(g, f):
    """g with variables fixed: f(var) gives an outcome, a set of possible outcomes, or None for unchanged."""
    if g is None: return None
    memo = {}
    def go(x):
        if x.var is None: return x
        r = memo.get(x.id)
        if r is None:
            a = f(x.var)
            if a is None: r = node(x.var, x.dom, tuple(go(k) for k in x.kids))
            elif isinstance(a, (set, frozenset)):
                r = FF
                for o, k in zip(x.dom, x.kids):
                    if o in a: r = _or(r, go(k))
            else: r = go(x.kids[x.dom.index(a)]) if a in x.dom else FF
            memo[x.id] = r
        return r
    return out(go(g))

def implies(a, b):
    """a implies b."""
    if a is None: return True
    if b is None: return False
    return _and(a, _not(b)) is FF

def outcomes(g, t):
    """Outcomes of variable t possible under g."""
    return frozenset(o for o in dom_of(t) if conj(g, lit(t, o)) is not None)

def cubes(g, limit=40):
    """Disjuncts of g as {var: frozenset(outcomes)}; for messages."""
    res = []
    def go(x, d):
        if len(res) >= limit: return
        if x is FF: return
        if x is TT: res.append(dict(d)); return
        groups = {}
        for o, k in zip(x.dom, x.kids): groups.setdefault(k.id, (k, set()))[1].add(o)
        for k, os in groups.values():
            d[x.var] = frozenset(os); go(k, d); del d[x.var]
    if g is not None: go(g, {})
    return res
