"""Transfer functions for library calls (std, serde_json, anyhow, itertools, ...) used by the interpreter."""
import ast, re
from engine import *
import engine, text, lexer, libmime, chronos, randoms, nomc

VALUE = "serde_json::Value"
VDOM = frozenset(["Null", "Bool", "Number", "String", "Array", "Object"])
DOPT = frozenset(["None", "Some"])
DRES = frozenset(["Ok", "Err"])
EMPTY = mk("coll", frozenset(), frozenset())

def last(name):
    """Method name of a callee path, generics removed."""
    d, i = 0, len(name)
    out = []
    cur = ""
    j = 0
    while j < len(name):
        c = name[j]
        if c in "<": d += 1
        if c == ">" and not (j > 0 and name[j - 1] == "-"): d -= 1
        if c == ":" and d == 0 and name[j:j + 2] == "::":
            out.append(cur); cur = ""; j += 2; continue
        cur += c; j += 1
    out.append(cur)
    out = [o for o in out if o and not (o.startswith("<") and len(out) > 1 and o is not out[0])]
    m = out[-1]
    owner = "::".join(out[:-1])
    return owner, m

_lastc = {}
def split_name(name):
    r = _lastc.get(name)
    if r is None: r = _lastc[name] = last(name)
    return r

IDENT = {"clone", "to_owned", "iter", "into_iter", "as_str", "as_slice", "as_ref", "as_deref", "deref", "borrow",
  "cloned", "copied", "peekable", "to_vec", "into_boxed_slice", "into_boxed_str", "must_use", "black_box", "as_mut_slice",
  "into_string", "as_mut_str", "as_deref_mut", "into_owned", "as_bytes", "into_bytes", "from_fn", "fuse", "as_slice_mut", "to_string_lossy", "as_inner", "into_inner", "as_path", "cloned_box", "clone_box", "to_mut", "drain_filter"}
PASSREF = {"deref_mut", "as_mut_slice", "as_mut", "by_ref", "borrow_mut", "as_mut_str", "iter_mut", "index_mut", "as_array_mut", "as_object_mut", "get_mut", "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "last_mut", "first_mut", "values_mut", "pointer_mut", "get_or_insert_with", "peek_mut", "or_insert_with_key"}
STRINGY = ("str", "std::string::String", "&str", "&std::string::String", "std::borrow::Cow<'_, str>", "&&str", "&'static str", "std::boxed::Box<str>", "&&std::string::String", "std::borrow::Cow<'{erased}, str>")

MAPLIKE = ("std::collections::HashMap", "std::collections::BTreeMap", "serde_json::Map")
NEWS = {"new", "with_capacity", "default"}

def lead(t):
    """(Literal text the string t starts with, whether that is all of it), or None."""
    if t.op == "const" and t.args[0] in ("str", "char"): return (t.args[1], True)
    if t.op == "call" and t.args[0] == "concat" and t.args[1]:
        p = t.args[1][0]
        if p.op == "const" and p.args[0] in ("str", "char"): return (p.args[1], len(t.args[1]) == 1)
    return None

def fresh(name):
    """A string about which nothing is known but that it is none of the literals in the program, not empty and has no special characters."""
    return mk("fresh", name)

def differ(a, b):
    """The two keys are certainly different."""
    if a.op == "const" and b.op == "const": return a is not b
    if a.op == "text" and b.op in ("text", "const") or b.op == "text" and a.op == "const":
        if text.eq_text(a, b) is False: return True
    if a.op == "fresh" and b.op in ("fresh", "const"): return a is not b
    if b.op == "fresh" and a.op == "const": return True
    la, lb = lead(a), lead(b)
    if la and lb and a is not b:
        if la[1] and lb[1]: return la[0] != lb[0]
        n = min(len(la[0]), len(lb[0]))
        if la[0][:n] != lb[0][:n]: return True
        if la[1] and len(lb[0]) > len(la[0]) or lb[1] and len(la[0]) > len(lb[0]): return True
    for x, y in ((a, b), (b, a)):
        # fresh strings have no special characters
        if x.op == "fresh" and lead(y) and lead(y)[0] and not lead(y)[0][0].isalnum(): return True
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]: return True
        return any(differ(x, y) for x, y in zip(a.args[2], b.args[2]))
    return False

def is_str_const(t): return t.op == "const" and t.args[0] == "str"

def is_int(y): return y.op == "const" and y.args[0] == "int"
def is_next(t): return t.op == "discr" and t.args[0].op == "next"

def repr_elem(t): return t.op in ("elem", "idx", "next", "loop", "nth")

INTS = {t + n: ((0, 2 ** b - 1) if t == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)) for t in "ui" for n, b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("size", 64), ("128", 128))}
def hi_of(t): return INTS[t][1]

EXACT = {"merge_join_by", "coalesce", "count", "batching", "last", "find", "position", "rposition", "skip_while", "take_while", "find_map", "partition", "filter_map", "flat_map", "flatten", "unique", "unique_by", "dedup", "dedup_by", "dedup_by_key", "chain", "skip", "take", "nth", "join", "sum", "product",
         "max", "min", "max_by_key", "min_by_key", "max_by", "min_by", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key"}

ITER_IN = {"map", "filter", "collect", "for_each", "any", "all", "find", "find_map", "filter_map", "flat_map", "fold", "count", "enumerate", "zip", "chain", "skip", "take", "rev", "last", "nth", "position", "sorted", "flatten", "join", "cloned", "copied", "collect_vec", "take_while", "skip_while", "inspect", "partition", "peekable", "unique"}
EXACT_MUT = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "dedup", "dedup_by", "dedup_by_key", "retain"}
import re as _re
FLOAT = _re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|[iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN])")
ARITH = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
def tdiv(x, y): return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)

# maps and sets that are kept in the order of their keys (serde_json is built without preserve_order)
ORDERED = ("BTreeMap", "BTreeSet", "btree_map", "btree_set", "serde_json::Map", "serde_json::map")

def num_bounds(x):
    """The least and greatest value of a number read from a text of known length."""
    while x.op == "cast" and x.args[0] == "IntToInt": x = x.args[2]
    if x.op != "num" or len(x.args) != 1: return None
    cs = text.chars_of(x.args[0])
    if not cs: return None
    neg = text.test(cs[0], lambda ch: ch == "-")
    if not all(text.test(c, lambda ch: ch in "0123456789") for c in (cs[1:] if neg else cs)): return None
    return (-(10 ** (len(cs) - 1) - 1), 0) if neg else (0, 10 ** len(cs) - 1)

def int_op(m, ty, xs):
    """Methods of integers on known operands."""
    lo, hi = INTS[ty]
    k, _, o = m.partition("_")
    if k not in ("checked", "saturating", "wrapping") or o not in ("add", "sub", "mul", "neg", "div", "rem"): return NotImplemented
    a, b = xs[0], xs[1] if len(xs) > 1 else 0
    if o in ("div", "rem"):
        if b == 0 or lo < 0: return (NONE if b == 0 else NotImplemented) if k == "checked" else NotImplemented
        v = a // b if o == "div" else a % b
    else: v = {"add": a + b, "sub": a - b, "mul": a * b, "neg": -a}[o]
    if k == "checked": return some(const("int", v)) if lo <= v <= hi else NONE
    if k == "saturating": return const("int", min(hi, max(lo, v)))
    return const("int", (v - lo) % (hi - lo + 1) + lo)

class Models:
    def __init__(self, I):
        self.I = I
        self.unit_memo = {}

    # ------------------------------------------------------------------ collections
    def entries(self, c):
        """Elements of a collection with the condition under which each is in it."""
        if c.op == "coll" and not c.args[0] and c.args[1]:
            return [(agg("()", "", (k, v)) if k is not None else v, g) for k, v, g in sorted(c.args[1], key=lambda x: (x[0].id if x[0] is not None else 0, x[1].id))]
        if c.op == "coll" and not c.args[0]: return []
        if c.op == "coll": return [(self.elem(b), TT) for b in sorted(c.args[0], key=lambda b: b.id)] + self.entries(mk("coll", frozenset(), c.args[1])) 
        if c.op == "agg" and c.args[0] == "[]" and 0 < len(c.args[2]) <= 16: return [(x, TT) for x in c.args[2]]
        return [(self.elem(c), TT)]

    def elem_guard(self, c):
        """Condition (over the element) under which a representative element is in the collection."""
        if c.op == "coll" and not c.args[0] and c.args[1]: return disj([g for _, _, g in c.args[1]])
        if c.op == "call" and c.args[0] in ("enumerate", "sorted", "rev", "skip", "take", "unique"): return self.elem_guard(c.args[1][0])
        return TT

    def is_coll(self, v): return v.op == "coll" or (v.op == "agg" and v.args[0] == "[]")

    def to_coll(self, v):
        if v.op == "coll": return v
        if v.op == "agg" and v.args[0] == "[]":
            return mk("coll", frozenset(), frozenset((None, x, TT) for x in v.args[2]))
        if v.op == "phi" and all(self.is_coll(x) for _, x in v.args[0]): return self.join_values(list(v.args[0]))
        if v.op == "undef": return EMPTY
        return mk("coll", frozenset([v]), frozenset())

    def join_values(self, vs):
        vs = [(g, v) for g, v in vs if v is not UNDEF]
        if not vs: return UNDEF
        if all(v is vs[0][1] for _, v in vs): return vs[0][1]
        # objects wrapping collections (serde_json::Value::Object(map))
        if all(v.op == "agg" for _, v in vs) and len({(v.args[0], v.args[1], len(v.args[2])) for _, v in vs}) == 1 and vs[0][1].args[0] != "[]" and \
           any(self.is_coll(x) for _, v in vs for x in v.args[2]):
            n = len(vs[0][1].args[2])
            return agg(vs[0][1].args[0], vs[0][1].args[1], [self.join_values([(g, v.args[2][i]) for g, v in vs]) for i in range(n)])
        if any(v.op == "coll" for _, v in vs) and any(self.coll_based(v, w) for _, v in vs for _, w in vs if v is not w):
            cs = [(g, self.to_coll(v)) for g, v in vs]
        elif all(self.is_coll(v) for _, v in vs): cs = [(g, self.to_coll(v)) for g, v in vs]
        else: return phi(vs)
        bases, entries = set(), set()
        allb = set()
        for _, c in cs: allb |= c.args[0]
        for b in allb:
            holders = [g for g, c in cs if b in c.args[0]]
            bases.add(b)
        alle = set()
        for _, c in cs: alle |= c.args[1]
        for e in alle:
            holders = [g for g, c in cs if e in c.args[1]]
            if len(holders) == len(cs): entries.add(e); continue
            hg = disj(holders)
            ng = conj(e[2], hg)
            entries.add((e[0], e[1], ng if ng is not None else e[2]))
        if len(allb) > 1 or any(len(c.args[0]) != len(allb) for _, c in cs):
            # differing bases: keep the alternatives apart when there is nothing inserted
            if all(not c.args[1] for _, c in cs): return phi(vs)
        return mk("coll", frozenset(bases), frozenset(entries))

    def coll_based(self, v, w):
        """v is a collection built on top of the value w."""
        return v.op == "coll" and (w in v.args[0] or self.is_coll(w))

    def coll_insert(self, v, k, val, guards):
        if v.op == "agg" and v.args[0] == VALUE and v.args[1] == "Object":
            return agg(VALUE, "Object", [self.coll_insert(v.args[2][0], k, val, guards)])
        c = self.to_coll(v)
        g = exists(guards, is_next)
        ent = c.args[1]
        if k is not None:
            # an unconditional insert replaces the entries of the same key whose condition implies this one
            ent = frozenset(e for e in ent if not (e[0] is k and implies(e[2], g)))
            # same key and value under another condition: one entry
            same = [e for e in ent if e[0] is k and e[1] is val]
            if same:
                g = disj([g] + [e[2] for e in same])
                ent = frozenset(e for e in ent if e not in same)
        return mk("coll", c.args[0], ent | {(k, val, g)})

    def elem(self, c):
        """A representative element of a collection / iterator."""
        if c.op == "phi":
            return phi([(g, self.elem(v)) for g, v in c.args[0]])
        if c.op == "agg" and c.args[0] == "[]":
            return phi([(lit(mk("nth", c, const("int", i)), True) if len(c.args[2]) > 1 else TT, x) for i, x in enumerate(c.args[2])])
        if c.op == "coll":
            out = []
            for b in c.args[0]: out.append((TT, self.elem(b)))
            for k, v, g in c.args[1]:
                out.append((g, agg("()", "", (k, v)) if k is not None else v))
            return phi(out)
        if c.op == "itermut":
            m = c.args[0]
            kind = c.args[1]
            if kind == "map": return agg("()", "", (self.field_(self.elem(c.args[2]), "0"), mk("mref", m.args[0], m.args[1] + (("val",),))))
            if kind == "val": return mk("mref", m.args[0], m.args[1] + (("val",),))
            return mk("mref", m.args[0], m.args[1] + (("elem",),))
        if c.op == "call":
            n, a = c.args
            if n == "enumerate": return agg("()", "", (mk("idx", a[0]), self.elem(a[0])))
            if n == "zip": return agg("()", "", (self.elem(a[0]), self.elem(a[1])))
            if n == "sorted":
                e = self.elem(a[0])
                if e.op == "agg" and e.args[0] == "()" and len(e.args[2]) == 2: return e
            if n == "values": return self.field_(self.elem(a[0]), "1")
            if n == "keys": return self.field_(self.elem(a[0]), "0")
        if c.op == "optcast": return c.args[1]
        if c.op == "agg" and c.args[0] == OPT: return c.args[2][0] if c.args[1] == "Some" else UNDEF
        if c.op == "agg" and c.args[0] == VALUE and c.args[1] in ("Object", "Array"): return self.elem(c.args[2][0])
        return mk("elem", c)

    def field_(self, v, n): return self.I.field(v, None, n, int(n))

    def objmap(self, m):
        """The map of a JSON value and the JSON value itself are the same object as far as keys go."""
        if m.op == "field" and m.args[1] in ("Object", "Array") and m.args[2] == "0": return m.args[0]
        if m.op == "agg" and m.args[0] == VALUE and m.args[1] in ("Object", "Array"): return m.args[2][0]
        return m

    def get(self, m, k):
        """Option value of looking key k up in m."""
        if m.op == "phi": return phi([(g, self.get(v, k)) for g, v in m.args[0]])
        m = self.objmap(m)
        if m.op == "phi": return phi([(g, self.get(v, k)) for g, v in m.args[0]])
        if m.op == "agg" and m.args[0] == VALUE: return NONE
        if m.op == "agg" and m.args[0] == "[]":
            if k.op == "const" and k.args[0] == "int":
                i = k.args[1]
                return some(m.args[2][i]) if i < len(m.args[2]) else NONE
            m = self.to_coll(m)
        if m.op == "coll":
            if all(e[0] is not None and (e[0] is k or differ(e[0], k)) for e in m.args[1]) and (k.op in ("const", "agg") or not m.args[0]):
                out, neg = [], []
                for kk, v, g in m.args[1]:
                    if kk is k: out.append((g, some(v))); neg.append(g)
                rest = [self.get(b, k) for b in m.args[0]]
                if not out:
                    return phi([(TT, r) for r in rest]) if rest else NONE
                ng = self.I.neg(disj(neg))
                if ng is None: return phi(out)
                for r in rest or [NONE]: out.append((ng, r))
                return phi(out)
        if m.op == "undef": return UNDEF
        if m.op == "call" and m.args[0] == "remove" and (m.args[1][1] is k or differ(m.args[1][1], k)):
            return NONE if m.args[1][1] is k else self.get(m.args[1][0], k)
        r = call("get", m, k)
        DOMAIN.setdefault(mk("discr", r), DOPT)
        return r

    def lookup_val(self, v, k):
        p = self.payload(self.get(v, k), OPT)
        return p

    def json_index(self, v, k):
        g = self.get(v, k)
        out = []
        for gg, vr, p in self.split(g, OPT):
            out.append((gg, p if vr == "Some" else agg(VALUE, "Null", ())))
        return phi(out)

    def json_set(self, v, k, val, guards):
        if v.op == "agg" and v.args[0] == VALUE and v.args[1] == "Object":
            return agg(VALUE, "Object", [self.coll_insert(v.args[2][0], k, val, guards)])
        return self.coll_insert(v, k, val, guards)

    def index(self, v, i):
        if v.op == "agg" and v.args[0] == "[]" and i.op == "const" and isinstance(i.args[1], int):
            n = i.args[1]
            if 0 <= n < len(v.args[2]): return v.args[2][n]
        if self.I.peel and is_str_const(v) and i.op == "const" and isinstance(i.args[1], int):
            b = v.args[1].encode("utf8", "surrogatepass")
            if 0 <= i.args[1] < len(b): return const("int", b[i.args[1]])
        return self.payload(self.get(v, i), OPT)

    # ------------------------------------------------------------------ option / result helpers
    def split(self, x, kind):
        """[(guards, variant, payload)] of an Option / Result."""
        a, b = ("Some", "None") if kind == OPT else ("Ok", "Err")
        if x.op == "agg" and x.args[0] in (OPT, RES):
            return [(TT, x.args[1], x.args[2][0] if x.args[2] else UNIT)]
        if x.op == "phi":
            out = []
            for g, v in x.args[0]:
                for g2, vr, p in self.split(v, kind):
                    c = conj(g, g2)
                    if c is not None: out.append((c, vr, p))
            return out
        if x.op == "optcast":
            g = self.optcast_guard(x)
            return [(g, "Some", x.args[1]), (self.I.neg(g), "None", UNIT)]
        if x.op == "undef": return []
        d = mk("discr", x)
        DOMAIN.setdefault(d, DOPT if kind == OPT else DRES)
        ga = self.I.lits(d, a)
        gb = self.I.lits(d, b)
        out = []
        if ga is not None: out.append((ga, a, self.I.field(x, a, "0", 0)))
        if gb is not None: out.append((gb, b, UNIT if kind == OPT else self.I.field(x, b, "0", 0)))
        return out

    def payload(self, x, kind):
        a = "Some" if kind == OPT else "Ok"
        return phi([(g, p) for g, v, p in self.split(x, kind) if v == a])

    def optcast_guard(self, t): return t.args[0]

    def vcast(self, v, variant):
        """Option of the payload of a serde_json::Value variant."""
        if v.op == "agg" and v.args[0] == VALUE:
            if v.args[1] == variant: return some(v.args[2][0] if v.args[2] else UNIT)
            return NONE
        if v.op == "phi": return phi([(g, self.vcast(x, variant)) for g, x in v.args[0]])
        d = mk("discr", v)
        DOMAIN.setdefault(d, VDOM)
        return mk("optcast", lit(d, variant), self.I.field(v, variant, "0", 0))

    def field_of_call(self, b, variant, name):
        n, a = b.args
        if variant == "Some":
            if n in ("find", "choose", "max", "min", "reduce", "last", "first"): return self.elem(a[0])
        return None

    def lits(self, t, os):
        if t.op == "call":
            n, a = t.args
            if n == "is_empty" and a[0].op == "coll":
                c = a[0]
                if not c.args[0] and not c.args[1]: return TT if True in os else None
        return None

    # ------------------------------------------------------------------ arithmetic
    def cast_const(self, v, t):
        n = v.args[1]
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(t)
        if bits is None:
            return const("char", chr(n)) if t == "char" else v
        n &= (1 << bits) - 1
        if t[0] == "i" and n >> (bits - 1): n -= 1 << bits
        return const("int", n)

    def binop(self, op, a, b):
        I = self.I
        if a.op == "discrv" or b.op == "discrv":
            if op in ("Eq", "Ne"):
                def kn(x):
                    if x.op != "discrv": return ("?", x)
                    if x.args[0].op == "agg": return ("v", x.args[0].args[1])
                    return ("t", x)
                ka, kb = kn(a), kn(b)
                if ka[0] == "v" and kb[0] == "v": r = boolc(ka[1] == kb[1])
                elif ka[0] == "v" or kb[0] == "v":
                    k, x = (ka, b) if ka[0] == "v" else (kb, a)
                    dom = tuple(I.variants(x.args[1])) if x.op == "discrv" else ()
                    r = mk("isvar", x.args[0], (k[1],), dom) if dom else call("eq", a, b)
                else:
                    da = mk("discr", a.args[0]) if a.op == "discrv" else a
                    db = mk("discr", b.args[0]) if b.op == "discrv" else b
                    r = self.eq(da, db)
                return r if op == "Eq" else self.unop("Not", r)
        if self.I.peel and (a.op == "achar") != (b.op == "achar") and all(x.op == "achar" or x.op == "const" and x.args[0] == "int" for x in (a, b)) and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            o = lambda t: [ord(c) for c in t.args[0]] if t.op == "achar" else [t.args[1]]
            f = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}[op]
            r = {f(x, y) for x in o(a) for y in o(b)}
            if len(r) == 1: return boolc(r.pop())
        if op in ("Lt", "Le", "Gt", "Ge") and (a.op == "achar" or b.op == "achar") and all(x.op == "achar" or x.op == "const" and x.args[0] == "char" for x in (a, b)):
            f = {"Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}[op]
            r = {f(x, y) for x in text.members(a) for y in text.members(b)}
            if len(r) == 1: return boolc(r.pop())
        wo = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a.op == "const" and b.op == "const" and a.args[0] in ("int", "bool", "char") and a.args[0] == b.args[0]:
            x, y = a.args[1], b.args[1]
            try:
                r = {"Eq": lambda: boolc(x == y), "Ne": lambda: boolc(x != y), "Lt": lambda: boolc(x < y), "Le": lambda: boolc(x <= y),
                     "Gt": lambda: boolc(x > y), "Ge": lambda: boolc(x >= y), "Add": lambda: const("int", x + y), "Sub": lambda: const("int", x - y),
                     "Mul": lambda: const("int", x * y), "BitAnd": lambda: boolc(x and y) if a.args[0] == "bool" else const("int", x & y),
                     "BitOr": lambda: boolc(x or y) if a.args[0] == "bool" else const("int", x | y), "Rem": lambda: const("int", x - y * tdiv(x, y)), "Div": lambda: const("int", tdiv(x, y))}[base]()
            except Exception: r = None
        if r is None:
            # comparisons of a length with 0 or 1
            if base in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
                if a.op == "const" and b.op != "const":
                    a, b = b, a
                    base = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(base, base)
                if a.op == "call" and a.args[0] == "len" and b.op == "const":
                    n = b.args[1]
                    e = self.is_empty(a.args[1][0])
                    if (base, n) in (("Eq", 0), ("Le", 0), ("Lt", 1)): r = e
                    elif (base, n) in (("Ne", 0), ("Gt", 0), ("Ge", 1)): r = self.unop("Not", e)
                if r is None and base in ("Eq", "Ne"):
                    r = self.eq(a, b)
                    if base == "Ne": r = self.unop("Not", r)
        if r is None: r = mk("bin", base, a, b)
        if wo: return agg("()", "", (r, FALSE if r.op == "const" and r.args[0] == "int" and 0 <= r.args[1] < 2**31 else mk("ovf", base, a, b)))
        return r

    def unop(self, op, a):
        if op == "Not":
            if a.op == "const" and a.args[0] == "bool": return boolc(not a.args[1])
            if a.op == "un" and a.args[0] == "Not": return a.args[1]
            if a.op == "phi": return phi([(g, self.unop(op, v)) for g, v in a.args[0]])
            if a.op == "isvar":
                rest = tuple(sorted(set(a.args[2]) - set(a.args[1])))
                return mk("isvar", a.args[0], rest, a.args[2])
        if op == "PtrMetadata": return self.len(a)
        if op == "Neg" and a.op == "const" and a.args[0] == "int": return const("int", -a.args[1])
        return mk("un", op, a)

    def eq(self, a, b):
        if a is b and not find_all(a, lambda x: x.op == "loop"): return TRUE
        if a.op == "const" and b.op == "const" and a.args[0] == b.args[0]: return boolc(a.args[1] == b.args[1])
        if a.op == "const" and b.op == "const" and {a.args[0], b.args[0]} == {"int", "float"}: return FALSE       # JSON numbers of different kinds
        if a.op == b.op == "agg" and a.args[0] == b.args[0] == "indextree::NodeId": return self.eq(a.args[2][0], b.args[2][0])
        if a.op == "phi": return phi([(g, self.eq(v, b)) for g, v in a.args[0]])
        if b.op == "phi": return phi([(g, self.eq(a, v)) for g, v in b.args[0]])
        if a.op in ("text", "achar") or b.op in ("text", "achar"):
            r = text.eq_text(a, b)
            if r is not None: return boolc(r)
        if (a.op == "fresh" or b.op == "fresh" or lead(a) and lead(b)) and differ(a, b): return FALSE
        if self.I.maporder and a.op == b.op == "coll":
            xs, ys = self.bag_items(a), self.bag_items(b)
            if xs is not None and ys is not None:
                if len(xs) != len(ys): return FALSE
                r = TRUE
                for k, v in xs:
                    m = [y for y in ys if (self.eq(k, y[0]) is TRUE if k is not None else self.eq(v, y[1]) is TRUE)]
                    if not m:
                        if all((self.eq(k, y[0]) if k is not None else self.eq(v, y[1])) is FALSE for y in ys): return FALSE
                        r = None; break
                    e = self.eq(v, m[0][1])
                    r = e if r is TRUE else FALSE if FALSE in (r, e) else r if e is TRUE else call("and", r, e)
                if r is not None: return r
        if a is EMPTY and b.op == "agg" and b.args[0] == "[]": return boolc(not b.args[2])
        if b is EMPTY and a.op == "agg" and a.args[0] == "[]": return boolc(not a.args[2])
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[0] in (OPT, RES, "()", "[]"):
            if a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]): return FALSE
            r = TRUE
            for x, y in zip(a.args[2], b.args[2]):
                e = self.eq(x, y)
                r = e if r is TRUE else FALSE if FALSE in (r, e) else r if e is TRUE else call("and", r, e)
            return r
        if getattr(self, "eqctx", None) and a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:      # the type's own comparison
            n = "<%s as std::cmp::PartialEq>::eq" % a.args[0]
            if n in self.I.recs and not self.I.recs[n][0].get("derived"):
                fr, st, g, tag = self.eqctx
                r = self.I.inline(fr, st, self.I.fn(n), [a, b], g, (tag, a.id, b.id))
                if r is not None: return r
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[0] in self.I.adts and self.I.adts[a.args[0]]["kind"] == "enum":
            if a.args[1] != b.args[1]: return FALSE
            if not a.args[2] and not b.args[2]: return TRUE
            r = TRUE
            for x, y in zip(a.args[2], b.args[2]):
                e = self.eq(x, y)
                r = e if r is TRUE else FALSE if FALSE in (r, e) else r if e is TRUE else call("and", r, e)
            return r
        if self.I.peel and a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and self.I.adts.get(a.args[0], {}).get("kind") == "struct":
            n = "<%s as std::cmp::PartialEq>::eq" % a.args[0]
            if n in self.I.recs and self.I.recs[n][0].get("derived"):
                r = TRUE
                for x, y in zip(a.args[2], b.args[2]):
                    e = self.eq(x, y)
                    r = e if r is TRUE else FALSE if FALSE in (r, e) else r if e is TRUE else call("and", r, e)
                return r
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and x.args[0] == OPT and y.op != "agg":
                if x.args[1] == "None": return mk("isvar", y, ("None",), ("None", "Some"))
                out = []
                for g, vr, p in self.split(y, OPT):
                    out.append((g, self.eq(p, x.args[2][0]) if vr == "Some" else FALSE))
                return phi(out)
            if x.op == "agg" and not x.args[2] and y.op not in ("agg", "const") and x.args[0] in self.I.adts and self.I.adts[x.args[0]]["kind"] == "enum":
                return mk("isvar", y, (x.args[1],), tuple(self.I.variants(x.args[0])))
            if x.op == "const" and x.args[0] == "str" and x.args[1] == "" and y.op != "const": return self.is_empty(y)
            if x.op == "const" and x.args[0] == "bool":
                return y if x.args[1] else self.unop("Not", y)
        if a.op == "const" or (b.op != "const" and b.id < a.id): a, b = b, a
        return call("eq", a, b)

    def len(self, x):
        if x.op == "const" and x.args[0] == "str": return const("int", len(x.args[1].encode()))
        if x.op == "text" and all(text.test(c, str.isascii) for c in x.args[0]): return const("int", len(x.args[0]))
        if x.op == "agg" and x.args[0] == "[]": return const("int", len(x.args[2]))
        if self.I.peel and x is EMPTY: return const("int", 0)
        return call("len", self.objmap(x))

    def is_empty(self, x):
        if x.op == "const" and x.args[0] == "str": return boolc(x.args[1] == "")
        if x.op in ("fresh", "text") or lead(x) and lead(x)[0]: return FALSE
        if x.op == "call" and x.args[0] == "to_string" and x.args[1][0].op == "agg" and x.args[1][0].args[0] == VALUE: return FALSE
        if x.op == "agg" and x.args[0] == "[]": return boolc(not x.args[2])
        if x.op == "coll":
            if not x.args[0] and not x.args[1]: return TRUE
            if any(not g and v.op not in ("elem",) and not find_all(v, lambda y: y.op == "elem") for _, v, g in x.args[1]): return FALSE
            if len(x.args[0]) == 1 and not x.args[1]: return self.is_empty(next(iter(x.args[0])))
        if x.op == "phi": return phi([(g, self.is_empty(v)) for g, v in x.args[0]])
        return call("is_empty", self.objmap(x))

    # ------------------------------------------------------------------ construction
    def make_adt(self, adt, variant, ops):
        if adt in ("std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::borrow::Cow") and len(ops) == 1: return ops[0]
        return agg(adt, variant, ops)

    def default_of(self, fr, st, tid, g, tag):
        c = fr.F.crate
        t = c.tys[tid]
        s = t["s"]
        if t["k"] == "ref": return self.default_of(fr, st, t["to"], g, tag)
        if s in ("std::string::String", "str"): return cstr("")
        if s == "bool": return FALSE
        if t["k"] == "prim": return const("int", 0)
        if t["k"] == "tuple": return agg("()", "", [self.default_of(fr, st, x, g, tag) for x in t["args"]])
        if t["k"] == "adt":
            a = t["adt"]
            if a in ("std::vec::Vec", "std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet", "serde_json::Map", "std::collections::BTreeSet", "std::collections::VecDeque", "bytes::Bytes", "bytes::BytesMut"): return EMPTY
            if a == OPT: return NONE
            if a == VALUE: return agg(VALUE, "Null", ())
            n = "<%s as std::default::Default>::default" % s
            if n in self.I.recs: return self.I.inline(fr, st, self.I.fn(n), [], g, (tag, "default"))
        return call("default:" + s)

    def local_override(self, fr, st, name, args, g): return None

    def fmt_pieces(self, tmpl, args):
        """Terms making up a format_args value."""
        if tmpl.op == "const" and tmpl.args[0] == "dbg":
            s = tmpl.args[1]
            try: b = ast.literal_eval(s)
            except Exception: return None
            out, i, n = [], 0, 0
            items = list(args.args[2]) if args.op == "agg" else None
            if items is None: return None
            while i < len(b):
                c = b[i]
                if c == 0: break
                if c < 0x80: out.append(cstr(b[i + 1:i + 1 + c].decode("utf8", "replace"))); i += 1 + c
                elif c == 0x80:
                    l = b[i + 1] | b[i + 2] << 8
                    out.append(cstr(b[i + 3:i + 3 + l].decode("utf8", "replace"))); i += 3 + l
                elif c >= 0xC0:
                    i += 1
                    flags, width, prec, ix = 0x20 | 3 << 29, None, None, None
                    if c & 1: flags = int.from_bytes(bytes(b[i:i + 4]), "little"); i += 4
                    if c & 2: width = b[i] | b[i + 1] << 8; i += 2
                    if c & 4: prec = b[i] | b[i + 1] << 8; i += 2
                    if c & 8: ix = b[i] | b[i + 1] << 8; i += 2
                    if ix is None: ix = n
                    if ix >= len(items) or c & 0x30: return None
                    out.append(self.fmt_spec(items[ix], flags, width, prec)); n = ix + 1
                else: return None
            return out
        return None

    def fmt_spec(self, x, flags, width, prec):
        """One placeholder: number base, sign, zero padding, width, alignment and precision, where they are known."""
        base = {"upperhex": "X", "lowerhex": "x", "octal": "o", "binary": "b"}
        b = base.get(x.args[0]) if x.op == "call" else None
        if b is None and width is None and prec is None and not flags >> 21 & 0xf: return x
        v = x.args[1][0] if b else x
        if v.op == "const" and v.args[0] == "int":
            n = v.args[1]
            d = format(abs(n), b or "d")
            if flags >> 23 & 1 and b: d = {"X": "0x", "x": "0x", "o": "0o", "b": "0b"}[b] + d
            sign = "-" if n < 0 else "+" if flags >> 21 & 1 else ""
            if flags >> 24 & 1 and width: return cstr(sign + d.rjust(width - len(sign), "0"))
            return self.pad(sign + d, flags, width, 1)
        if v.op == "const" and v.args[0] in ("str", "char") and not b:
            t = v.args[1]
            return self.pad(t if prec is None else t[:prec], flags, width, 0)
        return call("fmtspec", x, const("int", flags), const("int", width or 0), const("int", -1 if prec is None else prec))

    def pad(self, s, flags, width, dflt):
        al = flags >> 29 & 3
        if al == 3: al = dflt
        f = chr(flags & 0x1fffff)
        n = max(0, (width or 0) - len(s))
        l = 0 if al == 0 else n if al == 1 else n // 2
        return cstr(f * l + s + f * (n - l))

    def concat(self, parts):
        out = []
        for p in parts:
            if p.op == "call" and p.args[0] == "concat": out.extend(p.args[1])
            else: out.append(p)
        res = []
        for p in out:
            if p.op == "const" and p.args[0] in ("int", "char"): p = cstr(str(p.args[1]))
            if p.op == "const" and p.args[0] == "str":
                if p.args[1] == "": continue
                if res and res[-1].op == "const" and res[-1].args[0] == "str": res[-1] = cstr(res[-1].args[1] + p.args[1]); continue
            res.append(p)
        if any(p.op in ("text", "achar") for p in res):
            r2 = []
            for p in res:
                if p.op in ("text", "achar", "const") and r2 and r2[-1].op in ("text", "achar", "const"): r2[-1] = text.of_chars(text.chars_of(r2[-1]) + text.chars_of(p))
                else: r2.append(text.of_chars([p]) if p.op == "achar" else p)
            res = r2
        if not res: return cstr("")
        if len(res) == 1: return res[0]
        if len(res) > 30: return call("concat", mk("many", frozenset(res)))
        if len(out) <= 6 and any(p.op == "phi" for p in res) :
            ph = [i for i, p in enumerate(res) if p.op == "phi"]
            if len(ph) == 1 and all(p.op in ("const", "phi") for p in res):
                i = ph[0]
                return phi([(g, self.concat(res[:i] + [v] + res[i + 1:])) for g, v in res[i].args[0]])
        return call("concat", *res)

    def lazy(self, fr, st, f, g):
        """The value of a lazily initialised static: its initialiser, when that is a constant."""
        n = f.args[0]
        c = self.I._lazy
        if n not in c:
            c[n] = None
            F = self.I.fn(n)
            if F is not None and len(F.order) <= 60:
                v, _ = self.I.exec(F, [], {}, TT, ("const", n), 0)
                if v is not None and v.op in ("agg", "const", "field", "call") and depth(v) < 12: c[n] = v
            elif F is not None: c[n] = self.key_table(F)
        return c[n]

    def key_table(self, F):
        """The keys a long straight-line initialiser (a table written out in the source) puts into its set or map; None when it does anything else."""
        keys, defs, twice = [], {}, set()
        for b in F.order:
            for x in F.r["blocks"][b]["s"]:
                if x and isinstance(x[0], list) and len(x[0]) == 1:
                    if x[0][0] in defs: twice.add(x[0][0])
                    defs[x[0][0]] = x[1]
        for l in twice: del defs[l]
        for b in F.order:
            blk = F.r["blocks"][b]
            t = blk["t"]
            if t["t"] in ("goto", "drop", "return", "assert"): continue
            if t["t"] != "call" or "k" not in t["f"]: return None
            p = t["f"]["k"]["fn"]["p"]
            if not p.endswith("::insert"):
                if any(w in p for w in ("::len", "new_uninit", "into_vec_unsafe", "with_capacity", "::new", "into_vec", "into_boxed", "box_new", "from_box", "box_assume_init", "exchange_malloc")): continue
                return None
            a, k = t["args"][1], None
            if "k" in a: k = a["k"].get("str")
            elif "m" in a or "c" in a:
                l = (a.get("m") or a.get("c"))[0]
                for _ in range(4):
                    d = defs.get(l)
                    if d is None: break
                    if d[0] == "use" and "k" in d[1]: k = d[1]["k"].get("str"); break
                    nx = d[2] if d[0] == "ref" else d[1].get("m") or d[1].get("c") if d[0] == "use" else None
                    if nx is None: break
                    l = nx[0]
            if k is None: return None
            keys.append(k)
        return call("strtable", *[cstr(k) for k in sorted(set(keys))]) if keys else None

    def json_text(self, x):
        """The JSON text of a document that is wholly known."""
        v = x.args[1]
        if v == "Null": return "null"
        if v == "Bool" and x.args[2][0] in (TRUE, FALSE): return "true" if x.args[2][0] is TRUE else "false"
        if v == "Number" and x.args[2][0].op == "const" and x.args[2][0].args[0] == "int": return str(x.args[2][0].args[1])
        if v == "Number" and x.args[2][0].op == "const" and x.args[2][0].args[0] == "float" and type(x.args[2][0].args[1]) is float and 1e-5 < abs(x.args[2][0].args[1]) < 1e15: return repr(x.args[2][0].args[1])
        if v == "String" and is_str_const(x.args[2][0]):
            short = {"\"": '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}
            return '"%s"' % "".join(short.get(c) or ("\\u%04x" % ord(c) if ord(c) < 32 else c) for c in x.args[2][0].args[1])
        if v in ("Array", "Object") and self.I.peel:
            c = x.args[2][0]
            xs = self.exact_items(c) if v == "Array" else [e for e in c.args[1]] if c.op == "coll" and not c.args[0] else None
            if xs is None: return None
            if v == "Array":
                ts = [self.json_text(y) if y.op == "agg" and y.args[0] == VALUE else None for y in xs]
                return None if None in ts else "[%s]" % ",".join(ts)
            if any(g != TT or k is None or not is_str_const(k) or y.op != "agg" or y.args[0] != VALUE for k, y, g in xs) or len({k for k, _, _ in xs}) != len(xs): return None
            ts = [(self.json_text(agg(VALUE, "String", (k,))), self.json_text(y)) for k, y, _ in sorted(xs, key=lambda e: e[0].args[1])]
            return None if any(t is None for _, t in ts) else "{%s}" % ",".join("%s:%s" % t for t in ts)
        return None

    def to_string(self, fr, st, x, via, g, tag):
        if x.op == "num": return x.args[0]      # a number by its digits
        if x.op == "const" and x.args[0] == "float" and type(x.args[1]) is float and 1e-5 < abs(x.args[1]) < 1e15: return cstr("%d" % x.args[1] if x.args[1] == int(x.args[1]) else repr(x.args[1]))
        if x.op == "agg" and x.args[0] == VALUE:
            j = self.json_text(x)
            if j is not None: return cstr(j)
        if x.op == "achar": return text.of_chars([x])
        if x.op == "agg" and x.args[0] == "uuid": return randoms.uuid_text(x.args[1])
        if via:
            n = via
            if n == "<&T as std::fmt::Display>::fmt":
                ts = {y.args[0] for _, y in (x.args[0] if x.op == "phi" else [(TT, x)]) if y.op == "agg"}
                if len(ts) == 1 and "<%s as std::fmt::Display>::fmt" % min(ts) in self.I.recs: n = "<%s as std::fmt::Display>::fmt" % min(ts)
            if n in ("<str as std::fmt::Display>::fmt", "<std::string::String as std::fmt::Display>::fmt") or "Cow<" in n: return x
            if n.startswith("core::fmt::num") and x.op == "const": return cstr(str(x.args[1]))
            if n == "<bool as std::fmt::Display>::fmt" and x in (TRUE, FALSE): return cstr("true" if x is TRUE else "false")
            if n == "<char as std::fmt::Display>::fmt" and x.op == "const": return cstr(x.args[1])
            if n in self.I.recs and (not self.I.opaque(n) or x.op == "agg" and not x.args[2] and x.args[0] in self.I.adts):
                cell = ("fmt", fr.uid, fr.bb, tag)
                st[cell] = cstr("")
                r = self.I.inline(fr, st, self.I.fn(n), [x, mk("mref", cell, ())], g, (tag, "fmt"))
                return st.get(cell, UNDEF)
        if x.op == "text" or is_str_const(x): return x
        return call("to_string", x)

    # ------------------------------------------------------------------ the call table
    def call(self, fr, st, name, path, args, g, tag, t):
        I = self.I
        owner, m = split_name(path)
        rowner, rm = split_name(name)
        fk = t["f"]["k"]["fn"] if t else {}
        targs = fk.get("a", ())
        tys = fr.F.crate.tys
        raw = args
        A = None
        def val(i=0): return I.deref_all(st, args[i])
        def ap(f, xs, tg=None): return I.call_closure(fr, st, f, xs, g, (tag, tg)) if I else None
        def apg(f, xs, gg, tg=None):
            c = conj(g, gg)
            if c is None: return UNDEF
            r = I.call_closure(fr, st, f, xs, c, (tag, tg))
            return UNDEF if r is None else r
        site = lambda kind, *d: I.event(kind, fr, fr.sp, d, g) if hasattr(fr, "sp") else None
        low = owner + "::" + m

        # ---- diverging / noise
        if "tracing" in name: return mk("log")
        if name.startswith(("core::panicking::", "std::rt::panic", "std::rt::begin_panic")) or m in ("panic_fmt", "unimplemented_default_msg", "panic_display", "panic_explicit", "unreachable_display"):
            site("panic", name); return None
        if name.startswith("anyhow::") and m in ("msg", "format_err", "must_use", "new", "anyhow_kind", "context_error", "ext_context") and m not in ("context", "with_context"):
            return call("error")
        if m in ("anyhow_kind",): return mk("sym", "anyhow")

        if "logos::" in path or "logos::" in name:
            r = self.lexing(fr, st, m, args, val, targs, fk, g, tag)
            if r is not NotImplemented: return r
        if "ariadne::" in name and m == "write": return ok(UNIT)
        if m.startswith(("checked_", "saturating_", "wrapping_")) and "<impl " in name and "num::" in name:
            ty = name.split("<impl ")[1].split(">")[0]
            xs = [I.deref_all(st, a) for a in args]
            if ty in INTS and all(x.op == "const" and x.args[0] == "int" for x in xs):
                r = int_op(m, ty, [x.args[1] for x in xs])
                if r is not NotImplemented: return r
        if I.peel:
            if m in ("insert", "insert_str") and owner == "std::string::String" and args[0].op == "mref" and val(1).op == "const":
                cs, w, k = text.chars_of(val()), text.widths(text.chars_of(val()) or []), val(1).args[1]
                x = text.chars_of(val(2))
                if cs is not None and w is not None and x is not None:
                    at = [sum(w[:i]) for i in range(len(w) + 1)]
                    if k not in at: site("panic", name); return None
                    I.write_cell(st, args[0], text.of_chars(cs[:at.index(k)] + x + cs[at.index(k):]), g)
                    return UNIT
            if m == "from" and "From<u8> for char" in name and val().op == "const" and val().args[0] == "int": return const("char", chr(val().args[1]))
            if m == "find_matching_variant" and val().op == "agg" and val().args[0] == "matcher": return randoms.variant(m, args, val)
            if "rand::" in path or "rand::" in name or args and args[0].op == "endless" or m == "repeat_with" and owner.endswith("iter"):
                if args and val().op == "endless": r = randoms.endless(self, m, val(), args, val, ap)
                elif m == "repeat_with": r = mk("endless", "closure", args[0], ())
                else: r = randoms.call_(self, fr, st, name, path, m, owner, args, val, targs, site, ap)
                if r == "panics": return None
                if r is not NotImplemented: return r
            if name.startswith("nom::"):
                r = nomc.call_(self, I, fr, st, name, m, args, lambda x: I.deref_all(st, x), ap)
                if r is not None: return r
            if "gregorian::" in name:
                r = chronos.gregorian(m, owner, [I.deref_all(st, a) for a in args])
                if r is not None: return r
            if any(w in path for w in ("uuid::", "rand_regex::", "regex_syntax::", "indextree::", "serde_urlencoded::")) or any(w in name for w in ("indextree::",)):
                r = randoms.libs(self, fr, st, name, path, m, owner, args, val, g, site)
                if r == "panics": return None
                if r is not NotImplemented: return r
        if "chrono::" in name or "chrono::" in path or (args and m in ("add", "sub") and chronos.is_dt(val())):
            r = chronos.call_(I, name, m, [I.deref_all(st, a) for a in args], (some, NONE))
            if isinstance(r, str): site("panic", name); return None
            if r is not NotImplemented:
                if m.endswith("_assign") and args[0].op == "mref": I.write_cell(st, args[0], r, g); return UNIT
                return r

        if m == "slice" and "Bytes" in owner:
            r = self.slice(val(0), val(1))
            if r is None: site("panic", name)
            return r

        # ---- formatting
        if owner.startswith("core::fmt::rt::Argument") and m.startswith(("new_", "from_usize")):
            x = val()
            if m == "new_display":
                s = fr.F.crate.tys[targs[0]] if targs else None
                while s and s["k"] == "ref": s = tys[s["to"]]
                ty = s["s"] if s else ""
                if ty in ("str", "std::string::String") or (x.op == "const" and x.args[0] in ("str", "int", "char")): return x
                vn = "<%s as std::fmt::Display>::fmt" % ty
                return self.to_string(fr, st, x, vn, g, (tag, "disp"))
            if m in ("new_upper_hex", "new_lower_hex", "new_octal", "new_binary") and x.op == "const" and x.args[0] == "int": return call(m[4:].replace("_", ""), x)
            return call(m, x)
        if owner.startswith("std::fmt::Arguments") :
            if m == "from_str": return val()
            if m == "new":
                p = self.fmt_pieces(val(0), val(1))
                if p is not None: return self.concat(p)
                return call("format", val(0), val(1))
            if m == "as_str": return some(val())
        if name in ("std::fmt::format", "alloc::fmt::format"): return val()
        if m in ("write_str", "write_fmt", "pad", "write_char") and ("Formatter" in owner or "fmt::Write" in owner or "io::Write" in owner):
            for gg, r in alts(args[0]):
                if r.op == "mref":
                    old = I.read_cell(st, r)
                    while old.op == "mref": r, old = old, I.read_cell(st, old)
                    if is_fmt_cell(r) or old.op == "const" or "fmt::Write" in owner or "fmt::Write" in name: I.write_cell(st, r, self.concat([old, val(1)]), g)
            site("write", val(0), val(1))
            r = call("fmt_result"); DOMAIN.setdefault(mk("discr", r), DRES)
            return ok(UNIT)
        if m in ("debug_c_like_enum_write_str",) or m.startswith("debug_"): return ok(UNIT)

        if "lazy" in name and m in ("get", "force") and len(args) == 2 and val(1).op == "fn":
            r = self.lazy(fr, st, val(1), g)
            if r is not None: return r
        if I.peel:
            r = self.bytes_fn(fr, st, m, owner, name, args, val, g, tag)
            if r is not NotImplemented: return r
        # ---- conversions
        if m == "to_string" and "ToString" in owner: return self.to_string(fr, st, val(), fk.get("via"), g, tag)
        if m in ("into", "from", "try_into", "from_str", "parse", "try_from"):
            r = self.convert(fr, st, m, name, path, fk, args, g, tag, targs)
            if r is not NotImplemented: return r
        if m in ("expect_left", "expect_right", "unwrap_left", "unwrap_right", "left", "right", "is_left", "is_right"):
            x = val()
            S, other = ("Left", "Right") if m.endswith("left") else ("Right", "Left")
            out = []
            if m in ("left", "right") and not args: pass
            elif "ither" in owner:
                for gg, y in alts(x):
                    if y.op == "agg" and y.args[0].endswith("Either"): out.append((gg, y.args[1] == S, y.args[2][0]))
                    else:
                        d = mk("discr", y); DOMAIN.setdefault(d, frozenset(["Left", "Right"]))
                        for hit, vr in ((True, S), (False, other)):
                            cg = conj(gg, lit(d, vr))
                            if cg is not None: out.append((cg, hit, mk("field", y, vr, "0")))
                if m.startswith("is_"): return phi([(gg, boolc(h)) for gg, h, p in out])
                if m in ("left", "right"): return phi([(gg, some(p) if h else NONE) for gg, h, p in out])
                site("unwrap", m, x, "either")
                return phi([(gg, p) for gg, h, p in out if h]) if any(h for _, h, _ in out) else None
        if m == "to_value" and owner == "serde_json":
            site("to_value", val(), fr.F.crate.ty(targs[0]) if targs else None)
            return ok(self.to_json_value(val(), fr, targs))
        if m in ("from_value",) and owner == "serde_json": return call("from_value", val())

        # ---- json values
        if VALUE == owner or owner.endswith("serde_json::value::Value") or owner in ("serde_json::Value", "serde_json::Number", "serde_json::number::Number"):
            r = self.json_method(fr, st, m, args, val, g)
            if r is not NotImplemented: return r
        if "serde_json::value::index" in name or "serde_json::value::index" in path or (m in ("index", "index_mut") and targs and tys[targs[0]]["s"] == VALUE):
            if m == "index_mut" and args[0].op == "mref":
                return mk("mref", args[0].args[0], args[0].args[1] + (("json", val(1)),))
            if val(1).op == "const" and val(1).args[0] == "int":
                return self.json_index(val(0), val(1))
            return self.json_index(val(0), val(1))

        # ---- Option / Result
        if owner in ("std::option::Option", "std::result::Result"):
            kind = OPT if "option" in owner else RES
            r = self.optres(fr, st, kind, m, args, val, apg, g, tag, targs, site)
            if r is not NotImplemented: return r
        if "anyhow::Context" in owner or "anyhow::Context" in name:
            if m in ("context", "with_context"):
                kind = RES if "Result" in name else OPT
                out = []
                for gg, vr, p in self.split(val(), kind): out.append((gg, ok(p) if vr in ("Ok", "Some") else err(call("error"))))
                return phi(out)
        if m == "branch":
            kind = RES if "Result" in name else OPT if "Option" in name else CF
            return mk("tryb", kind, val())
        if m == "from_output":
            return ok(val()) if "Result" in name else some(val())
        if m == "from_residual":
            v = val()
            def fres(x):
                if x.op == "phi": return phi([(gg, fres(y)) for gg, y in x.args[0]])
                if x.op == "residual":
                    kind, y = x.args
                    if kind == OPT: return NONE if "Option" in name else err(call("error"))
                    return err(I.field(y, "Err", "0", 0))
                return err(call("error")) if "Result" in name else NONE
            return fres(v)

        # ---- closures
        if m in ARITH and "ops::" in path and len(args) == 2 and all(val(i).op == "const" and val(i).args[0] == "int" for i in (0, 1)):
            return self.binop(ARITH[m], val(0), val(1))
        if m == "not" and "ops::Not" in path and len(args) == 1: return self.unop("Not", val())
        if m in ("call_once", "call_mut", "call") and ("ops::Fn" in owner or "Fn" in owner):
            tup = args[1] if args[1].op == "agg" else val(1)
            xs = list(tup.args[2]) if tup.op == "agg" else [tup]
            return I.call_closure(fr, st, args[0], xs, g, (tag, "cc"), once=True)

        # ---- comparisons
        if m in ("eq", "ne") and ("PartialEq" in path or "PartialEq" in name or owner.endswith("cmp::impls")):
            old, self.eqctx = getattr(self, "eqctx", None), (fr, st, g, (tag, "eq")) if I.peel else None
            try: e = self.eq(val(0), val(1))
            finally: self.eqctx = old
            return e if m == "eq" else self.unop("Not", e)
        if m in ("eq_ignore_ascii_case",):
            a, b = val(0), val(1)
            if is_str_const(a) and is_str_const(b): return boolc(a.args[1].lower() == b.args[1].lower())
            return call("eq_ic", *sorted([a, b], key=lambda x: (x.op == "const", x.id)))
        if m in ("partial_cmp", "cmp") and len(args) == 2:
            a, b = val(0), val(1)
            o = None
            if a.op == b.op == "discrv" and a.args[0].op == b.args[0].op == "agg" and a.args[0].args[0] == b.args[0].args[0]:
                vs = list(I.variants(a.args[1]))
                i, j = vs.index(a.args[0].args[1]), vs.index(b.args[0].args[1])
                o = (i > j) - (i < j)
            else: o = self.order(fr, st, a, b, g, (tag, "cmp"))
            if o is not None:
                r = agg("std::cmp::Ordering", {-1: "Less", 0: "Equal", 1: "Greater"}[o], ())
                return some(r) if m == "partial_cmp" else r
        if "cmp::Ordering" in owner and args and all(val(i).op == "agg" for i in range(1 if m == "then_with" else len(args))):
            o = val()
            if m == "then": return val(1) if o.args[1] == "Equal" else o
            if m == "then_with": return apg(args[1], [], g, "then") if o.args[1] == "Equal" else o
            if m == "reverse": return agg(o.args[0], {"Less": "Greater", "Greater": "Less"}.get(o.args[1], o.args[1]), ())
            if m.startswith("is_"): return boolc(o.args[1] in {"is_lt": ("Less",), "is_le": ("Less", "Equal"), "is_gt": ("Greater",), "is_ge": ("Greater", "Equal"), "is_eq": ("Equal",), "is_ne": ("Less", "Greater")}.get(m, ()))
        if m in ("max", "min") and len(args) == 2 and "cmp" in owner:
            o = self.order(fr, st, val(0), val(1), g, (tag, "mm"))
            if o is not None: return val(1 if (o <= 0) == (m == "max") else 0)
        if m in ("lt", "le", "gt", "ge") and "PartialOrd" in path:
            a, b = val(0), val(1)
            n = "<%s as std::cmp::PartialOrd>::partial_cmp" % a.args[0] if a.op == "agg" else ""
            if b.op == "agg" and n in I.recs and not I.opaque(n):
                r = I.inline(fr, st, I.fn(n), [a, b], g, (tag, "ord"))
                if r is not None and r.op == "agg" and r.args[1] == "Some" and r.args[2][0].op == "agg":
                    return boolc(r.args[2][0].args[1] in {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[m])
        if m in ("lt", "le", "gt", "ge") and "PartialOrd" in path: return self.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], val(0), val(1))
        if name in ("std::mem::discriminant",): 
            v = val()
            if v.op == "agg": return const("discr", v.args[1])
            return mk("discrv", v, self.adt_of(fr, targs))
        if m == "discriminant_value": return mk("discrv", val(), self.adt_of(fr, targs))

        # ---- hashing: the sequence of what is written to the hasher
        if m == "hash" and "hash::Hash" in path and len(args) == 2:
            for gg, r in alts(args[1]):
                if r.op == "mref": self.hash_into(fr, st, r, val(0), g, tag)
            return UNIT
        if m == "finish" and ("Hasher" in owner or "Hasher" in path): return call("finish", val())
        if m in ("new", "default") and "DefaultHasher" in owner + name: return agg("[]", "", ())
        # ---- memory
        if owner.startswith("std::boxed::Box") or owner.startswith(("std::sync::Arc", "std::rc::Rc", "std::cell")):
            if m == "new_uninit":
                cell = ("box", fr.uid, fr.bb); st[cell] = UNDEF
                return mk("mref", cell, ())
            if m in ("new", "from", "pin", "into_inner", "as_ref", "borrow", "clone", "leak"): return val() if args else UNDEF
        if m in ("box_assume_init_into_vec_unsafe", "assume_init", "into_vec"): return val()
        if name in ("std::mem::take", "std::mem::replace"):
            old = val()
            new = val(1) if m == "replace" else self.default_of(fr, st, targs[0], g, tag)
            for gg, r in alts(args[0]):
                if r.op == "mref": I.write_cell(st, r, new, g)
            return old
        if name == "std::mem::swap":
            x, y = val(0), val(1)
            for a, v in ((args[0], y), (args[1], x)):
                for gg, r in alts(a):
                    if r.op == "mref": I.write_cell(st, r, v, g)
            return UNIT
        if name in ("std::mem::drop", "std::mem::forget"): return UNIT

        # ---- constructors of empty things
        if m == "new" and owner == "std::string::String": return cstr("")
        if m == "split_at" and len(args) == 2 and val().op == "const" and is_str_const(val()) and val(1).op == "const":
            bs, i = val().args[1].encode(), val(1).args[1]
            if i > len(bs): site("panic", name); return None
            try: return agg("()", "", (const("str", bs[:i].decode()), const("str", bs[i:].decode())))
            except UnicodeDecodeError:
                if "str" in owner: site("panic", name); return None
        if m == "contains" and "ops::Range" in owner and len(args) == 2:
            c, x = val(), val(1)
            if c.op == "agg" and len(c.args[2]) == 2 and c.args[1] in ("Range", "RangeInclusive"):
                lo, hi = c.args[2]
                if all(k.op == "const" and k.args[0] == lo.args[0] for k in (lo, hi, x)): return boolc(lo.args[1] <= x.args[1] and (x.args[1] < hi.args[1] or c.args[1] == "RangeInclusive" and x.args[1] == hi.args[1]))
            if c.op == "agg" and len(c.args[2]) == 1 and c.args[1] in ("RangeFrom", "RangeTo", "RangeToInclusive") and c.args[2][0].op == "const" and x.op == "const" and x.args[0] == c.args[2][0].args[0]:
                b = c.args[2][0].args[1]
                return boolc({"RangeFrom": x.args[1] >= b, "RangeTo": x.args[1] < b, "RangeToInclusive": x.args[1] <= b}[c.args[1]])
        if I.peel and m == "new" and owner.split("<")[0].endswith("RangeInclusive") and len(args) == 2: return agg("std::ops::RangeInclusive", "RangeInclusive", (val(), val(1)))
        if m in NEWS and (owner.startswith(("std::collections::", "std::vec::Vec", "serde_json::Map", "bytes::BytesMut", "bytes::Bytes")) or "Default" in path):
            if m == "default":
                if targs: return self.default_of(fr, st, targs[0], g, tag)
                return EMPTY
            if owner.startswith(("bytes::",)) and m == "new": return EMPTY
            return EMPTY
        if owner == "std::string::String" and m == "with_capacity": return cstr("")

        # ---- regular expressions
        if I.peel and owner in ("regex::Regex", "onig::Regex") and m == "new" and is_str_const(val()) and text.regex(val().args[1]) is not None: return ok(call("new", val()))
        if I.peel and owner in ("regex::Regex", "onig::Regex") and m == "new" and is_str_const(val()) and text.unbalanced(val().args[1]): return err(call("error"))
        if owner.startswith(("regex::", "onig::")) or "regex::" in name or args and m == "index" and val().op == "agg" and val().args[0] == "regex::Captures":
            r = self.regex_method(fr, st, m, owner, args, val, apg, g, targs)
            if r is not NotImplemented: return r

        # ---- strings
        r = self.string_method(fr, st, m, owner, name, args, val, g, targs)
        if r is not NotImplemented: return r

        # ---- collections and iterators
        r = self.coll_method(fr, st, m, owner, name, path, args, val, ap, apg, g, tag, targs, tys, site)
        if r is not NotImplemented: return r

        if m in IDENT and args:
            return val()
        if m in PASSREF and args: return args[0]
        return NotImplemented

    def hash_into(self, fr, st, r, v, g, tag):
        I = self.I
        def put(*xs):
            old = I.read_cell(st, r)
            while old.op == "mref": old = I.read_cell(st, old)
            new = agg("[]", "", tuple(old.args[2]) + xs) if old.op == "agg" and old.args[0] == "[]" else UNDEF
            ref = r
            while I.read_cell(st, ref).op == "mref": ref = I.read_cell(st, ref)
            I.write_cell(st, ref, new, I.allg(fr, g))
        if v.op == "agg":
            n = "<%s as std::hash::Hash>::hash" % v.args[0]
            if n in I.recs: return I.inline(fr, st, I.fn(n), [v, r], g, (tag, v.id))
            if v.args[0] == "[]": put(const("int", len(v.args[2])))
            elif v.args[0] != "()": put(const("discr", v.args[1]))
            for i, x in enumerate(v.args[2]): self.hash_into(fr, st, r, x, g, (tag, i))
            return
        if v.op == "coll":
            xs = [] if v is EMPTY else self.in_order(fr, st, v, g, tag)      # only maps and sets that are kept in order can be hashed
            if xs is None: return put(UNDEF)
            xs = [agg("()", "", x) if x[0] is not None else x[1] for x in xs]
            put(const("int", len(xs)))
            for i, x in enumerate(xs): self.hash_into(fr, st, r, x, g, (tag, i))
            return
        put(v)

    def adt_of(self, fr, targs):
        if not targs: return None
        t = fr.F.crate.tys[targs[0]]
        while t["k"] == "ref": t = fr.F.crate.tys[t["to"]]
        return t.get("adt")

    def to_json_value(self, v, fr, targs):
        t = fr.F.crate.tys[targs[0]] if targs else None
        return self.json_of(v, t, fr.F.crate.tys)

    def json_of(self, v, t, tys):
        """serde_json::to_value of v, by its type."""
        while t and t["k"] == "ref": t = tys[t["to"]]
        s = t["s"] if t else ""
        if s == VALUE: return v
        if s in ("str", "std::string::String"): return agg(VALUE, "String", (v,))
        if s == "bool": return agg(VALUE, "Bool", (v,))
        if s in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f64", "f32"):
            return agg(VALUE, "Number", (v if v.op == "const" else mk("num", s, v),))
        a = [x for x in t.get("args", ()) if isinstance(x, int)] if t else []
        if s.startswith("std::vec::Vec<") or t and t["k"] in ("slice", "array"):
            et = tys[a[0]] if a else tys[t["to"]] if "to" in t else None
            if et is None: return agg(VALUE, "Array", (v,))
            return agg(VALUE, "Array", (self.map_elems(v, lambda e: self.json_of(e, et, tys)),))
        if s.startswith("std::option::Option<") and a:
            out = []
            for g, vr, p in self.split(v, OPT):
                out.append((g, self.json_of(p, tys[a[0]], tys) if vr == "Some" else agg(VALUE, "Null", ())))
            return phi(out)
        if s.startswith(("std::collections::HashMap<", "std::collections::BTreeMap<")) and len(a) >= 2:
            return agg(VALUE, "Object", (mk("coll", frozenset(), frozenset((self.field_(e, "0"), self.json_of(self.field_(e, "1"), tys[a[1]], tys), gg) for e, gg in self.entries(v))),))
        names = self.unit_names(s)
        if names:
            out = []
            for g, x in alts(v):
                if x.op == "agg" and x.args[1] in names: out.append((g, cstr(names[x.args[1]]))); continue
                d = mk("discr", x)
                DOMAIN.setdefault(d, frozenset(names))
                out += [(c, cstr(n)) for vr, n in names.items() for c in [conj(g, lit(d, vr))] if c is not None]
            return agg(VALUE, "String", (phi(out),))
        return mk("jsonof", s, v)

    def unit_names(self, adt):
        """JSON names of the variants of an enum without payload whose Serialize is derived."""
        if adt in self.unit_memo: return self.unit_memo[adt]
        r = None
        a = self.I.adts.get(adt)
        fn = [n for n in self.I.recs if n.endswith("<impl serde::Serialize for %s>::serialize" % adt)]
        if a and a["kind"] == "enum" and len(fn) == 1 and not any(v["fields"] for v in a["variants"]):
            r = {}
            for v in a["variants"]:
                x, _ = type(self.I)(self.I.crates).run(fn[0], [agg(adt, v["name"], ()), sym("serializer")])
                if x is not None and x.op == "call" and x.args[0].endswith("serialize_unit_variant") and x.args[1][3].op == "const": r[v["name"]] = x.args[1][3].args[1]
                else: r = None; break
        self.unit_memo[adt] = r
        return r

    def map_elems(self, c, f):
        if c.op == "agg" and c.args[0] == "[]": return agg("[]", "", [f(x) for x in c.args[2]])
        if c.op == "phi": return phi([(g, self.map_elems(x, f)) for g, x in c.args[0]])
        if c.op == "coll" and not c.args[0]: return mk("coll", frozenset(), frozenset((k, f(x), g) for k, x, g in c.args[1]))
        return mk("coll", frozenset(), frozenset([(None, f(self.elem(c)), TT)]))

    def convert(self, fr, st, m, name, path, fk, args, g, tag, targs):
        I = self.I
        val = lambda i=0: I.deref_all(st, args[i])
        tys = fr.F.crate.tys
        via = fk.get("via")
        if m == "into" or m == "try_into":
            src = tys[targs[0]]["s"] if targs else ""
            dst = tys[targs[1]]["s"] if len(targs) > 1 else ""
        elif m in ("from", "try_from"):
            via = name
            dst = tys[targs[0]]["s"] if targs else ""
            src = tys[targs[1]]["s"] if len(targs) > 1 else ""
        elif m == "parse":
            src = "str"; dst = tys[targs[0]]["s"] if targs else ""
            if "lenient_semver" not in name: via = "<%s as std::str::FromStr>::from_str" % dst
        else:
            via = name; src, dst = "str", tys[targs[0]]["s"] if targs else ""
        if via and via in I.recs and I.keep is not None:
            r = I.keep(I, fr, st, via, via, False, args, g)
            if r is not None: return r
        if via and via in I.recs and not I.opaque(via) and via != fr.F.id:
            return I.inline(fr, st, I.fn(via), [args[0]], g, (tag, "conv"))
        if via and via in I.recs: return I.external(fr, st, via, args, g)
        if src == dst and src: return val()
        if I.peel and m in ("into", "from") and dst.lstrip("&").replace("'a ", "").replace("'_ ", "").replace("'static ", "") in ("str", "std::string::String", "std::borrow::Cow<'_, str>") and val().op in ("text", "const") and (val().op == "text" or is_str_const(val())): return val()
        if m in ("into", "from") and targs and any(tys[x]["k"] == "param" for x in targs) and dst in I.adts:
            # a conversion of a generic parameter: by the value it is instantiated with
            v = val()
            if all(x.op == "agg" and x.args[0] == dst for _, x in alts(v)): return v
            if all(is_str_const(x) or x.op == "fresh" or lead(x) for _, x in alts(v)):
                for n in ("<%s as std::convert::From<&'a str>>::from", "<%s as std::convert::From<&str>>::from", "<%s as std::convert::From<&'_ str>>::from"):
                    if n % dst in I.recs and not I.opaque(n % dst): return I.inline(fr, st, I.fn(n % dst), [args[0]], g, (tag, "conv"))
        if m in ("into", "from") and dst == "std::string::String" and targs and any(tys[x]["k"] == "param" for x in targs):
            v = val()
            if v.op == "agg":
                for n in ("<%s as std::convert::From<%s>>::from" % (dst, v.args[0]), "<%s as std::convert::From<&%s>>::from" % (dst, v.args[0])):
                    if n in I.recs and not I.opaque(n): return I.inline(fr, st, I.fn(n), [args[0]], g, (tag, "conv"))
            elif all(x.op != "agg" for _, x in alts(v)): return v
        strip = lambda s: s.lstrip("&").replace("'{erased} ", "").replace("'_ ", "")
        if m in ("into", "from") and strip(src) in ("str", "std::string::String", "std::borrow::Cow<'_, str>") and strip(dst) in ("str", "std::string::String", "std::borrow::Cow<'_, str>", "std::boxed::Box<str>"): return val()
        if dst == VALUE and strip(src) in ("str", "std::string::String"): return agg(VALUE, "String", (val(),))
        if dst == VALUE and src == "bool": return agg(VALUE, "Bool", (val(),))
        if dst == "serde_json::Number": return val()
        if dst == VALUE: return self.to_json_value(val(), fr, [targs[0] if m == "into" else targs[1]])
        if m in ("into", "from") and "Vec<u8>" in dst or dst in ("bytes::Bytes",): return val()
        if m in ("into", "from") and dst.startswith("std::option::Option<"): return some(val())
        if m in ("into", "from") and "anyhow::Error" in dst: return call("error")
        if m == "parse" and "lenient_semver" in name:
            import re
            v = val()
            if v.op == "const" and v.args[0] == "str":
                mt = re.fullmatch(r"\s*[vV]?(\d+)(?:\.(\d+))?(?:\.(\d+))?\s*", v.args[1]) or re.fullmatch(r"(\d+)\.(\d+)\.(\d+)[-+][0-9A-Za-z.]+", v.args[1], re.A)
                if not mt and not re.match(r"\s*[vV]?\d", v.args[1]): return err(call("error"))
                if mt: return ok(mk("with", call("semver", v), tuple(((None, f), const("int", int(x or 0))) for f, x in zip(("major", "minor", "patch"), mt.groups()))))
        if m == "parse" and "semver::Version" in name and val().op == "const":
            import re
            return ok(call("semver", val())) if re.fullmatch(r"(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(-(0|[1-9]\d*|\d*[A-Za-z-][0-9A-Za-z-]*)(\.(0|[1-9]\d*|\d*[A-Za-z-][0-9A-Za-z-]*))*)?(\+[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?", val().args[1], re.A) else err(call("error"))
        if m in ("parse", "from_str") and dst in INTS:
            x = val()
            if x.op == "fresh": return err(call("error"))
            cs = text.chars_of(x)
            if cs is not None:
                if all(c.op == "const" for c in cs):
                    s = x.args[1]
                    good = s.isascii() and (s[1:] if s[:1] in ("+", "-" if dst.startswith("i") else "+") else s).isdigit()
                    lo, hi = INTS[dst]
                    return ok(const("int", int(s))) if good and lo <= int(s) <= hi else err(call("error"))
                dig = [text.test(c, lambda ch: ch in "0123456789") for c in cs]
                if all(dig) and len(cs) <= 4 and hi_of(dst) >= 10 ** len(cs) - 1: return ok(mk("num", x))
                if dst.startswith("i") and cs and text.test(cs[0], lambda ch: ch == "-") and len(cs) > 1 and all(dig[1:]) and len(cs) <= 5 and hi_of(dst) >= 10 ** len(cs) - 1: return ok(mk("num", x))
                if any(text.test(c, lambda ch: ch in "0123456789+-") is False for c in cs): return err(call("error"))
                if all(text.test(c, lambda ch: ch in "0123456789") is False for c in cs): return err(call("error"))
        if m in ("parse", "from_str") and dst == "bool":
            vs = text.all_members(val(), 64) if text.chars_of(val()) is not None else None
            if vs and not any(x in ("true", "false") for x in vs): return err(call("error"))
            if vs and len(vs) == 1: return ok(boolc(vs[0] == "true"))
        if m in ("parse", "from_str") and dst in ("f64", "f32") and val().op == "const" and is_str_const(val()):
            return ok(const("float", float(val().args[1]))) if FLOAT.fullmatch(val().args[1]) else err(call("error"))
        if m in ("parse", "from_str"):
            r = call("parse:" + dst, val()); DOMAIN.setdefault(mk("discr", r), DRES)
            v = val()
            return r
        if m in ("into", "from") and dst == "char" and val().op == "const" and val().args[0] == "int" and 0 <= val().args[1] < 256: return const("char", chr(val().args[1]))
        if m in ("into", "from"): return call("convert:" + dst.split("<")[0], val())
        if m in ("try_into", "try_from"):
            x = val()
            if dst in INTS:
                lo, hi = INTS[dst]
                if x.op == "const" and x.args[0] == "int": return ok(x) if lo <= x.args[1] <= hi else err(call("error"))
                b = num_bounds(x)
                if b and lo <= b[0] and b[1] <= hi: return ok(mk("cast", "IntToInt", dst, x, src))
            if dst in INTS and src in INTS:
                if x.op == "cast" and x.args[0] == "IntToInt" and x.args[1] == src and x.args[3] == dst:
                    c = lit(call("fits", x.args[2], const("str", dst), const("str", src)), True)
                    if c and guards.implies(self.I.allg(fr, g), c): return ok(x.args[2])
                c = call("fits", x, const("str", src), const("str", dst))
                l1, l2 = self.I.lits(c, True), self.I.lits(c, False)
                if l1 is not None and l2 is not None: return phi([(l1, ok(mk("cast", "IntToInt", dst, x, src))), (l2, err(call("error")))])
            r = call("tryconvert:" + dst, val()); DOMAIN.setdefault(mk("discr", r), DRES)
            return r
        return NotImplemented

    def num_method(self, m, n):
        """Predicates and conversions of a JSON number made from an integer of a known type."""
        s, x = n.args
        if s in ("f32", "f64"): return {"is_f64": TRUE, "is_u64": FALSE, "is_i64": FALSE, "as_u64": NONE, "as_i64": NONE, "as_f64": some(x) if s == "f64" else None}[m]
        if m == "as_f64": return None
        if s not in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"): return None
        if m == "is_f64": return FALSE
        to = m[3:]
        y = x if s == to else mk("cast", "IntToInt", to, x, s)
        fits = s != "isize" and s[0] == "u" and (to == "u64" or s in ("u8", "u16", "u32")) or s[0] == "i" and to == "i64"
        if m.startswith("is_"): return TRUE if fits else call("fits", x, const("str", s), const("str", to))
        if fits: return some(y)
        c = call("fits", x, const("str", s), const("str", to))
        return phi([(lit(c, True), some(y)), (lit(c, False), NONE)])

    def json_method(self, fr, st, m, args, val, g):
        I = self.I
        v = val()
        one = {"is_null": "Null", "is_boolean": "Bool", "is_string": "String", "is_object": "Object", "is_array": "Array", "is_number": "Number"}
        if m in one:
            if v.op == "agg" and v.args[0] == VALUE: return boolc(v.args[1] == one[m])
            return mk("isvar", v, (one[m],), tuple(sorted(VDOM)))
        cast = {"as_str": "String", "as_object": "Object", "as_array": "Array", "as_bool": "Bool", "as_number": "Number"}
        if m in cast: return self.vcast(v, cast[m])
        nm = v.args[2][0] if v.op == "agg" and v.args[0] == VALUE and v.args[1] == "Number" else v
        if m in ("as_u64", "as_i64", "as_f64", "is_u64", "is_i64", "is_f64") and nm.op == "num" and len(nm.args) == 2:
            r = self.num_method(m, nm)
            if r is not None: return r
        if m in ("as_u64", "as_i64", "is_u64", "is_i64", "is_f64") and nm.op == "const" and nm.args[0] == "int" and type(nm.args[1]) is int:
            fits = m != "is_f64" and (0 <= nm.args[1] < 1 << 64 if m.endswith("u64") else -(1 << 63) <= nm.args[1] < 1 << 63)
            return boolc(fits) if m.startswith("is_") else some(nm) if fits else NONE
        if m == "as_f64" and nm.op == "const": return some(call("f64_of", nm))
        if m in ("as_u64", "as_i64", "as_f64", "is_u64", "is_i64", "is_f64"):
            if v.op == "agg" and v.args[0] == VALUE and v.args[1] != "Number": return FALSE if m[0] == "i" else NONE
            if nm.op == "const" and nm.args[0] == "float" and type(nm.args[1]) is float: return boolc(m == "is_f64") if m[0] == "i" else some(nm) if m == "as_f64" else NONE
        if m in ("as_u64", "as_i64", "as_f64"):
            r = call(m, v); DOMAIN.setdefault(mk("discr", r), DOPT); return r
        if m in ("is_u64", "is_i64", "is_f64"):
            r = call("as" + m[2:], v); DOMAIN.setdefault(mk("discr", r), DOPT)
            return mk("isvar", r, ("Some",), ("None", "Some"))
        if m in ("as_object_mut", "as_array_mut"):
            var = "Object" if m == "as_object_mut" else "Array"
            r = args[0]
            out = []
            for gg, x in alts(r):
                if x.op != "mref": continue
                cur = I.read_cell(st, x)
                ref = mk("mref", x.args[0], x.args[1] + (("f", var, "0", 0),))
                if cur.op == "agg" and cur.args[0] == VALUE: out.append((gg, some(ref) if cur.args[1] == var else NONE))
                else:
                    d = mk("discr", cur); DOMAIN.setdefault(d, VDOM)
                    l1, l2 = I.lits(d, var), I.lits(d, VDOM - {var})
                    if l1 is not None: out.append((conj(gg, l1) or gg, some(ref)))
                    if l2 is not None: out.append((conj(gg, l2) or gg, NONE))
            return phi(out) if out else NotImplemented
        if m == "get": return self.get(v, val(1))
        if m == "get_mut": return some(mk("mref", args[0].args[0], args[0].args[1] + (("json", val(1)),))) if args[0].op == "mref" else NotImplemented
        if m == "clone": return v
        if m in ("pointer", "pointer_mut") and I.peel and is_str_const(val(1)) and v.op == "agg":
            r = self.json_pointer(v, val(1).args[1])
            if r is not None:
                if r is False: return NONE
                if m == "pointer": return some(r[0])
                ref = args[0]
                if ref.op == "mref": return some(mk("mref", ref.args[0], ref.args[1] + tuple(r[1])))
        if m == "pointer":
            return call("pointer", v, val(1))
        if m == "take": return v
        return NotImplemented

    def optres(self, fr, st, kind, m, args, val, apg, g, tag, targs, site):
        I = self.I
        S, N = ("Some", "None") if kind == OPT else ("Ok", "Err")
        good = (lambda x: some(x)) if kind == OPT else (lambda x: ok(x))
        def bad(p): return NONE if kind == OPT else err(p)
        if m in ("as_mut", "as_deref_mut", "get_or_insert_with", "insert", "take", "replace", "get_or_insert") and args and args[0].op == "mref":
            r = args[0]
            cur = I.read_cell(st, r)
            if m in ("as_mut", "as_deref_mut"):
                out = []
                for gg, vr, p in self.split(cur, kind):
                    out.append((gg, good(mk("mref", r.args[0], r.args[1] + (("f", S, "0", 0),))) if vr == S else bad(p)))
                return phi(out)
            if m == "take":
                I.write_cell(st, r, NONE, g); return cur
            if m == "replace":
                I.write_cell(st, r, some(val(1)), g); return cur
            if m == "insert":
                I.write_cell(st, r, some(val(1)), g)
                return mk("mref", r.args[0], r.args[1] + (("f", S, "0", 0),))
            return NotImplemented
        x = val()
        sp = lambda: self.split(x, kind)
        if m in ("as_ref", "as_deref", "cloned", "copied", "clone", "iter", "into_iter", "as_slice"): return x
        if m in ("is_some", "is_none", "is_ok", "is_err"):
            want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[m]
            out = []
            if x.op in ("agg", "phi", "optcast"):
                return phi([(gg, boolc(vr == want)) for gg, vr, p in sp()])
            return mk("isvar", x, (want,), (S, N) if kind == OPT else ("Ok", "Err"))
        if m in ("is_some_and", "is_ok_and", "is_none_or"):
            out = []
            for i, (gg, vr, p) in enumerate(sp()):
                out.append((gg, apg(args[1], [p], gg, i) if vr == S else boolc(m == "is_none_or")))
            return phi(out)
        if m in ("unwrap", "expect", "unwrap_unchecked"):
            site("unwrap", m, x, kind)
            vs = sp()
            if vs and all(vr != S for _, vr, _ in vs): return None      # panics
            return phi([(gg, p) for gg, vr, p in vs if vr == S])
        if m in ("unwrap_err", "expect_err"):
            site("unwrap", m, x, kind)
            return phi([(gg, p) for gg, vr, p in sp() if vr == N])
        if m == "unwrap_or": return phi([(gg, p if vr == S else val(1)) for gg, vr, p in sp()])
        if m == "unwrap_or_default":
            return phi([(gg, p if vr == S else self.default_of(fr, st, targs[0], g, (tag, i))) for i, (gg, vr, p) in enumerate(sp())])
        if m == "unwrap_or_else":
            return phi([(gg, p if vr == S else apg(args[1], [] if kind == OPT else [p], gg, i)) for i, (gg, vr, p) in enumerate(sp())])
        if m == "map": return phi([(gg, good(apg(args[1], [p], gg, i)) if vr == S else bad(p)) for i, (gg, vr, p) in enumerate(sp())])
        if m == "map_err": return phi([(gg, ok(p) if vr == S else err(apg(args[1], [p], gg, i))) for i, (gg, vr, p) in enumerate(sp())])
        if m == "inspect" or m == "inspect_err": return x
        if m == "and_then": return phi([(gg, apg(args[1], [p], gg, i) if vr == S else bad(p)) for i, (gg, vr, p) in enumerate(sp())])
        if m == "or_else": return phi([(gg, good(p) if vr == S else apg(args[1], [] if kind == OPT else [p], gg, i)) for i, (gg, vr, p) in enumerate(sp())])
        if m == "or": return phi([(gg, good(p) if vr == S else val(1)) for gg, vr, p in sp()])
        if m == "and": return phi([(gg, val(1) if vr == S else bad(p)) for gg, vr, p in sp()])
        if m == "map_or": return phi([(gg, apg(args[2], [p], gg, i) if vr == S else val(1)) for i, (gg, vr, p) in enumerate(sp())])
        if m == "map_or_else": return phi([(gg, apg(args[2], [p], gg, i) if vr == S else apg(args[1], [] if kind == OPT else [p], gg, i)) for i, (gg, vr, p) in enumerate(sp())])
        if m == "ok_or": return phi([(gg, ok(p) if vr == S else err(val(1))) for gg, vr, p in sp()])
        if m == "ok_or_else": return phi([(gg, ok(p) if vr == S else err(apg(args[1], [], gg, i))) for i, (gg, vr, p) in enumerate(sp())])
        if m == "ok": return phi([(gg, some(p) if vr == S else NONE) for gg, vr, p in sp()])
        if m == "err": return phi([(gg, some(p) if vr == N else NONE) for gg, vr, p in sp()])
        if m == "flatten": return phi([(gg, p if vr == S else bad(p)) for gg, vr, p in sp()])
        if m == "filter":
            out = []
            for i, (gg, vr, p) in enumerate(sp()):
                if vr != S: out.append((gg, NONE)); continue
                c = apg(args[1], [p], gg, i)
                l1, l2 = I.lits(c, True), I.lits(c, False)
                if l1 is not None: out.append((conj(gg, l1) or gg, some(p)))
                if l2 is not None: out.append((conj(gg, l2) or gg, NONE))
            return phi(out)
        if m == "transpose":
            out = []
            for gg, vr, p in sp():
                if kind == OPT:
                    if vr != S: out.append((gg, ok(NONE))); continue
                    for g2, v2, q in self.split(p, RES):
                        g3 = conj(gg, g2)
                        if g3: out.append((g3, ok(some(q)) if v2 == "Ok" else err(q)))
                else:
                    if vr != S: out.append((gg, some(err(p)))); continue
                    for g2, v2, q in self.split(p, OPT):
                        g3 = conj(gg, g2)
                        if g3: out.append((g3, some(ok(q)) if v2 == "Some" else NONE))
            return phi(out)
        if m == "zip":
            out = []
            for gg, vr, p in sp():
                if vr != S: out.append((gg, NONE)); continue
                for g2, v2, q in self.split(val(1), OPT):
                    g3 = conj(gg, g2)
                    if g3: out.append((g3, some(agg("()", "", (p, q))) if v2 == "Some" else NONE))
            return phi(out)
        if m == "xor":
            out = []
            for gg, vr, p in sp():
                for g2, v2, q in self.split(val(1), OPT):
                    g3 = conj(gg, g2)
                    if g3: out.append((g3, some(p) if (vr, v2) == (S, "None") else some(q) if (vr, v2) == ("None", "Some") else NONE))
            return phi(out)
        if m == "eq": return self.eq(x, val(1))
        return NotImplemented

    def string_method(self, fr, st, m, owner, name, args, val, g, targs):
        I = self.I
        so = "str>" in owner or owner.endswith("String") or "impl str" in owner or "String as" in owner or owner.endswith("::str") or owner.endswith("::char::methods") or "impl char" in owner or "impl u8" in owner or "impl [u8]" in owner
        if not so: return NotImplemented
        def fold(f, *xs):
            if all(x.op == "const" and x.args[0] in ("str", "char") for x in xs):
                try: return f(*[x.args[1] for x in xs])
                except Exception: return None
            return None
        v = val() if args else None
        if v is not None and v.op in ("text", "achar") or v is not None and v.op == "const" and v.args[0] in ("str", "char"):
            r = self.text_method(fr, st, m, owner, args, val, g, v)
            if r is not NotImplemented: return r
        if m in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end"):
            f = {"to_lowercase": str.lower, "to_ascii_lowercase": text.ascii_lower, "to_uppercase": str.upper, "to_ascii_uppercase": text.ascii_upper, "trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip}[m]
            r = fold(f, v)
            if r is not None: return cstr(r) if v.args[0] == "str" else const("char", r)
            if v.op == "phi": return phi([(gg, self.string_method(fr, st, m, owner, name, [x], lambda i=0, x=x: x, g, targs)) for gg, x in v.args[0]])
            if v.op == "fresh": return v if m.startswith("trim") else mk("fresh", (m.replace("_ascii", ""), v.args[0]))
            return call(m.replace("_ascii", ""), v)
        if m in ("starts_with", "ends_with", "contains"):
            a = val(1)
            f = {"starts_with": lambda x, y: x.startswith(y), "ends_with": lambda x, y: x.endswith(y), "contains": lambda x, y: y in x}[m]
            r = fold(f, v, a)
            if r is not None: return boolc(r)
            if v is a and v.op == "sym": return TRUE
            if v.op == "phi" and len(v.args[0]) < 8: return phi([(gg, self.string_method(fr, st, m, owner, name, args, lambda i=0, x=x: x if i == 0 else a, g, targs)) for gg, x in v.args[0]])
            if is_str_const(a) or a.op == "const" and a.args[0] == "char":
                if m == "starts_with":
                    l = lead(v)
                    if l and l[0].startswith(a.args[1]): return TRUE
                    if l and not a.args[1].startswith(l[0]): return FALSE
                    if v.op == "fresh" and a.args[1] and not a.args[1][0].isalnum(): return FALSE
                if m == "contains" and v.op == "fresh" and not any(ch.isalnum() for ch in a.args[1]): return FALSE
                if m == "contains" and v.op == "call" and v.args[0] == "concat":
                    if any(x.op == "const" and a.args[1] in x.args[1] for x in v.args[1]): return TRUE
            return call(m, v, a)
        if m in ("strip_prefix", "strip_suffix"):
            r = call(m, v, val(1)); DOMAIN.setdefault(mk("discr", r), DOPT)
            x = val(1)
            if is_str_const(v) and is_str_const(x):
                s, p = v.args[1], x.args[1]
                if m == "strip_prefix": return some(cstr(s[len(p):])) if s.startswith(p) else NONE
                return some(cstr(s[:len(s) - len(p)])) if s.endswith(p) else NONE
            return r
        if m == "len": return self.len(v)
        if m == "is_empty": return self.is_empty(v)
        if m in ("push_str", "push"):
            for gg, r in alts(args[0]):
                if r.op == "mref": I.write_cell(st, r, self.concat([I.read_cell(st, r), val(1)]), g)
            return UNIT
        if m == "add": return self.concat([v, val(1)])
        if m == "chars": return call("chars", v)
        if m in ("replace", "replacen"):
            x, y = val(1), val(2)
            if is_str_const(x) and is_str_const(y):
                f, t = x.args[1], y.args[1]
                parts = v.args[1] if v.op == "call" and v.args[0] == "concat" else (v,)
                if m == "replace" and len(f) == 1 and not f.isalnum() and all(p.op == "fresh" or p.op == "const" for p in parts):
                    return self.concat([cstr(p.args[1].replace(f, t)) if p.op == "const" else p for p in parts])
                n = val(3) if m == "replacen" else None
                if n is not None and n.op == "const" and n.args[1] == 1 and parts[0].op == "const" and f in parts[0].args[1]:
                    return self.concat([cstr(parts[0].args[1].replace(f, t, 1))] + list(parts[1:]))
            return call(m, *[val(i) for i in range(len(args))])
        if m in ("split", "splitn", "rsplit", "lines", "split_whitespace"): return call("split", *[val(i) for i in range(len(args))])
        if m == "split_once":
            r = call("split_once", v, val(1)); DOMAIN.setdefault(mk("discr", r), DOPT); return r
        if m in ("find", "rfind", "get"):
            r = call("str" + m, v, val(1)); DOMAIN.setdefault(mk("discr", r), DOPT); return r
        if m == "index": 
            I.event("index", fr, fr.sp, ("str", v, val(1)), g)
            return self.slice(v, val(1))
        return NotImplemented

    def regex_method(self, fr, st, m, owner, args, val, apg, g, targs):
        """Regular expressions with a constant pattern on constants and abstract strings."""
        v = val()
        if v.op == "agg" and v.args[0] == "regex::Captures":
            x, gs = v.args[2][0], v.args[2][1]
            names = {n.args[1]: i for n, i in zip(v.args[2][2].args[2], range(99))}
            if m in ("get", "index", "name") and val(1).op == "const":
                i = val(1).args[1]
                if isinstance(i, str): i = names.get(i, -1)
                if not isinstance(i, int) or not 0 <= i < len(gs.args[2]): return NONE if m != "index" else NotImplemented
                q = gs.args[2][i]
                if m == "index": return q.args[2][0].args[2][0] if q.args[1] == "Some" else NotImplemented
                return q
            if m == "at" and val(1).op == "const":
                i = val(1).args[1]
                return some(gs.args[2][i].args[2][0].args[2][0]) if 0 <= i < len(gs.args[2]) and gs.args[2][i].args[1] == "Some" else NONE
            return NotImplemented
        if v.op == "agg" and v.args[0] == "regex::Match":
            if m in ("as_str", "into", "from"): return v.args[2][0]
            if m in ("start", "end", "len", "is_empty"):
                a, b = v.args[2][1].args[1], v.args[2][2].args[1]
                return boolc(a == b) if m == "is_empty" else const("int", {"start": a, "end": b, "len": b - a}[m])
            return NotImplemented
        if not (owner.endswith("Regex") and len(args) > 1): return NotImplemented
        x = v
        while x.op == "field": x = x.args[0]
        if not (x.op == "call" and x.args[0].endswith("new") and x.args[1] and is_str_const(x.args[1][0])): return NotImplemented
        pat, s = x.args[1][0].args[1], val(1)
        if s.op == "phi" and len(s.args[0]) < 8 and m == "is_match":
            rs = [(gg, text.regex_spans(pat, y)) for gg, y in s.args[0]]
            return NotImplemented if any(r is None for _, r in rs) else phi([(gg, boolc(bool(r))) for gg, r in rs])
        sp = text.regex_spans(pat, s)
        if sp is None: return NotImplemented
        cs = text.chars_of(s)
        if m == "is_match": return boolc(bool(sp))
        if sp and not all(text.test(c, str.isascii) for c in cs) and m not in ("replace", "replace_all", "split"): return NotImplemented
        def match(a, b): return agg("regex::Match", "Match", (text.of_chars(cs[a:b]), const("int", a), const("int", b)))
        inv = {i: n for n, i in text.regex(pat).groupindex.items()}
        def caps(gs): return agg("regex::Captures", "Captures", (s, agg("[]", "", [some(match(*p)) if p != (-1, -1) else NONE for p in gs]), agg("[]", "", [cstr(inv.get(i, "")) for i in range(len(gs))])))
        if m == "find": return some(match(*sp[0][0])) if sp else NONE
        if m == "captures": return some(caps(sp[0])) if sp else NONE
        if m == "find_iter": return agg("[]", "", [match(*x[0]) for x in sp])
        if m == "captures_iter": return agg("[]", "", [caps(x) for x in sp])
        if m == "split":
            out, k = [], 0
            for x in sp: out.append(text.of_chars(cs[k:x[0][0]])); k = x[0][1]
            return agg("[]", "", out + [text.of_chars(cs[k:])])
        if m in ("replace", "replace_all"):
            rep, out, k = val(2), [], 0
            for x in (sp[:1] if m == "replace" else sp):
                a, b = x[0]
                if rep.op == "const" and "$" not in str(rep.args[1]): y = rep
                elif rep.op in ("closure", "fn"): y = apg(rep, [caps(x)], g, ("cap", a))
                else: return NotImplemented
                out += [text.of_chars(cs[k:a]), y]; k = b
            return self.concat(out + [text.of_chars(cs[k:])])
        return NotImplemented

    def text_method(self, fr, st, m, owner, args, val, g, v):
        """Methods of strings (characters) of known length over character classes."""
        I = self.I
        cs = text.chars_of(v)
        ischar = v.op == "achar" or v.args[0] == "char"
        def three(r): return NotImplemented if r is None else boolc(r)
        if ischar and m in text.PREDS: return three(text.test(v, text.PREDS[m]))
        if ischar and m == "is_digit" and val(1).op == "const":
            return three(text.test(v, lambda x: x in "0123456789abcdefghijklmnopqrstuvwxyz"[:val(1).args[1]] + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:max(0, val(1).args[1] - 10)]))
        if m in ("chars",): return agg("[]", "", cs) if len(cs) <= 64 else NotImplemented
        if m == "char_indices":
            if not all(text.test(c, str.isascii) for c in cs): return NotImplemented
            return agg("[]", "", [agg("()", "", (const("int", i), c)) for i, c in enumerate(cs)])
        if v.op in ("text", "achar"):
            if m in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
                f = (text.ascii_lower if "lower" in m else text.ascii_upper) if "ascii" in m else str.lower if "lower" in m else str.upper
                out = [text.case(c, f) for c in cs]
                return out[0] if ischar and "ascii" in m else text.of_chars(out)
            if m in ("trim", "trim_start", "trim_end"):
                xs = list(cs)
                if m != "trim_end":
                    while xs and text.test(xs[0], str.isspace): xs.pop(0)
                if m != "trim_start":
                    while xs and text.test(xs[-1], str.isspace): xs.pop()
                if xs and any(text.test(x, str.isspace) is None for x in (xs[0], xs[-1])): return NotImplemented
                return text.of_chars(xs)
            if m == "len":
                w = text.widths(cs)
                return NotImplemented if w is None else const("int", sum(w))
            if m == "is_empty": return FALSE
        pat = text.chars_of(val(1)) if m in ("starts_with", "ends_with", "contains", "find", "rfind", "split", "splitn", "rsplit", "rsplitn", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "replace", "replacen", "trim_matches", "trim_start_matches", "trim_end_matches", "matches", "split_terminator") and len(args) > 1 and not (m in ("splitn", "rsplitn")) else None
        if m in ("splitn", "rsplitn"): pat = text.chars_of(val(2)) if len(args) > 2 else None
        if pat is not None and all(p.op == "const" for p in pat) and pat:
            n = len(pat)
            if m in ("starts_with", "strip_prefix"):
                r = [text.eq_char(a, b) for a, b in zip(cs, pat)]
                d = False if len(cs) < n or False in r else None if None in r else True
                if d is None: return NotImplemented
                return boolc(d) if m == "starts_with" else some(text.of_chars(cs[n:])) if d else NONE
            if m in ("ends_with", "strip_suffix"):
                r = [text.eq_char(a, b) for a, b in zip(cs[-n:], pat)]
                d = False if len(cs) < n or False in r else None if None in r else True
                if d is None: return NotImplemented
                return boolc(d) if m == "ends_with" else some(text.of_chars(cs[:-n])) if d else NONE
            if m in ("trim_matches", "trim_start_matches", "trim_end_matches"):
                xs = list(cs)
                def strip(front):
                    while len(xs) >= n:
                        r = [text.eq_char(a, b) for a, b in zip(xs[:n] if front else xs[-n:], pat)]
                        if False in r: return True
                        if None in r: return False
                        del xs[slice(0, n) if front else slice(len(xs) - n, None)]
                    return True
                if m != "trim_end_matches" and not strip(True): return NotImplemented
                if m != "trim_start_matches" and not strip(False): return NotImplemented
                return text.of_chars(xs)
            pos = text.find(cs, pat)
            if pos is None: return NotImplemented
            if m == "contains": return boolc(bool(pos))
            if m in ("find", "rfind"):
                ls = [{len(x.encode("utf8", "surrogatepass")) for x in text.members(c)} for c in cs[:pos[-1]]] if pos else []      # positions are those of bytes
                if any(len(l) != 1 for l in ls): return NotImplemented
                return some(const("int", sum(min(l) for l in ls[:pos[0] if m == "find" else pos[-1]]))) if pos else NONE
            if m in ("split_once", "rsplit_once"):
                if not pos: return NONE
                i = pos[0] if m == "split_once" else pos[-1]
                return some(agg("()", "", (text.of_chars(cs[:i]), text.of_chars(cs[i + n:]))))
            if m in ("split", "splitn", "split_terminator"):
                if m == "splitn":
                    if val(1).op != "const": return NotImplemented
                    pos = pos[:max(0, val(1).args[1] - 1)]
                out, k = [], 0
                for i in pos: out.append(text.of_chars(cs[k:i])); k = i + n
                out.append(text.of_chars(cs[k:]))
                if m == "split_terminator" and out[-1] is cstr(""): out.pop()
                return agg("[]", "", out)
            if m in ("replace", "replacen"):
                y = text.chars_of(val(2))
                if y is None: return NotImplemented
                if m == "replacen":
                    if val(3).op != "const": return NotImplemented
                    pos = pos[:val(3).args[1]]
                out, k = [], 0
                for i in pos: out += cs[k:i] + y; k = i + n
                return text.of_chars(out + cs[k:])
        return NotImplemented

    def byte_list(self, v):
        """The bytes of a text or of an exact list of bytes; the UTF-8 form of an undetermined character is one element."""
        if v is EMPTY: return []
        if v.op == "agg" and v.args[0] == "[]" and all(x.op == "achar" or x.op == "const" and x.args[0] == "int" for x in v.args[2]): return list(v.args[2])
        cs = text.chars_of(v)
        if cs is None: return None
        out = []
        for c in cs: out += [c] if c.op == "achar" else [const("int", b) for b in c.args[1].encode("utf8", "surrogatepass")]
        return out

    def text_of_bytes(self, xs, lossy=False):
        """The text with the given UTF-8 form; False when there is none."""
        out, cur = [], bytearray()
        def flush():
            try: out.extend(const("char", c) for c in bytes(cur).decode("utf8", "replace" if lossy else "strict"))
            except UnicodeDecodeError: return False
            cur.clear(); return True
        for x in xs:
            if x.op == "const": cur.append(x.args[1] & 255)
            elif not flush(): return False
            else: out.append(x)
        return text.of_chars(out) if flush() else False

    def utf8_error(self, xs):
        b, k = bytearray(), []
        for x in xs:
            if x.op == "const": b.append(x.args[1] & 255); k.append(1)
            else:
                n = {len(c.encode("utf8")) for c in text.members(x)}
                if len(n) > 1: return mk("sym", "not UTF-8")
                b += next(iter(text.members(x))).encode("utf8")
        try: b.decode("utf8")
        except UnicodeDecodeError as e: return agg("std::str::Utf8Error", "Utf8Error", (const("int", e.start), NONE if "unexpected end" in e.reason else some(const("int", e.end - e.start))))
        return mk("sym", "not UTF-8")

    def bytes_fn(self, fr, st, m, owner, name, args, val, g, tag):
        """Bytes of texts, and lists of bytes, whose length is known."""
        if m in ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked", "from_utf8_lossy_owned") and args:
            xs = self.byte_list(val())
            if xs is None: return NotImplemented
            t = self.text_of_bytes(xs, "lossy" in m)
            if "lossy" in m or "unchecked" in m: return t if t is not False else NotImplemented
            return ok(t) if t is not False else err(self.utf8_error(xs))
        if m in ("valid_up_to", "error_len") and val().op == "agg" and val().args[0] == "std::str::Utf8Error": return val().args[2][m == "error_len"]
        if m == "from_hex" and "FromHex" in name or m == "decode" and owner == "hex":
            v = val()
            xs = self.byte_list(v)
            cs = self.text_of_bytes(xs) if xs is not None else False
            cs = text.chars_of(cs) if cs is not False else None
            if cs is None: return NotImplemented
            bad = [text.test(c, lambda x: x in "0123456789abcdefABCDEF") for c in cs]
            if len(cs) % 2 or False in bad: return err(mk("sym", "not hexadecimal"))
            if all(c.op == "const" for c in cs): return ok(agg("[]", "", [const("int", b) for b in bytes.fromhex("".join(c.args[1] for c in cs))]))
            return NotImplemented
        if "mime::Mime" in name or "mime::Mime" in owner or "mime::Name" in name:
            v = val() if args else UNDEF
            if m in ("from_str", "parse") and v.op in ("text", "const"):
                r = libmime.parse(v)
                return NotImplemented if r is None else ok(r) if r is not False else err(mk("sym", "not a media type"))
            if v.op == "agg" and v.args[0] == "mime::Mime":
                if m in ("clone", "as_ref", "to_owned") and "str" not in name: return v
                r = libmime.method(m, v, val)
                return NotImplemented if r is None else r
            if m in ("as_str", "as_ref", "deref", "to_string") and v.op in ("text", "const"): return v
            if m in ("eq", "ne") and v.op in ("text", "const") and val(1).op in ("text", "const"):
                e = self.eq(v, val(1))
                return e if m == "eq" else self.unop("Not", e)
        if "char" in owner and m == "encode_utf8" and text.chars_of(val()) is not None:
            for gg, r in alts(args[1]):
                if r.op == "mref": self.I.write_cell(st, r, UNDEF, g)
            return text.of_chars(text.chars_of(val()))
        if "char" in owner and m == "len_utf8" and text.chars_of(val()) is not None:
            ns = {len(c.encode("utf8", "surrogatepass")) for c in text.members(text.chars_of(val())[0])}
            return const("int", ns.pop()) if len(ns) == 1 else NotImplemented
        if "char" in owner and m == "to_digit" and val().op in ("const", "achar") and val(1).op == "const":
            n = val(1).args[1]
            ds = {"0123456789abcdefghijklmnopqrstuvwxyz".find(c.lower()) if c.isascii() else -1 for c in text.members(val())}
            ds = {d if 0 <= d < n else None for d in ds}
            if len(ds) == 1: return NONE if None in ds else some(const("int", ds.pop()))
            return NotImplemented
        if m == "from_str_radix" and val().op == "const" and val(1).op == "const":
            import re
            u, radix, ty = val().args[1], val(1).args[1], next((x for x in INTS if "impl %s>" % x in name or "impl %s>" % x in owner), None)
            ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
            if ty is not None:
                t2 = u[1:] if u[:1] == "+" or u[:1] == "-" and ty.startswith("i") else u
                good = bool(t2) and all(c.isascii() and c.lower() in ds for c in t2)
                lo, hi = INTS[ty]
                return ok(const("int", int(u, radix))) if good and lo <= int(u, radix) <= hi else err(call("error"))
        if m in ("from_digit", "from_u32", "from_u32_unchecked") and "char" in name and val().op == "const" and val().args[0] == "int":
            n = val().args[1]
            if m == "from_digit": return NotImplemented if val(1).op != "const" else some(const("char", "0123456789abcdefghijklmnopqrstuvwxyz"[n])) if 0 <= n < val(1).args[1] else NONE
            c = const("char", chr(n)) if n < 0xd800 or 0xe000 <= n < 0x110000 else None
            return (some(c) if m == "from_u32" else c) if c is not None else NONE
        if m == "escape_unicode" and val().op == "const" and val().args[0] == "char":
            return agg("[]", "", [const("char", c) for c in "\\u{%x}" % ord(val().args[1])])
        if m == "bytes" and val().op in ("const", "text") and text.chars_of(val()) is not None: return agg("[]", "", self.byte_list(val()))
        if m in ("repeat_n", "repeat") and owner == "std::iter" or name in ("std::iter::repeat", "core::iter::repeat"):
            if m == "repeat_n": return agg("[]", "", [val()] * val(1).args[1]) if val(1).op == "const" else NotImplemented
            return mk("repeat", val())
        if m == "take" and val().op == "repeat" and val(1).op == "const" and 0 <= val(1).args[1] < 1000: return agg("[]", "", [val().args[0]] * val(1).args[1])
        if m in ("to_ascii_lowercase", "to_ascii_uppercase", "is_ascii_digit", "is_ascii_hexdigit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_whitespace") and val().op == "const" and val().args[0] == "int" and "u8" in owner:
            c = chr(val().args[1])
            if m.startswith("to_"): return const("int", ord(text.case(const("char", c), str.lower if "lower" in m else str.upper).args[1]) if c.isascii() else val().args[1])
            return boolc(c.isascii() and text.PREDS[m](c))
        return NotImplemented

    def coll_method(self, fr, st, m, owner, name, path, args, val, ap, apg, g, tag, targs, tys, site):
        I = self.I
        if not args: return NotImplemented
        coll_owner = owner.startswith(("std::vec::Vec", "std::collections::", "serde_json::Map", "core::slice", "std::slice", "bytes::")) or "serde_json::Map" in owner or "impl [T]" in owner or "std::vec::Vec" in owner or "VecDeque" in owner
        it = "iter::" in path or "Iterator" in path or "Itertools" in path or "Itertools" in name
        r0 = args[0]
        def refs(): return [(gg, r) for gg, r in alts(r0) if r.op == "mref"]
        def setc(f):
            rs = refs()
            for gg, r in rs:
                old = I.read_cell(st, r)
                new = f(old)
                I.write_cell(st, r, new if len(rs) == 1 else phi([(gg, new), (neg(gg), old)]), I.allg(fr, g))
        full = I.allg(fr, g)
        # mutation
        if coll_owner or "Entry" in owner or "Extend" in path:
            if m == "insert" and len(args) == 3 and not owner.startswith("std::vec"):
                k, v = val(1), val(2)
                setc(lambda o: self.coll_insert(o, k, v, full))
                site("insert", k, v, val(0))
                r = call("inserted", val(0), k); DOMAIN.setdefault(mk("discr", r), DOPT)
                return r
            if m == "insert" and len(args) == 2 and "Set" in owner:
                v = val(1); setc(lambda o: self.coll_insert(o, None, v, full)); return call("set_insert", val(0), v)
            if m == "insert" and "VacantEntry" in owner or m == "insert" and "OccupiedEntry" in owner:
                e = val(0)
                if e.op == "entry":
                    mref, k = e.args[:2]
                    old = I.read_cell(st, mref)
                    I.write_cell(st, mref, self.coll_insert(old, k, val(1), full), g)
                    return mk("mref", mref.args[0], mref.args[1] + (("key", k),))
                return NotImplemented
            if m == "get_mut" and "OccupiedEntry" in owner or m == "into_mut":
                e = val(0)
                if e.op == "entry": return mk("mref", e.args[0].args[0], e.args[0].args[1] + (("key", e.args[1]),))
                if e.op == "field" : return NotImplemented
            if m in ("push", "push_back", "add", "insert") and owner.startswith(("std::vec", "std::collections::VecDeque")):
                v = val(len(args) - 1)
                site("push", v, val(0))
                def push(o):
                    if not I.sumloop and m != "insert" and (o is EMPTY or o.op == "agg" and o.args[0] == "[]") and args[0].op == "mref":
                        return agg("[]", "", (o.args[2] if o.op == "agg" else ()) + (v,))
                    return self.coll_insert(o, None, v, full)
                setc(push); return UNIT
            if m in ("extend", "append", "extend_from_slice", "put", "put_slice"):
                v = val(1)
                def ext(o):
                    c, d = self.to_coll(o), self.to_coll(v)
                    gg = exists(full, is_next)
                    add = set()
                    for k, x, eg in d.args[1]:
                        cg = conj(eg, gg); add.add((k, x, cg if cg is not None else eg))
                    ent = c.args[1]
                    bs = set(d.args[0])
                    if gg:
                        # conditional extension: the elements carry the condition
                        for b in d.args[0]: add.add((None, self.elem(b), gg))
                        bs = set()
                    return mk("coll", c.args[0] | frozenset(bs), ent | frozenset(add))
                if I.peel and m != "append" and not I.sumloop and r0.op == "mref":
                    xs = self.exact_items(v)
                    if xs is None: xs = self.byte_list(v)
                    if xs is not None:
                        def extl(o):
                            ys = self.byte_list(o) if o.op in ("text", "const") else list(o.args[2]) if o.op == "agg" and o.args[0] == "[]" else [] if o is EMPTY and "Vec" in owner else None
                            return agg("[]", "", ys + xs) if ys is not None else ext(o)
                        setc(extl); return UNIT
                if v.op == "const": setc(lambda o: self.concat([o, v]) if o.op == "const" else call("extend", o, v)); return UNIT
                setc(ext); return UNIT
            if m == "entry":
                if r0.op == "mref":
                    cur = self.get(I.read_cell(st, r0), val(1))
                    if cur is NONE or cur.op == "agg" and cur.args[1] == "Some": return mk("entry", r0, val(1), "Vacant" if cur is NONE else "Occupied")
                    return mk("entry", r0, val(1))
                return NotImplemented
            if m in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
                e = val(0)
                if e.op != "entry": return NotImplemented
                mref, k = e.args[:2]
                old = I.read_cell(st, mref)
                if m == "or_insert": nv = val(1)
                elif m == "or_default": nv = self.default_of(fr, st, targs[1], g, tag) if len(targs) > 1 else EMPTY
                else: nv = ap(args[1], [k] if m.endswith("key") else [], "oi")
                cur = self.get(old, k)
                if cur is NONE: I.write_cell(st, mref, self.coll_insert(old, k, nv, full), g)
                elif not (cur.op == "agg" and cur.args[1] == "Some"):
                    d = mk("discr", cur) if cur.op != "phi" else None
                    gg = I.lits(mk("discr", cur), "None")
                    if gg is not None: I.write_cell(st, mref, self.coll_insert(old, k, nv, conj(full, gg) or full), g)
                return mk("mref", mref.args[0], mref.args[1] + (("key", k),))
            if m == "and_modify":
                e = val(0)
                if e.op != "entry": return NotImplemented
                mref, k = e.args[:2]
                ref = mk("mref", mref.args[0], mref.args[1] + (("key", k),))
                ap(args[1], [ref], "am")
                return e
            if I.peel and m in EXACT_MUT and len(refs()) == 1:
                xs = self.exact_items(val(0))
                if xs is not None and len(xs) <= MAXPEEL and val(0).op in ("agg", "seq") or val(0) is EMPTY:
                    co, I.closloop = I.closloop, False
                    try: r = self.exact_mut(fr, st, m, args, xs, ap, val, g, tag)
                    finally: I.closloop = co
                    if r is not None:
                        setc(lambda o: agg("[]", "", r[0])); return r[1]
            if m in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse"):
                cmpv = UNIT
                if len(args) > 1:
                    cmpv = self.cmp_key(fr, st, m, args[1], val(0), g, tag)
                setc(lambda o: call("sorted", o, cmpv) if m != "reverse" else call("rev", o)); return UNIT
            if m in ("remove", "pop", "clear", "truncate", "drain", "dedup", "retain", "swap_remove", "shift_remove", "remove_entry", "pop_front", "pop_back", "dedup_by_key", "split_off", "set_len", "swap", "take", "resize", "rotate_left"):
                old = val(0)
                pred = UNIT
                if m in ("retain", "dedup_by_key"): pred = ap(args[1], [self.elem(old)] if "Map" not in owner else [self.field_(self.elem(old), "0"), self.field_(self.elem(old), "1")], "rt") or UNIT
                elif len(args) > 1: pred = val(1)
                if m in ("remove", "swap_remove", "drain", "split_off") and (owner.startswith("std::vec") or "String" in owner): site("index", m, old, pred)
                if old.op == "agg" and old.args[0] == "[]" and args[0].op == "mref" and (m in ("pop", "pop_back", "pop_front") or m in ("truncate", "remove") and pred.op == "const"):
                    xs = list(old.args[2])
                    if m == "truncate": xs = xs[:pred.args[1]]; r = UNIT
                    elif m == "remove":
                        if pred.args[1] >= len(xs): return None
                        r = xs.pop(pred.args[1])
                    else: r = some(xs.pop(0 if m == "pop_front" else -1)) if xs else NONE
                    setc(lambda o: agg("[]", "", xs)); return r
                if m == "resize" and old.op == "agg" and old.args[0] == "[]" and args[0].op == "mref" and pred.op == "const" and pred.args[1] < 64:
                    setc(lambda o: agg("[]", "", (tuple(old.args[2]) + (val(2),) * 64)[:max(pred.args[1], 0)] if pred.args[1] > len(old.args[2]) else tuple(old.args[2])[:pred.args[1]])); return UNIT
                if m == "clear": setc(lambda o: EMPTY)
                elif m == "retain":
                    l = I.lits(pred, True)
                    setc(lambda o: mk("coll", frozenset(), frozenset([(None, self.elem(o), l)] if l is not None else [])))
                elif m == "remove" and not owner.startswith("std::vec"):
                    def rm(o):
                        if o.op == "phi": return phi([(g, rm(v)) for g, v in o.args[0]])
                        if o.op == "coll" and not o.args[0] and all(e[0] is not None and (e[0] is pred or differ(e[0], pred)) for e in o.args[1]):
                            return mk("coll", o.args[0], frozenset(e for e in o.args[1] if e[0] is not pred))
                        return call(m, o, pred)
                    setc(rm)
                else: setc(lambda o: call(m, o, pred))
                if m in ("remove", "pop", "pop_front", "pop_back", "remove_entry"):
                    if m == "remove" and owner.startswith("std::vec"): return self.index(old, pred)
                    r = self.get(old, pred) if m == "remove" else call("popped", old); DOMAIN.setdefault(mk("discr", r), DOPT); return r
                if m == "drain": return old
                return UNIT
            if m in ("iter_mut", "values_mut"):
                if r0.op == "mref":
                    ismap = owner.startswith("std::collections") and "Set" not in owner or "serde_json::Map" in owner
                    return mk("itermut", r0, "map" if ismap and m == "iter_mut" else "val" if m == "values_mut" else "elem", val(0))
                return val(0)
            if m == "get" and "OccupiedEntry" in owner:
                e = val(0)
                if e.op == "entry": return self.lookup_val(I.read_cell(st, e.args[0]), e.args[1])
                return NotImplemented
            if m in ("get_mut",):
                if len(args) < 2: return NotImplemented
                k = val(1)
                out = []
                for gg, r in refs():
                    cur = I.read_cell(st, r)
                    for g2, vr, p in self.split(self.get(cur, k), OPT):
                        c = conj(gg, g2)
                        if c is None: continue
                        out.append((c, some(mk("mref", r.args[0], r.args[1] + (("key", k),))) if vr == "Some" else NONE))
                return phi(out) if out else NotImplemented
            if m in ("last_mut", "first_mut"):
                out = []
                for gg, r in refs():
                    cur = I.read_cell(st, r)
                    if cur.op == "agg" and cur.args[0] == "[]":
                        n = len(cur.args[2])
                        out.append((gg, some(mk("mref", r.args[0], r.args[1] + (("at", n - 1 if m == "last_mut" else 0),))) if n else NONE))
                        continue
                    e = self.is_empty(cur)
                    l1, l2 = I.lits(e, False), I.lits(e, True)
                    if l1 is not None: out.append((conj(gg, l1) or gg, some(mk("mref", r.args[0], r.args[1] + (("elem",),)))))
                    if l2 is not None: out.append((conj(gg, l2) or gg, NONE))
                return phi(out) if out else NotImplemented
            if m in ("deref_mut", "as_mut_slice", "as_mut"): return r0
        if m == "into_iter" and r0.op == "mref":
            ty = tys[targs[0]]["s"] if targs else ""
            return mk("itermut", r0, "map" if any(x in ty for x in ("HashMap", "BTreeMap", "serde_json::Map")) else "elem", val(0))
        if m in ("index", "index_mut") and "ops::Index" in path:
            site("index", "idx", val(0), val(1))
            if m == "index_mut" and r0.op == "mref":
                c, i = val(0), val(1)
                if I.peel and c.op == "agg" and c.args[0] == "[]" and i.op == "const" and isinstance(i.args[1], int):
                    return mk("mref", r0.args[0], r0.args[1] + (("at", i.args[1]),)) if 0 <= i.args[1] < len(c.args[2]) else None      # panics
                return mk("mref", r0.args[0], r0.args[1] + (("key", val(1)),))
            i = val(1)
            if i.op == "agg" and "Range" in i.args[0]: return self.slice(val(0), i)
            c = val(0)
            if c.op == "agg" and c.args[0] == "[]" and i.op == "const" and isinstance(i.args[1], int) and i.args[1] >= len(c.args[2]): return None      # panics
            return self.index(c, i)
        if not (coll_owner or it): return NotImplemented
        if m in ("next", "next_back", "peek", "nth") :
            c = val(0)
            if c.op == "seq" and r0.op == "mref" and m in ("next", "next_back", "peek"):
                xs = c.args[0]
                if not xs: return NONE
                if m == "peek": return some(xs[0])
                I.write_cell(st, r0, mk("seq", xs[1:] if m == "next" else xs[:-1]), full)
                return some(xs[0 if m == "next" else -1])
            if c.op == "seq": c = agg("[]", "", c.args[0])
            node = fr.bb if isinstance(fr.bb, tuple) else (fr.bb, ())
            if m in ("next", "next_back", "peek") and not I.sumloop:
                xs = self.exact_items(c)
                if xs is not None:
                    if not xs: return NONE
                    if r0.op == "mref" and m != "peek": I.write_cell(st, r0, mk("seq", tuple(xs[1:] if m == "next" else xs[:-1])), full)
                    return some(xs[-1 if m == "next_back" else 0])
            if m == "nth":
                r = call("nth", c, val(1)); DOMAIN.setdefault(mk("discr", r), DOPT); return r
            return self.next_of(fr, c, m)
        c = val(0)
        if c.op == "seq": c = agg("[]", "", c.args[0])
        if it and I.peel and c.op == "agg" and c.args[0] in I.adts and m in ITER_IN:
            xs = self.drawn(fr, st, c, g, tag)
            if xs is not None: c = agg("[]", "", xs)
        if c.op == "call" and c.args[0] == "strtable" and m in ("contains", "contains_key", "get") and len(args) > 1:
            if is_str_const(val(1)):
                has = val(1) in c.args[1]
                return boolc(has) if m != "get" else some(call("get", c, val(1))) if has else NONE
            return call(m, c, val(1))
        if m in ("get",): return self.get(c, val(1))
        if m in ("contains_key",):
            r = self.get(c, val(1))
            if r.op in ("agg", "phi"): return phi([(gg, boolc(vr == "Some")) for gg, vr, _ in self.split(r, OPT)])
            return mk("isvar", r, ("Some",), ("None", "Some"))
        if m in ("starts_with", "ends_with") and self.exact_items(c) is not None and self.exact_items(val(1)) is not None:
            xs, ys = self.exact_items(c), self.exact_items(val(1))
            if len(ys) > len(xs): return FALSE
            rs = [self.eq(x, y) for x, y in zip(xs if m == "starts_with" else xs[len(xs) - len(ys):], ys)]
            if any(r is FALSE for r in rs): return FALSE
            if all(r is TRUE for r in rs): return TRUE
        if m == "contains":
            if c.op == "agg" and c.args[1] in ("Range", "RangeInclusive") and len(c.args[2]) == 2 and c.args[0].split("::")[-1] == c.args[1]:
                ks = list(c.args[2]) + [val(1)]
                if all(k.op == "const" and type(k.args[1]) is type(ks[0].args[1]) for k in ks): return boolc(ks[0].args[1] <= ks[2].args[1] and (ks[2].args[1] < ks[1].args[1] or c.args[1] == "RangeInclusive" and ks[2] is ks[1]))
                return call("contains", c, val(1))
            xs = self.exact_items(c)
            if xs is not None:
                rs = [self.eq(x, val(1)) for x in xs]
                if all(r.op == "const" for r in rs): return boolc(any(r is TRUE for r in rs))
            return call("contains", c, val(1))
        if m == "len" and I.peel and any(w in s for w in ("Map", "Set") for s in (owner, name, path)):
            xs = self.bag_items(c)
            if xs is not None and (not xs or xs[0][0] is not None or all(differ(a, b) for i, (_, a) in enumerate(xs) for _, b in xs[:i])): return const("int", len(xs))
        if m in ("len", "count"): return self.len(c)
        if m == "is_empty": return self.is_empty(c)
        if m in ("iter", "into_iter", "cloned", "copied", "by_ref", "peekable", "as_slice", "to_vec", "clone", "as_ref", "fuse", "deref", "into_boxed_slice", "as_bytes", "freeze", "to_owned", "drain", "collect_vec", "slice_to"):
            if m == "by_ref": return r0
            if m in ("iter", "into_iter") and any(w in x for w in ORDERED for x in (owner, name, path)):
                xs = self.in_order(fr, st, c, g, tag)
                if xs is not None: return agg("[]", "", [agg("()", "", x) if x[0] is not None else x[1] for x in xs])
            return c
        if m in ("values", "into_values", "keys", "into_keys") and any(w in x for w in ORDERED for x in (owner, name, path)):
            xs = self.in_order(fr, st, c, g, tag)
            if xs is not None: return agg("[]", "", [x[1 if "values" in m else 0] for x in xs])
        if m in ("values", "into_values", "keys", "into_keys") and I.maporder and self.bag_items(c) is not None: return agg("[]", "", [x[1 if "values" in m else 0] for x in self.bag_items(c)])
        if m in ("values", "into_values"): return mk("coll", frozenset(), frozenset((None, self.field_(e, "1"), gg) for e, gg in self.entries(c)))
        if m in ("keys", "into_keys"): return mk("coll", frozenset(), frozenset((None, self.field_(e, "0"), gg) for e, gg in self.entries(c)))
        if m in ("first", "last", "min", "max", "choose"):
            if c.op == "agg" and c.args[0] == "[]" and m in ("first", "last"):
                return some(c.args[2][0 if m == "first" else -1]) if c.args[2] else NONE
            if I.peel and c is EMPTY: return NONE
            r = call("get", self.objmap(c), const("int", 0)) if m == "first" else call(m, c)
            DOMAIN.setdefault(mk("discr", r), DOPT)
            if m in ("first", "last") and c.op not in ("agg", "coll"):
                # a list has a first element exactly when it is not empty
                e = self.is_empty(c)
                l1, l2 = (I.lits(e, False), I.lits(e, True)) if e.op != "const" else (None, None)
                if l1 is not None and l2 is not None: return phi([(l1, some(self.payload(r, OPT))), (l2, NONE)])
            return r
        if m == "collect": return self.collect(fr, st, c, targs, tys)
        if m == "enumerate": return call("enumerate", c)
        if m == "zip": return call("zip", c, val(1))
        if m == "rev": return call("rev", c)
        if m in EXACT and (I.maporder or I.peel or m in ("find", "position", "find_map") and c.op == "agg" and c.args[0] == "[]"):
            xs = self.exact_items(c)
            if xs is not None and len(xs) <= (MAXPEEL if I.peel else 8):
                co, I.closloop = I.closloop, False
                try: r = self.exact_more(fr, st, m, args, xs, ap, apg, val, g, tag)
                finally: I.closloop = co
                if r is not None: return r
        if m in ("sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key"):
            ity = tys[targs[0]]["s"] if targs else ""
            if not I.maporder and any(x in ity for x in ("hash_map", "btree_map", "hash_set", "serde_json::map", "HashMap", "HashSet")):
                # the order of a map is no part of its value
                site("sorted", c, self.cmp_key(fr, st, m, args[1], c, g, tag) if len(args) > 1 else UNIT)
                return c
            return call("sorted", c, self.cmp_key(fr, st, m, args[1], c, g, tag) if len(args) > 1 else UNIT)
        if m in ("dropping_back", "dropping") and val(1).op == "const":
            xs, n = self.exact_items(c), val(1).args[1]
            if xs is not None: return agg("[]", "", xs[n:] if m == "dropping" else xs[:max(0, len(xs) - n)])
        if m in ("unique", "skip", "take", "step_by", "dropping_back", "dropping", "dedup", "unique_by", "skip_while", "take_while", "chunks", "cycle", "windows"):
            extra = []
            if m in ("unique_by", "skip_while", "take_while"): extra = [ap(args[1], [self.elem(c)], m) or UNIT]
            elif len(args) > 1: extra = [val(1)]
            return call(m, c, *extra)
        if m == "chain": 
            a, b = self.to_coll(c), self.to_coll(val(1))
            return mk("coll", a.args[0] | b.args[0], a.args[1] | b.args[1])
        if m in ("concat",):
            xs = self.exact_items(c) if I.peel else None
            if xs and any(is_str_const(x) or x.op == "text" for x in xs) and all(is_str_const(x) or x.op in ("text", "achar") for x in xs): return self.concat(list(xs))
            ys = [self.exact_items(x) for x in xs] if xs is not None else [None]
            if None not in ys: return agg("[]", "", [y for l in ys for y in l])
            e = self.elem(c)
            return self.to_coll(e) if self.is_coll(e) else call("concat", c)
        if m == "join": return call("join", c, *[val(i) for i in range(1, len(args))])
        xs = self.exact_items(c) if m in ("map", "filter", "filter_map", "fold", "try_fold", "for_each", "any", "all", "rev", "enumerate") else None
        if xs is not None and len(xs) <= (MAXPEEL if I.peel else 6) and not (c.op == "coll" and c is not EMPTY and m == "map" and False):
            co, I.closloop = I.closloop, False
            try: r = self.exact_method(fr, st, m, args, xs, ap, apg, val, g)
            finally: I.closloop = co
            if r is not None: return r
        if m in ("map", "inspect"):
            ent, same = set(), True
            for i, (e, gg) in enumerate(self.entries(c)):
                v = ap(args[1], [e], ("map", i) if i else "map")
                if v is None: continue
                if m == "inspect": v = e
                if v is not e: same = False
                ent.add((None, v, gg))
            return c if same and ent else mk("coll", frozenset(), frozenset(ent))
        if m == "filter":
            ent, same = set(), True
            for i, (e, gg) in enumerate(self.entries(c)):
                p = ap(args[1], [e], ("flt", i) if i else "flt")
                l = I.lits(p, True) if p is not None else None
                if l is None: same = False; continue
                if l is not TT: same = False
                l = conj(l, gg)
                if l is not None: ent.add((None, e, l))
            return c if same else mk("coll", frozenset(), frozenset(ent))
        if m in ("filter_map", "flat_map", "flatten", "map_while"):
            ent = set()
            av = []
            for i, (e, eg) in enumerate(self.entries(c)):
                v = ap(args[1], [e], ("fm", i) if i else "fm") if m != "flatten" else e
                if v is not None:
                    for gg, x in alts(v):
                        cg = conj(eg, gg)
                        if cg is not None: av.append((cg, x))
            for gg, x in av:
                isopt = x.op in ("optcast", "tryb") or (x.op == "agg" and x.args[0] in (OPT, RES)) or m == "filter_map" or m == "map_while"
                if isopt:
                    for g2, vr, p in self.split(x, RES if x.op == "agg" and x.args[0] == RES else OPT):
                        if vr in ("Some", "Ok"):
                            cg = conj(gg, g2)
                            if cg is not None: ent.add((None, p, cg))
                elif self.is_coll(x):
                    d = self.to_coll(x)
                    for k, y, g2 in d.args[1]:
                        cg = conj(gg, g2)
                        if cg is not None: ent.add((k, y, cg))
                    for b in d.args[0]: ent.add((None, self.elem(b), gg))
                else: ent.add((None, self.elem(x), gg))
            return mk("coll", frozenset(), frozenset(ent))
        if m in ("any", "all", "find", "position", "find_map", "rposition"):
            e = self.elem(c)
            p = ap(args[1], [e], m)
            if p is None: p = UNDEF
            if m == "find_map":
                l = self.payload(p, OPT)
                r = call("find_map", c, p); DOMAIN.setdefault(mk("discr", r), DOPT)
                return r
            if m in ("find", "position"):
                r = call(m, c, p); DOMAIN.setdefault(mk("discr", r), DOPT)
                return r
            if c is EMPTY or (c.op == "agg" and not c.args[2]): return boolc(m == "all")
            return call(m, c, p)
        if m == "for_each":
            ap(args[1], [self.elem(c)], "fe"); return UNIT
        if m in ("fold", "try_fold"):
            init = val(1)
            key = mk("loop", fr.uid, fr.bb, (tag, "fold"))
            cur = init
            for i in range(6):
                acc = self.coll_or(cur, key)
                v = ap(args[2], [acc, self.elem(c)], "fold")
                if v is None: return init
                if m == "try_fold": v = self.payload(v, RES)
                if v.op == "phi" and any(x is key for _, x in v.args[0]): v = v
                new = self.join_values([(TT, init), (TT, v)]) if self.is_coll(init) else None
                if new is None:
                    if v is init: return init
                    if acc is key:
                        I.loopin[key] = {(TT, init), (TT, v)}
                        return mk("fold", c, init, v)
                    cur = key; continue
                if new is cur: return ok(cur) if m == "try_fold" else cur
                cur = new
            return ok(cur) if m == "try_fold" else cur
        if m in ("max_by_key", "min_by_key", "max_by", "min_by"):
            e = self.elem(c)
            k = ap(args[1], [e] if m.endswith("key") else [mk("sym", "cmp_a"), mk("sym", "cmp_b")], m) or UNIT
            r = call(m, c, k); DOMAIN.setdefault(mk("discr", r), DOPT); return r
        if m in ("merge_join_by",):
            k = ap(args[2], [self.elem(c), self.elem(val(1))], m) or UNIT
            return call(m, c, val(1), k)
        if m in ("batching", "coalesce", "group_by", "partition", "scan", "sum", "product", "last", "unzip", "tuple_windows"):
            return call(m, c, *[val(i) for i in range(1, len(args))])
        return NotImplemented

    def coll_or(self, cur, key): return cur if self.is_coll(cur) or cur is key else cur

    def cmp_key(self, fr, st, m, f, c, g, tag):
        I = self.I
        I_q, I.quiet = I.quiet, True
        try:
            if m.endswith("key"):
                return call("bykey", I.call_closure(fr, st, f, [mk("sym", "cmp_a")], g, (tag, "cmp")) or UNIT)
            return call("bycmp", I.call_closure(fr, st, f, [mk("sym", "cmp_a"), mk("sym", "cmp_b")], g, (tag, "cmp")) or UNIT)
        finally: I.quiet = I_q

    def slice(self, v, x):
        if x.op == "agg" and x.args[1] == "RangeFrom" and x.args[2][0].op == "const" and lead(v):
            n, parts = x.args[2][0].args[1], v.args[1] if v.op == "call" else (v,)
            p0 = parts[0].args[1]
            if len(p0) >= n and p0.isascii(): return self.concat([cstr(p0[n:])] + list(parts[1:]))
        if self.I.peel and x.op == "agg" and "Range" in x.args[0] and x.args[1] in ("RangeFrom", "RangeTo", "Range") and all(is_int(y) for y in x.args[2]) and text.chars_of(v) is not None and not all(text.test(c, str.isascii) for c in text.chars_of(v)):
            cs, b = text.chars_of(v), [y.args[1] for y in x.args[2]]
            w = text.widths(cs)
            if w is not None:
                at = {sum(w[:i]): i for i in range(len(cs) + 1)}
                lo, hi = {"RangeFrom": lambda: (b[0], sum(w)), "RangeTo": lambda: (0, b[0]), "Range": lambda: (b[0], b[1])}[x.args[1]]()
                return text.of_chars(cs[at[lo]:at[hi]]) if lo in at and hi in at and lo <= hi else None      # panics inside a character
        if self.I.peel and x.op == "agg" and "Range" in x.args[0] and all(y.op == "const" and y.args[0] == "int" for y in x.args[2] if y.op != "const" or y.args[0] != "bool"):
            b = [y.args[1] for y in x.args[2] if y.args[0] == "int"]
            k = x.args[1]
            xs = list(v.args[2]) if v.op == "agg" and v.args[0] == "[]" else None
            ys = xs if xs is not None else self.byte_list(v) if all(text.test(c, str.isascii) for c in text.chars_of(v) or []) or is_str_const(v) else None
            if ys is not None:
                n = len(ys)
                lo, hi = {"RangeFrom": lambda: (b[0], n), "RangeTo": lambda: (0, b[0]), "Range": lambda: (b[0], b[1]), "RangeFull": lambda: (0, n), "RangeInclusive": lambda: (b[0], b[1] + 1), "RangeToInclusive": lambda: (0, b[0] + 1)}.get(k, lambda: (1, 0))()
                if 0 <= lo <= hi <= n:
                    if xs is not None: return agg("[]", "", ys[lo:hi])
                    t = self.text_of_bytes(ys[lo:hi])
                    return t if t is not False else agg("[]", "", ys[lo:hi])
                if k in ("RangeFrom", "RangeTo", "Range", "RangeInclusive", "RangeToInclusive"): return None      # panics
        return call("slice", v, x)

    def json_pointer(self, v, p):
        """(value, steps) at a JSON pointer of a known document; False when there is none, None when that is not known."""
        if p == "": return v, []
        if not p.startswith("/"): return False
        steps = []
        for tok in p[1:].split("/"):
            tok = tok.replace("~1", "/").replace("~0", "~")
            if v.op != "agg" or v.args[0] != VALUE: return None
            if v.args[1] == "Object":
                es = self.bag_items(v.args[2][0])
                if es is None or any(not is_str_const(k) for k, _ in es): return None
                hit = [(k, x) for k, x in es if k.args[1] == tok]
                if not hit: return False
                steps += [("f", "Object", "0", 0), ("key", hit[0][0])]; v = hit[0][1]
            elif v.args[1] == "Array":
                xs = self.exact_items(v.args[2][0])
                if xs is None: return None
                if not (tok.isascii() and tok.isdigit()) or len(tok) > 1 and tok[0] == "0" or int(tok) >= len(xs): return False
                steps += [("f", "Array", "0", 0), ("at", int(tok))]; v = xs[int(tok)]
            else: return False
        return v, steps

    def exact_method(self, fr, st, m, args, xs, ap, apg, val, g):
        """Iterator adaptors on a list whose elements are all known."""
        I = self.I
        if m == "map":
            vs = [ap(args[1], [e], ("map", i)) for i, e in enumerate(xs)]
            return None if any(v is None for v in vs) else agg("[]", "", vs)
        if m == "enumerate": return agg("[]", "", [agg("()", "", (const("int", i), e)) for i, e in enumerate(xs)])
        if m == "rev": return agg("[]", "", xs[::-1])
        if m == "filter":
            out = []
            for i, e in enumerate(xs):
                p = ap(args[1], [e], ("flt", i))
                if p is TRUE: out.append(e)
                elif p is not FALSE: return None
            return agg("[]", "", out)
        if m == "filter_map":
            out = []
            for i, e in enumerate(xs):
                p = ap(args[1], [e], ("fm", i))
                if p is NONE: continue
                if p is not None and p.op == "agg" and p.args[1] == "Some": out.append(p.args[2][0])
                else: return None
            return agg("[]", "", out)
        if m == "for_each":
            for i, e in enumerate(xs): ap(args[1], [e], ("fe", i))
            return UNIT
        if m in ("any", "all"):
            stop = TRUE if m == "any" else FALSE
            out, cur = [], TT
            for i, e in enumerate(xs):
                p = ap(args[1], [e], (m, i))
                if p is None: return None
                if p is stop: out.append((cur, stop)); return phi(out)
                if p.op == "const": continue
                l, n = I.lits(p, stop is TRUE), I.lits(p, stop is not TRUE)
                if l is None or n is None: return None
                cl, cn = conj(cur, l), conj(cur, n)
                if cl is not None: out.append((cl, stop))
                if cn is None: return phi(out)
                cur = cn
            out.append((cur, boolc(m == "all")))
            return phi(out)
        if m == "fold":
            acc = val(1)
            for i, e in enumerate(xs):
                acc = ap(args[2], [acc, e], ("fold", i))
                if acc is None: return None
            return acc
        if m == "try_fold":
            acc, out, cur = val(1), [], TT
            for i, e in enumerate(xs):
                r = apg(args[2], [acc, e], cur, ("fold", i))
                if r is None: return None
                if r.op == "agg" and r.args[0] == RES and r.args[1] == "Ok": acc = r.args[2][0]; continue
                return None
            return ok(acc)
        return None

    def drawn(self, fr, st, v, g, tag):
        """The elements an iterator of this program yields, when every one of them is determined; else None."""
        I = self.I
        ns = [n for n in I.recs if n.startswith("<" + v.args[0]) and n.endswith(" as std::iter::Iterator>::next") and n[len(v.args[0]) + 1] in "< "]
        if len(ns) != 1: return None
        cell, out = ("drawn", fr.uid, fr.bb, tag), []
        st[cell] = v
        for i in range(MAXPEEL + 1):
            p = I.inline(fr, st, I.fn(ns[0]), [mk("mref", cell, ())], g, (tag, "next", i))
            if p is NONE: return out
            if p is None or p.op != "agg" or p.args[1] != "Some": return None
            out.append(p.args[2][0])
        return None

    def exact_mut(self, fr, st, m, args, xs, ap, val, g, tag):
        """(elements, result) of an operation that changes a list whose elements are all known; None when undecided."""
        if m == "reverse": return xs[::-1], UNIT
        if m.startswith("sort"):
            r = self.exact_more(fr, st, m.replace("sort", "sorted", 1), args, xs, ap, None, val, g, tag)
            return (list(r.args[2]), UNIT) if r is not None else None
        if m in ("dedup", "dedup_by", "dedup_by_key"):
            if m == "dedup_by": ap = lambda f, a, t, ap=ap: ap(f, a[::-1], t)
            r = self.exact_more(fr, st, m, args, xs, ap, None, val, g, tag)
            return (list(r.args[2]), UNIT) if r is not None and r.op == "agg" else None
        if m == "retain":
            out = []
            for i, e in enumerate(xs):
                p = ap(args[1], [e], (m, i))
                if p is None or p.op != "const": return None
                if p is TRUE: out.append(e)
            return out, UNIT
        return None

    def exact_more(self, fr, st, m, args, xs, ap, apg, val, g, tag):
        """Further adaptors on a list whose elements are all known; None when undecided."""
        I = self.I
        L = lambda ys: agg("[]", "", ys)
        if m == "count": return const("int", len(xs))
        if m == "merge_join_by":
            ys, i, j, out = self.exact_items(val(1)), 0, 0, []
            if ys is None: return None
            E = "itertools::EitherOrBoth"
            while i < len(xs) and j < len(ys):
                o = ap(args[2], [xs[i], ys[j]], (m, i, j))
                if o is None or o.op != "agg" or "Ordering" not in o.args[0]: return None
                v = o.args[1]
                out.append(agg(E, {"Less": "Left", "Greater": "Right", "Equal": "Both"}[v], {"Less": (xs[i],), "Greater": (ys[j],), "Equal": (xs[i], ys[j])}[v] if i < len(xs) else ()))
                i += v != "Greater"; j += v != "Less"
            return L(out + [agg(E, "Left", (x,)) for x in xs[i:]] + [agg(E, "Right", (y,)) for y in ys[j:]])
        if m == "batching":
            cell, out = ("batch", fr.uid, fr.bb, tag), []
            st[cell] = mk("seq", tuple(xs))
            for i in range(len(xs) + 1):
                p = ap(args[1], [mk("mref", cell, ())], (m, i))
                if p is NONE: return L(out)
                if p is None or p.op != "agg" or p.args[1] != "Some": return None
                out.append(p.args[2][0])
            return None
        if m in ("last",): return some(xs[-1]) if xs else NONE
        if m in ("find", "position", "skip_while", "take_while", "find_map", "partition", "filter", "filter_map", "flat_map", "flatten", "rposition"):
            ps = []
            for i, e in enumerate(xs):
                p = ap(args[1], [e], (m, i)) if m != "flatten" else e
                if p is None: return None
                if m in ("find", "position", "skip_while", "take_while", "partition", "rposition") and p.op != "const": return None
                if m in ("find_map", "filter_map") and not (p.op == "agg" and p.args[0] == OPT): return None
                ps.append(p)
                if m in ("find", "position") and p is TRUE: return some(e if m == "find" else const("int", i))
                if m == "find_map" and p.args[1] == "Some": return p
                if m == "skip_while" and p is FALSE: return L(xs[i:])
                if m == "take_while" and p is FALSE: return L(xs[:i])
            if m in ("find", "position", "find_map"): return NONE
            if m == "skip_while": return L([])
            if m == "take_while": return L(xs)
            if m == "rposition":
                hit = [i for i, p in enumerate(ps) if p is TRUE]
                return some(const("int", hit[-1])) if hit else NONE
            if m == "partition": return agg("()", "", (L([x for x, p in zip(xs, ps) if p is TRUE]), L([x for x, p in zip(xs, ps) if p is not TRUE])))
            if m == "filter_map": return L([p.args[2][0] for p in ps if p.args[1] == "Some"])
            if m in ("flat_map", "flatten"):
                out = []
                for p in ps:
                    if p.op == "agg" and p.args[0] in (OPT, RES): out += [p.args[2][0]] if p.args[1] in ("Some", "Ok") else []
                    else:
                        ys = self.exact_items(p)
                        if ys is None: return None
                        out += ys
                return L(out)
            return None
        if m in ("unique", "dedup", "unique_by", "dedup_by_key"):
            out, keys = [], []
            for x in xs:
                k = x if "by" not in m else ap(val(1), [x])
                if k is None: return None
                rs = [self.eq(k, y) for y in (keys if "unique" in m else keys[-1:])]
                if any(r.op != "const" for r in rs): return None
                if not any(r is TRUE for r in rs): out.append(x); keys.append(k)
            return L(out)
        if m == "dedup_by":
            out = xs[:1]
            for i, x in enumerate(xs[1:]):
                r = ap(args[1], [out[-1], x], (m, i))
                if r is None or r.op != "const": return None
                if r is not TRUE: out.append(x)
            return L(out)
        if m == "coalesce":
            out = xs[:1]
            for i, x in enumerate(xs[1:]):
                r = ap(args[1], [out[-1], x], ("coal", i))
                if r is None or r.op != "agg" or r.args[0] != RES: return None
                if r.args[1] == "Ok": out[-1] = r.args[2][0]
                else:
                    e = r.args[2][0]
                    if e.op != "agg" or e.args[0] != "()" or len(e.args[2]) != 2: return None
                    out[-1:] = list(e.args[2])
            return L(out)
        if m == "chain":
            ys = self.exact_items(val(1))
            return L(xs + ys) if ys is not None else None
        if m in ("skip", "take") and val(1).op == "const": return L(xs[val(1).args[1]:] if m == "skip" else xs[:val(1).args[1]])
        if m == "nth" and val(1).op == "const": return some(xs[val(1).args[1]]) if val(1).args[1] < len(xs) else NONE
        if m == "join" and len(args) > 1:
            sep = val(1)
            if not (is_str_const(sep) and all(x.op in ("const", "text", "num", "sym", "call") for x in xs)): return None
            out = []
            for i, x in enumerate(xs): out += ([sep] if i else []) + [x.args[0] if x.op == "num" else x]
            return self.concat(out) if all(not (x.op == "call" and x.args[0] not in ("concat", "to_string")) for x in xs) else None
        if m in ("sum", "product") and all(x.op == "const" and x.args[0] == "int" for x in xs):
            r = 0 if m == "sum" else 1
            for x in xs: r = r + x.args[1] if m == "sum" else r * x.args[1]
            return const("int", r)
        if m in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key"):
            import functools
            key = m.endswith("_key")
            ks = [ap(args[1], [e], (m, i)) if key else e for i, e in enumerate(xs)]
            if any(k is None for k in ks): return None
            class Undecided(Exception): pass
            def cmp(i, j):
                if m.endswith("_by"):
                    r = ap(args[1], [xs[i], xs[j]], (m, i, j))
                    if r is None or r.op != "agg" or "Ordering" not in r.args[0]: raise Undecided
                    return {"Less": -1, "Equal": 0, "Greater": 1}[r.args[1]]
                r = self.order(fr, st, ks[i], ks[j], g, (m, i, j))
                if r is None: raise Undecided
                return r
            try: idx = sorted(range(len(xs)), key=functools.cmp_to_key(cmp))
            except Undecided: return None
            if m.startswith("sorted"): return L([xs[i] for i in idx])
            if not xs: return NONE
            best = idx[0]
            if m.startswith("max"):
                best = idx[-1]      # the sort is stable: the last of the largest
            return some(xs[best])
        return None

    def exact_items(self, c):
        """The elements of a collection whose elements and order are all known, or None."""
        if c.op == "seq": return list(c.args[0])
        if c.op == "itermut" and c.args[1] == "elem" and c.args[2].op == "agg" and c.args[2].args[0] == "[]" and c.args[0].op == "mref":
            return [mk("mref", c.args[0].args[0], c.args[0].args[1] + (("at", i),)) for i in range(len(c.args[2].args[2]))]
        if c.op == "itermut" and c.args[1] in ("map", "val") and self.I.maporder and c.args[0].op == "mref":
            xs = self.bag_items(c.args[2])
            if xs is not None:
                ms = [(k, mk("mref", c.args[0].args[0], c.args[0].args[1] + (("key", k),))) for k, v in xs]
                return [agg("()", "", x) if c.args[1] == "map" else x[1] for x in ms]
        if c is EMPTY: return []
        if c.op == "agg" and c.args[0] == "[]": return list(c.args[2])
        if self.I.peel and c.op == "agg" and c.args[1] in ("Range", "RangeInclusive") and c.args[0].split("::")[-1] == c.args[1]:
            b = [x.args[1] for x in c.args[2] if x.op == "const" and x.args[0] == "int"]
            if len(b) == 2 and b[1] - b[0] < 2000: return [const("int", i) for i in range(b[0], b[1] + (c.args[1] == "RangeInclusive"))]
        if c.op == "coll" and self.I.maporder:
            xs = self.bag_items(c)
            if xs is not None: return [agg("()", "", (k, v)) if k is not None else v for k, v in xs]
        if c.op == "agg" and c.args[0] == VALUE and c.args[1] in ("Object", "Array"): return self.exact_items(c.args[2][0])
        if c.op == "coll" and not c.args[0] and len(c.args[1]) == 1:
            (k, v, g), = c.args[1]
            if g == TT and not find_all(v, repr_elem) and (k is None or not find_all(k, repr_elem)): return [agg("()", "", (k, v)) if k is not None else v]
        if c.op == "coll" and not c.args[0] and all(g == TT and k is not None and k.op == "const" for k, v, g in c.args[1]) and len({k for k, _, _ in c.args[1]}) == len(c.args[1]):
            return [agg("()", "", (k, v)) for k, v, _ in sorted(c.args[1], key=lambda e: str(e[0].args[1]))]
        if c.op == "call" and c.args[0] == "enumerate":
            x = self.exact_items(c.args[1][0])
            if x is not None: return [agg("()", "", (const("int", i), e)) for i, e in enumerate(x)]
        if c.op == "call" and c.args[0] in ("skip", "take") and c.args[1][1].op == "const":
            x, n = self.exact_items(c.args[1][0]), c.args[1][1].args[1]
            if x is not None: return x[n:] if c.args[0] == "skip" else x[:n]
        if c.op == "call" and c.args[0] == "rev":
            x = self.exact_items(c.args[1][0])
            if x is not None: return x[::-1]
        if c.op == "call" and c.args[0] == "zip":
            x, y = self.exact_items(c.args[1][0]), self.exact_items(c.args[1][1])
            if x is not None and y is not None: return [agg("()", "", p) for p in zip(x, y)]
        return None

    def lexing(self, fr, st, m, args, val, targs, fk, g, tag):
        """Lexers derived with logos, on texts whose characters are known or of a class."""
        I, crate, LX = self.I, fr.F.crate, "logos::Lexer"
        if m == "lexer" and targs:
            n = text.chars_of(val())
            return NotImplemented if n is None else agg(LX, "Lexer", (val(), cstr(crate.tys[targs[0]]["s"]), const("int", 0), const("int", 0), self.fuel(len(n))))
        x = val()
        if not (x.op == "agg" and x.args[0] == LX): return NotImplemented
        v, ty, b, e = x.args[2][:4]
        cs = text.chars_of(v); b, e = b.args[1], e.args[1]
        if m == "slice": return text.of_chars(cs[b:e])
        if m == "remainder": return text.of_chars(cs[e:])
        if m == "source": return v
        if m == "span":
            w = [{len(y.encode("utf-8", "surrogatepass")) for y in text.members(c)} for c in cs[:e]]
            if any(len(y) > 1 for y in w): return call("span", x)
            w = [min(y) for y in w]
            return agg("std::ops::Range", "Range", (const("int", sum(w[:b])), const("int", sum(w))))
        if m == "next":
            r0 = args[0]
            while r0.op == "mref" and I.read_cell(st, r0).op == "mref": r0 = I.read_cell(st, r0)
            t = lexer.token(I, crate, ty.args[1], v, e)
            if t is None or r0.op != "mref": return NotImplemented
            s1, e1, tok = t
            y = agg(LX, "Lexer", (v, ty, const("int", s1), const("int", e1), self.fuel(len(cs) - e1)))
            I.write_cell(st, r0, y, g)
            if tok is None: return NONE
            if tok[0] == "err": return some(err(UNIT))
            if tok[0] == "ok": return some(ok(agg(ty.args[1], tok[1], ())))
            p = I.inline(fr, st, I.fn(tok[1]), [r0], g, (tag, "callback"))
            if p is None: return None
            out = []
            for gg, z in [(a, c if b == "Some" else None) for a, b, c in self.split(p, OPT)]: out.append((gg, some(err(UNIT)) if z is None else some(ok(agg(ty.args[1], tok[2], (z,))))))
            return phi(out)
        return NotImplemented

    def fuel(self, n):
        t = UNIT
        for _ in range(n): t = agg("fuel", "", (t,))
        return t

    def in_order(self, fr, st, c, g, tag):
        """The entries of a map that is kept in the order of its keys."""
        import functools
        if not self.I.maporder or not self.bag_items(c): return None
        xs, bad = self.bag_items(c), []
        def cmpk(x, y):
            o = self.order(fr, st, x[0] if x[0] is not None else x[1], y[0] if y[0] is not None else y[1], g, (tag, "bt"))
            if o is None: bad.append(1)
            return o or 0
        xs = sorted(xs, key=functools.cmp_to_key(cmpk))
        return None if bad else xs

    def bag_items(self, c):
        """(key, value) of a map or set whose entries are all known, in the iteration order that is being followed."""
        if c.op != "coll" or c.args[0] or any(g is not TT for _, _, g in c.args[1]) or len(c.args[1]) > (16 if self.I.maporder and self.I.peel else 8): return None
        es = sorted(c.args[1], key=lambda e: ((e[0] if e[0] is not None else e[1]).id, e[1].id))
        if any(find_all(x, repr_elem) for k, v, _ in es for x in ([v] if k is None else [k, v])): return None
        ks = [k for k, _, _ in es]
        if None in ks and any(k is not None for k in ks): return None
        if None not in ks and not all(differ(a, b) for i, a in enumerate(ks) for b in ks[:i]): return None
        if self.I.maporder == "desc": es.reverse()
        return [(k, v) for k, v, _ in es]

    def order(self, fr, st, a, b, g, tag):
        """-1/0/1 when the order of two values is known, else None."""
        I = self.I
        if a is b: return 0
        if a.op == b.op == "const" and a.args[0] == b.args[0] and a.args[0] in ("int", "str", "char", "bool"):
            return (a.args[1] > b.args[1]) - (a.args[1] < b.args[1])
        if a.op in ("text", "const", "achar") and b.op in ("text", "const", "achar"):
            x, y = text.chars_of(a), text.chars_of(b)
            if x is None or y is None: return None
            for p, q in zip(x, y):
                e = text.eq_char(p, q)
                if e is True: continue
                lt = {m < n for m in text.members(p) for n in text.members(q)}
                if e is None or len(lt) > 1: return None
                return -1 if lt.pop() else 1
            return (len(x) > len(y)) - (len(x) < len(y))
        if a.op == b.op == "agg" and a.args[0] == b.args[0]:
            if a.args[0] in ("()", "[]", "std::cmp::Reverse"):
                for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
                    r = self.order(fr, st, x, y, g, (tag, i))
                    if r is None: return None
                    if r: return -r if "Reverse" in a.args[0] else r
                return (len(a.args[2]) > len(b.args[2])) - (len(a.args[2]) < len(b.args[2]))
            if a.args[0] == OPT and a.args[1] != b.args[1]: return -1 if a.args[1] == "None" else 1
            n = "<%s as std::cmp::Ord>::cmp" % a.args[0]
            if n in I.recs and not I.opaque(n):
                r = I.inline(fr, st, I.fn(n), [a, b], g, (tag, "ord"))
                return {"Less": -1, "Equal": 0, "Greater": 1}.get(r.args[1]) if r is not None and r.op == "agg" else None
        return None

    def next_of(self, fr, c, m):
        if c.op == "agg" and c.args[0] == "[]" and not c.args[2] or c is EMPTY: return NONE
        r = mk("next", c)
        DOMAIN.setdefault(mk("discr", r), DOPT)
        return r

    def collect(self, fr, st, c, targs, tys):
        dst = "std::collections::HashMap" if isinstance(tys, _Fake) else tys[targs[1]]["s"] if len(targs) > 1 else ""
        kind = RES if dst.startswith("std::result::Result") else OPT if dst.startswith("std::option::Option") else None
        if dst.startswith(("std::vec::Vec", "std::boxed::Box<[", "std::collections::VecDeque")) and c.op == "coll" and c is not EMPTY and self.I.maporder and self.I.peel:
            xs = self.exact_items(c)
            if xs is not None: return agg("[]", "", xs)
        if kind and c.op == "agg" and c.args[0] == "[]":
            vs = [self.split(v, kind) for v in c.args[2]]
            if all(len(x) == 1 for x in vs):
                bad = [x[0] for x in vs if x[0][1] not in ("Some", "Ok")]
                if bad: return err(bad[0][2]) if kind == RES else NONE
                items = agg("[]", "", [x[0][2] for x in vs])
                inner = dst[dst.index("<") + 1:]
                if inner.startswith(("std::collections::", "serde_json::Map")): items = mk("coll", frozenset(), frozenset((x.args[2][0], x.args[2][1], TT) if x.op == "agg" and len(x.args[2]) == 2 else (None, x, TT) for x in items.args[2]))
                return ok(items) if kind == RES else some(items)
            c = self.to_coll(c)
        if kind and c.op == "coll":
            ent, errs = set(), []
            for k, v, gg in c.args[1]:
                for g2, vr, p in self.split(v, kind):
                    cg = conj(gg, g2)
                    if cg is None: continue
                    if vr in ("Some", "Ok"): ent.add((k, p, gg))
                    else: errs.append((g2, p))
            cc = mk("coll", c.args[0], frozenset(ent))
            good = ok(cc) if kind == RES else some(cc)
            if errs:
                badp = phi([(TT, p) for _, p in errs])
                return phi([(lit(mk("allok", c), True), good), (lit(mk("allok", c), False), err(badp) if kind == RES else NONE)])
            return good
        if dst.startswith("std::string::String"):
            xs = self.exact_items(c) if self.I.peel else None
            if xs is not None and all(x.op in ("const", "text", "achar") or x.op == "call" and x.args[0] == "concat" for x in xs): return self.concat(xs) if xs else cstr("")
            return call("collect_string", c)
        if dst == VALUE:
            pairs = False
            for _, v, _ in self.to_coll(c).args[1]:
                for _, x in alts(v): pairs = pairs or (x.op == "agg" and x.args[0] == "()" and len(x.args[2]) == 2)
            if pairs: return agg(VALUE, "Object", [self.collect(fr, st, c, targs[:1] + [None], _Fake())])
            return agg(VALUE, "Array", [c])
        if dst.startswith("std::collections::") or dst.startswith("serde_json::Map"):
            if c.op == "coll":
                ent = set()
                for k, v, gg in c.args[1]:
                    if k is None and v.op == "agg" and v.args[0] == "()" and len(v.args[2]) == 2: ent.add((v.args[2][0], v.args[2][1], gg))
                    elif k is None and v.op == "phi" and "Set" not in dst:
                        for g2, x in v.args[0]:
                            cg = conj(gg, g2)
                            if cg is None: continue
                            if x.op == "agg" and x.args[0] == "()" and len(x.args[2]) == 2: ent.add((x.args[2][0], x.args[2][1], cg))
                            else: ent.add((None, x, cg))
                    else: ent.add((k, v, gg))
                # identity copy of another map
                if len(ent) == 1 and not c.args[0]:
                    k, v, gg = next(iter(ent))
                    if not gg and k is not None and k.op == "field" and v.op == "field" and k.args[0] is v.args[0] and k.args[0].op == "elem" and k.args[2] == "0" and v.args[2] == "1":
                        return k.args[0].args[0]
                return mk("coll", c.args[0], frozenset(ent))
            if c.op == "agg" and c.args[0] == "[]":
                return mk("coll", frozenset(), frozenset((x.args[2][0], x.args[2][1], TT) if x.op == "agg" and len(x.args[2]) == 2 else (None, x, TT) for x in c.args[2]))
        if c.op == "coll" and not c.args[0] and len(c.args[1]) == 1:
            k, v, gg = next(iter(c.args[1]))
            if not gg and k is None and v.op == "elem": return v.args[0]
        return c

class _Fake: pass

def is_fmt_cell(r): return isinstance(r.args[0], tuple) and r.args[0] and r.args[0][0] == "fmt"
