"""Random draws: with an oracle set every draw is one of the values that can be drawn, chosen by the oracle; without one a draw is unknown."""
from engine import *
import text

ORACLE = None          # callable: number of alternatives -> index

class Draws:
    """Depth-first enumeration of every sequence of draws; of a draw among many only some alternatives are taken."""
    def __init__(self, picks=lambda k: range(k)): self.picks, self.path, self.todo = picks, [], [[]]
    def __call__(self, k):
        i = len(self.path)
        opts = list(self.picks(k))
        if i < len(self.prefix): j = self.prefix[i]
        else:
            j = opts[0]
            for o in opts[1:]: self.todo.append(self.path[:] + [o])
        self.path.append(j)
        return j
    def runs(self, limit):
        """Iterates over the runs; sets the oracle for each."""
        global ORACLE
        n = 0
        try:
            while self.todo and n < limit:
                self.prefix, self.path = self.todo.pop(), []
                ORACLE = self; n += 1
                yield n
        finally: ORACLE = None

ends = lambda k: sorted({0, k - 1})
some3 = lambda k: sorted({0, k // 2, k - 1})
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

def is_rng(v): return v.op == "agg" and v.args[0] == "rng"
RNG = agg("rng", "", ())

def hexes(n, tag): return [text.achar("0123456789abcdef", ("uuid", tag, i)) for i in range(n)]
def uuid_text(kind):
    h = hexes(32, 0)
    if kind == "Simple": return text.of_chars(h)
    dash = const("char", "-")
    cs = h[:8] + [dash] + h[8:12] + [dash] + h[12:16] + [dash] + h[16:20] + [dash] + h[20:]
    if kind == "Urn": cs = [const("char", c) for c in "urn:uuid:"] + cs
    return text.of_chars(cs)

def item(dist):
    if "Alphanumeric" in show(dist, 3): return const("int", ord(ALNUM[ORACLE(len(ALNUM))]))
    return None

def call_(M, fr, st, name, path, m, owner, args, val, targs, site, ap):
    I = M.I
    xs = lambda v: M.exact_items(v)
    if m in ("thread_rng", "rng"): return RNG
    if ORACLE is None: return NotImplemented
    if m in ("gen_range", "random_range"):
        r = val(1)
        if r.op != "agg" or "Range" not in r.args[0]: return NotImplemented
        b = [x.args[1] for x in r.args[2] if x.op == "const" and x.args[0] == "int"]
        if len(b) != 2: return NotImplemented
        k = b[1] - b[0] + (1 if r.args[1] == "RangeInclusive" else 0)
        if k <= 0: site("panic", name); return "panics"
        return const("int", b[0] + ORACLE(k))
    if m in ("gen", "r#gen", "random") and targs:
        t = [fr.F.crate.tys[x]["s"] for x in targs]
        if "bool" in t: return boolc(bool(ORACLE(2)))
        return NotImplemented
    if m in ("gen_bool", "gen_ratio", "random_bool"): return boolc(bool(ORACLE(2)))
    if m == "choose":
        l = xs(val())
        if l is None: return NotImplemented
        return agg(OPT, "Some", (l[ORACLE(len(l))],)) if l else agg(OPT, "None", ())
    if m in ("choose_multiple", "choose_multiple_fill"):
        l, n = xs(val()), val(2)
        if l is None or n.op != "const" or m != "choose_multiple": return NotImplemented
        return agg("[]", "", l[:n.args[1]])
    if m == "sample_iter": return mk("endless", "dist", val(1), ())
    if m == "sample":
        r = item(val(1))
        return r if r is not None else call("sampled", val(1))
    if m == "sample_string":
        n = val(2)
        if n.op == "const": return cstr("".join(chr(item(val()).args[1]) for _ in range(n.args[1])))
    return NotImplemented

def endless(M, m, v, args, val, ap):
    if m == "map": return mk("endless", v.args[0], v.args[1], v.args[2] + (args[1],))
    if m in ("into_iter", "iter", "by_ref", "cloned", "copied"): return v
    if m == "take" and val(1).op == "const" and 0 <= val(1).args[1] < 2000:
        out = []
        for i in range(val(1).args[1]):
            x = item(v.args[1]) if v.args[0] == "dist" else ap(v.args[1], [], ("draw", i))
            if x is None: return NotImplemented
            for j, f in enumerate(v.args[2]):
                x = ap(f, [x], ("draw", i, j))
                if x is None: return NotImplemented
            out.append(x)
        return agg("[]", "", out)
    return NotImplemented

# ---- libraries: uuid, rand_regex with regex_syntax, indextree, serde_urlencoded

def libs(M, fr, st, name, path, m, owner, args, val, g, site):
    I = M.I
    if "uuid::" in path:
        if m == "new_v4": return agg("uuid", "Hyphenated", ())
        if m in ("as_simple", "simple", "to_simple", "as_hyphenated", "hyphenated", "to_hyphenated", "as_urn", "urn", "to_urn") and val().op == "agg" and val().args[0] == "uuid":
            return agg("uuid", {"s": "Simple", "h": "Hyphenated", "u": "Urn"}[m.replace("as_", "").replace("to_", "")[0]], ())
        return NotImplemented
    if "regex_syntax::" in path:
        if m == "parse":
            v = val(len(args) - 1)
            if not M_const(v): return NotImplemented
            ok_ = text.regex(v.args[1]) is not None
            return agg(RES, "Ok", (agg("hir", "", (v,)),)) if ok_ else agg(RES, "Err", (call("error"),))
        return agg("rxparser", "", ())
    if "rand_regex::" in path:
        if m == "with_hir" and val().op == "agg" and val().args[0] == "hir" or m == "compile" and M_const(val()):
            v = val().args[2][0] if m == "with_hir" else val()
            return agg(RES, "Err", (call("error"),)) if anchored(v.args[1]) else agg(RES, "Ok", (agg("randregex", "", (v, val(1))),))
        return NotImplemented
    if "serde_urlencoded::" in path and m == "to_string":
        xs = M.exact_items(val())
        if xs is None or any(x.op != "agg" or x.args[0] != "()" or len(x.args[2]) != 2 or not all(M_const(y) for y in x.args[2]) for x in xs): return NotImplemented
        return agg(RES, "Ok", (cstr("&".join("=".join(form(y.args[1]) for y in x.args[2]) for x in xs)),))
    return arena(M, fr, st, name, path, m, args, val, g)

def M_const(v): return v.op == "const" and v.args[0] == "str"
def form(s): return "".join(chr(b) if chr(b).isascii() and (chr(b).isalnum() or chr(b) in "*-._") else "+" if b == 32 else "%%%02X" % b for b in s.encode("utf8"))
def anchored(p):
    i, cls = 0, False
    while i < len(p):
        c = p[i]
        if c == "\\":
            if p[i + 1:i + 2] in ("b", "B", "A", "z") and not cls: return True
            i += 1
        elif c == "[": cls = True
        elif c == "]": cls = False
        elif c in "^$" and not cls: return True
        i += 1
    return False

MATCHES = {}       # what a matcher of variants given by a check answers: (name, value) -> (variant, generators)
def variant(m, args, val):
    k = (val().args[1], val(1))
    if k in MATCHES: return agg(OPT, "Some", (agg("()", "", MATCHES[k]),))
    return agg(OPT, "None", ())

NODE = lambda i: agg("indextree::NodeId", "", (const("int", i),))
def arena(M, fr, st, name, path, m, args, val, g):
    """indextree: an arena is the list of its nodes (value, number of the parent)."""
    I = M.I
    isid = lambda v: v.op == "agg" and v.args[0] == "indextree::NodeId"
    isar = lambda v: v.op == "agg" and v.args[0] == "arena" and len(v.args[2]) == 1 and v.args[2][0].op == "agg"
    if m in ("new", "with_capacity") and "Arena" in path: return agg("arena", "", (agg("[]", "", ()),))
    def add(ref, v, parent):
        if ref.op != "mref": return NotImplemented
        a = I.deref_all(st, ref)
        if not isar(a): return NotImplemented
        ns = a.args[2][0].args[2]
        while I.read_cell(st, ref).op == "mref": ref = I.read_cell(st, ref)
        I.write_cell(st, ref, agg("arena", "", (agg("[]", "", ns + (agg("()", "", (v, const("int", parent))),)),)), g)
        return NODE(len(ns))
    if m == "new_node" and len(args) == 2: return add(args[0], val(1), -1)
    if m == "append_value" and isid(val()): return add(args[2], val(1), val().args[2][0].args[1])
    if m == "append" and isid(val()) and isid(val(1)) and args[2].op == "mref":
        a = val(2)
        if not isar(a): return NotImplemented
        ns, k = list(a.args[2][0].args[2]), val(1).args[2][0].args[1]
        if any(x.args[2][1].args[1] == val().args[2][0].args[1] for x in ns[k + 1:]): return NotImplemented   # the order of the children would change
        ns[k] = agg("()", "", (ns[k].args[2][0], const("int", val().args[2][0].args[1])))
        ref = args[2]
        while I.read_cell(st, ref).op == "mref": ref = I.read_cell(st, ref)
        I.write_cell(st, ref, agg("arena", "", (agg("[]", "", ns),)), g)
        return UNIT
    if m in ("descendants", "ancestors", "children") and isid(val()) and isar(val(1)):
        ns = val(1).args[2][0].args[2]
        par = lambda i: ns[i].args[2][1].args[1]
        i = val().args[2][0].args[1]
        if m == "children": out = [j for j in range(len(ns)) if par(j) == i]
        elif m == "ancestors":
            out = []
            while i >= 0: out.append(i); i = par(i)
        else:
            def pre(k): return [k] + [y for j in range(len(ns)) if par(j) == k for y in pre(j)]
            out = pre(i)
        return agg("[]", "", [NODE(j) for j in out])
    if m in ("index", "get") and isar(val()) and isid(val(1)):
        r = agg("arenanode", "", (val(), val(1)))
        return r if m == "index" else agg(OPT, "Some", (r,))
    v = val() if args else UNDEF
    if v.op == "agg" and v.args[0] == "arenanode":
        ns, i = v.args[2][0].args[2][0].args[2], v.args[2][1].args[2][0].args[1]
        if m == "get": return ns[i].args[2][0]
        opt = lambda l: agg(OPT, "Some", (NODE(l[0]),)) if l else agg(OPT, "None", ())
        kids = [j for j in range(len(ns)) if ns[j].args[2][1].args[1] == i]
        if m == "first_child": return opt(kids)
        if m == "last_child": return opt(kids[-1:])
        if m == "parent": return opt([j for j in [ns[i].args[2][1].args[1]] if j >= 0])
    return NotImplemented
