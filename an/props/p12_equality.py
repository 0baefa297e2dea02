"""Equality, hashing and the keys generated for interactions."""
from common import *
from props.p33_pacts import Pacts, KINDS
from props.p27_select import MR, RLT, MRC, MRSS, CAT, AND, OR
from props.p23_paths import ROOT, F, IX, STAR, DPT, Paths
import itertools

GEN, GCAT, HS, CTY = "generators::Generator", "generators::GeneratorCategory", "HttpStatus", "content_types::ContentType"
MRD, VT, REFR = "matchingrules::expressions::MatchingRuleDefinition", "matchingrules::expressions::ValueType", "matchingrules::expressions::MatchingReference"
HINT = "content_types::ContentTypeHint"
def EQ(t): return "<%s as std::cmp::PartialEq>::eq" % t
def HASH(t): return "<%s as std::hash::Hash>::hash" % t
def I_(n): return const("int", n)
WORDS = ["a", "A", "ab", "", "a ", "b", "\u00e9", "\u00c9"]

class Eqs(Pacts):
    def has(R, f): return f in R.ctx.models().fns
    def eq(R, a, b): return R.run(EQ(a.args[0]), a, b)
    def path(R, *ts):
        if not hasattr(R, "P"): R.P = Paths(R.ctx)
        return R.P.of(*ts)
    def rl(R, *rules, logic=AND, cascaded=FALSE): return R.struct(RLT, rules=listof(*rules), rule_logic=logic, cascaded=cascaded)
    def cat(R, name, *kv): return R.struct(MRC, name=agg(CAT, name, ()), rules=mapof(*kv) if kv else EMPTY)
    def mrs(R, *cats): return R.struct(MRSS, rules=mapof(*[(R.get(c, "name"), c) for c in cats]) if cats else EMPTY)
    def gens(R, *kv): return R.struct(GENS, categories=mapof(*[(agg(GCAT, k, ()), v) for k, v in kv]) if kv else EMPTY)
    def ps(R, name, **kw): return R.struct(PS, name=cstr(name), params=dict_of(*kw.items()) if kw else EMPTY)
    def ct(R, m="a", s="b", suf=None, **at): return R.struct(CTY, main_type=cstr(m), sub_type=cstr(s), attributes=dict_of(*[(k, cstr(v)) for k, v in at.items()]) if at else EMPTY, suffix=NONE if suf is None else some(cstr(suf)))

def bytesof(s): return cstr(s)
def body(b, ct=NONE, hint=NONE): return agg(BODY, "Present", (bytesof(b), ct, hint))
def bare(v): return agg(BODY, v, ())

def truth(v):
    return v.args[1] if v.op == "const" and v.args[0] == "bool" else None

def undetermined(h):
    """The sequence a hasher was given is not known exactly."""
    return opaque_in(h) or bool(find_all(h, lambda y: y is UNDEF or y.op in ("coll", "phi", "mut", "loop"))) or not (h.op == "agg" and h.args[0] == "[]" or find_all(h, lambda y: y.op == "call" and y.args[0] == "finish") or h.op == "const")

def family(ctx, R, ty, vals, where, star=False):
    """vals: (label, class, value): equal exactly when of the same class; equal values hash alike in every order of the maps."""
    n = ty.split("::")[-1]
    e, h, ne = EQ(ty), HASH(ty), "<%s as std::cmp::PartialEq>::ne" % ty
    ctx.need(e)
    hashes = {}
    for l, c, v in vals:
        if not R.has(h): continue
        for o in R.orders:
            R.order = o
            hashes[l, o] = R.hash(v)
        R.order = "asc"
        a, b = hashes[l, "asc"], hashes[l, "desc"]
        und = any(opaque_in(x) or undetermined(x) for x in (a, b))
        ctx.ob("%s hash of %s in every order" % (n, l), True if a is b and not und else None if und else False, "the hash depends on the random order of a map: %s or %s" % (show(a, 4)[:250], show(b, 4)[:250]), ctx.where(h))
    for (l1, c1, v1), (l2, c2, v2) in itertools.product(vals, vals):
        want = c1 == c2
        if star and "base" not in (l1, l2) and l1 != l2 and l1.split(" ")[:2] != l2.split(" ")[:2]: continue
        for o in (R.orders if l1 == l2 else R.orders[:1]):
            R.order = o
            y = R.run(e, v1, v2)
            R.order = "asc"
            t = truth(y)
            ctx.ob("%s %s == %s%s" % (n, l1, l2, "" if o == "asc" else " desc"), None if t is None else t == want, "comparing them gives %s instead of %s" % (t, want) if t is not None else "not resolved: " + show(y, 4)[:200], where or ctx.where(e))
        if R.has(ne):
            t = truth(R.run(ne, v1, v2))
            ctx.ob("%s %s != %s" % (n, l1, l2), None if t is None else t != want, "comparing them with != gives %s instead of %s" % (t, not want), ctx.where(ne))
        if R.has(h) and l1 < l2:
            a, b = hashes[l1, "asc"], hashes[l2, "asc"]
            und = any(opaque_in(x) or undetermined(x) for x in (a, b))
            if want: ctx.ob("%s hash of equals: %s, %s" % (n, l1, l2), True if a is b and not und else None if und else False, "equal values have different hashes: %s, %s" % (show(a, 4)[:200], show(b, 4)[:200]), ctx.where(h))

def depends(ctx, R, ty, matter, ignored, casefold=()):
    """Two values of arbitrary contents that differ in one field."""
    n, e = ty.split("::")[-1], EQ(ty)
    fs = R.fields(ty)
    ctx.need(e)
    def norm_bool(y):
        if y.op == "phi" and len(y.args[0]) == 2 and {v for _, v in y.args[0]} == {TRUE, FALSE}:
            g = [g for g, v in y.args[0] if v is TRUE][0]
            s = list(support(g))
            if len(s) == 1 and g is lit(s[0], True): return s[0]
        return y
    for f in matter + ignored:
        if f not in fs: ctx.ob("%s field %s" % (n, f), None, "no such field", ctx.where(e)); continue
        a = R.struct(ty); b = R.put(a, **{f: sym("other")})
        for x, z, l in ((a, b, ""), (b, a, " reversed")):
            y = norm_bool(R.run(e, x, z))
            s, t = sym(f), sym("other")
            key, where = "%s differing in %s%s" % (n, f, l), ctx.where(e)
            if f in ignored: ctx.ob(key, True if y is TRUE else None if opaque_in(y) or y.op == "call" and not find_all(y, lambda q: q is t) else False, "values that differ in %s only: equality is %s instead of true" % (f, show(y, 4)[:200]), where)
            elif y in (TRUE, FALSE): ctx.ob(key, False, "equality of values that may differ in %s is always %s" % (f, show(y)), where)
            elif y.op == "call" and y.args[0] == "eq" and len(y.args[1]) == 2:
                p, q = y.args[1]
                good = {p, q} == {s, t} or p.op == q.op == "discr" and {p.args[0], q.args[0]} == {s, t}
                if f in casefold: good = {p, q} in ({call(c, s), call(c, t)} for c in ("to_uppercase", "to_lowercase", "ascii_upper", "ascii_lower"))
                got = set(find_all(y, lambda q: q in (s, t)))
                ctx.ob(key, True if good or len(got) == 2 and f in ("matching_rules", "generators") else None if len(got) == 2 else False, "equality of values that differ in %s is decided by %s" % (f, show(y, 5)[:200]), where)
            else:
                got = find_all(y, lambda q: q in (s, t))
                gs = [z2 for g, _ in alts(y) for z2 in support(g)]
                ctx.ob(key, True if got or any(find_all(z2, lambda q: q in (s, t)) for z2 in gs) else None, "not resolved: " + show(y, 4)[:200], where)

def rule_values(R):
    S = lambda v, *a: agg(MR, v, tuple(a))
    out = []
    for v in [x["name"] for x in R.I.adts[MR]["variants"]]:
        fs = [x for x in R.I.adts[MR]["variants"] if x["name"] == v][0]["fields"]
        if not fs: out.append((v, v, S(v)))
        elif v in ("MinType", "MaxType"): out += [("%s(%d)" % (v, i),) * 2 + (S(v, I_(i)),) for i in (0, 1, 2 ** 40)]
        elif v == "MinMaxType": out += [("%s(%d,%d)" % (v, i, j),) * 2 + (S(v, I_(i), I_(j)),) for i, j in ((1, 2), (2, 1), (1, 1), (2, 2))]
        elif v == "StatusCode": out += [("%s(%s)" % (v, l),) * 2 + (S(v, h),) for l, h in status_values(R)[:5]]
        elif v == "ArrayContains":
            r, g = R.cat("BODY", (R.path(ROOT, F("a")), R.rl(S("Type")))), mapof((R.path(ROOT, F("a")), agg(GEN, "RandomInt", (I_(0), I_(5)))), (R.path(ROOT, F("b")), agg(GEN, "RandomBoolean", ())))
            g1 = mapof((R.path(ROOT, F("a")), agg(GEN, "RandomInt", (I_(0), I_(5)))))
            g2 = mapof((R.path(ROOT, F("a")), agg(GEN, "RandomInt", (I_(0), I_(6)))))
            r2 = R.cat("BODY", (R.path(ROOT, F("b")), R.rl(S("Type"))))
            vs = [("none", ()), ("0", ((0, r, EMPTY),)), ("1", ((1, r, EMPTY),)), ("other rules", ((0, r2, EMPTY),)), ("generator", ((0, r, g1),)), ("other generator", ((0, r, g2),)), ("two generators", ((0, r, g),)), ("two", ((0, r, EMPTY), (1, r, g))), ("two swapped", ((1, r, g), (0, r, EMPTY)))]
            out += [("ArrayContains %s" % l,) * 2 + (S(v, listof(*[agg("()", "", (I_(i), a, b)) for i, a, b in x])),) for l, x in vs]
        elif v in ("EachKey", "EachValue"):
            d = definitions(R)
            out += [("%s %s" % (v, l),) * 2 + (S(v, x),) for l, x in d]
        else: out += [("%s(%s)" % (v, w),) * 2 + (S(v, cstr(w)),) for w in WORDS[:4]]
    return out

def definitions(R):
    L = lambda *rs: listof(*[agg("itertools::Either", "Left", (x,)) for x in rs])
    base = dict(value=cstr("a"), value_type=agg(VT, "String", ()), rules=L(agg(MR, "Type", ())), generator=NONE, expression=cstr("e"))
    d = lambda **k: R.struct(MRD, **dict(base, **k))
    return [("plain", d()), ("other value", d(value=cstr("b"))), ("other rules", d(rules=L(agg(MR, "Regex", (cstr("a"),))))), ("generator", d(generator=some(agg(GEN, "RandomInt", (I_(0), I_(1))))))]

def status_values(R):
    out = []
    for v in [x["name"] for x in R.I.adts[HS]["variants"]]:
        if v == "StatusCodes": out += [("%s%s" % (v, list(xs)), agg(HS, v, (listof(*[I_(x) for x in xs]),))) for xs in ((), (200,), (201,), (200, 201), (201, 200))]
        else: out.append((v, agg(HS, v, ())))
    return sorted(out, key=lambda x: x[0] not in ("Success", "Error", "StatusCodes[200]", "StatusCodes[201]", "StatusCodes[200, 201]"))

def gen_values(R):
    out = []
    S = lambda v, *a: agg(GEN, v, tuple(a))
    o = lambda w: NONE if w is None else some(cstr(w))
    for d in R.I.adts[GEN]["variants"]:
        v, fs = d["name"], d["fields"]
        if not fs: out.append((v, v, S(v)))
        elif v == "RandomInt": out += [("%s(%d,%d)" % (v, i, j),) * 2 + (S(v, I_(i), I_(j)),) for i, j in ((0, 1), (1, 0), (0, 0), (-1, 1), (1, 1))]
        elif v in ("RandomDecimal", "RandomHexadecimal", "RandomString"): out += [("%s(%d)" % (v, i),) * 2 + (S(v, I_(i)),) for i in (0, 1, 65535)]
        elif v == "Regex": out += [("%s(%s)" % (v, w),) * 2 + (S(v, cstr(w)),) for w in WORDS[:4]]
        elif v in ("Date", "Time", "DateTime"): out += [("%s(%s,%s)" % (v, a, b),) * 2 + (S(v, o(a), o(b)),) for a, b in ((None, None), ("a", None), (None, "a"), ("a", "a"), ("a", "b"), ("", None))]
        elif v == "Uuid": out += [(v + "()",) * 2 + (S(v, NONE),)] + [("%s(%s)" % (v, x),) * 2 + (S(v, some(agg("generators::UuidFormat", x, ()))),) for x in [q["name"] for q in R.I.adts["generators::UuidFormat"]["variants"]]]
        elif v == "ProviderStateGenerator": out += [("%s(%s,%s)" % (v, a, b),) * 2 + (S(v, cstr(a), NONE if b is None else some(agg("expression_parser::DataType", b, ()))),) for a, b in (("a", None), ("b", None), ("a", "STRING"), ("a", "RAW"), ("A", None))]
        elif v == "MockServerURL": out += [("%s(%s,%s)" % (v, a, b),) * 2 + (S(v, cstr(a), cstr(b)),) for a, b in (("a", "b"), ("b", "a"), ("a", "a"), ("b", "b"))]
        elif v == "ArrayContains":
            r = R.cat("BODY", (R.path(ROOT, F("a")), R.rl(agg(MR, "Type", ()))))
            g1, g2 = mapof((R.path(ROOT, F("a")), S("RandomBoolean"))), mapof((R.path(ROOT, F("a")), S("RandomBoolean")), (R.path(ROOT, F("b")), S("RandomInt", I_(0), I_(1))))
            out += [("ArrayContains %s" % l,) * 2 + (S(v, listof(*[agg("()", "", (I_(i), a, b)) for i, a, b in x])),) for l, x in [("none", ()), ("0", ((0, r, EMPTY),)), ("1", ((1, r, EMPTY),)), ("generator", ((0, r, g1),)), ("generators", ((0, r, g2),)), ("two", ((0, r, g1), (1, r, g2))), ("two swapped", ((1, r, g2), (0, r, g1)))]]
    return out

def sets(R):
    """Sets of rules and generators: (label, class, value)."""
    t, e = agg(MR, "Type", ()), agg(MR, "Regex", (cstr("a"),))
    a, b = R.path(ROOT, F("a")), R.path(ROOT, F("b"))
    cats = [("empty", (), "BODY"), ("a", ((a, R.rl(t)),), "BODY"), ("a header", ((a, R.rl(t)),), "HEADER"), ("a other", ((a, R.rl(e)),), "BODY"), ("b", ((b, R.rl(t)),), "BODY"), ("ab", ((a, R.rl(t)), (b, R.rl(e))), "BODY"), ("ba", ((a, R.rl(e)), (b, R.rl(t))), "BODY"), ("or", ((a, R.rl(t, logic=OR)),), "BODY"), ("empty header", (), "HEADER"), ("a no rules", ((a, R.rl()),), "BODY")]
    cs = {l: R.cat(c, *kv) for l, kv, c in cats}
    cvals = [(l, l, v) for l, v in cs.items()] + [("a cascaded", "a", R.cat("BODY", (a, R.rl(t, cascaded=TRUE))))]
    ms = [("none", "none", R.mrs())] + [("only " + l, "none" if l.startswith("empty") else l, R.mrs(cs[l])) for l in cs]
    ms += [("a+header", "a+header", R.mrs(cs["a"], cs["a header"])), ("ab+header", "ab+header", R.mrs(cs["ab"], cs["a header"])), ("a+empty header", "a", R.mrs(cs["a"], cs["empty header"])), ("a header+empty", "a header", R.mrs(cs["empty"], cs["a header"]))]
    p = {}
    g1, g2 = agg(GEN, "RandomInt", (I_(0), I_(1))), agg(GEN, "RandomInt", (I_(0), I_(2)))
    m = lambda *kv: mapof(*kv) if kv else EMPTY
    gs = [("none", "none", ()), ("empty", "none", (("BODY", m()),)), ("a", "a", (("BODY", m((a, g1))),)), ("a'", "a'", (("BODY", m((a, g2))),)), ("a header", "a header", (("HEADER", m((a, g1))),)), ("a + empty", "a", (("BODY", m((a, g1))), ("HEADER", m()))), ("ab", "ab", (("BODY", m((a, g1), (b, g2))),)), ("ba", "ba", (("BODY", m((a, g2), (b, g1))),)), ("a+h", "a+h", (("BODY", m((a, g1))), ("HEADER", m((b, g2))))), ("ab+h", "ab+h", (("BODY", m((a, g1), (b, g2))), ("HEADER", m((b, g2)))))]
    gvals = [(l, c, R.gens(*kv)) for l, c, kv in gs]
    return cvals, ms, gvals

def jvals():
    n = lambda x: jnum("i64", I_(x))
    return [("null", agg(VALUE, "Null", ())), ("true", agg(VALUE, "Bool", (TRUE,))), ("false", agg(VALUE, "Bool", (FALSE,))), ("1", n(1)), ("2", n(2)), ("-1", n(-1)), ("s", jstr("s")), ("t", jstr("t")), ("[]", agg(VALUE, "Array", (listof(),))), ("[s]", agg(VALUE, "Array", (listof(jstr("s")),))), ("[t]", agg(VALUE, "Array", (listof(jstr("t")),))), ("[s,t]", agg(VALUE, "Array", (listof(jstr("s"), jstr("t")),))), ("{a:s}", obj(a=jstr("s"))), ("{a:t}", obj(a=jstr("t"))), ("{b:s}", obj(b=jstr("s"))), ("{a:s,b:t}", obj(a=jstr("s"), b=jstr("t"))), ("{a:t,b:s}", obj(a=jstr("t"), b=jstr("s"))), ("{a:{b:s}}", obj(a=obj(b=jstr("s")))), ("{a:[s]}", obj(a=agg(VALUE, "Array", (listof(jstr("s")),))))]

def picked(vs, nested):
    """One or two variants for every part of a nested value."""
    if not nested: return vs[:9]
    out, seen = [], {}
    for x in vs:
        k = tuple(x[0].split(" ")[:2])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= (2 if k[1] in ("matching_rules", "generators", "metadata", "headers") else 1): out.append(x)
    return out

def hash_differs(ctx, R, n, base, vals, where):
    """Everything in vals must give another hash than base and each other."""
    hs = []
    for l, v in [("base", base)] + vals:
        h = R.hash(v)
        hs.append((l, h, undetermined(h)))
    for (l1, h1, u1), (l2, h2, u2) in itertools.combinations(hs, 2):
        if {"query", "headers"} <= set((l1 + " " + l2).split(" ")): continue    # told apart by the value, not by the field
        ctx.ob("%s key of %s, %s" % (n, l1, l2), None if u1 or u2 else h1 is not h2, "different contents have the same hash: " + show(h1, 4)[:300], where)

@prop("P12", "Equality and hashing agree", floor=1500)
def p12(ctx):
    R = Eqs(ctx)
    W = ctx.where
    ctx.rule("Equality of two values of arbitrary contents that differ in one field, interpreted, is exactly the equality of that field when the field is part of the comparison, and true when it is not.")
    ctx.rule("For families of values of every type: comparing two gives true exactly when they are of the same class, both ways round, and for each what is written to a hasher is the same in both iteration orders of every map, and the same for equal values.")
    ctx.rule("What an interaction writes to a hasher differs when any part of its contents differs, and its unique key is the key it has or else the hash of its contents.")
    v4x = ["comments", "plugin_config", "interaction_markup", "transport", "id"]
    depends(ctx, R, RESP, ["status", "headers", "body", "matching_rules", "generators"], [])
    depends(ctx, R, REQ, ["method", "path", "query", "headers", "body", "matching_rules", "generators"], [])
    depends(ctx, R, RES4, ["status", "headers", "body", "matching_rules", "generators"], [])
    depends(ctx, R, REQ4, ["method", "path", "query", "headers", "body", "matching_rules", "generators"], [], casefold=("method",))
    depends(ctx, R, PS, ["name", "params"], [])
    depends(ctx, R, MC, ["contents", "metadata", "matching_rules", "generators"], [])
    depends(ctx, R, HTTP, ["key", "description", "provider_states", "request", "response", "pending"], v4x)
    depends(ctx, R, AMSG, ["key", "description", "provider_states", "contents", "pending"], v4x)
    depends(ctx, R, SMSG, ["key", "description", "provider_states", "request", "response", "pending"], v4x)
    depends(ctx, R, RRI, ["id", "description", "provider_states", "request", "response"], [])
    depends(ctx, R, MSG, ["description", "provider_states", "contents", "metadata", "matching_rules", "generators"], [])
    depends(ctx, R, CTY, ["main_type", "sub_type", "attributes", "suffix"], [])
    depends(ctx, R, RLT, ["rules", "rule_logic"], ["cascaded"])
    depends(ctx, R, MRC, ["name", "rules"], [])
    depends(ctx, R, "plugins::PluginData", ["name", "version", "configuration"], [])
    # families
    family(ctx, R, MR, rule_values(R), W(EQ(MR)))
    family(ctx, R, GEN, gen_values(R), W(EQ(GEN)))
    cvals, mvals, gvals = sets(R)
    family(ctx, R, MRC, cvals, W(EQ(MRC)))
    family(ctx, R, MRSS, mvals, W(EQ(MRSS)))
    family(ctx, R, GENS, gvals, W(EQ(GENS)))
    family(ctx, R, RLT, [("empty", 0, R.rl()), ("empty or", 1, R.rl(logic=OR)), ("type", 2, R.rl(agg(MR, "Type", ()))), ("type cascaded", 2, R.rl(agg(MR, "Type", ()), cascaded=TRUE)), ("type or", 3, R.rl(agg(MR, "Type", ()), logic=OR)), ("type,regex", 4, R.rl(agg(MR, "Type", ()), agg(MR, "Regex", (cstr("a"),)))), ("regex,type", 5, R.rl(agg(MR, "Regex", (cstr("a"),)), agg(MR, "Type", ()))), ("regex", 6, R.rl(agg(MR, "Regex", (cstr("a"),)))), ("regex b", 7, R.rl(agg(MR, "Regex", (cstr("b"),))))], W(EQ(RLT)))
    ctv = [("a/b", R.ct()), ("a/c", R.ct(s="c")), ("c/b", R.ct(m="c")), ("a/b+x", R.ct(suf="x")), ("a/b+y", R.ct(suf="y")), ("a/b;p=1", R.ct(p="1")), ("a/b;p=2", R.ct(p="2")), ("a/b;q=1", R.ct(q="1")), ("a/b;p=1;q=1", R.ct(p="1", q="1"))]
    family(ctx, R, CTY, [(l, l, v) for l, v in ctv], W(EQ(CTY)))
    bv = [(v, v, bare(v)) for v in ("Missing", "Empty", "Null")] + [("present " + repr(w), repr(w), body(w)) for w in WORDS]
    bv += [("present 'a' typed", "'a'", body("a", some(R.ct()))), ("present 'a' other type", "'a'", body("a", some(R.ct(s="c")))), ("present 'a' hint", "'a'", body("a", some(R.ct()), some(agg(HINT, "BINARY", ()))))]
    family(ctx, R, BODY, bv, W(EQ(BODY)))
    psv = [("p %s" % w, w, R.ps(w)) for w in WORDS] + [("p a {k:%s}" % l, l + "!", R.ps("a", k=v)) for l, v in jvals()]
    psv += [("p a {j:s}", "j", R.ps("a", j=jstr("s"))), ("p a {j:s,k:t}", "jk", R.ps("a", j=jstr("s"), k=jstr("t"))), ("p a {j:t,k:s}", "kj", R.ps("a", j=jstr("t"), k=jstr("s"))), ("p a {j:{..},k:[..]}", "jk2", R.ps("a", j=obj(a=jstr("s"), b=jnum("i64", I_(1))), k=agg(VALUE, "Array", (listof(jstr("t"), obj(c=jstr("u"))),))))]
    family(ctx, R, PS, psv, W(EQ(PS)))
    hash_differs(ctx, R, "ProviderState", R.ps("a"), [(l, v) for l, c, v in psv[1:8]] + [("{k:%s}" % l, R.ps("a", k=v)) for l, v in jvals() if l in ("true", "false", "1", "2", "-1", "s", "t", "[s,t]", "{a:s}", "{a:t}", "{b:s}", "{a:s,b:t}", "{a:t,b:s}")], W(HASH(PS)))
    paths = [("root", [ROOT]), ("empty", []), ("a", [ROOT, F("a")]), ("A", [ROOT, F("A")]), ("a b", [ROOT, F("a b")]), ("a.b", [ROOT, F("a.b")]), ("a then b", [ROOT, F("a"), F("b")]), ("b then a", [ROOT, F("b"), F("a")]), ("0", [ROOT, IX(I_(0))]), ("1", [ROOT, IX(I_(1))]), ("name 0", [ROOT, F("0")]), ("*", [ROOT, STAR]), ("name *", [ROOT, F("*")])]
    family(ctx, R, DPT, [(l, l, R.path(*ts)) for l, ts in paths if ts], W(EQ(DPT)))
    # requests, responses and interactions
    hd = lambda *kv: some(dict_of(*[(k, listof(*[cstr(x) for x in v])) for k, v in kv])) if kv else NONE
    heads = [("h1", hd(("a", ["x"]))), ("h2", hd(("a", ["y"]))), ("h3", hd(("b", ["x"]))), ("h4", hd(("a", ["x", "y"]))), ("h5", hd(("a", ["y", "x"]))), ("h6", hd(("a", ["x"]), ("b", ["y"]))), ("h7", hd(("a", ["y"]), ("b", ["x"])))]
    qv1 = [("q" + l[1:], h) for l, h in heads]
    qv4 = [("q%d" % i, some(dict_of(*[(k, listof(*[NONE if x is None else some(cstr(x)) for x in v])) for k, v in kv]))) for i, kv in enumerate([(("a", ["x"]),), (("a", [None]),), (("a", [""]),), (("b", ["x"]),), (("a", ["x", "y"]),), (("a", ["y", "x"]),), (("a", ["x"]), ("b", ["y"])), (("a", ["y"]), ("b", ["x"]))])]
    bodies = [("b " + l, v) for l, c, v in bv if c in ("Missing", "Empty", "Null", "'a'", "'A'", "''") and "typed" not in l and "type" not in l and "hint" not in l]
    rulesv = [("r " + l, v) for l, c, v in mvals if l in ("only a", "only a other", "only a header", "only b", "only ab", "only ba", "only or", "a+header")]
    gensv = [("g " + l, v) for l, c, v in gvals if l in ("a", "a'", "a header", "ab", "ba", "a+h")]
    none_b, none_r, none_g = bare("Missing"), R.mrs(), R.gens()
    common = lambda ty, q: dict(headers=heads, body=bodies[1:], matching_rules=rulesv, generators=gensv)
    def variants(base, parts): return [("%s %s" % (f, l), R.put(base, **{f: v})) for f, xs in parts.items() for l, v in xs]
    parts = {}
    for ty in (REQ, REQ4):
        base = R.struct(ty, method=cstr("GET"), path=cstr("/a"), query=NONE, headers=NONE, body=none_b, matching_rules=none_r, generators=none_g)
        ps = dict(common(ty, None), method=[("POST", cstr("POST")), ("GETS", cstr("GETS"))], path=[(p, cstr(p)) for p in ("/b", "/A", "/a/", "/")], query=qv1 if ty == REQ else qv4)
        parts[ty] = (base, ps)
    for ty in (RESP, RES4):
        base = R.struct(ty, status=I_(200), headers=NONE, body=none_b, matching_rules=none_r, generators=none_g)
        parts[ty] = (base, dict(common(ty, None), status=[(str(n), I_(n)) for n in (201, 100, 599, 0)]))
    md = lambda **k: dict_of(*k.items()) if k else EMPTY
    base = R.struct(MC, contents=none_b, metadata=EMPTY, matching_rules=none_r, generators=none_g)
    mdv = [("m1", md(a=jstr("x"))), ("m2", md(a=jstr("y"))), ("m3", md(b=jstr("x"))), ("m4", md(a=jstr("x"), b=jstr("y"))), ("m5", md(a=jstr("y"), b=jstr("x"))), ("m6", md(a=jnum("i64", I_(1)))), ("m7", md(a=obj(c=jstr("x"))))]
    parts[MC] = (base, dict(contents=bodies[1:], matching_rules=rulesv, generators=gensv, metadata=mdv))
    for ty, (base, ps) in parts.items():
        vs = variants(base, ps)
        fam = [("base", "base", base)] + [(l, l, v) for l, v in vs]
        if ty == REQ4: fam.append(("get", "base", R.put(base, method=cstr("get"))))
        pairs_ = [fam[0]] + fam[1:]
        # every variant against the base and the others of the same field
        n = ty.split("::")[-1]
        groups = {}
        for x in fam: groups.setdefault(x[0].split(" ")[0] if x[0] != "get" else "method", []).append(x)
        for f, xs in groups.items():
            if f != "base": family(ctx, R, ty, [fam[0]] + [x for x in xs if x[0] != "base"], "")
        hash_differs(ctx, R, ty.split("::")[-1], base, vs, W(HASH(ty)))
        both = [R.put(base, **{f: xs[0][1] for f, xs in ps.items()}), R.put(base, **{f: xs[-1][1] for f, xs in ps.items()})]
        family(ctx, R, ty, [("all 1", 1, both[0]), ("all 2", 2, both[1])], "")
    # interactions
    sts = [("s", listof(R.ps("s"))), ("t", listof(R.ps("t"))), ("s,t", listof(R.ps("s"), R.ps("t"))), ("t,s", listof(R.ps("t"), R.ps("s"))), ("s{a}", listof(R.ps("s", a=jstr("x")))), ("s{a'}", listof(R.ps("s", a=jstr("y")))), ("s{a,b}", listof(R.ps("s", a=jstr("x"), b=jstr("y")))), ("s{[x]}", listof(R.ps("s", a=agg(VALUE, "Array", (listof(jstr("p"), jstr("q")),))))), ("s{[y]}", listof(R.ps("s", a=agg(VALUE, "Array", (listof(jstr("q"), jstr("p")),)))))]
    descs = [(w, cstr(w)) for w in WORDS if w != "a"]
    for kind in (HTTP, AMSG, SMSG, RRI):
        n = kind.split("::")[-1]
        base = R.inter(kind, "1", "a")
        ps = dict(description=descs, provider_states=sts)
        some_of = lambda ty: [(l, v) for l, v in variants(*parts[ty])]
        if kind == RRI: ps.update(request=some_of(REQ), response=some_of(RESP))
        elif kind == HTTP: ps.update(request=some_of(REQ4), response=some_of(RES4), pending=[("p", TRUE)])
        elif kind == AMSG: ps.update(contents=some_of(MC), pending=[("p", TRUE)])
        else: ps.update(request=some_of(MC), response=[("none", listof()), ("two", listof(parts[MC][0], parts[MC][0]))] + [(l, listof(v)) for l, v in some_of(MC)], pending=[("p", TRUE)])
        if kind == RRI:
            base = R.put(base, request=parts[REQ][0], response=parts[RESP][0])
        elif kind == HTTP: base = R.put(base, request=parts[REQ4][0], response=parts[RES4][0])
        elif kind == AMSG: base = R.put(base, contents=parts[MC][0])
        else: base = R.put(base, request=parts[MC][0], response=listof(parts[MC][0]))
        vs = variants(base, ps)
        hash_differs(ctx, R, n, base, vs, W(HASH(kind)))
        few = [("base", "base", base)] + [(l, l, v) for f in ps for l, v in picked([x for x in vs if x[0].startswith(f + " ")], f in ("request", "response", "contents"))]
        family(ctx, R, kind, few, "", star=ctx.tier != "thorough")
        if kind == RRI: continue
        # keys
        fk, fw, fwk = tm(kind, V4I, "unique_key"), tm(kind, V4I, "with_unique_key"), kind + "::with_key"
        seen = {}
        for l, v in [("base", base)] + vs[:12] + vs[-3:]:
            plain = R.run(fk, v)
            seen[l] = plain
            for k in ("k", "", "K "):
                vk = R.put(v, key=some(cstr(k)))
                y = R.run(fk, vk)
                ctx.ob("%s unique key %r of %s" % (n, k, l), True if y is cstr(k) else False if y is plain or y.op == "const" else None, "the unique key is %s instead of %r" % (show(y, 4)[:200], k), W(fk))
                if l == "base":
                    judge(ctx, "%s with unique key %r" % (n, k), R.run(fw, vk), R.put(v, key=some(plain)), W(fw), "the interaction is")
            for me in ([fw, fwk] if R.has(fwk) else [fw]):
                y = R.run(me, v)
                while y.op == "agg" and y.args[0].endswith("Box") and len(y.args[2]) == 1: y = y.args[2][0]
                judge(ctx, "%s %s of %s" % (n, me.split("::")[-1], l), y, R.put(v, key=some(plain)), W(me), "the interaction is")
            # the parts outside the comparison do not change the key
            for f, x in dict(id=some(cstr("2")), comments=dict_of(("a", jstr("b"))), transport=some(cstr("http")), plugin_config=dict_of(("a", EMPTY))).items():
                if l == "base":
                    judge(ctx, "%s unique key with other %s" % (n, f), R.run(fk, R.put(v, **{f: x})), plain, W(fk), "the unique key is")
                    y = R.run(fw, R.put(v, **{f: x}))
                    judge(ctx, "%s with unique key keeps %s" % (n, f), y, R.put(v, key=some(plain), **{f: x}), W(fw), "the interaction is")
        for (l1, a), (l2, b) in itertools.combinations(seen.items(), 2):
            und = undetermined(a) or undetermined(b)
            ctx.ob("%s unique keys of %s, %s" % (n, l1, l2), None if und else a is not b, "different contents have the same key " + show(a, 3)[:200], W(fk))
    # boxed interactions of different kinds
    boxed = [n for n in ctx.models().fns if n.endswith("::eq") and "PartialEq for" in n and "Box<" in n and "dyn v4::interaction::V4Interaction" in n]
    ctx.ob("equality of interactions", bool(boxed), "no equality for interactions of any kind", "")
    for f in boxed:
        xs = [(k.split("::")[-1], k, R.inter(k)) for k in (HTTP, AMSG, SMSG)] + [(k.split("::")[-1] + " b", k + "b", R.inter(k, "1", "b")) for k in (HTTP, AMSG, SMSG)]
        for (l1, c1, a), (l2, c2, b) in itertools.product(xs, xs):
            t = truth(R.run(f, a, b))
            ctx.ob("interaction %s == %s" % (l1, l2), None if t is None else t == (c1 == c2), "comparing them gives %s" % t, W(f))
    # JSON values
    hj = "json_utils::hash_json"
    if R.has(hj):
        hs = []
        for l, v in jvals():
            for o in R.orders:
                R.order = o
                m = R.comp(); h = m.hash_of(hj, v); finish(ctx, m)
                hs.append((l, o, h))
            R.order = "asc"
        for i in range(0, len(hs), 2): ctx.ob("json hash of %s in every order" % hs[i][0], None if opaque_in(hs[i][2]) else hs[i][2] is hs[i + 1][2], "the hash depends on the order of a map", W(hj))
        skip = ("null", "[]", "[s]", "[t]", "{a:[s]}")
        for (l1, _, a), (l2, _, b) in itertools.combinations([h for h in hs if h[1] == "asc" and h[0] not in skip], 2):
            ctx.ob("json hashes of %s, %s" % (l1, l2), None if opaque_in(a) or opaque_in(b) else a is not b, "different values have the same hash " + show(a, 3)[:200], W(hj))
