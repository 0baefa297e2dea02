"""Matching rule definition expressions: the documented grammar, and how definitions are combined."""
import itertools
from common import *
import text

EX = "matchingrules::expressions::"
MRD, VT, REF, MR, GEN, DT, EI = EX + "MatchingRuleDefinition", EX + "ValueType", EX + "MatchingReference", "matchingrules::MatchingRule", "generators::Generator", "expression_parser::DataType", "itertools::Either"
FORM = ("The tokens of an expression are those of the automaton compiled for it, read out of its state functions, and the parser is interpreted on expressions built from the documented grammar with texts and numbers over character classes, "
        "and on those with a part left out, doubled, exchanged or replaced; each must have the value, type, rules and generator of the grammar, or be refused when the grammar does not have it.")
L, D = "ABCXYZabcxyz", "0123456789"
def A_(n): return text.achar(L, n)
def D_(n): return text.achar(D, n)
def txt(*parts): return text.of_chars([c for p in parts for c in (text.chars_of(cstr(p)) if isinstance(p, str) else text.chars_of(p))])
def vt(n): return agg(VT, n, ())
def rule(n, *xs): return agg(MR, n, xs)
def gen(n, *xs): return agg(GEN, n, xs)
DATA = {"String": "STRING", "Unknown": "RAW", "Number": "DECIMAL", "Integer": "INTEGER", "Decimal": "DECIMAL", "Boolean": "BOOLEAN"}
ORDER = ["Unknown", "Boolean", "Number", "Integer", "Decimal", "String"]

# a token: (kind, source, payload)
def K(s): return ("kw", s, s)
def P(s): return (s, s, s)
def I_(s): return ("id", s, s)
def S(src, val=None): return ("str", txt("'", src, "'"), txt(src) if val is None else txt(val))
def NUM(*ds): return ("num", txt(*ds), None)
def NEG(*ds): return ("int", txt("-", *ds), None)
def DEC(*ds): return ("dec", txt(*ds), None)
T_, F_, NULL = ("bool", "true", None), ("bool", "false", None), ("null", "null", None)
LP, RP, CO, DO = P("("), P(")"), P(","), P("$")
def BAD(s): return ("bad", s, None)

STRS = [("letters", S(txt(A_(1), A_(2)))), ("empty", S("")), ("punctuation", S(txt(A_(1), " ,()$#-.[]{}\"@/~*?", A_(2)))), ("not ASCII", S(txt(text.achar("éßñÉ", 1), text.achar("日本語", 3), A_(2), "\U0001F600"))), ("digits", S(txt(D_(1), ".", D_(2)))),
        ("keyword", S("matching(type)")), ("a line break", S("a\nb")), ("escapes", S("\\b\\f\\n\\r\\t", "\x08\x0c\n\r\t")), ("backslash", S("a\\\\b", "a\\b")), ("not an escape", S("\\w{3}\\d+\\.\\$", "\\w{3}\\d+\\.\\$")),
        ("unicode", S("\\u0109x\\u00e9", "\u0109x\u00e9")), ("unicode in braces", S("\\u{1DF0B}\\u{e9}y", "\U0001DF0B\u00e9y")), ("white space", S("  a b ", "  a b ")), ("two backslashes before a letter", S("\\\\n", "\\n"))]
QUOTED = [("quote inside", txt(A_(1), "\\'", A_(2)), [txt(A_(1), "\\'", A_(2)), txt(A_(1), "'", A_(2))]), ("quote last", txt(A_(1), "\\'"), [txt(A_(1), "\\'"), txt(A_(1), "'")]), ("quote first", txt("\\'", A_(1)), [txt("\\'", A_(1)), txt("'", A_(1))])]
BADSTR = [("short unicode", "\\u12"), ("no digits", "\\uXYZW"), ("end of braces missing", "\\u{12"), ("empty braces", "\\u{}"), ("nothing after u", "\\u")]
NUMS = [("digit", NUM(D_(1))), ("digits", NUM(text.achar("123456789", 1), D_(2), D_(3))), ("negative", NEG(text.achar("123456789", 1), D_(2))), ("negative digit", NEG(D_(1))), ("leading zero", NUM("0", D_(1), D_(2))), ("negative leading zero", NEG("0", D_(1)))]
DECS = [("decimal", DEC(D_(1), ".", D_(2))), ("decimal of digits", DEC(text.achar("123456789", 1), D_(2), ".", D_(3), D_(4))), ("negative decimal", DEC("-", D_(1), ".", D_(2))), ("negative decimal of digits", DEC("-", text.achar("123456789", 1), D_(2), D_(3), ".", D_(4)))]

def plain(t): return t

class No(Exception): pass
class Unclear(Exception): pass

class Ref:
    """The grammar in the documentation of the parser, over tokens."""
    def __init__(self, toks, expr): self.t, self.i, self.e = toks, 0, expr
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ("end", "", None)
    def take(self, kind, src=None):
        k = self.peek()
        if k[0] != kind or (src is not None and k[1] != src): raise No()
        self.i += 1
        return k
    def top(self):
        v = self.exp()
        while self.i < len(self.t):
            self.take(",")
            v = self.merge(v, self.exp())
        return v
    def merge(self, a, b):
        (v1, t1, r1, g1), (v2, t2, r2, g2) = a, b
        return (v1 if v1 is not cstr("") else v2, max(t1, t2, key=ORDER.index), r1 + r2, g1 if g1 is not NONE else g2)
    def term(self, d):
        return agg(MRD, MRD.rsplit("::")[-1], (d[0], vt(d[1]), listof(*d[2]), d[3], self.e))
    def exp(self):
        k = self.take("kw")[1]
        self.take("(")
        left = lambda r: agg(EI, "Left", (r,))
        if k == "matching": d = self.matching()
        elif k == "notEmpty":
            v, t, g = self.primitive()
            d = (v, t, [left(rule("NotEmpty"))], g)
        elif k in ("eachKey", "eachValue"): d = (cstr(""), "Unknown", [left(rule("EachKey" if k == "eachKey" else "EachValue", self.term(self.exp())))], NONE)
        else:
            n = self.take("num")
            d = (cstr(""), "Unknown", [left(rule("MinType" if k == "atLeast" else "MaxType", mk("num", n[1]) if text.chars_of(n[1]) and n[1].op != "const" else const("int", int(n[1].args[1]))))], NONE)
        self.take(")")
        return d
    def string(self): return self.take("str")[2]
    def matching(self):
        if self.peek()[0] == "$":
            self.i += 1
            n = self.string()
            return (n, "Unknown", [agg(EI, "Right", (agg(REF, "MatchingReference", (n,)),))], NONE)
        k = self.take("id")[1]
        left = lambda r: [agg(EI, "Left", (r,))]
        if k in ("equalTo", "type"):
            self.take(","); v, t, g = self.primitive()
            return (v, t, left(rule("Equality" if k == "equalTo" else "Type")), g)
        if k in ("number", "integer", "decimal"):
            self.take(",")
            kind, typ = {"number": ("Number", "Number"), "integer": ("Integer", "Integer"), "decimal": ("Decimal", "Decimal")}[k]
            n = self.peek()
            if n[0] == "id":
                v, t, g = self.primitive()
                return (v, t, left(rule(kind)), g)
            if n[0] not in ("num", "int", "dec") or k == "integer" and n[0] == "dec": raise No()
            self.i += 1
            return (n[1], typ, left(rule(kind)), NONE)
        if k in ("datetime", "date", "time"):
            self.take(","); f = self.string(); self.take(",")
            r, g = {"datetime": ("Timestamp", "DateTime"), "date": ("Date", "Date"), "time": ("Time", "Time")}[k]
            if self.peek()[0] == "id":
                v, t, pg = self.primitive()
                return (v, t, left(rule(r, f)), pg)
            return (self.string(), "String", left(rule(r, f)), some(gen(g, some(f), NONE)))
        if k in ("regex", "contentType"):
            self.take(","); f = self.string(); self.take(","); v = self.string()
            return (v, "String" if k == "regex" else "Unknown", left(rule("Regex" if k == "regex" else "ContentType", f)), NONE)
        if k == "include":
            self.take(","); v = self.string()
            return (v, "String", left(rule("Include", v)), NONE)
        if k == "boolean":
            self.take(",")
            if self.peek()[0] == "id": raise Unclear()
            return (cstr(self.take("bool")[1]), "Boolean", left(rule("Boolean")), NONE)
        if k == "semver":
            self.take(","); v = self.string()
            if v.op != "const": raise Unclear()
            import re
            if not re.fullmatch(r"(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(-[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?(\+[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?", v.args[1]): raise No()
            return (v, "String", left(rule("Semver")), NONE)
        raise No()
    def primitive(self, inner=False):
        k = self.peek(); self.i += 1
        if k[0] == "str": return (k[2], "String", NONE)
        if k[0] in ("num", "int"): return (k[1], "Integer", NONE)
        if k[0] == "dec": return (k[1], "Decimal", NONE)
        if k[0] == "bool": return (cstr(k[1]), "Boolean", NONE)
        if k[0] == "null": return (cstr(""), "String", NONE)
        if k[0] == "id" and k[1] == "fromProviderState" and not inner:
            self.take("("); e = self.string(); self.take(","); v, t, _ = self.primitive(True); self.take(")")
            return (v, t, some(gen("ProviderStateGenerator", e, some(agg(DT, DATA[t], ())))))
        raise No()

def source(toks, sep=""):
    out = []
    for i, k in enumerate(toks):
        if i and (sep is None or sep == "" and k[0] not in "(),$" and toks[i - 1][0] not in ("(", ")", ",", "$")): out.append(" ")
        elif i and sep: out.append(sep)
        out.append(k[1])
    return txt(*out)

def definitions(ctx):
    ctx.rule(FORM)
    R = Cases(ctx)
    f = ctx.need(EX + "parse_matcher_def")
    W = ctx.where(f)
    seen = set()
    def check(key, toks, sep="", choices=None):
        s = source(toks, sep)
        if (s, bool(choices)) in seen: return
        seen.add((s, bool(choices)))
        r = Ref(toks, s)
        try: want = r.term(r.top())
        except No: want = None
        except Unclear: return
        y = R.run(f, s)
        if y is UNDEF: return ctx.ob(key, False, "the parser never returns for %s" % show(s, 4), W)
        if any(opaque_in(v) for g, v in alts(y)): return ctx.ob(key, None, "not resolved for %s: %s" % (show(s, 4), show(y, 5)[:200]), W)
        goods, others = split_result(y)
        if want is None: return ctx.ob(key, not goods, "the expression %s is not one of the grammar, but gives %s" % (show(s, 4)[:200], show(plain(phi(goods)), 6)[:200] if goods else ""), W)
        if others: return ctx.ob(key, None if len(alts(y)) > 1 else False, "the expression %s is refused" % show(s, 4)[:200], W)
        got = plain(phi(goods))
        if choices:
            ws = [plain(Ref(toks[:i] + [("str", toks[i][1], c)] + toks[i + 1:], s).top_term()) for i, c in choices]
            if any(got is w or same(got, w) for w in ws): return ctx.ob(key, True, "", W)
            want = ws[0]
        judge(ctx, key, got, plain(want), W, "the definition of %s is" % show(s, 4)[:200])
    Ref.top_term = lambda self: self.term(self.top())
    s1, s2 = STRS[0][1], S(txt(A_(3), D_(4)))
    fps = lambda v: [I_("fromProviderState"), LP, s2, CO, v, RP]
    prims = [("text " + n, [v]) for n, v in STRS] + [("number " + n, [v]) for n, v in NUMS + DECS] + [("true", [T_]), ("false", [F_]), ("null", [NULL])]
    prims += [("provider state " + n, fps(v)) for n, v in [STRS[0], STRS[2], STRS[6 + 1], NUMS[1], NUMS[2], DECS[1], DECS[3], ("true", T_), ("null", NULL)]]
    M = lambda *xs: [K("matching"), LP] + list(xs) + [RP]
    forms = []
    for n in ("equalTo", "type"): forms += [("%s %s" % (n, k), M(I_(n), CO, *v)) for k, v in prims]
    forms += [("notEmpty %s" % k, [K("notEmpty"), LP] + v + [RP]) for k, v in prims]
    for n in ("number", "integer", "decimal"):
        forms += [("%s %s" % (n, k), M(I_(n), CO, *v)) for k, v in prims]
    for n in ("datetime", "date", "time", "regex", "contentType"):
        forms += [("%s %s" % (n, k), M(I_(n), CO, v, CO, s2)) for k, v in STRS] + [("%s of %s" % (n, k), M(I_(n), CO, s2, CO, *v)) for k, v in prims]
    for n in ("include", "boolean"): forms += [("%s %s" % (n, k), M(I_(n), CO, *v)) for k, v in prims]
    forms += [("semver %s" % x, M(I_("semver"), CO, S(x))) for x in ("1.0.0", "0.12.3-beta.1+build.5", "1.0", "a.b.c", "", "01.1.1")]
    forms += [("reference %s" % k, M(DO, *v)) for k, v in prims]
    for n in ("atLeast", "atMost"): forms += [("%s %s" % (n, k), [K(n), LP] + v + [RP]) for k, v in prims]
    for n in ("atLeast", "atMost"): forms += [("%s %s" % (n, x), [K(n), LP, NUM(x), RP]) for x in ("0", "1", "255", "256", "65536", "2147483647", "2147483648", "4294967295", "007")]
    small = [M(I_("type"), CO, s1), M(I_("number"), CO, NUMS[1][1]), [K("notEmpty"), LP, s2, RP], [K("atLeast"), LP, NUM("2"), RP], [K("atMost"), LP, NUM("1", "0"), RP], M(I_("regex"), CO, s1, CO, s2), M(DO, s1), M(I_("boolean"), CO, T_),
             M(I_("date"), CO, s1, CO, s2), [K("eachKey"), LP] + M(I_("regex"), CO, s1, CO, s2) + [RP], [K("eachValue"), LP] + M(DO, s1) + [RP], M(I_("decimal"), CO, *fps(DECS[1][1])), M(I_("integer"), CO, *fps(NUMS[1][1]))]
    for n in ("eachKey", "eachValue"):
        forms += [("%s of %d" % (n, i), [K(n), LP] + x + [RP]) for i, x in enumerate(small)]
        forms += [("%s of %s of %d" % (n, n2, i), [K(n), LP, K(n2), LP] + x + [RP, RP]) for n2 in ("eachKey", "eachValue") for i, x in enumerate(small[:6])]
    forms += [("%d and %d" % (i, j), a + [CO] + b) for i, a in enumerate(small) for j, b in enumerate(small)]
    forms += [("%d, %d and %d" % (i, j, k), small[i] + [CO] + small[j] + [CO] + small[k]) for i, j, k in (itertools.product(range(8), repeat=3) if ctx.tier == "thorough" else [(3, 4, 10), (3, 4, 5), (0, 1, 2), (9, 10, 3), (8, 11, 8), (6, 1, 11)])]
    for k, t in forms: check(k, t)
    others = [LP, RP, CO, DO, s1, NUMS[1][1], NUMS[2][1], DECS[1][1], T_, NULL, K("matching"), I_("type"), I_("fromProviderState"), I_("unknown"), I_("Type"), BAD("#"), BAD("'abc"), BAD("-"), BAD("."), BAD("1."), BAD("é")]
    for i, a in enumerate(small):
        for n, o in enumerate(others):
            if i < 6 or ctx.tier == "thorough": check("%d joined by %d" % (i, n), a + [o] + small[(i + 2) % 6], None)
        check("%d joined by a comma twice" % i, a + [CO, CO] + small[0]); check("%d with a comma after" % i, a + [CO]); check("%d in brackets" % i, [LP] + a + [RP])
        if len(a) > 3: check("%d and brackets" % i, a + [RP] + [CO] + small[1])
    for i, t in enumerate(small):
        check("spaced %d" % i, t, " "); check("lines %d" % i, t, " \t\n"); check("tabs %d" % i, t, "\t"); check("form feeds %d" % i, t, "\x0c"); check("around %d" % i, [("kw", txt("  ", t[0][1]), t[0][2])] + t[1:], "") if False else None
    # quoted quotes and escapes that are none
    for n, src, vals in QUOTED:
        q = ("str", txt("'", src, "'"), vals[0])
        for k, t, i in [("type", M(I_("type"), CO, q), 4), ("notEmpty", [K("notEmpty"), LP, q, RP], 2), ("regex", M(I_("regex"), CO, s1, CO, q), 6), ("include", M(I_("include"), CO, q), 4)]:
            check("%s: %s" % (n, k), t, "", [(i, v) for v in vals])
    for n, src in BADSTR:
        q = BAD(txt("'", src, "'"))
        for k, t in [("type", M(I_("type"), CO, q)), ("notEmpty", [K("notEmpty"), LP, q, RP]), ("regex", M(I_("regex"), CO, q, CO, s1)), ("include", M(I_("include"), CO, q)), ("state", M(I_("type"), CO, I_("fromProviderState"), LP, q, CO, s1, RP))]: check("%s: %s" % (n, k), t)
    # what is not in the grammar: parts left out, doubled, exchanged and replaced, and what follows
    for i, t in enumerate(small + [M(I_("type"), CO, *fps(s1))]):
        for j in range(len(t)):
            check("%d without part %d" % (i, j), t[:j] + t[j + 1:])
            check("%d up to part %d" % (i, j), t[:j])
            check("%d with part %d twice" % (i, j), t[:j + 1] + t[j:])
            if j: check("%d with parts %d and %d exchanged" % (i, j - 1, j), t[:j - 1] + [t[j], t[j - 1]] + t[j + 1:])
            for n, o in enumerate(others):
                if i < 9 or ctx.tier == "thorough": check("%d with part %d replaced by %d" % (i, j, n), t[:j] + [o] + t[j + 1:], None)
        for n, o in enumerate(others):
            check("%d followed by %d" % (i, n), t + [o], None)
            check("%d after %d" % (i, n), [o] + t, None)
    for n in ("", " ", "matching", "matching(", "type", "()", "fromProviderState('a','b')", "eachKey()", "eachValue('a')", "atLeast()", "atLeast(-1)", "atMost(1.5)", "matching()", "matching(type)", "matching type", "matchingtype('a')"):
        y = R.run(f, cstr(n)); goods, _ = split_result(y)
        ctx.ob("no expression: %r" % n, not goods if not any(opaque_in(v) for g, v in alts(y)) else None, "the text %r is taken for a definition" % n, W)
    for n in ("1.", "10.", "-1.", "1.a", "12.,"):
        for k in ("matching(type, %s)", "matching(number, %s)", "matching(decimal, %s)", "notEmpty(%s)", "matching(equalTo, fromProviderState('a', %s))"):
            y = R.run(f, cstr(k % n)); goods, _ = split_result(y)
            ctx.ob("no number: " + k % n, not goods if not any(opaque_in(v) for g, v in alts(y)) else None, "the number %s without digits after its point is accepted in %s" % (n, k % n), W)
    for n in ("date", "time", "datetime"):
        e = "matching(%s, 'a', fromProviderStates('b', 'c'))" % n
        y = R.run(f, cstr(e)); goods, _ = split_result(y)
        ctx.ob("no provider state: " + n, not goods if not any(opaque_in(v) for g, v in alts(y)) else None, "%s is accepted" % e, W)
    # is it a definition
    g = ctx.need(EX + "is_matcher_def"); wg = ctx.where(g)
    for n, t in enumerate(small):
        judge(ctx, "is a definition: %d" % n, R.run(g, source(t)), TRUE, wg, "whether %s is a definition is" % show(source(t), 4)[:100])
        judge(ctx, "is a definition, spaced: %d" % n, R.run(g, txt("  ", source(t, " "))), TRUE, wg, "whether %s is a definition is" % show(source(t), 4)[:100])
    for n in ["", " ", "text", "matchingtype", "match", "'matching(type)'", "(matching)", "eachkey", "1", "true", "$", "#", "notEmptyx(1)", "atleast(1)", "x matching", "éeachKey"]:
        judge(ctx, "is no definition: %r" % n, R.run(g, cstr(n)), FALSE, wg, "whether %r is a definition is" % n)

def combining(ctx):
    R = Cases(ctx)
    m = ctx.need(EX + "ValueType::merge"); w = ctx.where(m)
    for a, b in itertools.product(ORDER, repeat=2):
        judge(ctx, "types %s %s" % (a, b), R.run(m, vt(a), vt(b)), vt(max(a, b, key=ORDER.index)), w, "%s combined with %s is" % (a, b))
    into = ctx.need("<%s as std::convert::Into<%s>>::into" % (VT, DT)) if ("<%s as std::convert::Into<%s>>::into" % (VT, DT)) in R.I.recs else None
    if into is not None:
        for a in ORDER: judge(ctx, "data type " + a, R.run(into, vt(a)), agg(DT, DATA[a], ()), ctx.where(into), "the data type of %s is" % a)
    mg = ctx.need(MRD + "::merge"); w = ctx.where(mg)
    x, y, e1, e2, r1, r2, g1, g2 = sym("value"), sym("other value"), sym("expression"), sym("other expression"), sym("rule"), sym("other rule"), sym("generator"), sym("other generator")
    def d(v, t, rs, g, e): return agg(MRD, "MatchingRuleDefinition", (v, vt(t), listof(*rs), g, e))
    names = [("a", txt(A_(1), A_(2))), ("none", cstr(""))]
    names2 = [("b", txt(D_(1), D_(2))), ("none", cstr(""))]
    for (n1, v1), (n2, v2), (k1, q1), (k2, q2), (l1, s1), (l2, s2), (p1, c1), (p2, c2) in itertools.product(names, names2, [("generator", some(g1)), ("no generator", NONE)], [("generator", some(g2)), ("no generator", NONE)],
            [("no rules", []), ("a rule", [r1])], [("a rule", [r2]), ("two rules", [r2, r1])], [("a", txt("x", A_(5))), ("none", cstr(""))], [("b", txt("y", A_(6))), ("a", txt("x", A_(5))), ("none", cstr(""))]):
        want = d(v1 if n1 != "none" else v2, "Integer", s1 + s2, q1 if q1 is not NONE else q2, c2 if p1 == "none" else c1 if p2 in ("none", "a") else txt(c1, ", ", c2))
        judge(ctx, "combined: " + ", ".join((n1, n2, k1, k2, l1, l2, p1, p2)), R.run(mg, d(v1, "Boolean", s1, q1, c1), d(v2, "Integer", s2, q2, c2)), want, w, "the definitions combined are")

@prop("P26", "Matching rule definitions follow the documented grammar", floor=1500)
def p26(ctx):
    with ctx.part("definitions"): definitions(ctx)
    with ctx.part("combining"): combining(ctx)
