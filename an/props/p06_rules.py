"""Matching rules and generators survive a write/read cycle, per variant and per documented spelling."""
import itertools, json
from common import *

MR, GEN, CAT = "matchingrules::MatchingRule", "generators::Generator", "matchingrules::MatchingRuleCategory"
MRD, CATEGORY = "matchingrules::expressions::MatchingRuleDefinition", "matchingrules::Category"
DP = "path_exp::DocPath"
EITHER = "itertools::Either"

def nested(entry):
    """Calls of the pairs that are decided on their own: a path parsed from its own expression, the rules of a nested
    category, nested rules."""
    def keep(I, fr, st, name, path, virt, args, g):
        if name == DP + "::new":
            x = I.deref_all(st, args[0])
            while x.op == "call" and x.args[0].split("::")[-1] in ("to_string", "into"): x = x.args[1][0]
            if x.op == "field" and x.args[2] == "expr": return ok(x.args[0])
        if name == MR + "::from_json":
            x = I.deref_all(st, args[0])
            if x.op == "call" and x.args[0] == MR + "::to_json": return ok(x.args[1][0])
        if name == CAT + "::add_rules_from_json":
            x = I.deref_all(st, args[1])
            if x.op == "call" and x.args[0] == CAT + "::to_v3_json" and x.args[1][0].op == "agg" and args[0].op == "mref":
                cur = I.read_cell(st, args[0])
                if I.field(cur, None, "rules") is EMPTY:
                    I.write_cell(st, args[0], agg(CAT, "MatchingRuleCategory", (I.field(cur, None, "name"), x.args[1][0].args[2][1])), g)
                    return ok(UNIT)
        return None
    return keep

def no_error(N, t):
    n, a = t.args
    if n == "find" and len(a) == 2 and a[1] is FALSE: return NONE
    return None

def machine(ctx, entry=()):
    c = ctx.models()
    m = Comp([c], {}, rules=[pairs.byte_rules, no_error], keep=nested(entry))
    m.opq |= {CAT + "::to_v3_json", CAT + "::add_rules_from_json", DP + "::new", MR + "::from_json", MR + "::to_json"}
    return m

def definition(g):
    """A definition as the readers of pact files make it: value, rules and generator."""
    return agg(MRD, "MatchingRuleDefinition", (sym("value"), agg("matchingrules::expressions::ValueType", "Unknown", ()), RULES, g, cstr("")))

RULES = listof(mk("agg", EITHER, "Left", (sym("nested.rule1"),)), mk("agg", EITHER, "Left", (sym("nested.rule2"),)))
GENS_ = [("none", NONE), ("regex", some(agg(GEN, "Regex", (sym("nested.gen"),)))), ("uuid", some(agg(GEN, "Uuid", (NONE,)))), ("date", some(agg(GEN, "Date", (some(sym("nested.fmt")), NONE))))]

def rule_values(c, I, variant):
    f = [x for x in I.adts[MR]["variants"] if x["name"] == variant][0]["fields"]
    tys = [c.tys[x[1]]["s"] for x in f]
    if tys == [MRD]: return [("%s(generator %s)" % (variant, l), agg(MR, variant, (definition(g),))) for l, g in GENS_]
    if len(tys) == 1 and "MatchingRuleCategory" in tys[0]:
        out = []
        body = agg(CAT, "MatchingRuleCategory", (agg(CATEGORY, "BODY", ()), sym("nested.rules")))
        path = sym("nested.path")
        for l, gens in [("no generators", EMPTY), ("with a generator", mapof((path, agg(GEN, "Regex", (sym("nested.gen"),))))), ("with another generator", mapof((path, agg(GEN, "RandomInt", (sym("nested.min"), sym("nested.max"))))))]:
            out.append(("%s(%s)" % (variant, l), agg(MR, variant, (listof(agg("()", "", (sym("nested.index"), body, gens))),))))
        return out
    return variant_shapes(c, I, MR, variant, "rule")

def compare(ctx, key, m, r, want, where, result="Ok"):
    if r is None: return ctx.ob(key, False, "never returns normally", where)
    return check_equal(ctx, key, m, m.norm(r), m.norm(want), where, result)

@prop("P06", "Matching rules survive a write/read cycle", floor=60)
def p06(ctx):
    c = ctx.models()
    ctx.rule("For every variant of the matching rule type and every structure of its payload, with arbitrary strings, numbers, rules and generators inside, the value written as JSON is read back as the same rule; so is the rule made from its type name and its values; and each documented spelling is read as the rule it means.")
    ctx.assume += ["A document path parses back from its own expression (decided for the path type on its own).", "Nested rule sets of array variants are decided by P08."]
    w, r, cr, nm, vs = (ctx.need(MR + x) for x in ("::to_json", "::from_json", "::create", "::name", "::values"))
    I = Interp([c])
    for v in variants_of(I, MR):
        for label, x in rule_values(c, I, v):
            m = machine(ctx)
            j, _ = m.interp(w, [x])
            if j is None: ctx.ob("write:" + label, False, "cannot be written", ctx.where(w)); continue
            y, _ = m.interp(r, [j])
            compare(ctx, "json:" + label, m, y, x, ctx.where(r))
            if "MatchingRuleCategory" in label or v == "ArrayContains": continue
            m = machine(ctx)
            n, _ = m.interp(nm, [x])
            vals, _ = m.interp(vs, [x])
            if n is None or vals is None: ctx.ob("values:" + label, False, "has no name or values", ctx.where(vs)); continue
            y, _ = m.interp(cr, [n, agg(VALUE, "Object", (vals,))])
            compare(ctx, "values:" + label, m, y, x, ctx.where(vs))
    # documented spellings
    s, n = sym("text"), sym("count")
    J = jnum("u64", mk("cast", "IntToInt", "u64", n, "usize"))
    J2 = jnum("u64", mk("cast", "IntToInt", "u64", sym("count2"), "usize"))
    V = lambda name, *p: agg(MR, name, p)
    spell = [
        ("V2 regex", obj(match=jstr("regex"), regex=jstr(s)), V("Regex", s)), ("regex without match", obj(regex=jstr(s)), V("Regex", s)),
        ("type", obj(match=jstr("type")), V("Type")), ("type with min", obj(match=jstr("type"), min=J), V("MinType", n)), ("type with max", obj(match=jstr("type"), max=J), V("MaxType", n)),
        ("type with min and max", obj(match=jstr("type"), min=J, max=J2), V("MinMaxType", n, sym("count2"))),
        ("min", obj(match=jstr("min"), min=J), V("MinType", n)), ("max", obj(match=jstr("max"), max=J), V("MaxType", n)),
        ("min without match", obj(min=J), V("MinType", n)), ("max without match", obj(max=J), V("MaxType", n)),
        ("timestamp", obj(match=jstr("timestamp"), timestamp=jstr(s)), V("Timestamp", s)), ("timestamp with format", obj(match=jstr("timestamp"), format=jstr(s)), V("Timestamp", s)),
        ("datetime", obj(match=jstr("datetime"), format=jstr(s)), V("Timestamp", s)), ("timestamp without match", obj(timestamp=jstr(s)), V("Timestamp", s)),
        ("date", obj(match=jstr("date"), date=jstr(s)), V("Date", s)), ("date with format", obj(match=jstr("date"), format=jstr(s)), V("Date", s)), ("date without match", obj(date=jstr(s)), V("Date", s)),
        ("time", obj(match=jstr("time"), time=jstr(s)), V("Time", s)), ("time with format", obj(match=jstr("time"), format=jstr(s)), V("Time", s)), ("time without match", obj(time=jstr(s)), V("Time", s)),
        ("equality", obj(match=jstr("equality")), V("Equality")), ("include", obj(match=jstr("include"), value=jstr(s)), V("Include", s)),
        ("number", obj(match=jstr("number")), V("Number")), ("integer", obj(match=jstr("integer")), V("Integer")), ("decimal", obj(match=jstr("decimal")), V("Decimal")), ("real", obj(match=jstr("real")), V("Decimal")),
        ("boolean", obj(match=jstr("boolean")), V("Boolean")), ("null", obj(match=jstr("null")), V("Null")), ("contentType", obj(match=jstr("contentType"), value=jstr(s)), V("ContentType", s)),
        ("values", obj(match=jstr("values")), V("Values")), ("notEmpty", obj(match=jstr("notEmpty")), V("NotEmpty")), ("semver", obj(match=jstr("semver")), V("Semver")),
        ("statusCode", obj(match=jstr("statusCode"), status=jstr("clientError")), V("StatusCode", agg("HttpStatus", "ClientError", ()))),
        ("statusCode without status", obj(match=jstr("statusCode")), V("StatusCode", agg("HttpStatus", "Success", ()))),
        ("integration format", obj(pact__matcher__type=jstr("type"), min=J), V("MinType", n)),
    ]
    for l, j, want in spell:
        m = machine(ctx)
        y, _ = m.interp(r, [j])
        compare(ctx, "spelling:" + l, m, y, want, ctx.where(cr))
    # writers use the documented spelling too
    for v, t in [("Regex", "regex"), ("Type", "type"), ("MinType", "type"), ("MaxType", "type"), ("MinMaxType", "type"), ("Timestamp", "datetime"), ("Time", "time"), ("Date", "date"), ("Include", "include"), ("Number", "number"),
                 ("Integer", "integer"), ("Decimal", "decimal"), ("Null", "null"), ("ContentType", "contentType"), ("Values", "values"), ("Boolean", "boolean"), ("StatusCode", "statusCode"), ("NotEmpty", "notEmpty"),
                 ("Semver", "semver"), ("EachKey", "eachKey"), ("EachValue", "eachValue"), ("ArrayContains", "arrayContains"), ("Equality", "equality")]:
        if v not in variants_of(I, MR): ctx.ob("written:" + v, False, "the rule no longer exists", ctx.where(w)); continue
        label, x = rule_values(c, I, v)[0]
        m = machine(ctx)
        j, _ = m.interp(w, [x])
        y = m.norm(m.I.models.get(j, cstr("match")))
        check_equal(ctx, "written:" + v, m, y, some(jstr(t)), ctx.where(w), what="the value of 'match'")

    nested_sets(ctx)
    with ctx.part("known values"):
        from props.p27_select import Rules
        R = Rules(ctx)
        for v in variants_of(R.I, MR):
            for l, x in exemplars(R.I, MR, v):
                judge(ctx, "known: " + l, R.run(r, R.run(w, x)), ok(x), ctx.where(r), "the rule is read back as")

TEXTS = ["", "a", " A/b\\ ", "$.x", "null", "\u00e9\"'", "^a|b$", "/"]
NUMBERS = {"usize": [0, 1, 2, 17, 2 ** 32 - 1], "u16": [0, 1, 9, 255, 65535], "i32": [-2 ** 31, -5, 0, 3, 10, 2 ** 31 - 1]}
def exemplars(I, ty, variant):
    """Values of a variant whose texts and numbers are known; every pair of neighbouring numbers in both orders."""
    f = [x for x in I.adts[ty]["variants"] if x["name"] == variant][0]["fields"]
    c = I.crates[0]
    def of(t):
        if t == "std::string::String": return [(json.dumps(s), cstr(s)) for s in TEXTS]
        if t in NUMBERS: return [(str(n), const("int", n)) for n in NUMBERS[t]]
        if t.startswith("std::option::Option<"):
            o = of(t[len("std::option::Option<"):-1])
            return [("none", NONE)] + [(l, some(x)) for l, x in o] if o else []
        if t in I.adts and all(not v["fields"] for v in I.adts[t]["variants"]) and I.adts[t]["variants"]: return [(v["name"], agg(t, v["name"], ())) for v in I.adts[t]["variants"]]
        return []
    doms = [of(c.tys[x[1]]["s"]) for x in f]
    if not all(doms): return []
    return [("%s(%s)" % (variant, ", ".join(l for l, _ in xs)), agg(ty, variant, tuple(x for _, x in xs))) for xs in itertools.product(*doms)]

def nested_sets(ctx):
    """Rules with sets of rules inside, with more than one entry at every level."""
    from props.p27_select import Rules, ROOT, F, OR
    ctx.rule("Rules that hold rules and generators themselves are interpreted, written and read back, with several variants, paths, rules and generators inside, whose strings and numbers are arbitrary.")
    R = Rules(ctx)
    w, r = ctx.need(MR + "::to_json"), ctx.need(MR + "::from_json")
    V = lambda name, *p: agg(MR, name, p)
    G = lambda name, *p: agg(GEN, name, p)
    pa, pb, pc = R.of(ROOT, F("a")), R.of(ROOT, F("b")), R.of(ROOT, F("c"), F("d"))
    rx = lambda n: V("Regex", sym(n))
    C = lambda *es: R.category("BODY", es)
    T = lambda *x: agg("()", "", x)
    one, two = C((pa, R.list(rx("r1")))), C((pa, R.list(rx("r2"), logic=OR)), (pb, R.list(V("MinType", const("int", 2)), rx("r3"), V("Type"))), (pc, R.list(V("Date", sym("d")), logic=OR)))
    gens = [("no generators", EMPTY), ("one generator", dict_of((pa, G("Regex", sym("g1"))))), ("generators", dict_of((pa, G("Regex", sym("g1"))), (pb, G("Uuid", NONE)), (pc, G("RandomBoolean"))))]
    xs = []
    for gl, g in gens:
        xs.append(("arrayContains, one rule, " + gl, V("ArrayContains", listof(T(const("int", 0), one, g)))))
        xs.append(("arrayContains, rules, " + gl, V("ArrayContains", listof(T(const("int", 3), two, g)))))
        xs.append(("arrayContains, variants, " + gl, V("ArrayContains", listof(T(const("int", 0), two, EMPTY), T(const("int", 1), one, g), T(const("int", 4), C(), gens[1][1])))))
    xs.append(("arrayContains, no variants", V("ArrayContains", listof())))
    left = lambda x: agg(EITHER, "Left", (x,))
    for v in ("EachKey", "EachValue"):
        for l, rs in [("no rules", ()), ("one rule", (rx("r"),)), ("rules", (rx("r"), V("Type"), V("MaxType", const("int", 7)), V("Include", sym("i"))))]:
            for gl, g in [("no generator", NONE), ("generator", some(G("Regex", sym("g"))))]:
                for vl, val in (("no value", cstr("")), ("value", cstr("example"))):
                    xs.append(("%s, %s, %s, %s" % (v, l, gl, vl), V(v, agg(MRD, "MatchingRuleDefinition", (val, agg("matchingrules::expressions::ValueType", "Unknown", ()), listof(*[left(x) for x in rs]), g, cstr("")))) ))
    for R.order in R.orders:
        for l, x in xs: judge(ctx, "nested: %s %s" % (l, R.order), R.run(r, R.run(w, x)), ok(x), ctx.where(r), "the rule is read back as")
        # a variant without rules
        y = R.run(r, obj(match=jstr("arrayContains"), variants=agg(VALUE, "Array", (listof(obj(index=jnum("u64", const("int", 1)))),))))
        judge(ctx, "nested: arrayContains, variant without rules " + R.order, y, ok(V("ArrayContains", listof(T(const("int", 1), C((R.run(DP + "::empty"), R.list(V("Equality")))), EMPTY)))), ctx.where(r), "the rule is read as")

def payload(j): return j.args[2][0] if j.op == "agg" and j.args[1] == "Some" else None

@prop("P07", "Generators survive a write/read cycle", floor=30)
def p07(ctx):
    c = ctx.models()
    ctx.rule("For every variant of the generator type and every structure of its payload, with arbitrary strings and numbers inside, the value written as JSON names the type and is read back as the same generator.")
    w, fm, nm, cr = (ctx.need(GEN + x) for x in ("::to_json", "::from_map", "::name", "::create"))
    I = Interp([c])
    types = {"ProviderStateGenerator": "ProviderState"}
    for v in variants_of(I, GEN):
        if v == "ArrayContains": continue       # made from the matching rule of the same name, never written on its own
        for label, x in variant_shapes(c, I, GEN, v, "generator"):
            m = machine(ctx)
            j, _ = m.interp(w, [x])
            if j is None: ctx.ob("write:" + label, False, "cannot be written", ctx.where(w)); continue
            goods, others = split_result(j, "Some")
            if others or not goods: ctx.ob("write:" + label, False, "is not written", ctx.where(w)); continue
            J = phi(goods)
            ty = m.I.models.get(J, cstr("type"))
            check_equal(ctx, "type:" + label, m, m.norm(ty), some(jstr(types.get(v, v))), ctx.where(w), what="the type written")
            y, _ = m.interp(cr, [cstr(types.get(v, v)), J])
            compare(ctx, "json:" + label, m, y, x, ctx.where(fm))
            n, _ = m.interp(nm, [x])
            check_equal(ctx, "name:" + label, m, m.norm(n), cstr(types.get(v, v)), ctx.where(nm), what="the type name")
    # documented spellings and defaults
    s = sym("text")
    V = lambda name, *p: agg(GEN, name, p)
    k = lambda n: const("int", n)
    for l, t, j, want in [
        ("RandomInt", "RandomInt", obj(min=jnum("i32", sym("a")), max=jnum("i32", sym("b"))), V("RandomInt", sym("a"), sym("b"))),
        ("RandomInt defaults", "RandomInt", obj(), V("RandomInt", k(0), k(10))),
        ("RandomDecimal", "RandomDecimal", obj(digits=jnum("u16", sym("a"))), V("RandomDecimal", sym("a"))), ("RandomDecimal defaults", "RandomDecimal", obj(), V("RandomDecimal", k(10))),
        ("RandomHexadecimal", "RandomHexadecimal", obj(digits=jnum("u16", sym("a"))), V("RandomHexadecimal", sym("a"))), ("RandomString", "RandomString", obj(size=jnum("u16", sym("a"))), V("RandomString", sym("a"))),
        ("Regex", "Regex", obj(regex=jstr(s)), V("Regex", s)), ("Uuid", "Uuid", obj(), V("Uuid", NONE)),
        ("Date", "Date", obj(format=jstr(s)), V("Date", some(s), NONE)), ("Time", "Time", obj(format=jstr(s)), V("Time", some(s), NONE)), ("DateTime", "DateTime", obj(format=jstr(s), expression=jstr(sym("e"))), V("DateTime", some(s), some(sym("e")))),
        ("RandomBoolean", "RandomBoolean", obj(), V("RandomBoolean")), ("ProviderState", "ProviderState", obj(expression=jstr(s)), V("ProviderStateGenerator", s, NONE)),
        ("MockServerURL", "MockServerURL", obj(example=jstr(s), regex=jstr(sym("r"))), V("MockServerURL", s, sym("r"))),
    ]:
        m = machine(ctx)
        y, _ = m.interp(cr, [cstr(t), j])
        compare(ctx, "spelling:" + l, m, y, want, ctx.where(fm))
    with ctx.part("known values"):
        R = Cases(ctx)
        for v in variants_of(R.I, GEN):
            for l, x in exemplars(R.I, GEN, v):
                j = R.run(w, x)
                y = R.run(cr, cstr(types.get(v, v)), payload(j)) if payload(j) is not None else j
                judge(ctx, "known: " + l, y, ok(x), ctx.where(fm), "the generator is read back as")
