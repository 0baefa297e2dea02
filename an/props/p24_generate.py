"""What generators produce: random values of the size, range and characters described, values of the context, and where in a body they are put."""
import itertools, json
from common import *
from models import is_str_const
import text, randoms

G, UF, GTM, DP, TOK = "generators::Generator", "generators::UuidFormat", "generators::GeneratorTestMode", "path_exp::DocPath", "path_exp::PathToken"
GV = "<generators::Generator as generators::GenerateValue<%s>>::generate_value"
STRING, VEC = "std::string::String", "std::vec::Vec<std::string::String>"
JH, FH = "generators::JsonHandler", "generators::form_urlencoded::FormUrlEncodedHandler"
CTH = "<%s as generators::ContentTypeHandler<%s>>::%s"
FORM = ("generate_value is interpreted for every kind of generator and every type of value it is asked for, once for every combination of the extreme, middle and neighbouring outcomes of the random draws it makes; each outcome must be of the length, range, characters, format and JSON type that the generator describes. "
        "Provider state and mock server values must be those of the context. JSON documents and forms are interpreted with a generator for each kind of path; exactly the values that the path leads to must be replaced.")
int_ = lambda k: const("int", k)
gen = lambda k, *a: agg(G, k, a)
NOOP = agg("matcher", "none", ())

def shapes():
    """(label, function, value asked for, how the generated value is wrapped)"""
    text_ = lambda v: v if is_str_const(v) or v.op in ("text", "call", "agg", "field", "sym") else None
    inner = lambda v: v.args[2][0] if v.op == "agg" and v.args[0] == VALUE and v.args[1] == "String" else None
    only = lambda v: v.args[2][0] if v.op == "agg" and v.args[0] == "[]" and len(v.args[2]) == 1 else None
    return [("text", GV % STRING, cstr("x"), text_), ("list", GV % VEC, listof(cstr("x"), cstr("y")), only), ("empty list", GV % VEC, listof(), only), ("JSON text", GV % VALUE, jstr("x"), inner)]

def outcomes(R, f, args, picks, limit):
    D, out, n = randoms.Draws(picks), [], 0
    for n in D.runs(limit):
        y = R.run(f, *args)
        if y not in out: out.append(y)
    return out

def each(ctx, R, key, f, args, good, what, picks=randoms.some3, limit=200, every=None, panics=False, fails=False):
    """good(value) -> True, False, or None when it is not known; every: values (after good) that must be among the outcomes."""
    W = ctx.where(ctx.need(f))
    ys = outcomes(R, f, args, picks, limit)
    r, bad, got = True, "", []
    for y in ys:
        if y is UNDEF:
            if not panics: r, bad = False, "it never returns"
            continue
        for g, v in alts(y):
            if v.op == "agg" and v.args[0] == RES and v.args[1] == "Ok": v = v.args[2][0]; q = good(v)
            elif v.op == "agg" and v.args[0] == RES:
                q = True if fails else None if len(alts(y)) > 1 else False
            elif v is UNDEF or v.op == "undef": q = False
            else: q = good(v)
            if v.op == "undef" or find_all(v, lambda t: t.op == "undef"): q = False
            got.append(v)
            if q is not True and r is not False:
                if q is False and opaque_in(v): q = None
                r, bad = q, "%s gives %s" % (what, show(v, 6)[:200])
    if r is True and every is not None:
        miss = [e for e in every if e not in got]
        if miss: r, bad = (None if any(opaque_in(v) for v in got) else False), "%s never gives %s" % (what, show(miss[0], 4)[:100])
    ctx.ob(key, r, bad, W)

def chars(v):
    cs = text.chars_of(v) if isinstance(v, T) and (is_str_const(v) or v.op == "text") else None
    return cs
def isdec(d):
    def ok_(v):
        if not is_str_const(v): return False if chars(v) is not None else None
        s = v.args[1]
        if sum(c.isdigit() for c in s) != d or not set(s) <= set("0123456789."): return False
        if d == 1: return len(s) == 1
        a, dot, b = s.partition(".")
        return dot == "." and a.isdigit() and b.isdigit() and (a == "0" or a[0] != "0")
    return ok_
def ischars(cs, n):
    def ok_(v):
        xs = chars(v)
        if xs is None: return None
        return len(xs) == n and all(text.test(c, lambda x: x in cs) for c in xs)
    return ok_
def via(unwrap, good):
    def ok_(v):
        x = unwrap(v)
        if x is None: return None if opaque_in(v) or v.op == "phi" else False
        return good(x)
    return ok_

RANGES = [(0, 10), (3, 9), (5, 5), (-3, 3), (-9, -2), (0, 2**31 - 1), (-2**31, 2**31 - 1), (-2**31, -2**31), (2**31 - 1, 2**31 - 1), (100, 599)]

def numbers(ctx):
    ctx.rule(FORM)
    R = Cases(ctx); R.maxpeel = 80
    for l, f, v, un in shapes():
        for lo, hi in RANGES:
            ends = [cstr(str(lo)), cstr(str(hi))]
            seen = []
            def good(x):
                seen.append(x)
                return is_str_const(x) and x.args[1].lstrip("-").isdigit() and lo <= int(x.args[1]) <= hi if chars(x) is not None else None
            each(ctx, R, "integer %s %d..%d" % (l, lo, hi), f, [gen("RandomInt", int_(lo), int_(hi)), v, EMPTY, NOOP], via(un, good), "a random integer of %d to %d" % (lo, hi))
            miss = [e for e in ends if e not in seen]
            ctx.ob("integer ends %s %d..%d" % (l, lo, hi), (None if any(opaque_in(x) for x in seen) or not seen else False) if miss else True, "a random integer of %d to %d is never %s" % (lo, hi, ", ".join(show(x, 3) for x in miss)), ctx.where(f))
        for lo, hi in ((5, 3), (0, -1), (2**31 - 1, -2**31)):
            each(ctx, R, "integer %s %d..%d" % (l, lo, hi), f, [gen("RandomInt", int_(lo), int_(hi)), v, EMPTY, NOOP], lambda x: True, "a random integer without a range", fails=True)
        for d in (1, 2, 3, 4, 5, 6):
            each(ctx, R, "decimal %s %d" % (l, d), f, [gen("RandomDecimal", int_(d)), v, EMPTY, NOOP], via(un, isdec(d)), "a random decimal of %d digits" % d, picks=randoms.ends, limit=160 if ctx.tier == "quick" else 600)
        for d in (0, 1, 2, 5, 16, 17, 40):
            each(ctx, R, "hexadecimal %s %d" % (l, d), f, [gen("RandomHexadecimal", int_(d)), v, EMPTY, NOOP], via(un, ischars("0123456789abcdefABCDEF", d)), "a random hexadecimal of %d digits" % d, limit=30)
            each(ctx, R, "string %s %d" % (l, d), f, [gen("RandomString", int_(d)), v, EMPTY, NOOP], via(un, ischars(randoms.ALNUM, d)), "a random string of %d characters" % d, limit=30)
    f = GV % VALUE
    for l, v in (("number", jnum("i64", int_(3))), ("null", agg(VALUE, "Null", ())), ("true", agg(VALUE, "Bool", (TRUE,))), ("list", agg(VALUE, "Array", (listof(),))), ("object", obj())):
        num = lambda x: x.args[2][0] if x.op == "agg" and x.args[1] == "Number" else None
        for lo, hi in RANGES:
            seen = []
            def good(x):
                while x.op in ("num", "cast"): x = x.args[-1] if x.op == "num" else x.args[2]
                seen.append(x)
                return lo <= x.args[1] <= hi if x.op == "const" else None
            each(ctx, R, "integer %s %d..%d" % (l, lo, hi), f, [gen("RandomInt", int_(lo), int_(hi)), v, EMPTY, NOOP], via(num, good), "a random integer of %d to %d for a %s" % (lo, hi, l))
            miss = [e for e in (int_(lo), int_(hi)) if e not in seen]
            ctx.ob("integer ends %s %d..%d" % (l, lo, hi), (None if any(opaque_in(x) for x in seen) or not seen else False) if miss else True, "a random integer of %d to %d is never %s" % (lo, hi, ", ".join(show(x, 3) for x in miss)), ctx.where(f))
        for d in (1, 2, 3, 4):
            def dec(x):
                if x.op == "agg" and x.args[0] == RES: return True
                ps = find_all(x, lambda t: t.op == "call" and t.args[0] == "parse:f64")
                if x.args[1] == "Number" and x.args[2][0].op == "const": return isinstance(x.args[2][0].args[1], float) and len(repr(x.args[2][0].args[1]).replace(".", "").rstrip("0").lstrip("0")) <= d
                if x.args[1] == "Number": return isdec(d)(ps[0].args[1][0]) if len(ps) == 1 else None
                return isdec(d)(x.args[2][0]) if x.args[1] == "String" and l != "number" else False
            each(ctx, R, "decimal %s %d" % (l, d), f, [gen("RandomDecimal", int_(d)), v, EMPTY, NOOP], dec, "a random decimal of %d digits for a %s" % (d, l), picks=randoms.ends, limit=100, fails=True)
    f = GV % "u16"
    for lo, hi in RANGES + [(200, 404), (0, 65535), (65535, 65535), (-1, 70000), (70000, 80000), (5, 3)]:
        seen = []
        def good(x):
            while x.op == "cast": x = x.args[2]
            seen.append(x)
            return lo <= x.args[1] <= hi if x.op == "const" else None
        inside = 0 <= lo <= hi <= 65535
        each(ctx, R, "integer u16 %d..%d" % (lo, hi), f, [gen("RandomInt", int_(lo), int_(hi)), int_(1), EMPTY, NOOP], good, "a random status of %d to %d" % (lo, hi), fails=not inside)
        miss = [e for e in (int_(lo), int_(hi)) if e not in seen] if inside else []
        ctx.ob("integer ends u16 %d..%d" % (lo, hi), (None if any(opaque_in(x) for x in seen) or not seen else False) if miss else True, "a random status of %d to %d is never %s" % (lo, hi, ", ".join(show(x, 3) for x in miss)), ctx.where(f))
    for n, g in (("generators::generate_decimal", isdec), ("generators::generate_hexadecimal", lambda d: ischars("0123456789abcdefABCDEF", d)), ("generators::generate_ascii_string", lambda d: ischars(randoms.ALNUM, d))):
        for d in (1, 2, 3, 4, 5, 9):
            each(ctx, R, "%s %d" % (n.split("::")[1], d), n, [int_(d)], g(d), "the function", picks=randoms.ends, limit=200)
    seen = set()
    each(ctx, R, "hexadecimal digits", "generators::generate_hexadecimal", [int_(1)], lambda v: seen.add(v) or True, "the function", picks=range)
    if seen and all(is_str_const(x) for x in seen): ctx.ob("hexadecimal digits all", {x.args[1].upper() for x in seen} == set("0123456789ABCDEF"), "a random hexadecimal digit is one of " + " ".join(sorted(x.args[1] for x in seen)), ctx.where("generators::generate_hexadecimal"))

def kinds(ctx):
    """UUIDs, booleans, regular expressions."""
    R = Cases(ctx)
    up = lambda t: text.of_chars([text.case(c, str.upper) for c in text.chars_of(t)])
    want = {None: randoms.uuid_text("Hyphenated"), "Simple": randoms.uuid_text("Simple"), "LowerCaseHyphenated": randoms.uuid_text("Hyphenated"), "UpperCaseHyphenated": up(randoms.uuid_text("Hyphenated")), "Urn": randoms.uuid_text("Urn")}
    def hexes(k):
        t = want[k]
        def ok_(v):
            xs, ws = chars(v), text.chars_of(t)
            if xs is None: return None
            return len(xs) == len(ws) and all(text.members(a) <= text.members(b) for a, b in zip(xs, ws))
        return ok_
    more = [("JSON " + l, GV % VALUE, v, lambda x: x.args[2][0] if x.op == "agg" and x.args[1] == "String" else None) for l, v in (("number", jnum("i64", int_(3))), ("null", agg(VALUE, "Null", ())))]
    for l, f, v, un in shapes() + more:
        for k in want:
            each(ctx, R, "uuid %s %s" % (l, k), f, [gen("Uuid", NONE if k is None else some(agg(UF, k, ()))), v, EMPTY, NOOP], via(un, hexes(k)), "a random UUID in the format %s" % k)
        if not l.startswith("JSON"): each(ctx, R, "boolean %s" % l, f, [gen("RandomBoolean"), v, EMPTY, NOOP], via(un, lambda x: x in (cstr("true"), cstr("false"))), "a random boolean", every=[listof(cstr(b)) if "list" in l else cstr(b) for b in ("true", "false")])
        for p, q in (("a", "a"), ("^a$", "a"), ("^a", "a"), ("a$", "a"), ("\\d+", "\\d+"), ("^\\d{1,2}/\\d{1,2}$", "\\d{1,2}/\\d{1,2}"), ("^(a|b)c", "(a|b)c"), ("[a-f0-9]{4}$", "[a-f0-9]{4}"), ("[^a]", "[^a]"), ("^[^a]+$", "[^a]+")):
            def rx(x):
                s = find_all(x, lambda t: t.op == "agg" and t.args[0] == "randregex")
                if not (x.op == "call" and x.args[0] == "sampled" and len(s) == 1): return None if opaque_in(x) or not is_str_const(x) else False
                return s[0].args[2][0] is cstr(q)
            each(ctx, R, "regex %s %s" % (l, p), f, [gen("Regex", cstr(p)), v, EMPTY, NOOP], via(un, rx), "a random text for the expression %s" % p)
        each(ctx, R, "regex %s invalid" % l, f, [gen("Regex", cstr("(")), v, EMPTY, NOOP], lambda x: False, "a random text for an expression that is none", fails=True)
    each(ctx, R, "boolean JSON", GV % VALUE, [gen("RandomBoolean"), jstr("x"), EMPTY, NOOP], lambda x: x.op == "agg" and x.args[1] == "Bool", "a random boolean", every=[agg(VALUE, "Bool", (b,)) for b in (TRUE, FALSE)])
    for k in ("Uuid", "RandomDecimal", "RandomBoolean", "RandomString"):
        g = gen(k, *([NONE] if k == "Uuid" else [int_(3)] if k != "RandomBoolean" else []))
        each(ctx, R, "u16 " + k, GV % "u16", [g, int_(1), EMPTY, NOOP], lambda x: False, "a status from a generator of other values", fails=True)
    for l, f, v, un in shapes()[:3]:
        each(ctx, R, "array contains %s" % l, f, [gen("ArrayContains", listof()), v, EMPTY, NOOP], lambda x: False, "a variant of an array for a text", fails=True)

def contexts(ctx):
    """Values of provider states and mock servers."""
    R = Cases(ctx)
    n = int_(7)
    V = GV % VALUE
    any_ = sym("value")
    states = lambda kv: dict_of(*kv)
    def check(key, f, g, v, cx, want):
        y = R.run(f, g, v, cx, NOOP)
        W = ctx.where(ctx.need(f))
        if want is None:
            goods, others = split_result(y)
            return ctx.ob(key, not goods and y is not UNDEF if not any(opaque_in(x) for _, x in goods) else None, "what can not be generated gives " + show(y, 5)[:200], W)
        judge(ctx, key, y, ok(want), W, "the generated value is")
    PS = lambda e, dt=None: gen("ProviderStateGenerator", cstr(e), NONE if dt is None else some(agg("expression_parser::DataType", dt, ())))
    inner, outer = [("a", jstr("in")), ("n", jnum("u64", n)), ("v", any_)], [("a", jstr("out")), ("n", jnum("u64", int_(8))), ("v", sym("other"))]
    for cl, cx, a, k, v in (("state", states([("providerState", obj(a=jstr("in"), n=jnum("u64", n), v=any_))] + outer), "in", 7, any_), ("plain", states(inner), "in", 7, any_), ("not an object", states([("providerState", jstr("q"))] + inner), "in", 7, any_),
                            ("empty state", states([("providerState", obj())]), None, None, None), ("nothing", EMPTY, None, None, None)):
        for e, w in (("${a}", a), ("a", a), ("x${a}y", a and "x%sy" % a), ("${n}", k and str(k)), ("${a}${n}", a and "%s%d" % (a, k)), ("${zz}", None), ("zz", None)):
            for l, f, old, un in shapes():
                if l == "JSON text": val = w and (jstr(w) if e != "${n}" else jnum("u64", int_(k)))
                else: val = w and (cstr(w) if "list" not in l else listof(cstr(w)))
                check("provider state %s: %s %s" % (l, cl, e), f, PS(e), old, cx, val)
        check("provider state any: %s" % cl, V, PS("${v}"), agg(VALUE, "Null", ()), cx, v)
        check("provider state any plain: %s" % cl, V, PS("v"), agg(VALUE, "Null", ()), cx, v)
        check("provider state u16: %s" % cl, GV % "u16", PS("${n}"), int_(1), cx, k and int_(k))
        check("provider state typed: %s" % cl, V, PS("${n}", "STRING"), agg(VALUE, "Null", ()), cx, k and jstr(str(k)))
    MS = lambda ex, rx: gen("MockServerURL", cstr(ex), cstr(rx))
    U = "http://192.168.2.1:2345/p"
    url, href = states([("mockServer", obj(url=jstr(U), port=jnum("u64", n)))]), states([("mockServer", obj(href=jstr(U)))])
    both = states([("mockServer", obj(url=jstr(U), href=jstr("http://elsewhere:9/q")))])
    for l, f, old, un in shapes():
        wrap = {"text": cstr, "list": lambda s: listof(cstr(s)), "empty list": lambda s: listof(cstr(s)), "JSON text": jstr}[l]
        for ex, rx, w in (("http://localhost:1234/path", ".*(/path)$", U + "/path"), ("http://localhost:1234/a/b?c=d", ".*(\\/a\\/b.*)$", U + "/a/b?c=d"), ("http://h:1/orders/12/x", ".*(/orders/(\\d+)/x)$", U + "/orders/12/x"), ("http://h:1/", ".*(/)", U + "/"), ("http://h:1/x", ".*?1(/x)?", U + "/x")):
            check("mock server %s url %s" % (l, ex), f, MS(ex, rx), old, url, wrap(w))
            check("mock server %s href %s" % (l, ex), f, MS(ex, rx), old, href, wrap(w))
            check("mock server %s url and href %s" % (l, ex), f, MS(ex, rx), old, both, wrap(w))
        for cl, cx in (("nothing", EMPTY), ("not an object", states([("mockServer", jstr(U))])), ("no url", states([("mockServer", obj(port=jnum("u64", n)))])), ("url elsewhere", states([("url", jstr(U))]))):
            check("mock server %s: %s" % (l, cl), f, MS("http://localhost:1234/path", ".*(/path)$"), old, cx, None)
        check("mock server %s: invalid expression" % l, f, MS("http://h/path", "(path"), old, url, None)
        for ex, rx in (("http://h:1/path", ".*/path$"), ("http://h:1/path", "h:1(/x)?")):
            y = R.run(f, MS(ex, rx), old, url, NOOP)
            bad = y is UNDEF or any(x.op == "undef" for _, v in alts(y) for x in find_all(v, lambda t: t.op == "undef"))
            ctx.ob("mock server %s: no group in %s" % (l, rx), not bad, "an expression without a group panics", ctx.where(f))
    # dates and times: the base of the context
    bases = [("Date", "baseDate"), ("Time", "baseTime"), ("DateTime", "baseDateTime")]
    syms = {b: sym("text of " + b) for _, b in bases}
    full = states([(b, jstr(syms[b])) for _, b in bases])
    for l, f, old, un in shapes():
        for k, b in bases:
            for fl, fmt in (("default", NONE), ("format", some(sym("pattern")))):
                for el, ex in (("", NONE), ("expression", some(sym("expression")))):
                    y = R.run(f, gen(k, fmt, ex), old, full, NOOP)
                    W, key = ctx.where(ctx.need(f)), "%s %s %s %s" % (k, l, fl, el)
                    if y is UNDEF: ctx.ob(key, False, "no value is ever generated", W); continue
                    used = {s for s in syms if find_all(y, lambda t: t is syms[s])}
                    goods, _ = split_result(y)
                    wrong = used - {b}
                    ctx.ob(key + " base", False if wrong else True if used == {b} else (None if any(opaque_in(v) for _, v in goods) else False), "the value depends on %s instead of %s" % (", ".join(sorted(used)) or "no base", b), W)
                    if fmt is not NONE: ctx.ob(key + " pattern", True if find_all(y, lambda t: t is sym("pattern")) else None if any(opaque_in(v) and not find_all(v, lambda t: t is syms[b]) for _, v in goods) else False, "the value does not depend on the format", W)
                    if ex is not NONE: ctx.ob(key + " expression", True if find_all(y, lambda t: t is sym("expression")) else None if any(opaque_in(v) and not find_all(v, lambda t: t is syms[b]) for _, v in goods) else False, "the value does not depend on the expression", W)

def modes(ctx):
    R = Cases(ctx)
    f = ctx.need(G + "::corresponds_to_mode")
    ms = variants_of(R.I, GTM)
    ap = ctx.need("generators::apply_generators")
    gs = {"ProviderStateGenerator": gen("ProviderStateGenerator", sym("e"), sym("d")), "MockServerURL": gen("MockServerURL", sym("e"), sym("r")), "RandomInt": gen("RandomInt", sym("a"), sym("b")), "Uuid": gen("Uuid", sym("f")), "RandomDecimal": gen("RandomDecimal", sym("n")),
          "RandomHexadecimal": gen("RandomHexadecimal", sym("n")), "RandomString": gen("RandomString", sym("n")), "Regex": gen("Regex", sym("r")), "Date": gen("Date", sym("f"), sym("e")), "Time": gen("Time", sym("f"), sym("e")), "DateTime": gen("DateTime", sym("f"), sym("e")), "RandomBoolean": gen("RandomBoolean"), "ArrayContains": gen("ArrayContains", sym("v"))}
    for v in variants_of(R.I, G):
        if v not in gs: continue
        for m in ms:
            want = {"ProviderStateGenerator": m == "Provider", "MockServerURL": m == "Consumer"}.get(v, True)
            judge(ctx, "mode %s %s" % (v, m), R.run(f, agg(GTM, m, ()), ) if False else R.run(f, gs[v], agg(GTM, m, ())), boolc(want), ctx.where(f), "whether a %s generator applies for the %s is" % (v, m.lower()))
    P = lambda *t: path(R, *t)
    names = ["RandomInt", "ProviderStateGenerator", "MockServerURL", "Uuid"]
    for k in (0, 1, 2, 3):
        for c in itertools.permutations(names, k):
            ks = [(P(F("k%d" % i)), gs[x]) for i, x in enumerate(c)]
            for m in ms:
                for order in R.orders:
                    R.order = order
                    name = "modes %s %s %s" % (" ".join(c), m, order)
                    engine_record().pop(name, None)
                    R.run(ap, agg(GTM, m, ()), dict_of(*ks), mk("recorder", name))
                    got = engine_record().get(name, [])
                    want = [(p, g) for (p, g), x in zip(ks, c) if {"ProviderStateGenerator": m == "Provider", "MockServerURL": m == "Consumer"}.get(x, True)]
                    r = len(got) == len(want) and all(any(len(a) == 2 and a[0] is p and a[1] is g for a, _ in got) for p, g in want)
                    ctx.ob("apply " + name, r if r or all(gg is TT for _, gg in got) else None, "of the generators %s for the %s, %d are applied instead of %d" % (" ".join(c), m.lower(), len(got), len(want)), ctx.where(ap))

def engine_record():
    import engine
    return engine.RECORD

def F(n): return agg(TOK, "Field", (cstr(n),))
def X(i): return agg(TOK, "Index", (int_(i),))
ST, SI, RT = agg(TOK, "Star", ()), agg(TOK, "StarIndex", ()), agg(TOK, "Root", ())
_paths = {}
def path(R, *ts):
    k = (id(R.ctx), ts)
    if k not in _paths: _paths[k] = R.run(DP + "::from_tokens", listof(RT, *ts))
    return _paths[k]

def jv(x):
    """A JSON value as a term."""
    if x is None: return agg(VALUE, "Null", ())
    if x is True or x is False: return agg(VALUE, "Bool", (boolc(x),))
    if isinstance(x, int): return jnum("u64", int_(x))
    if isinstance(x, str): return jstr(x)
    if isinstance(x, list): return agg(VALUE, "Array", (listof(*[jv(y) for y in x]),))
    if isinstance(x, T): return x
    return agg(VALUE, "Object", (dict_of(*[(k, jv(v)) for k, v in sorted(x.items())]),))

def put(doc, ts, new):
    """The document with the values at the path replaced; new(old) -> value, or None to keep it."""
    if not ts:
        r = new(doc)
        return doc if r is None else r
    t, rest = ts[0], ts[1:]
    k = t.args[1]
    if isinstance(doc, dict):
        if k == "Field" and t.args[2][0].args[1] in doc: return {**doc, t.args[2][0].args[1]: put(doc[t.args[2][0].args[1]], rest, new)}
        if k == "Star": return {a: put(b, rest, new) for a, b in doc.items()}
    if isinstance(doc, list):
        if k == "Index": return [put(b, rest, new) if i == t.args[2][0].args[1] else b for i, b in enumerate(doc)]
        if k == "StarIndex": return [put(b, rest, new) for b in doc]
    return doc

DOCS = [("nested", {"a": {"b": 1, "c": "x"}, "l": [{"b": 1}, {"b": 2, "d": []}, "q"], "e": {}, "m": [[1, 2], [3]]}), ("list", [1, [2, {"a": 3}], {"a": {"b": 4}}]), ("text", "x"), ("null", None), ("names", {"a/b": 1, "a": {"b": 2, "/": 3}, "c~d": 4, "~1": 5, "/": 6, "~0": 7, "a b": 8, "0": 9, "e.f": {"g[0]": 10}, "'": 11, "é": 12, "~": 13, "$": 14, "*": 15}), ("digits", {"0": {"0": 1, "1": [5, 6]}, "01": 2, "-": 3})]
def tokens_for(doc):
    """Paths of up to three parts over the names and indexes of a document."""
    names = set()
    def walk(d):
        if isinstance(d, dict):
            names.update(d)
            for v in d.values(): walk(v)
        if isinstance(d, list):
            for v in d: walk(v)
    walk(doc)
    return [F(n) for n in sorted(names)] + [F("zz"), X(0), X(1), X(9), ST, SI]

def documents(ctx):
    R = Cases(ctx)
    mark = sym("generated")
    cx = dict_of(("g", mark))
    g = gen("ProviderStateGenerator", cstr("g"), NONE)
    bad = gen("ProviderStateGenerator", cstr("missing"), NONE)
    f = ctx.need(CTH % (JH, VALUE, "apply_key"))
    W = ctx.where(f)
    value = lambda h: R.get(h, "value") if h is not None and h.op == "agg" else UNDEF
    for dl, doc in DOCS:
        toks = tokens_for(doc)
        ps = [()] + [(t,) for t in toks] + [p for p in itertools.product(toks, repeat=2) if len(toks) < 12 or ctx.tier == "thorough" or dl != "names" or p[0] in (F("a"), F("e.f"), ST, F("/"))]
        if dl in ("nested", "list", "digits"): ps += [p for p in itertools.product(toks, repeat=3) if put(doc, p, lambda o: mark) != doc or p[0] in (F("l"), SI) and p[1] is SI]
        for p in ps:
            key = "%s %s" % (dl, "".join(show(t, 3).replace("PathToken::", ".") for t in p) or "root")
            got = value(R.mut(f, R.struct(JH, value=jv(doc)), path(R, *p), g, cx, NOOP))
            judge(ctx, "replaced " + key, got, jv(put(doc, p, lambda o: mark)), W, "the document is")
        for p in ((), (toks[0],), (toks[0], ST)):
            got = value(R.mut(f, R.struct(JH, value=jv(doc)), path(R, *p), bad, cx, NOOP))
            judge(ctx, "failed %s %d" % (dl, len(p)), got, jv(doc), W, "the document for a generator that fails is")
    # whole bodies
    f = ctx.need(CTH % (JH, VALUE, "process_body"))
    W = ctx.where(f)
    doc = {"a": 1, "b": {"c": "x"}}
    G2 = {"ProviderStateGenerator": gen("ProviderStateGenerator", cstr("g"), NONE), "MockServerURL": gen("MockServerURL", cstr("http://h/p"), cstr(".*(/p)"))}
    cx2 = dict_of(("g", jstr("new")), ("mockServer", obj(url=jstr("http://m:1"))))
    for m in variants_of(R.I, GTM):
        for ks in ([], [("ProviderStateGenerator", ("a",))], [("MockServerURL", ("b", "c"))], [("ProviderStateGenerator", ("a",)), ("MockServerURL", ("b", "c"))], [("MockServerURL", ("a",)), ("ProviderStateGenerator", ("b", "c"))]):
            want = doc
            for k, p in ks:
                if m == {"ProviderStateGenerator": "Provider", "MockServerURL": "Consumer"}[k]: want = put(want, tuple(F(x) for x in p), lambda o: "new" if k == "ProviderStateGenerator" else "http://m:1/p")
            for order in R.orders:
                R.order = order
                y = R.act(f, R.struct(JH, value=jv(doc)), dict_of(*[(path(R, *[F(x) for x in p]), G2[k]) for k, p in ks]), agg(GTM, m, ()), cx2, NOOP)
                body_is(ctx, "body %s %s %s" % (m, " ".join(k for k, _ in ks), order), y, json.dumps(want, separators=(",", ":"), sort_keys=True), "application", "json", W)
        R.order = "asc"
        for pl, d2, p in (("star", {"a": {"b": 1, "c": 2}}, (F("a"), ST)), ("every", {"a": [1, "x"], "b": 2}, (F("a"), SI)), ("index", {"a": [1, "x"]}, (F("a"), X(1))), ("root", {"a": 1}, ()), ("inner star", {"a": {"x": {"b": 1}, "y": {"c": 1}}}, (F("a"), ST, F("b")))):
            for k in G2:
                want = put(d2, p, lambda o: "new" if k == "ProviderStateGenerator" else "http://m:1/p") if m == {"ProviderStateGenerator": "Provider", "MockServerURL": "Consumer"}[k] else d2
                y = R.act(f, R.struct(JH, value=jv(d2)), dict_of((path(R, *p), G2[k])), agg(GTM, m, ()), cx2, NOOP)
                body_is(ctx, "body %s %s %s" % (m, k, pl), y, json.dumps(want, separators=(",", ":"), sort_keys=True), "application", "json", W)
    # variants of a list
    V = GV % VALUE
    items = [jv({"t": 1, "x": "old"}), jv({"t": 2, "y": "old"}), jv("other")]
    gens = {0: dict_of((path(R, F("x")), g)), 1: dict_of((path(R, F("y")), g), (path(R, F("t")), g))}
    for use in ([], [0], [1], [0, 1], [1, 2], [0, 1, 2]):
        randoms.MATCHES.clear()
        for i in use: randoms.MATCHES[("variants", items[i])] = (int_(i), gens.get(i, EMPTY))
        want = [jv({"t": 1, "x": mark}) if 0 in use else items[0], jv({"t": mark, "y": mark}) if 1 in use else items[1], items[2]]
        for order in R.orders:
            R.order = order
            y = R.run(V, gen("ArrayContains", listof(sym("variants"))), agg(VALUE, "Array", (listof(*items),)), cx, agg("matcher", "variants", ()))
            judge(ctx, "variants %s %s" % (use, order), y, ok(agg(VALUE, "Array", (listof(*want),))), ctx.where(V), "the list is")
    R.order = "asc"
    each(ctx, R, "variants of a text", V, [gen("ArrayContains", listof()), jstr("x"), EMPTY, NOOP], lambda x: False, "a variant for a value that is no list", fails=True)

def body_is(ctx, key, y, want, main, sub, W):
    goods, others = split_result(y)
    if y is UNDEF or len(goods) != 1 or others: return ctx.ob(key, False if y is UNDEF or not goods and not opaque_in(y) else None, "the body is " + show(y, 5)[:200], W)
    b = goods[0][1]
    if not (b.op == "agg" and b.args[1] == "Present"): return ctx.ob(key, None if opaque_in(b) else False, "the body is " + show(b, 5)[:200], W)
    judge(ctx, key, as_text(b.args[2][0]), cstr(want), W, "the content of the body is")
    ct = b.args[2][1]
    strs = strings_in(ct)
    ctx.ob(key + " type", None if opaque_in(ct) else {main, sub} <= set(strs) or "%s/%s" % (main, sub) in strs, "the content type of the body is " + show(ct, 5)[:200], W)

def as_text(b):
    while b.op == "call" and len(b.args[1]) == 1 and b.args[0].startswith(("convert", "from", "into", "to_bytes")): b = b.args[1][0]
    return b

def forms(ctx):
    R = Cases(ctx)
    f = ctx.need(CTH % (FH, STRING, "apply_key"))
    W = ctx.where(f)
    tup = lambda a, b: agg("()", "", (cstr(a) if isinstance(a, str) else a, cstr(b) if isinstance(b, str) else b))
    mark = sym("generated")
    cx = dict_of(("g", jstr(mark)))
    g, bad = gen("ProviderStateGenerator", cstr("g"), NONE), gen("ProviderStateGenerator", cstr("missing"), NONE)
    FORMS = [[("a", "100"), ("b", "B"), ("c", "C")], [("a", "1"), ("b", "B1"), ("b", "B2"), ("c", "C"), ("b", "B3")], [], [("b", "1"), ("a", "2"), ("b", "3")], [("a.b", "1"), ("a", "2"), ("x y", "3"), ("0", "4")], [("a", ""), ("b", ""), ("b", "2"), ("b", ""), ("b", "4"), ("a", "5")], [("b", "same"), ("b", "same"), ("a", "same"), ("b", "same")]]
    def replaced(form, ts, new):
        out, done, count = [], False, {}
        for k, v in form:
            i = count.get(k, 0); count[k] = i + 1
            if not done and len(ts) in (1, 2) and ts[0] is F(k) and (len(ts) == 1 or ts[1] is X(i)): out.append((k, new)); done = True
            else: out.append((k, v))
        return out
    params = lambda h: R.get(h, "params") if h is not None and h.op == "agg" else UNDEF
    toks = [F("a"), F("b"), F("c"), F("z"), F("a.b"), F("x y"), F("0"), X(0)]
    second = [(), (X(0),), (X(1),), (X(2),), (X(3),), (F("b"),), (ST,), (SI,), (X(0), X(0))]
    for i, form in enumerate(FORMS):
        for p in [()] + [(t,) + s for t in toks for s in second]:
            key = "form %d %s" % (i, "".join(show(t, 3).replace("PathToken::", ".") for t in p) or "root")
            start = R.struct(FH, params=listof(*[tup(k, v) for k, v in form]))
            judge(ctx, key, params(R.mut(f, start, path(R, *p), g, cx, NOOP)), listof(*[tup(k, v) for k, v in replaced(form, p, mark)]), W, "the form is")
            if len(p) == 1: judge(ctx, key + " failed", params(R.mut(f, start, path(R, *p), bad, cx, NOOP)), listof(*[tup(k, v) for k, v in form]), W, "the form for a generator that fails is")
    f = ctx.need(CTH % (FH, STRING, "process_body"))
    W = ctx.where(f)
    cx2 = dict_of(("g", jstr("n&w")), ("mockServer", obj(url=jstr("http://m:1"))))
    G2 = {"ProviderStateGenerator": (g, "n&w"), "MockServerURL": (gen("MockServerURL", cstr("http://h/p"), cstr(".*(/p)")), "http://m:1/p")}
    enc = lambda form: "&".join(randoms.form(k) + "=" + randoms.form(v) for k, v in form)
    for i, form in enumerate(FORMS):
        for m in variants_of(R.I, GTM):
            for ks in ([], [("ProviderStateGenerator", "a")], [("MockServerURL", "b")], [("MockServerURL", "b"), ("ProviderStateGenerator", "a")], [("ProviderStateGenerator", "b"), ("MockServerURL", "a")]):
                want = form
                for k, p in ks:
                    if m == {"ProviderStateGenerator": "Provider", "MockServerURL": "Consumer"}[k]: want = replaced(want, (F(p),), G2[k][1])
                for order in R.orders:
                    R.order = order
                    y = R.act(f, R.struct(FH, params=listof(*[tup(k, v) for k, v in form])), dict_of(*[(path(R, F(p)), G2[k][0]) for k, p in ks]), agg(GTM, m, ()), cx2, NOOP)
                    body_is(ctx, "form body %d %s %s %s" % (i, m, " ".join(k for k, _ in ks), order), y, enc(want), "application", "x-www-form-urlencoded", W)
    R.order = "asc"

@prop("P24", "Generators produce values of the kind they describe, where they are meant", floor=1500)
def p24(ctx):
    with ctx.part("numbers"): numbers(ctx)
    with ctx.part("kinds"): kinds(ctx)
    with ctx.part("contexts"): contexts(ctx)
    with ctx.part("modes"): modes(ctx)
    with ctx.part("documents"): documents(ctx)
    with ctx.part("forms"): forms(ctx)
    with ctx.part("parts"): parts(ctx)

def parts(ctx):
    """The generators of a part: those declared and those that come with its matching rules."""
    from props.p27_select import Rules
    ctx.rule("The generators that apply to a part of a request, response or message are those declared for that part and those that come with its matching rules.")
    R = Rules(ctx)
    MR, GC, CT = "matchingrules::MatchingRule", "generators::GeneratorCategory", "matchingrules::Category"
    f = ctx.need("http_parts::HttpPart::build_generators")
    g1, g2, g3 = [gen("Regex", sym("g%d" % i)) for i in (1, 2, 3)]
    inner = R.category("BODY", [(path(R), R.list(agg(MR, "Type", ())))])
    vs = listof(agg("()", "", (int_(0), inner, dict_of((path(R, F("x")), g3)))))
    rule, plain = agg(MR, "ArrayContains", (vs,)), agg(MR, "Regex", (sym("r"),))
    ac = gen("ArrayContains", vs)
    pa, pb = path(R, F("a")), path(R, F("b"))
    parts_ = ["request::Request", "response::Response", "v4::http_parts::HttpRequest", "v4::http_parts::HttpResponse", "message::Message", "v4::message_parts::MessageContents", "v4::async_message::AsynchronousMessage"]
    cats = variants_of(R.I, GC)
    for ty in parts_:
        for cat in cats:
            other = [c for c in cats if c != cat][0]
            for n, gs, rs, want in [("none", {}, {}, {}), ("declared", {cat: {pa: g1, pb: g2}, other: {pa: g2}}, {}, {pa: g1, pb: g2}), ("from a rule", {}, {cat: {pb: (plain, rule)}, other: {pa: (rule,)}}, {pb: ac}),
                                    ("elsewhere", {other: {pa: g2}}, {other: {pa: (rule,)}}, {}), ("plain rules", {cat: {pa: g1}}, {cat: {pa: (plain,), pb: (plain,)}}, {pa: g1}), ("both", {cat: {pa: g1}}, {cat: {pb: (rule,)}}, {pa: g1, pb: ac})]:
                G_ = agg(GENS, "Generators", (mapof(*[(agg(GC, c, ()), mapof(*d.items())) for c, d in gs.items()]),))
                M_ = R.rules(*[R.category(c, [(p, R.list(*l)) for p, l in d.items()]) for c, d in rs.items()])
                def part(t):
                    fs = [x[0] for x in R.I.adts[t]["variants"][0]["fields"]]
                    kw = {"generators": G_, "matching_rules": M_}
                    if t.endswith("AsynchronousMessage"): kw["contents"] = part("v4::message_parts::MessageContents")
                    return agg(t, t.split("::")[-1], tuple(kw.get(x, sym(x)) for x in fs))
                judge(ctx, "generators of %s %s: %s" % (ty.split("::")[-1], cat, n), R.run(f, part(ty), agg(GC, cat, ())), mapof(*want.items()), ctx.where(f), "the generators are")
