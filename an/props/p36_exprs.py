"""Expressions in generators: each ${name} is replaced by its value, and values are converted to the type asked for."""
import itertools
from common import *
from models import is_str_const
import text

EP = "expression_parser::"
MVR, DV, DT = EP + "MapValueResolver", EP + "DataValue", EP + "DataType"
FORM = ("The expression parser is interpreted on every string of up to five of the characters that matter to it and on sequences of up to three pieces (texts, known, unknown, empty and unterminated names), with values of every JSON type; "
        "the result must be the one of the definition: the leftmost ${ up to the next } is a name, a single part keeps its type, several are joined as texts. The conversions of values are interpreted for each requested type and each JSON type.")

def reference(s, known):
    """None: an error; else the parts, each a text or a name that is known."""
    parts, i = [], 0
    while True:
        j = s.find("${", i)
        if j < 0: break
        if j > i: parts.append(("t", s[i:j]))
        k = s.find("}", j)
        if k < 0: return None
        if k > j + 2:
            if s[j + 2:k] not in known: return None
            parts.append(("v", s[j + 2:k]))
        i = k + 1
    if i < len(s): parts.append(("t", s[i:]))
    return parts

def exprs(ctx):
    ctx.rule(FORM)
    R = Cases(ctx)
    f = ctx.need(EP + "parse_expression")
    W = ctx.where(f)
    n, txt = sym("number"), sym("text")
    known = {"a": jstr(txt), "n": jnum("u64", n), "k": agg(VALUE, "Number", (const("int", 100),)), "b": agg(VALUE, "Bool", (TRUE,)), "0": agg(VALUE, "Null", ()), "l": agg(VALUE, "Array", (listof(),)), "o": obj(x=agg(VALUE, "Array", (listof(jstr("y")),))), "e": jstr(""), "a b": jstr("two"), "x.y-z": jstr("dotted")}
    words = {"a": txt, "n": call("to_string", known["n"]), "k": cstr("100"), "b": cstr("true"), "0": cstr(""), "l": cstr("[]"), "o": cstr('{"x":["y"]}'), "e": cstr(""), "a b": cstr("two"), "x.y-z": cstr("dotted")}
    def value(parts):
        if parts is None: return None
        if len(parts) == 1: return jstr(parts[0][1]) if parts[0][0] == "t" else known[parts[0][1]]
        return jstr(catstr(*[p if k == "t" else words[p] for k, p in parts])) if parts else jstr("")
    rs = agg(MVR, "MapValueResolver", (dict_of(*known.items()),))
    def one(key, s):
        want = value(reference(s, known))
        y = R.run(f, cstr(s), rs)
        goods, others = split_result(y)
        if y is UNDEF: return ctx.ob(key, False, "the function never returns normally", W)
        if any(opaque_in(v) for g, v in alts(y)): return ctx.ob(key, None, "not resolved: " + show(y, 5)[:200], W)
        if want is None: return ctx.ob(key, not goods, "the string %r has no value, but gives %s" % (s, show(y, 5)[:200]), W)
        if others: return ctx.ob(key, None if len(alts(y)) > 1 else False, "the string %r is not accepted: %s" % (s, show(y, 5)[:200]), W)
        judge(ctx, key, plain(phi(goods)), plain(want), W, "the value of %r is" % s)
    for k in range(0, 6):
        bad = 0
        for t in itertools.product("${}a", repeat=k): one("string %s" % "".join(t), "".join(t))
    pieces = ["", "x", "}", "$", "{", "${a}", "${n}", "${k}", "${}", "${z}", "${a", "${b}", " ", "\u00e9", "$${a}}", "${ a}", "${0}", "${e}", "${l}", "${o}", "${a b}", "${x.y-z}", "${${a}}"]
    for k in (1, 2, 3):
        for t in itertools.product(pieces if k < 3 or ctx.tier == "thorough" else pieces[:11], repeat=k):
            one("pieces %s" % "|".join(t), "".join(t))
    # arbitrary values: a single expression is the value as it is
    v = sym("value")
    rs1 = agg(MVR, "MapValueResolver", (dict_of(("a", v)),))
    judge(ctx, "any value", R.run(f, cstr("${a}"), rs1), ok(v), W, "the value of an expression is")
    x = text.of_chars([text.achar("bcdefgh0123 .-_", 1)])
    judge(ctx, "any text around", R.run(f, catstr(x, "${k}", x), rs), ok(jstr(catstr(x, "100", x))), W, "the value is")
    ce = ctx.need(EP + "contains_expressions")
    for s in ("", "$", "{", "${", "x${a}", "$a{", "a"):
        judge(ctx, "contains %r" % s, R.run(ce, cstr(s)), boolc("${" in s), ctx.where(ce), "whether the text contains an expression is")

def plain(t):
    """Numbers without the conversions between types."""
    if not isinstance(t, T): return t
    if t.op == "phi":
        vs = {plain(v) for _, v in t.args[0]}
        return vs.pop() if len(vs) == 1 else phi([(g, plain(v)) for g, v in t.args[0]])
    if t.op == "cast" and t.args[0] in ("IntToInt", "IntToFloat"): return plain(t.args[2])
    if t.op == "bin": return mk("bin", t.args[0], plain(t.args[1]), plain(t.args[2]))
    if t.op == "num": return plain(t.args[-1])
    if t.op == "const" and t.args[0] not in ("str", "bool", "int", "char"):
        try: return const("int", int(float(str(t.args[1])))) if float(str(t.args[1])).is_integer() else t
        except ValueError: return t
    if t.op == "agg": return agg(t.args[0], t.args[1], tuple(plain(x) for x in t.args[2]))
    return t

ERR = "error"
def values():
    n, s, b = sym("n"), sym("s"), sym("b")
    num = lambda k: agg(VALUE, "Number", (const("int", k),))
    return [("null", agg(VALUE, "Null", ())), ("true", agg(VALUE, "Bool", (TRUE,))), ("false", agg(VALUE, "Bool", (FALSE,))), ("0", num(0)), ("5", num(5)), ("-5", num(-5)), ("any u64", jnum("u64", n)), ("any i64", jnum("i64", n)), ("any f64", jnum("f64", sym("x"))), ("70000", num(70000)), ("1e19", num(10**19)),
            ("'100'", jstr("100")), ("'-5'", jstr("-5")), ("'18446744073709551615'", jstr("18446744073709551615")), ("'x'", jstr("x")), ("''", jstr("")), ("'true'", jstr("true")), ("'false'", jstr("false")), ("any text", jstr(s)), ("list", agg(VALUE, "Array", (listof(),))), ("object", agg(VALUE, "Object", (EMPTY,)))]

def integer(v, types):
    """An integer read from a JSON value: a term, ERR, or None (not specified)."""
    k, a = v.args[1], v.args[2]
    if k == "Null": return const("int", 0)
    if k == "Bool": return const("int", int(a[0] is TRUE))
    if k == "Number": return plain(a[0])
    if k == "String":
        if not is_str_const(a[0]): return [call("parse:" + t, a[0]) for t in types]
        w = a[0].args[1]
        if w.lstrip("-").isdigit():
            for t in types:
                if models.INTS[t][0] <= int(w) <= models.INTS[t][1]: return const("int", int(w))
        return ERR
    return ERR

def conversions(ctx):
    ctx.rule(FORM)
    R = Cases(ctx)
    num = lambda x: agg(VALUE, "Number", (x,))
    aj = ctx.need(DV + "::as_json")
    def verdict(key, y, want, W, wrap):
        """want: a value, ERR, or a list of parses of a text of which each outcome is passed on."""
        goods, others = split_result(y)
        bad = [v for g, v in others if not (v.op == "agg" and v.args[1] == "Err")]
        if y is UNDEF: return ctx.ob(key, False, "the conversion never returns normally", W)
        if bad or any(opaque_in(v) for g, v in goods): return ctx.ob(key, None, "not resolved: " + show(y, 5)[:300], W)
        if want is ERR: return ctx.ob(key, not goods, "a value that can not be converted gives " + show(y, 5)[:300], W)
        if isinstance(want, list):
            acc = set(wrap(pl) for p in want for pl in (mk("field", p, "Ok", "0"),))
            got = [plain(v) for g, v in goods for _, v in alts(v)]
            wrong = [v for v in got if v not in acc and not any(find_all(v, lambda t: t is p) for p in want)]
            return ctx.ob(key, bool(got) and not wrong and bool(others) and (True if all(v in acc for v in got) else None), "a text is converted to " + show(y, 6)[:300], W)
        if others: return ctx.ob(key, False, "the value is not converted: " + show(y, 5)[:300], W)
        got = plain(phi(goods))
        judge(ctx, key, got, plain(wrap(want)), W, "the converted value is")
    for t in ("STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN"):
        for l, v in values():
            d = R.struct(DV, wrapped=v, data_type=agg(DT, t, ()))
            y = R.run(aj, d)
            key, W = "%s of %s" % (t, l), ctx.where(aj)
            s = v.args[2][0] if v.args[1] == "String" else None
            idw = lambda x: x
            if t == "RAW": verdict(key, y, plain(v), W, idw)
            elif t == "STRING":
                if s is not None: verdict(key, y, jstr(s), W, idw)
                elif v.args[1] in ("Null", "Bool") or l in ("0", "5", "-5", "70000", "1e19"): verdict(key, y, jstr("%d" % float(l) if l[0].isdigit() else l), W, idw)
                else: ctx.ob(key, text_of(y, v), "the text is " + show(y, 6)[:200], W)
            elif l == "any f64": verdict(key, y, mk("cast", "FloatToInt", "i64", sym("x"), "f64") if t == "INTEGER" else sym("x") if t != "BOOLEAN" else boolean(v), W, num if t != "BOOLEAN" else lambda x: agg(VALUE, "Bool", (x,)))
            elif t == "INTEGER": verdict(key, y, integer(v, ("u64", "i64")), W, num)
            elif t in ("DECIMAL", "FLOAT"): verdict(key, y, floating(s) if s is not None else integer(v, ("i64",)), W, num)
            else: verdict(key, y, boolean(v), W, lambda x: agg(VALUE, "Bool", (x,)))
            for to in ("u16", "u64", "i64", "f64", "bool"):
                f = ctx.need("expression_parser::<impl std::convert::TryFrom<expression_parser::DataValue> for %s>::try_from" % to)
                W = ctx.where(f)
                if to == "bool": want = boolean(v)
                elif s is None: want = integer(v, ())
                elif t == "BOOLEAN": want = ERR
                elif t in ("DECIMAL", "FLOAT") and to != "f64": want = None
                elif to == "f64": want = integer(v, ("i64",)) if t == "INTEGER" else floating(s)
                else: want = integer(v, (to,))
                if to in models.INTS and want is not None and not isinstance(want, list) and want is not ERR and want.op == "const" and not models.INTS[to][0] <= want.args[1] <= models.INTS[to][1]: want = ERR      # does not fit
                if l == "any f64":
                    x = sym("x")
                    want = mk("cast", "FloatToInt", to, x, "f64") if to in models.INTS else x if to == "f64" else boolean(v)
                elif to in ("u16", "u64", "i64") and l in ("any u64", "any i64") and to != l[4:]:
                    y = R.run(f, d)
                    goods, others = split_result(y)
                    W = ctx.where(f)
                    ctx.ob("%s from %s of %s" % (to, t, l), None if any(opaque_in(w) for _, w in goods) else all(plain(w) is sym("n") for g, w in goods) and bool(goods) and bool(others), "numbers that do not fit are converted: " + show(y, 5)[:300], W)
                    continue
                y = R.run(f, d)
                key = "%s from %s of %s" % (to, t, l)
                if want is None:
                    verdict(key, y, floating(s), W, lambda x: mk("cast", "FloatToInt", to, x, "f64")); continue
                verdict(key, y, want, W, idw)
            if t in ("STRING", "RAW") and s is not None:
                f = ctx.need("<%s as std::fmt::Display>::fmt" % DV)
                judge(ctx, "text of %s of %s" % (t, l), R.text(f, d), s, ctx.where(f), "the text of the value is")
            if t == "INTEGER" and l in ("0", "5", "-5", "'100'", "'-5'", "null", "true", "false"):
                f = ctx.need("<%s as std::fmt::Display>::fmt" % DV)
                judge(ctx, "text of %s of %s" % (t, l), R.text(f, d), cstr({"null": "0", "true": "1", "false": "0"}.get(l, l.strip("'"))), ctx.where(f), "the text of the value is")
            if t == "BOOLEAN" and l in ("0", "5", "null", "true", "false", "'true'", "'false'"):
                f = ctx.need("<%s as std::fmt::Display>::fmt" % DV)
                judge(ctx, "text of %s of %s" % (t, l), R.text(f, d), cstr("true" if l in ("5", "true", "'true'") else "false"), ctx.where(f), "the text of the value is")
    # the names of the types, and wrapping
    rd, wr = ctx.need("<%s as std::convert::From<serde_json::Value>>::from" % DT), ctx.need("<%s as std::convert::Into<serde_json::Value>>::into" % DT)
    wp = ctx.need(DT + "::wrap")
    for t in ("STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN"):
        d = agg(DT, t, ())
        judge(ctx, "written " + t, R.run(wr, d), jstr(t), ctx.where(wr), "the name of the type is")
        judge(ctx, "read " + t, R.run(rd, jstr(t)), d, ctx.where(rd), "the type read is")
        judge(ctx, "read in lower case " + t, R.run(rd, jstr(t.lower())), d, ctx.where(rd), "the type read is")
        judge(ctx, "wrapped " + t, R.run(wp, d, ok(sym("v"))), ok(R.struct(DV, wrapped=sym("v"), data_type=d)), ctx.where(wp), "the wrapped value is")
        y = R.run(wp, d, err(sym("e")))
        judge(ctx, "wrapped error " + t, y, err(sym("e")), ctx.where(wp), "an error wrapped is")
    for l, v in (("null", agg(VALUE, "Null", ())), ("other", jstr("OTHER")), ("number", agg(VALUE, "Number", (const("int", 1),)))):
        judge(ctx, "read " + l, R.run(rd, v), agg(DT, "RAW", ()), ctx.where(rd), "the type read is")

def floating(s):
    """What a text is as a decimal."""
    if not is_str_const(s): return [call("parse:f64", s)]
    return const("float", float(s.args[1])) if models.FLOAT.fullmatch(s.args[1]) else ERR

def boolean(v):
    k, a = v.args[1], v.args[2]
    if k == "Null": return FALSE
    if k == "Bool": return a[0]
    if k == "Number":
        n = plain(a[0])
        return boolc(n.args[1] > 0) if n.op == "const" else mk("bin", "Gt", n, const("int", 0))
    if k == "String":
        if not is_str_const(a[0]): return [call("parse:bool", a[0])]
        return boolc(a[0].args[1] == "true") if a[0].args[1] in ("true", "false") else ERR
    return ERR

def text_of(y, v):
    """Ok of the JSON text of v."""
    goods, others = split_result(y)
    if others or not goods: return False
    for _, x in [b for g, w in goods for b in alts(w)]:
        if not (x.op == "agg" and x.args[1] == "String"): return False
        s = x.args[2][0]
        if is_str_const(s) and plain(v).op == "agg" and plain(v).args[2] and s is cstr({"Array": "[]", "Object": "{}"}.get(plain(v).args[1])) and (plain(v).args[2][0] is EMPTY or plain(v).args[2][0].op == "agg" and not plain(v).args[2][0].args[2]): continue
        if not (s.op == "call" and s.args[0] == "to_string" and plain(s.args[1][0]) is plain(v)): return None if opaque_in(s) else False
    return True

@prop("P36", "Expressions are replaced by their values, converted to the type asked for", floor=1500)
def p36(ctx):
    with ctx.part("expressions"): exprs(ctx)
    with ctx.part("conversions"): conversions(ctx)
