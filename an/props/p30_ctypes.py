"""Content types: reading, writing, questions and detection."""
from common import *
import text

CT = "content_types::ContentType"
M = "content_types::"
def tx(*ps): return text.of_chars([c for p in ps for c in text.chars_of(cstr(p) if isinstance(p, str) else p)])

@prop("P30", "Content types are read, written, compared and detected correctly", floor=1500)
def p30(ctx):
    R = Cases(ctx)
    W = ctx.where
    parse, disp, froms = ctx.need(CT + "::parse"), ctx.need("<%s as std::fmt::Display>::fmt" % CT), ctx.need("<%s as std::convert::From<&str>>::from" % CT)
    ctx.rule("Reading is interpreted on every shape of a content type (letter case, suffix, no, one and two attributes, quoted or not, spaces) and on texts that are none; writing is interpreted on every value such a text can have, and read back.")
    ctx.rule("Each question is interpreted for every combination of a table of main types, sub types and suffixes and compared with the definition of the type; equivalence for every pair of a family.")
    ctx.rule("Detection, from a text and from bytes, is interpreted on every kind of beginning a document can have, with and without leading white space and in both letter cases, and on texts cut at every point by the end of the header.")
    w = lambda i: text.of_chars([text.achar("abcxyz", i), text.achar("012", -i), text.achar("jkl", i)])
    up = lambda v: text.of_chars([text.case(c, str.upper) for c in text.chars_of(v)])
    a, b, s, k1, k2, v1, v2 = [w(i) for i in range(1, 8)]
    def ct(m, sb, attrs=(), suf=None): return R.struct(CT, main_type=m if isinstance(m, T) else cstr(m), sub_type=sb if isinstance(sb, T) else cstr(sb), attributes=dict_of(*attrs), suffix=some(suf if isinstance(suf, T) else cstr(suf)) if suf is not None else NONE)
    K1, K2 = tx("m", k1), tx("p", k2)
    good = [("plain", tx(a, "/", b), ct(a, b)), ("upper case", tx(up(a), "/", up(b)), ct(a, b)), ("suffix", tx(a, "/", b, "+", s), ct(a, b, suf=s)), ("upper case suffix", tx(a, "/", b, "+", up(s)), ct(a, b, suf=s)), ("two plus", tx(a, "/", b, "+x+", s), ct(a, tx(b, "+x"), suf=s)),
            ("facets", tx(a, "/vnd.", b, "-1_2.v3+", s), ct(a, tx("vnd.", b, "-1_2.v3"), suf=s)), ("one attribute", tx(a, "/", b, ";", K1, "=", v1), ct(a, b, [(K1, v1)])), ("space", tx(a, "/", b, "; ", K1, "=", v1), ct(a, b, [(K1, v1)])),
            ("attribute case", tx(a, "/", b, ";", up(K1), "=", up(v1)), ct(a, b, [(K1, up(v1))])), ("charset", tx(a, "/", b, ";charset=UTF-8"), ct(a, b, [(cstr("charset"), cstr("utf-8"))])), ("charset case", tx(a, "/", b, "; CharSet=", up(v1)), ct(a, b, [(cstr("charset"), v1)])),
            ("quoted", tx(a, "/", b, ";", K1, "=\"", v1, "\""), ct(a, b, [(K1, v1)])), ("quoted special", tx(a, "/", b, ";", K1, "=\"", v1, " ;=,/(" , v2, "\""), ct(a, b, [(K1, tx(v1, " ;=,/(", v2))])),
            ("two attributes", tx(a, "/", b, ";", K1, "=", v1, ";", K2, "=", v2), ct(a, b, [(K1, v1), (K2, v2)])), ("two attributes other order", tx(a, "/", b, "; ", K2, "=", v2, ";  ", K1, "=\"", v1, "\""), ct(a, b, [(K1, v1), (K2, v2)])),
            ("suffix and attribute", tx(a, "/", b, "+", s, ";", K1, "=", v1), ct(a, b, [(K1, v1)], s)), ("any", cstr("*/*"), ct("*", "*")), ("any sub type", tx(a, "/*"), ct(a, "*")), ("no attributes", tx(a, "/", b, ";"), ct(a, b))]
    known = ["application/json", "application/xml", "text/plain", "text/html", "application/x-www-form-urlencoded", "application/octet-stream", "multipart/form-data", "image/png"]
    good += [(x, cstr(x), ct(*x.split("/"))) for x in known]
    bad = [("nothing", cstr("")), ("no slash", a), ("no main type", tx("/", b)), ("space", tx(a, " /", b)), ("two slashes", tx(a, "/", b, "/", s)), ("attribute without value", tx(a, "/", b, ";", K1)), ("open quote", tx(a, "/", b, ";", K1, "=\"", v1)), ("comma", tx(a, "/", b, ",", s))]
    dflt = ct("*", "*")
    for R.order in R.orders:
        for k, x, want in good:
            judge(ctx, "read %s %s" % (k, R.order), R.run(parse, x), ok(want), W(parse), "the content type is")
            judge(ctx, "read from text %s %s" % (k, R.order), R.run(froms, x), want, W(froms), "the content type is")
            y = R.text(disp, want)
            judge(ctx, "write and read %s %s" % (k, R.order), R.run(parse, y), ok(want), W(disp), "the content type is written as %s, which reads back as" % show(y, 5)[:120])
        for k, x in bad:
            y = R.run(parse, x)
            ctx.ob("refuse %s %s" % (k, R.order), True if y.op == "agg" and y.args[1] == "Err" else None if opaque_in(y) else False, "a text that is no content type is read as %s" % show(y, 5)[:200], W(parse))
            judge(ctx, "from no content type %s %s" % (k, R.order), R.run(froms, x), dflt, W(froms), "the content type is")
    R.order = "asc"
    for n in ("std::convert::From<&std::string::String>", "std::convert::From<std::string::String>"):
        f = ctx.need("<%s as %s>::from" % (CT, n))
        judge(ctx, "from " + n, R.run(f, good[2][1]), good[2][2], W(f), "the content type is"); judge(ctx, "bad from " + n, R.run(f, a), dflt, W(f), "the content type is")
    f = ctx.need("<%s as std::str::FromStr>::from_str" % CT); judge(ctx, "from_str", R.run(f, good[2][1]), ok(good[2][2]), W(f), "the content type is")
    for n, f in (("str", "<%s as std::cmp::PartialEq<str>>::eq" % CT), ("&str", "<%s as std::cmp::PartialEq<&str>>::eq" % CT)):
        f = ctx.need(f)
        for k, x, v in good[:7]: judge(ctx, "equals %s %s" % (n, k), R.run(f, v, x), TRUE, W(f), "equality with the text it is written as is")
        for k, x, v in [("other main type", tx("q", a, "/", b), ct(a, b)), ("other sub type", tx(a, "/q", b), ct(a, b)), ("other suffix", tx(a, "/", b, "+", s), ct(a, b)), ("attributes", tx(a, "/", b, ";", K1, "=", v1), ct(a, b)), ("no content type", a, ct(a, b))]:
            judge(ctx, "differs %s %s" % (n, k), R.run(f, v, x), FALSE, W(f), "equality with a text of another type is")
    # exact forms of the written text
    for k, v, want in [("plain", ct(a, b), tx(a, "/", b)), ("suffix", ct(a, b, suf=s), tx(a, "/", b, "+", s)), ("attribute", ct(a, b, [(K1, v1)]), tx(a, "/", b, ";", K1, "=", v1)), ("attributes", ct(a, b, [(tx("b", k1), v1), (tx("a", k1), v2)], s), tx(a, "/", b, "+", s, ";a", k1, "=", v2, ";b", k1, "=", v1))]:
        judge(ctx, "written " + k, R.text(disp, v), want, W(disp), "the content type is written as")
        f = ctx.need("<&%s as std::convert::Into<std::string::String>>::into" % CT)
        judge(ctx, "into text " + k, R.run(f, v), want, W(f), "the content type is written as")
    # questions
    def q_json(m, x, u): return m == "application" and (x.startswith("json") or u == "json" or x == "graphql")
    def q_sxml(m, x, u): return m in ("application", "text") and x == "xml"
    def q_xml(m, x, u): return m in ("application", "text") and (x == "xml" or u == "xml")
    def q_form(m, x, u): return m == "application" and x == "x-www-form-urlencoded"
    def q_text(m, x, u): return m == "text" or q_xml(m, x, u) or q_json(m, x, u) or q_form(m, x, u)
    def q_bin(m, x, u): return m in ("audio", "font", "image", "video") or not q_text(m, x, u)
    def q_unk(m, x, u): return "*" in (m, x)
    qs = [("is_json", q_json), ("is_xml", q_xml), ("is_strict_xml", q_sxml), ("is_text", q_text), ("is_binary", q_bin), ("is_unknown", q_unk), ("is_form_urlencoded", q_form)]
    mains = ["application", "text", "image", "audio", "video", "font", "multipart", "message", "model", "*"]
    subs = ["json", "json-rpc", "graphql", "xml", "html", "plain", "x-www-form-urlencoded", "octet-stream", "hal", "vnd.json", "xjson", "xmlx", "form-data", "jso", "*", None]
    for m in mains:
        for x in subs:
            for u in (None, "json", "xml", "zip", "x-www-form-urlencoded"):
                v = ct(m, x if x is not None else tx("q", a), suf=u)
                for n, q in qs:
                    f = ctx.need(CT + "::" + n)
                    judge(ctx, "%s %s/%s+%s" % (n, m, x, u), R.run(f, v), boolc(q(m, x or "qqq", u)), W(f), "the answer for %s/%s%s is" % (m, x or "other", "+" + u if u else ""))
    f = ctx.need(CT + "::base_type")
    for k, v, want in [("plain", ct(a, b), ct(a, b)), ("suffix", ct(a, b, suf=s), ct(a, s)), ("attributes", ct(a, b, [(K1, v1)]), ct(a, b)), ("all", ct(a, b, [(K1, v1)], s), ct(a, s)), ("facets", ct(a, tx("vnd.", b, ".v1-x_2")), ct(a, tx("vnd.", b, ".v1-x_2"))), ("facets and suffix", ct(a, tx("vnd.", b, "+x"), suf=tx(s, ".1")), ct(a, tx(s, ".1"))), ("upper case", ct(up(a), up(b)), ct(up(a), up(b)))]: judge(ctx, "base type " + k, R.run(f, v), want, W(f), "the base type is")
    # equivalence: attributes only count when the first has some, and the XML types are one
    fam = [(m, x, u, at) for m in ("text", "application") for x in ("xml", "json", "plain") for u in (None, "xml", "json") for at in ((), ("v1",), ("v2",))]
    f = ctx.need(CT + "::is_equivalent_to")
    at = lambda t: [(K1, v1 if t == ("v1",) else tx("q", v2))] if t else []
    for x in fam:
        for y in fam:
            strict = x[1] == y[1] == "xml"
            if strict and x[2] != y[2]: continue
            want = (x[3] == () or x[3] == y[3]) if strict else (x[:3] == y[:3] and (x[3] == () or x[3] == y[3]))
            judge(ctx, "equivalent %s %s" % (x, y), R.run(f, ct(x[0], x[1], at(x[3]), x[2]), ct(y[0], y[1], at(y[3]), y[2])), boolc(want), W(f), "equivalence of %s and %s is" % (x, y))
    # detection
    XML, HTML, JSON, TEXT = ct("application", "xml"), ct("text", "html"), ct("application", "json"), ct("text", "plain")
    ds, db = ctx.need(M + "detect_content_type_from_string"), ctx.need(M + "detect_content_type_from_bytes")
    n1, n2 = text.achar("abgz", 21), text.achar("123", 22)
    docs = [("declaration", "<?xml version='1.0'?>", XML), ("declaration with spaces", "<?xml  version=\"1.0\"?><a/>", XML), ("doctype", "<!DOCTYPE html>", HTML), ("doctype lower", "<!doctype html>", HTML), ("html", "<html>", HTML), ("html upper", "<HTML>x", HTML), ("html mixed", "<Html>", HTML),
            ("element", tx("<", n1, ">"), XML), ("element with namespace", tx("<", n1, ":", n1, ">"), XML), ("closed element", tx("<", n1, "/>"), XML), ("object", "{}", JSON), ("object with spaces", "{ }", JSON), ("object with key", tx("{\"", n1, "\":", n2, "}"), JSON), ("object on lines", tx("{\n  \"", n1, "\":1}"), JSON),
            ("list", "[]", JSON), ("list of values", tx("[", n2, ",", n2, "]"), JSON), ("list of texts", tx("[\"", n1, "\"]"), JSON), ("number", tx(n2, n2), JSON), ("zero", "0", JSON), ("zero in a list", "[0]", JSON), ("decimal", "0.5", JSON), ("nine", "9", JSON), ("zero later", tx(n2, "0"), JSON), ("string", tx("\"", n1, "\""), JSON), ("true", "true", JSON), ("false", "false", JSON), ("null", "null", JSON),
            ("word", tx(n1, "q"), TEXT), ("nothing", "", TEXT), ("words", tx(n1, "q true {}"), TEXT), ("element later", tx(n1, " <a>"), TEXT), ("html later", tx(n1, " <html>"), TEXT), ("list later", tx(n1, ": [1]"), TEXT), ("brace alone", "{x}", TEXT), ("angle alone", "< 1", TEXT), ("declaration of another kind", "<?php x ?>", TEXT)]
    for k, x, want in docs:
        for sp, pre in (("", ""), (" after spaces", "  "), (" after a line", "\n\t")):
            if k == "nothing" and sp: continue
            y = tx(pre, x)
            judge(ctx, "detect in text %s%s" % (k, sp), R.run(ds, y), some(want), W(ds), "the type detected is")
            judge(ctx, "detect in bytes %s%s" % (k, sp), R.run(db, y), some(want), W(db), "the type detected is")
    for ch in "é文😀":
        u = ch.encode("utf8")
        for i in range(28, 36):
            y = agg("[]", "", [const("int", c) for c in b"a" * i + u + b"bcd"])
            for n in (1, 2, 3):
                z = agg("[]", "", [const("int", c) for c in b"a" * i + u + b"bcd"[n:]])
                judge(ctx, "detect cut %s at %d of %d" % (ch, i, len(z.args[2])), R.run(db, z), some(TEXT), W(db), "the type detected for text with a character of %d bytes at %d is" % (len(u), i))
            judge(ctx, "detect cut %s at %d" % (ch, i), R.run(db, y), some(TEXT), W(db), "the type detected for text with a character of %d bytes at %d is" % (len(u), i))
    for k, y in [("invalid", b"\xff\xfe\x00\x01"), ("continuation first", b"\x80abc"), ("cut short", b"abc\xe6\x96"), ("invalid in the header", b"a" * 20 + b"\xff" + b"b" * 30), ("invalid near its end", b"a" * 31 + b"\xff" + b"b" * 5)]:
        judge(ctx, "detect binary " + k, R.run(db, agg("[]", "", [const("int", c) for c in y])), NONE, W(db), "the type detected for bytes that are no text is")
    for k, x, want in [("xml", b"<?xml version='1.0'?><a>", XML), ("json", b"{\"a\": 1", JSON), ("text", b"abc", TEXT), ("html", b"<!DOCTYPE html>", HTML)]:
        judge(ctx, "detect long " + k, R.run(db, agg("[]", "", [const("int", c) for c in x + b"x" * 40])), some(want), W(db), "the type detected is")
