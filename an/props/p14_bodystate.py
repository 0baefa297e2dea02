"""What a body answers about itself, and how bodies are made."""
from common import *
from props.p10_bodies import byte_sources

CT, HINT = "content_types::ContentType", "content_types::ContentTypeHint"

@prop("P14", "Bodies answer what they hold", floor=170)
def p14(ctx):
    c = ctx.models()
    R = Cases(ctx, opaque=[CT + "::is_text"])
    W = ctx.where
    ctx.rule("Every question about a body is interpreted in each state, with arbitrary bytes, content type and hint; every way of making or changing a body on arbitrary texts, JSON values and types; bytes are shown for lists of bytes of each length up to five around the limit and of each number of digits.")
    b, ct = sym("bytes"), sym("ct")
    ct2 = R.struct(CT, main_type=sym("main"), sub_type=sym("sub"), attributes=sym("attrs"), suffix=sym("suffix"))
    S = lambda n: agg(BODY, n, ())
    P = lambda b, ct=NONE, h=NONE: agg(BODY, "Present", (b, ct, h))
    rest = [(n, S(n)) for n in ("Missing", "Empty", "Null")]
    hint = lambda n: some(agg(HINT, n, ()))
    hints = [v["name"] for v in c.adts[HINT]["variants"]]
    m = lambda n: ctx.need(BODY + "::" + n)
    def eq(key, f, got, want): judge(ctx, key, got, want, W(f), "the answer is")
    # state, bytes and type
    f = m("is_present")
    for k, x in rest: eq("present: " + k, f, R.run(f, x), FALSE)
    eq("present: Present", f, R.run(f, P(b)), TRUE)
    f = m("value")
    for k, x in rest: eq("value: " + k, f, R.run(f, x), NONE)
    eq("value: Present", f, R.run(f, P(b, some(ct))), some(b))
    for n, want in (("has_content_type", (FALSE, TRUE)), ("content_type", (NONE, some(ct)))):
        f = m(n)
        for k, x in rest + [("Present without", P(b))]: eq("%s: %s" % (n, k), f, R.run(f, x), want[0])
        for h in (NONE, hint("TEXT")): eq("%s: Present %s" % (n, show(h, 2)), f, R.run(f, P(b, some(ct), h)), want[1])
    # text
    ist = call(CT + "::is_text", ct)
    good, badb = listof(*map(byte, b"Hi")), listof(*map(byte, b"\xff\xfe"))
    for what, f in (("text", m("value_as_string")), ("display", m("display_string"))):
        for k, x in rest: eq("%s: %s" % (what, k), f, R.run(f, x), NONE if what == "text" else cstr(""))
        for bk, bs, tx, hx in (("text", good, cstr("Hi"), cstr("4869 (2 bytes)")), ("not UTF-8", badb, None, cstr("FFFE (2 bytes)"))):
            yes = (some(tx) if tx else NONE) if what == "text" else tx or hx
            no = NONE if what == "text" else hx
            for h in hints:
                want = {"TEXT": yes, "BINARY": no}.get(h)
                if h == "DEFAULT": continue
                for cx in (NONE, some(ct)): eq("%s: %s, hint %s, %s type" % (what, bk, h, "no" if cx is NONE else "a"), f, R.run(f, P(bs, cx, hint(h))), want)
            eq("%s: %s, nothing known" % (what, bk), f, R.run(f, P(bs)), no)
            y = R.run(f, P(bs, some(ct)))
            for t, want in ((True, yes), (False, no)):
                eq("%s: %s, %s type" % (what, bk, "textual" if t else "other"), f, R.norm(under(y, lit(ist, t))), want)
    f = m("str_value")
    for k, x in rest: eq("string: " + k, f, R.run(f, x), cstr(""))
    for cx in (NONE, some(ct)):
        for h in [NONE] + [hint(h) for h in hints]:
            eq("string: text %s %s" % (show(cx, 2), show(h, 2)), f, R.run(f, P(good, cx, h)), cstr("Hi"))
            eq("string: not UTF-8 %s %s" % (show(cx, 2), show(h, 2)), f, R.run(f, P(badb, cx, h)), cstr(""))
    # bytes shown
    f = m("display_string")
    for n in (1, 2, 31, 32, 33, 40):
        bs = [(7 * i + 3) % 256 for i in range(n)]
        want = "".join("%02X" % x for x in bs[:32]) + ("..." if n > 32 else "") + " (%d bytes)" % n
        eq("bytes shown: %d" % n, f, R.run(f, P(listof(*map(byte, bs)), NONE, hint("BINARY"))), cstr(want))
    for x in (0, 1, 9, 10, 15, 16, 159, 160, 255): eq("byte shown: %d" % x, f, R.run(f, P(listof(byte(x)))), cstr("%02X (1 bytes)" % x))
    # changes
    for n, keep in (("with_content_type", False), ("with_content_type_if_not_set", True)):
        f = m(n)
        for k, x in rest: eq("%s: %s" % (n, k), f, R.run(f, x, some(ct2)), x)
        for hk in [NONE] + [hint(h) for h in hints]:
            for old in (NONE, some(ct)):
                for new in (NONE, some(ct2)):
                    want = old if keep and old is not NONE else new
                    eq("%s: %s to %s, %s" % (n, show(old, 2), show(new, 2), show(hk, 2)), f, R.run(f, P(b, old, hk), new), P(b, want, hk))
    f = m("set_content_type")
    for k, x in rest: eq("set: " + k, f, R.mut(f, x, ct2), x)
    for old in (NONE, some(ct)):
        for hk in [NONE] + [hint(h) for h in hints]: eq("set: %s, %s" % (show(old, 2), show(hk, 2)), f, R.mut(f, P(b, old, hk), ct2), P(b, some(ct2), hk))
    # making bodies
    made = [n for n in c.fns if n.startswith("<%s as std::convert::From<" % BODY)]
    for n in made:
        src = n.split("From<", 1)[1].rsplit(">>::from", 1)[0]
        if "str" in src.lower():
            eq("from nothing: " + src, n, R.run(n, cstr("")), S("Empty"))
            for t in ("Hi", " ", "null", "{}"):
                y = R.run(n, cstr(t))
                if y.op == "agg" and y.args[1] == "Present" and byte_sources(y.args[2][0]) == [cstr(t)]: y = P(cstr(t), *y.args[2][1:])
                eq("from %r: %s" % (t, src), n, y, P(cstr(t)))
        elif "Value" in src:
            for k, v in (("text", jstr("a")), ("no text", jstr("")), ("null", agg(VALUE, "Null", ())), ("number", jnum("u64", const("int", 7))), ("true", agg(VALUE, "Bool", (TRUE,)))):
                y = R.run(n, v)
                want = {"text": '"a"', "no text": '""', "null": "null", "number": "7", "true": "true"}[k]
                for g, x in alts(y):
                    okk = x.op == "agg" and x.args[1] == "Present"
                    ctx.ob("from JSON %s: %s" % (k, src), okk if okk or not opaque_in(x) else None, "the body made is " + show(x, 5)[:200], W(n))
                    if okk:
                        judge(ctx, "from JSON %s: %s: bytes" % (k, src), x.args[2][0], cstr(want), W(n), "the bytes are")
                        t = x.args[2][1]
                        js = t.op == "agg" and t.args[1] == "Some" and R.run(ctx.need(CT + "::is_json"), t.args[2][0])
                        ctx.ob("from JSON %s: %s: type" % (k, src), True if js is TRUE else None if js is not False and js is not FALSE else False, "the type of a body made from a JSON value is " + show(t, 5)[:200], W(n))
    f = ctx.need("<%s as std::default::Default>::default" % BODY)
    eq("default", f, R.run(f), S("Missing"))
    # displayed
    f = ctx.need("<%s as std::fmt::Display>::fmt" % BODY)
    for k, x in rest: eq("shown: " + k, f, R.text(f, x), cstr(k))
    eq("shown: Present", f, R.text(f, P(good)), cstr("Present(2 bytes)"))

def byte(n): return const("int", n)
