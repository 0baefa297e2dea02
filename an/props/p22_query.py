"""Query strings."""
from common import *
import text

Q = "query_strings::"
SPEC = "PactSpecification"
ASCII = [chr(i) for i in range(128)]
WIDE = ["é", "ß", "文", "€", "❤", "😀", "\u07ff", "\uffff"]
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~+%*")

def tx(*ps): return text.of_chars([c for p in ps for c in text.chars_of(cstr(p) if isinstance(p, str) else p)])
def esc(s, f="%%%02x"): return "".join(f % b for b in s.encode("utf8"))

def samples(ctx):
    dec, enc, par, bld, v2, v3, out = [ctx.need(Q + x) for x in ("decode_query", "encode_query", "parse_query_string", "build_query_string", "query_from_json", "v3_query_from_json", "query_to_json")]
    a, b, c, d = [text.of_chars([text.achar("bcdghxyz", i), text.achar("GHZ", -i)]) for i in (1, 2, 3, 4)]
    word = tx(a, text.of_chars([text.achar("0123456789", 9)]))
    V = lambda *xs: listof(*[NONE if x is None else some(x if isinstance(x, T) else cstr(x)) for x in xs])
    na, nb = tx("a", c), tx("b", d)
    Q1 = [("one", tx(na, "=", a), dict_of((na, V(a)))), ("two", tx(na, "=", a, "&", nb, "=", b), dict_of((na, V(a)), (nb, V(b)))),
          ("repeated", tx("p=", a, "&", nb, "=", b, "&p=", c, "&p=", a), dict_of(("p", V(a, c, a)), (nb, V(b)))),
          ("no value", tx("p&q=", a), dict_of(("p", V(None)), ("q", V(a)))), ("empty value", tx("p=&q=", a), dict_of(("p", V("")), ("q", V(a)))),
          ("empty and none", tx("p=&p&p=", a), dict_of(("p", V("", None, a)))), ("equals in the value", tx("p=", a, "=", b, "=="), dict_of(("p", V(tx(a, "=", b, "=="))))),
          ("empty parts", tx("&&p=", a, "&&q=", b, "&"), dict_of(("p", V(a)), ("q", V(b)))), ("escaped value", tx("p=", a, "%26+%3d%25", b), dict_of(("p", V(tx(a, "& =%", b))))),
          ("escaped name", tx("%3d%26", c, "=", a), dict_of((tx("=&", c), V(a)))), ("name not UTF-8", tx("p%ff=", a), dict_of(("p%ff", V(a)))), ("value not UTF-8", tx("p=", a, "%ff"), dict_of(("p", V(tx(a, "%ff"))))),
          ("other characters", tx("p=", a, "文é", "&é=", b), dict_of(("p", V(tx(a, "文é"))), ("é", V(b)))), ("brackets", tx("p[]=", a, "&p[]=", b), dict_of(("p[]", V(a, b)))), ("semicolon", tx("p=", a, ";q=", b), dict_of(("p", V(tx(a, ";q=", b)))))]
    maps = [("none", dict_of(), ""), ("one", dict_of((na, V(a))), tx(na, "=", a)), ("sorted", dict_of((nb, V(b)), (na, V(a)), ("c", V(c))), tx(na, "=", a, "&", nb, "=", b, "&c=", c)),
            ("repeated", dict_of(("p", V(b, a, b)), ("a", V(c))), tx("a=", c, "&p=", b, "&p=", a, "&p=", b)), ("no value", dict_of(("p", V(None, a)), ("a", V(None))), tx("a&p&p=", a)), ("empty value", dict_of(("p", V("", None))), "p=&p"),
            ("no values", dict_of(("p", listof()), ("q", V(a))), tx("q=", a)), ("no name", dict_of(("", V(a)), ("q", V(b))), tx("q=", b)), ("spaces", dict_of(("q", V(tx(a, " ", b)))), tx("q=", a, "+", b))]
    return a, b, c, d, word, V, na, nb, Q1, maps, dec, enc, par, bld, v2, v3, out

@prop("P22", "Query strings are decoded and encoded without loss", floor=700)
def p22(ctx):
    R = Cases(ctx)
    W = ctx.where
    a, b, c, d, word, V, na, nb, Q1, maps, dec, enc, par, bld, v2, v3, out = samples(ctx)
    ctx.rule("Decoding is interpreted on every ASCII character written as itself and as an escape in both letter cases, on escapes of two to four byte characters, on escapes that are not complete or not hexadecimal and on bytes that are not UTF-8, each between arbitrary letters.")
    ctx.rule("Encoding is interpreted on every ASCII character and on characters of two to four bytes between arbitrary letters: the result is decoded again, and only holds characters that have no other meaning in a query string.")
    ctx.rule("Parsing and building are interpreted on queries with repeated, missing, empty and special names and values, in both iteration orders of the map, and in every form a pact file holds a query in.")
    # decoding
    def dcase(key, x, want): judge(ctx, "decode " + key, R.run(dec, x), ok(want), W(dec), "the decoded text is")
    dcase("nothing", cstr(""), cstr("")); dcase("word", word, word)
    for ch in ASCII:
        if ch not in "%+": dcase("%r as itself" % ch, tx(a, ch, b), tx(a, ch, b))
        for n, f in (("lower", "%%%02x"), ("upper", "%%%02X")): dcase("%r escaped %s" % (ch, n), tx(a, esc(ch, f), b), tx(a, ch, b))
    dcase("plus", tx(a, "+", b, "+"), tx(a, " ", b, " "))
    for ch in WIDE:
        dcase("%r as itself" % ch, tx(a, ch, b), tx(a, ch, b))
        dcase("%r escaped" % ch, tx(a, esc(ch), b), tx(a, ch, b)); dcase("%r escaped upper" % ch, tx(esc(ch, "%%%02X"), a), tx(ch, a))
        dcase("%r twice" % ch, tx(ch, esc(ch), b, ch), tx(ch, ch, b, ch))
    for n, x in [("percent at the end", tx(a, "%")), ("one digit at the end", tx(a, "%4")), ("not hexadecimal", tx(a, "%zz", b)), ("half hexadecimal", tx(a, "%4z", b)), ("other half", tx(a, "%z4", b)), ("percent of two", tx(a, "% 1", b))]:
        dcase(n, x, x)
    for n, x in [("lone continuation", "%80"), ("cut short", "%e6%96"), ("latin 1", "%e9"), ("not a byte of UTF-8", "%ff")]:
        y = R.run(dec, tx(a, x, b))
        bad = [v for _, v in alts(y) if not (v.op == "agg" and v.args[1] == "Err")]
        ctx.ob("decode " + n, None if y is UNDEF or bad and (y.op == "phi" or opaque_in(y) or unresolved(y, cstr(x)) or find_all(y, lambda t: t.op == "discr")) else not bad, "bytes that are not UTF-8 are decoded to %s" % show(y, 5)[:200], W(dec))
    # encoding
    def ecase(key, x):
        e = R.run(enc, x)
        cs = text.chars_of(e)
        if cs is None: return ctx.ob("encode " + key, None, "not resolved: " + show(e, 5)[:200], W(enc))
        odd = [ch for k in cs for ch in text.members(k) if ch not in SAFE]
        ctx.ob("encode plain " + key, not odd, "the encoded text %s holds %r, which has another meaning" % (show(e, 4)[:200], "".join(sorted(set(odd)))[:20]), W(enc))
        y = R.run(dec, e)
        if y.op == "agg" and y.args[1] == "Err": return ctx.ob("encode " + key, False, "the encoded text %s is not the encoding of any text" % show(e, 4)[:200], W(enc))
        judge(ctx, "encode " + key, y, ok(x), W(enc), "the encoded text %s decodes to" % show(e, 4)[:100])
    ecase("nothing", cstr("")); ecase("word", word)
    for ch in ASCII:
        ecase("%r" % ch, tx(a, ch, b)); ecase("%r alone" % ch, cstr(ch))
    for ch in WIDE: ecase("U+%04X" % ord(ch), tx(a, ch, b))
    # parsing
    for k, x, want in Q1: judge(ctx, "parse " + k, R.run(par, x), some(want), W(par), "the query is")
    judge(ctx, "parse nothing", R.run(par, cstr("")), NONE, W(par), "the query is")
    # building
    for R.order in R.orders:
        for k, m, want in maps: judge(ctx, "build %s %s" % (k, R.order), R.run(bld, m), cstr(want) if isinstance(want, str) else want, W(bld), "the query string is")
        specials = [("name %r" % ch, dict_of((tx("n", c, ch, "x"), V(a, b)))) for ch in "&=%+# /?[]$.;:@é❤"] + [("value %r" % ch, dict_of(("n", V(tx(a, ch, b), None)))) for ch in ASCII if not ch.isalnum()]
        for k, m in [x for x in ((k, m) for k, m, _ in maps if k not in ("no values", "no name", "none"))] + specials:
            s = R.run(bld, m)
            judge(ctx, "build and parse %s %s" % (k, R.order), R.run(par, s), some(m), W(bld), "the query string %s reads back as" % show(s, 4)[:100])
    forms(ctx)

def forms(ctx):
    """The query of a request in every form a pact file holds it in."""
    ctx.rule("Queries are read and written in every form a pact file holds one in, for each version of the specification, with repeated, missing and empty values and both iteration orders of the map.")
    R = Cases(ctx)
    W = ctx.where
    a, b, c, d, word, V, na, nb, Q1, maps, dec, enc, par, bld, v2, v3, out = samples(ctx)
    specs = {s: agg(SPEC, s, ()) for s in variants_of(R.I, SPEC)}
    S = lambda t: agg(VALUE, "String", (t if isinstance(t, T) else cstr(t),))
    A = lambda *xs: agg(VALUE, "Array", (listof(*xs),))
    O = lambda *es: agg(VALUE, "Object", (dict_of(*es),))
    null, true = agg(VALUE, "Null", ()), agg(VALUE, "Bool", (TRUE,))
    for R.order in R.orders:
        for f, n in ((v2, "V2"), (v3, "V3")):
            sp = specs[n]
            for k, x, want in Q1[:5]: judge(ctx, "%s text %s %s" % (n, k, R.order), R.run(f, S(x), sp), some(want), W(f), "the query is")
            judge(ctx, "%s no text %s" % (n, R.order), R.run(f, S(""), sp), NONE, W(f), "the query is")
            for k, x in [("null", null), ("list", A(S(a))), ("number", jnum("u64", sym("n"))), ("bool", true)] + ([("object", O(("p", A(S(a)))))] if n == "V2" else []):
                judge(ctx, "%s %s %s" % (n, k, R.order), R.run(f, x, sp), NONE, W(f), "the query is")
        sp = specs["V3"]
        for k, x, want in [("one", O(("p", A(S(a)))), dict_of(("p", V(a)))), ("several", O(("p", A(S(a), S(b), S(a))), (na, A(S("")))), dict_of(("p", V(a, b, a)), (na, V("")))), ("null", O(("p", A(null, S(a)))), dict_of(("p", V(None, a)))),
                           ("text", O(("p", S(a)), ("q", A(S(b)))), dict_of(("p", V(a)), ("q", V(b)))), ("empty", O(("p", A())), dict_of(("p", listof()))), ("nothing", O(), dict_of()), ("not decoded", O(("p+%41", A(S(tx(a, "+%41"))))), dict_of(("p+%41", V(tx(a, "+%41")))))]:
            judge(ctx, "V3 object %s %s" % (k, R.order), R.run(v3, x, sp), some(want), W(v3), "the query is")
        y = R.run(v3, O(("p", A(S(a), jnum("u64", cstr("5")), true))), sp)
        vs = y.args[2][0] if y.op == "agg" and y.args[1] == "Some" else None
        got = R.norm(vs) if vs is not None else None
        vals = [v for k, v, _ in got.args[1]] if got is not None and got.op == "coll" and len(got.args[1]) == 1 else []
        n = vals and vals[0].op == "agg" and len(vals[0].args[2]) == 3
        ctx.ob("V3 object number %s" % R.order, True if n and vals[0].args[2][0] is some(a) and vals[0].args[2][1] is not vals[0].args[2][2] else None if not vals else False, "a list with a number reads as %s" % show(y, 5)[:200], W(v3))
        for sn in ("V1", "V1_1", "V2", "V3", "V4"):
            if sn not in specs: continue
            sp = specs[sn]
            for k, m, text_ in maps:
                y = R.run(out, m, sp)
                if sn in ("V3", "V4"):
                    want = agg(VALUE, "Object", (dict_of(*[(e[0], A(*[S(q.args[2][0]) if q.args[1] == "Some" else null for q in e[1].args[2]])) for e in m.args[1]]),)) if m is not EMPTYM else O()
                    judge(ctx, "write %s %s %s" % (sn, k, R.order), y, want, W(out), "the query is written as")
                    judge(ctx, "write and read %s %s %s" % (sn, k, R.order), R.run(v3, y, sp), some(m), W(out), "the query written as %s reads back as" % show(y, 5)[:100])
                else:
                    judge(ctx, "write %s %s %s" % (sn, k, R.order), y, S(text_), W(out), "the query is written as")
                    if k not in ("none", "no name", "no values"): judge(ctx, "write and read %s %s %s" % (sn, k, R.order), R.run(v2, y, sp), some(m), W(out), "the query written as %s reads back as" % show(y, 5)[:100])

EMPTYM = mk("coll", frozenset(), frozenset())
