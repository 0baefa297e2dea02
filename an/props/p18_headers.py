"""Headers, and the content type of a part."""
from common import *
import text
from models import is_str_const

CT = "content_types::ContentType"
HP = "http_parts::HttpPart"
REQ, RESP, HREQ, HRESP, MSG, MC, AMSG = "request::Request", "response::Response", "v4::http_parts::HttpRequest", "v4::http_parts::HttpResponse", "message::Message", "v4::message_parts::MessageContents", "v4::async_message::AsynchronousMessage"
BODYT = "bodies::OptionalBody"
DETECT = {"content_types::detect_content_type_from_string", "content_types::detect_content_type_from_bytes", "bodies::OptionalBody::detect_content_type"}
GOOD, BAD = cstr("text/good"), cstr("not a content type")
PARSED = sym("the parsed content type")

def stub(I, fr, st, name, path, virt, args, g):
    """The content type parser, on two texts: one it accepts, one it refuses (it is decided by its own property)."""
    if name != CT + "::parse": return None
    x = I.deref_all(st, args[0])
    if x is GOOD: return agg(RES, "Ok", (PARSED,))
    if is_str_const(x): return agg(RES, "Err", (sym("the error of the parser"),))
    return None

def V(s): return agg(VALUE, "String", (s if isinstance(s, T) else cstr(s),))
def A(*xs): return agg(VALUE, "Array", (listof(*xs),))

@prop("P18", "Headers and content types are found whatever the case of their names", floor=150)
def p18(ctx):
    R = Cases(ctx, opaque=DETECT, keep=stub)
    W = ctx.where
    c = ctx.models()
    ctx.rule("Each header operation is interpreted on maps of headers whose names differ in case from the one asked for, in both iteration orders of the map; it must find, replace or add exactly that header and leave the others as they are.")
    ctx.rule("The content type of a part is interpreted for every combination of body state, header or metadata entry and outcome of parsing it: the content type of the body wins, then the header, then the content of the body.")
    s1, s2, s3, s4 = [text.of_chars([text.achar("abcxyz", i), text.achar("012", -i)]) for i in (1, 2, 3, 4)]
    vals = lambda *xs: listof(*xs)
    H = lambda *es: some(dict_of(*es))
    forms = [("content-type", "Content-Type"), ("Content-Type", "content-type"), ("X-A", "x-a"), ("x-a", "X-A"), ("X-A", "X-A"), ("cONTENT-tYPE", "Content-Type")]
    def mk_(ty, **kw): return R.struct(ty, **kw)
    for ty in (REQ, RESP, HREQ, HRESP):
        t = ty.split("::")[-1]
        fh, fl, fa = [ctx.need(HP + "::" + x) for x in ("has_header", "lookup_header_value", "add_header")]
        for o in R.orders:
            R.order = o
            for stored, asked in forms:
                for n, hs, want in [("none", NONE, None), ("another", H(("Accept", vals(s2))), None), ("one", H((stored, vals(s1))), s1), ("one of two", H(("Accept", vals(s2)), (stored, vals(s1))), s1), ("prefix", H((stored + "-x", vals(s2)), ("x" + stored, vals(s2))), None)]:
                    x = mk_(ty, headers=hs)
                    key = "%s %s in %s: %s %s" % (t, asked, stored, n, o)
                    judge(ctx, "has " + key, R.run(fh, x, cstr(asked)), boolc(want is not None), W(fh), "the header is found:")
                    judge(ctx, "lookup " + key, R.run(fl, x, cstr(asked)), some(want) if want is not None else NONE, W(fl), "the value is")
                x = mk_(ty, headers=H((stored, vals(cstr("a"), cstr("b")))))
                judge(ctx, "lookup several %s %s in %s %s" % (t, asked, stored, o), R.run(fl, x, cstr(asked)), some(cstr("a, b")), W(fl), "the value is")
        R.order = "asc"
        # setting a header
        for n, hs, want in [("none", NONE, H(("X-A", vals(s1, s4)))), ("another", H(("Accept", vals(s2))), H(("Accept", vals(s2)), ("X-A", vals(s1, s4)))), ("present", H(("Accept", vals(s2)), ("X-A", vals(s3))), H(("Accept", vals(s2)), ("X-A", vals(s1, s4))))]:
            judge(ctx, "add %s %s" % (t, n), R.get(R.mut(fa, mk_(ty, headers=hs), cstr("X-A"), vals(s1, s4)), "headers"), want, W(fa), "the headers are")
        for n in (0, 1, 2):
            xs = [s1, s4][:n]
            y = R.mut(fa, mk_(ty, headers=NONE), cstr("X-A"), vals(*xs))
            judge(ctx, "add %s %d values" % (t, n), R.get(y, "headers"), H(("X-A", vals(*xs))), W(fa), "the headers are")
        f = ty + "::set_header"
        if ty in (HREQ, HRESP):
            f = ctx.need(f)
            for o in R.orders:
                R.order = o
                for stored, asked in forms:
                    for n, hs, want in [("none", NONE, H((asked, vals(s1, s4)))), ("another", H(("Accept", vals(s2))), H(("Accept", vals(s2)), (asked, vals(s1, s4)))),
                                        ("present", H(("Accept", vals(s2)), (stored, vals(s3))), H(("Accept", vals(s2)), (stored, vals(s1, s4)))),
                                        ("prefix", H((stored + "-x", vals(s2))), H((stored + "-x", vals(s2)), (asked, vals(s1, s4))))]:
                        judge(ctx, "set %s %s in %s: %s %s" % (t, asked, stored, n, o), R.get(R.mut(f, mk_(ty, headers=hs), cstr(asked), vals(s1, s4)), "headers"), want, W(f), "the headers are")
            R.order = "asc"
    # the content type of a part
    own = sym("the content type of the body")
    present = lambda ct: agg(BODYT, "Present", (sym("bytes"), ct, sym("hint")))
    bodies = [("missing", agg(BODYT, "Missing", ())), ("empty", agg(BODYT, "Empty", ())), ("null", agg(BODYT, "Null", ())), ("without", present(NONE)), ("with", present(some(own)))]
    def ctype(key, f, y, body, header, where, fallback=True):
        """header: None | "good" | "bad" | "empty"."""
        if body == "with": want = some(own)
        elif header == "good": want = some(PARSED)
        elif body == "without" and (fallback or header is None):
            ds = find_all(y, lambda v: v.op == "call" and v.args[0] in DETECT)
            ok = bool(ds) and all(v.op == "call" and v.args[0] in DETECT or v.op == "agg" and v.args[1] == "Some" and v.args[2][0].op == "field" and v.args[2][0].args[0] in ds or v is NONE for _, v in alts(y)) and all(find_all(d, lambda v: v is sym("bytes")) or d.args[1][0] is cstr("") for d in ds)
            return ctx.ob(key, ok if ok or not opaque_in(y) else None, "the content type is %s, not the one detected from the body" % show(y, 5)[:200], where)
        elif body == "without": return None      # a header that is not a content type: either nothing or the content decides
        else: want = NONE
        judge(ctx, key, y, want, where, "the content type is")
    hdrs = [("no header", None, []), ("another header", None, [("Accept", vals(GOOD))])]
    for nm in ("Content-Type", "content-type", "CONTENT-TYPE"):
        hdrs += [(nm, "good", [(nm, vals(GOOD))]), (nm + " and another", "good", [("Accept", vals(BAD)), (nm, vals(GOOD))]), (nm + " invalid", "bad", [(nm, vals(BAD))]), (nm + " without a value", "empty", [(nm, vals())])]
    for ty, f in [(REQ, HP + "::content_type"), (RESP, HP + "::content_type"), (HREQ, HP + "::content_type"), (HRESP, HP + "::content_type"), (HREQ, HREQ + "::content_type"), (HRESP, HRESP + "::content_type")]:
        f = ctx.need(f)
        for bn, b in bodies:
            for hn, h, es in hdrs:
                for o in R.orders if len(es) > 1 else R.orders[:1]:
                    R.order = o
                    y = R.run(f, mk_(ty, headers=H(*es) if es else NONE, body=b))
                    key = "content type %s %s: %s body, %s %s" % (ty.split("::")[-1], "trait" if f.startswith(HP) else "own", bn, hn, o)
                    if y is UNDEF: ctx.ob(key, False, "the lookup never returns: it panics", W(f)); continue
                    ctype(key, f, y, bn, h, W(f), fallback=False)
        R.order = "asc"
    # messages: by their metadata
    for ty, f, names in [(MSG, MSG + "::message_content_type", ("contentType", "content-type", "Content-Type", "contenttype")), (MC, MC + "::message_content_type", ("contentType",)), (AMSG, AMSG + "::message_content_type", ("contentType",)),
                         (MSG, HP + "::content_type", ("contentType", "content-type", "Content-Type", "contenttype")), (MC, HP + "::content_type", ("contentType", "content-type", "Content-Type", "contenttype")), (AMSG, HP + "::content_type", ("contentType",))]:
        f = ctx.need(f)
        for bn, b in bodies:
            ms = [("no metadata", None, []), ("other metadata", None, [("destination", V(GOOD))])]
            if ty is not AMSG and f.startswith(HP): ms += [(nm + " in a list", "good", [(nm, A(V(GOOD), V(BAD)))]) for nm in names]
            for nm in names: ms += [(nm, "good", [(nm, V(GOOD))]), (nm + " and another", "good", [("destination", V(BAD)), (nm, V(GOOD))]), (nm + " invalid", "bad", [(nm, V(BAD))])]
            for hn, h, es in ms:
                for o in R.orders if len(es) > 1 else R.orders[:1]:
                    R.order = o
                    if ty is AMSG: x = mk_(ty, contents=mk_(MC, contents=b, metadata=dict_of(*es)))
                    else: x = mk_(ty, contents=b, metadata=dict_of(*es))
                    y = R.run(f, x)
                    key = "content type %s %s: %s body, %s %s" % (ty.split("::")[-1], "trait" if f.startswith(HP) else "own", bn, hn, o)
                    if y is UNDEF: ctx.ob(key, False, "the lookup never returns: it panics", W(f)); continue
                    ctype(key, f, y, bn, h, W(f), fallback=False)
        R.order = "asc"
    # a message read from a document
    f = ctx.need(MSG + "::from_json")
    v3 = agg("PactSpecification", "V3", ())
    for nm in ("contentType", "content-type", "Content-Type", "contenttype", "CONTENTTYPE", "CONTENT-TYPE", "ContentType"):
        for an in ("metadata", "metaData"):
            for o, es in (("alone", [(nm, V(GOOD))]), ("and another", [("destination", V(BAD)), (nm, V(GOOD))]), ("and one after", [(nm, V(GOOD)), ("zone", V(BAD))])):
                y = R.run(f, const("int", 0), obj(description=jstr("d"), contents=V(s1), **{an: agg(VALUE, "Object", (dict_of(*es),))}), v3)
                key, bad = "read %s in %s %s" % (nm, an, o), None
                for g, v in alts(y):
                    c0 = R.get(v.args[2][0], "contents") if v.op == "agg" and v.args[1] == "Ok" else UNDEF
                    cts = [x.args[2][1] if x.op == "agg" and x.args[1] == "Present" else x for _, x in alts(c0)] if c0 is not UNDEF else [UNDEF]
                    for x in cts:
                        if x.op == "agg" and x.args[1] == "Some" and x.args[2][0].op == "agg" and x.args[2][0].args[0] == CT and all(a is mk("field", PARSED, None, n) for n, a in zip(R.fields(CT), x.args[2][0].args[2])): continue
                        if x is not some(PARSED): bad = bad or x
                ctx.ob(key, True if bad is None else None if opaque_in(bad) else False, "the content type of the contents is %s" % show(bad, 9)[:300] if bad is not None else "", W(f))
    # the metadata of a message stands for its headers
    fa = ctx.need(tm(MSG, HP, "add_header"))
    for n, md, rest in [("none", [], []), ("another", [("destination", V(GOOD))], [("destination", V(GOOD))]), ("present", [("destination", V(GOOD)), ("key", V(BAD))], [("destination", V(GOOD))])]:
        for vn, xs, want in [("no value", (), agg(VALUE, "Null", ())), ("one value", (s1,), V(s1)), ("two values", (s1, s4), A(V(s1), V(s4)))]:
            judge(ctx, "add metadata: %s, %s" % (n, vn), R.get(R.mut(fa, mk_(MSG, metadata=dict_of(*md)), cstr("key"), vals(*xs)), "metadata"), dict_of(*rest, ("key", want)), W(fa), "the metadata is")
    # the type of a body read from a document
    from props.p10_bodies import forms
    with ctx.part("bodies"): forms(ctx)
    # header values
    f = ctx.need("headers::parse_header")
    L = [text.achar("abcXYZ;=*/ ", i) for i in range(3)]
    a, b = text.of_chars([text.achar("abcXYZ;=*/-", 1), text.achar("abcXYZ;=*/-", 2)]), text.of_chars([text.achar("abcXYZ;=*/-", 3)])
    both = text.of_chars([*text.chars_of(a), *text.chars_of(cstr(", ")), *text.chars_of(b)])
    spaced = text.of_chars([*text.chars_of(cstr("  ")), *text.chars_of(a), *text.chars_of(cstr(" "))])
    SINGLE = ["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"]
    for n in SINGLE + ["Date", "Set-Cookie", "LAST-MODIFIED"]:
        judge(ctx, "header value: %s, one" % n, R.run(f, cstr(n), spaced), listof(a), W(f), "the values are")
        judge(ctx, "header value: %s, comma" % n, R.run(f, cstr(n), both), listof(both), W(f), "the values are")
    for n in ["accept", "Accept", "vary", "allow", "x-other", "X", "dates", "my-date"]:
        judge(ctx, "header value: %s, one" % n, R.run(f, cstr(n), spaced), listof(a), W(f), "the values are")
        judge(ctx, "header value: %s, comma" % n, R.run(f, cstr(n), both), listof(a, b), W(f), "the values are")
