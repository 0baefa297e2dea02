"""Bodies in V4 documents: bytes, content type, hint and state survive."""
from common import *

CT, HINT = "content_types::ContentType", "content_types::ContentTypeHint"

def ct_rules(N, t):
    """The content type parsed from the text of a content type is that content type (decided by its own property)."""
    n, a = t.args
    if n == CT + "::parse" or n.startswith("<" + CT) and n.endswith("::from"):
        x = a[0]
        if x.op == "call" and x.args[0].split("::")[-1] == "to_string" and x.args[1][0].op == "sym": return agg(RES, "Ok", (x.args[1][0],)) if n.endswith("parse") else x.args[1][0]
    if n == "is_empty" and a[0].op == "call" and a[0].args[0].split("::")[-1] == "to_string" and a[0].args[1][0] in JSON_VALUES: return FALSE
    return None
JSON_VALUES = set()

def ct_opaque(c):
    """Functions of content types other than the hint's name table."""
    out = set()
    for n, r in c.fns.items():
        if "ContentTypeHint" in n: continue
        if n.startswith("content_types::") or CT + " as" in n: out.add(n)
    return out

@prop("P10", "Bodies in V4 documents keep their bytes, content type, hint and state", floor=12)
def p10(ctx): bodies(ctx)

def bodies(ctx):
    c = ctx.models()
    ctx.rule("For every alternative document the body writer can produce (JSON value, text, base64), the body reader is interpreted on exactly that document, under the branch conditions that produced it, and the bytes, content type, hint and state it returns are compared with those written.")
    W = ctx.need(BODY + "::to_v4_json")
    readers = [n for n in fns_by_sig(c, BODY, "&" + VALUE) if n.startswith("v4::")]
    if not readers: ctx.ob("reader", False, "no function of the V4 model reads a body from JSON", "rust/pact_models/src/v4"); return
    R = readers[0]
    wh = ctx.where(R)
    m = comp(ctx, skip={W, R}, bodies=False)
    m.opq |= ct_opaque(c)
    for b in fns_by_sig(c, "std::option::Option<content_types::ContentType>", "&" + BODY): m.opq.add(b)
    m.rules = [ct_rules] + m.rules
    I = Interp([c])
    def read(doc):
        d = agg(VALUE, "Object", (mk("coll", frozenset(), frozenset([(cstr("body"), doc, TT)])),))
        r, _ = m.interp(R, [d, cstr("body"), sym("headers")])
        finish(ctx, m)
        return m.norm(r)
    def state(k, y, want, extra=()):
        bad = [v for _, v in alts(y) if not (v.op == "agg" and v.args[1] in (want,) + tuple(extra))]
        ctx.ob(k, True if not bad else None if any(opaque_in(v) or v.op != "agg" for v in bad) else False, "; ".join(show(v, 4)[:200] for v in bad), wh)
    # states
    for st in ("Missing", "Null", "Empty"):
        w, _ = m.interp(W, [agg(BODY, st, ())])
        if st == "Empty": state("state:Empty", read(w), "Empty")
        else:
            # an absent attribute or a null
            bad = [v for _, v in alts(m.norm(w)) if not (v.op == "agg" and v.args[1] == "Null")]
            ctx.ob("state:%s" % st, not bad, "written as " + "; ".join(show(v, 4)[:200] for v in bad), ctx.where(W))
    empty = mk("coll", frozenset(), frozenset())
    r, _ = m.interp(R, [agg(VALUE, "Object", (empty,)), cstr("body"), sym("headers")]); state("read:absent", m.norm(r), "Missing")
    state("read:null", read(agg(VALUE, "Null", ())), "Null")
    state("read:no content", read(agg(VALUE, "Object", (empty,))), "Missing")
    one = lambda v: agg(VALUE, "Object", (mk("coll", frozenset(), frozenset([(cstr("content"), v, TT)])),))
    state("read:null content", read(one(agg(VALUE, "Null", ()))), "Null")
    # present bodies
    b, ct = sym("bytes"), sym("ct")
    hints = [(None, NONE)] + [(v["name"], some(agg(HINT, v["name"], ()))) for v in c.adts[HINT]["variants"]]
    for hn, h in hints:
        w, _ = m.interp(W, [agg(BODY, "Present", (b, some(ct), h))])
        finish(ctx, m)
        kinds = set()
        for g, cont in alts(m.I.models.payload(m.I.models.get(w, cstr("content")), OPT)):
            doc = under(w, g)
            JSON_VALUES.add(cont)
            kind = classify(cont, b)
            key = "present:%s:%s" % (hn or "no hint", kind)
            kinds.add(kind)
            if kind == "?":
                ctx.ob(key, None if opaque_in(cont) else False, "the content written does not carry the bytes: " + show(cont, 6)[:300], ctx.where(W)); continue
            y = under(read(doc), g)
            y = m.N(y)
            compare(ctx, key, m, y, g, cont, kind, b, ct, h, wh)
        ctx.ob("kinds:%s" % (hn or "no hint"), {"base64"} <= kinds, "bytes that are no text are not written as base64: %s" % sorted(kinds), ctx.where(W))
    forms(ctx)
    # content type of a document without one comes from the headers
    enc = agg(VALUE, "Object", (mk("coll", frozenset(), frozenset([(cstr("content"), agg(VALUE, "String", (sym("s"),)), TT)])),))
    y = read(enc)
    for g, v in alts(y):
        if v.op == "agg" and v.args[1] == "Present":
            ctx.ob("headers:content type", contains(v.args[2][1], sym("headers")), "the content type of a body without its own does not come from the headers", wh)

def forms(ctx):
    """Bodies as documents hold them, with the content type found in every place a document may give it."""
    c = ctx.models()
    ctx.rule("The body reader is interpreted on documents in each documented form: content encoded as base64, as the text of a JSON document or not at all, under either letter case, with the content type given in the body or in a header of any letter case.")
    R_ = [n for n in fns_by_sig(c, BODY, "&" + VALUE) if n.startswith("v4::")]
    if not R_: return
    f = R_[0]; wh = ctx.where(f)
    JS = [cstr("application/json"), cstr("application/hal+json")]
    PLAIN = cstr("text/plain")
    pj, pp = sym("a JSON type"), sym("a text type")
    def stub(I, fr, st, name, path, virt, args, g):
        x = I.deref_all(st, args[0]) if args else None
        if name == CT + "::parse":
            if x in JS: return ok(pj)
            if x is PLAIN: return ok(pp)
            if x is not None and x.op == "const": return err(sym("not a content type"))
        if name == CT + "::is_json" and x in (pj, pp): return boolc(x is pj)
        if name.endswith("::decode") and "base64" in name.lower() + str(path).lower():
            y = I.deref_all(st, args[-1])
            if y is ENC: return ok(DEC)
        return None
    ENC, DEC = cstr("ZW5jb2RlZA=="), cstr("encoded")
    R = Cases(ctx, opaque=[n for n in c.fns if n.startswith("content_types::detect")], keep=stub)
    H = lambda *es: some(dict_of(*[(k, listof(v)) for k, v in es]))
    J = lambda: agg(VALUE, "Object", (dict_of(("a", jstr("b"))),))
    def get(attrs, headers=NONE):
        d = agg(VALUE, "Object", (dict_of(("body", agg(VALUE, "Object", (dict_of(*attrs),)))),))
        return R.run(f, d, cstr("body"), headers)
    def present(key, y, bytes_, ct, hint=NONE):
        # the bytes, as text or as bytes; the type; the hint
        for g, v in alts(y):
            if not (v.op == "agg" and v.args[0] == BODY and v.args[1] == "Present"):
                ctx.ob("form: " + key, None if opaque_in(v) or v.op != "agg" else False, "the body read is " + show(v, 5)[:200], wh); continue
            src = byte_sources(v.args[2][0])
            ok_ = bool(src) and all(x is bytes_ for x in src)
            ctx.ob("form: " + key + ": bytes", True if ok_ else None if any(opaque_in(x) or x.op in ("call",) for x in src) else False, "the bytes read are %s instead of %s" % (show(v.args[2][0], 5)[:200], show(bytes_, 4)), wh)
            if ct is not None: judge(ctx, "form: " + key + ": content type", v.args[2][1], some(ct), wh, "the content type read is")
            judge(ctx, "form: " + key + ": hint", v.args[2][2], hint, wh, "the hint read is")
    tp = ("contentType", jstr("text/plain"))
    tj = ("contentType", jstr("application/json"))
    for sp in ("base64", "Base64", "BASE64"): 
        present("encoded " + sp, get([("content", jstr(ENC)), tp, ("encoded", jstr(sp))]), DEC, pp)
        present("JSON type, encoded " + sp, get([("content", jstr(ENC)), tj, ("encoded", jstr(sp))]), DEC, pj)
    for sp in ("json", "JSON"):
        present("encoded " + sp, get([("content", jstr('{"a":"b"}')), tj, ("encoded", jstr(sp))]), cstr('{"a":"b"}'), pj)
    no = ("encoded", agg(VALUE, "Bool", (FALSE,)))
    for k, e in (("not encoded", [no]), ("without encoding", [])):
        present("text, " + k, get([("content", jstr("some text")), tp] + e), cstr("some text"), pp)
        present("JSON text, " + k, get([("content", jstr("some text")), tj] + e), cstr('"some text"'), pj)
        for st in (" ", "null", "true"):
            present("JSON text %r, %s" % (st, k), get([("content", jstr(st)), tj] + e), cstr('"%s"' % st), pj)
            present("text %r, %s" % (st, k), get([("content", jstr(st)), tp] + e), cstr(st), pp)
    for h in [v["name"] for v in c.adts[HINT]["variants"]]:
        present("hint " + h, get([("content", jstr("some text")), tp, no, ("contentTypeHint", jstr(h))]), cstr("some text"), pp, some(agg(HINT, h, ())))
    for nm in ("Content-Type", "content-type", "CONTENT-TYPE", "Content-type"):
        for R.order in R.orders:
            for k, es in (("alone", [(nm, PLAIN)]), ("with another", [("Accept", JS[0]), (nm, PLAIN)])):
                present("type from header %s %s %s" % (nm, k, R.order), get([("content", jstr("some text")), no], H(*es)), cstr("some text"), pp)
                present("own type before header %s %s %s" % (nm, k, R.order), get([("content", jstr("some text")), tj, no], H(*es)), cstr('"some text"'), pj)
                present("JSON by header %s %s %s" % (nm, k, R.order), get([("content", jstr("some text")), no], H(*[(a, JS[1] if b is PLAIN else PLAIN) for a, b in es])), cstr('"some text"'), pj)
    R.order = "asc"

def classify(cont, b):
    if cont.op == "agg" and cont.args[0] == VALUE and cont.args[1] == "String":
        p = cont.args[2][0]
        if p.op == "call" and p.args[0].endswith("encode") and p.args[1][-1] is b: return "base64"
        if p.op == "field" and p.args[0].op == "call" and p.args[0].args[0].endswith("from_utf8") and p.args[0].args[1][0] is b: return "text"
        return "?"
    if cont.op == "field" and cont.args[0].op == "call" and cont.args[0].args[0].endswith("from_slice") and cont.args[0].args[1][0] is b: return "json"
    return "?"

def compare(ctx, key, m, y, g, cont, kind, b, ct, h, wh):
    present = False
    for gg, v in alts(y):
        if not (v.op == "agg" and v.args[0] == BODY):
            ctx.ob(key + ":state", None, "not resolved: " + show(v, 4)[:200], wh); continue
        if v.args[1] == "Empty":
            src = [b, cont, mk("field", cont, "String", "0")] + ([cont.args[2][0]] if cont.op == "agg" else [])
            es = [lit(w, True) for w in support(gg) if w.op == "call" and w.args[0] == "is_empty" and w.args[1][0] in src]
            es += [lit(w, const("int", 0)) for w in support(gg) if w.op == "call" and w.args[0] == "len" and w.args[1][0] in src]
            if not es or not implies(gg, disj(es)):
                ctx.ob(key + ":state", None if any(opaque_in(w) for w in support(gg)) else False, "a body that is not empty is read as empty, when %s" % show_g(gg, 6)[:300], wh)
            continue
        if v.args[1] == "Null":
            if not (kind == "json" and implies(conj(g, gg), lit(mk("discr", cont), "Null"))):
                ctx.ob(key + ":state", False, "a present body is read as null", wh)
            continue
        if v.args[1] != "Present":
            ctx.ob(key + ":state", False, "a present body is read as " + v.args[1], wh); continue
        present = True
        bytes_, ct2, h2 = v.args[2]
        src = b if kind == "base64" else cont if kind == "json" else cont.args[2][0]
        bad, unk = [], False
        for x in byte_sources(bytes_):
            if x is src: continue
            if kind == "json" and (x.op == "call" and x.args[0].split("::")[-1] == "to_string" and x.args[1][0] is src): continue
            if kind == "json" and x is mk("field", src, "String", "0"):
                bad.append(x); continue
            if opaque_in(x): unk = True
            else: bad.append(x)
        ctx.ob(key + ":bytes", False if bad else None if unk else True, "the bytes read back are " + "; ".join(show(x, 6)[:200] for x in bad), wh)
        o = [x for _, x in alts(ct2)]
        good = all(x is some(ct) for x in o)
        ctx.ob(key + ":content type", True if good else None if any(opaque_in(x) for x in o) else False, "the content type read back is " + show(ct2, 6)[:300], wh)
        ctx.ob(key + ":hint", h2 is h or None if opaque_in(h2) else h2 is h, "the hint read back is %s, written %s" % (show(h2, 6)[:300], show(h, 4)), wh)
    if not present: ctx.ob(key + ":state", False, "a present body never comes back as present", wh)

def byte_sources(t):
    """Where the bytes come from (through buffers filled element by element)."""
    out = []
    def go(t):
        for _, x in alts(t):
            if x.op == "coll":
                for y in x.args[0]: go(y)
                for k, v, _ in x.args[1]:
                    for _, e in alts(v):
                        if e.op == "elem": go(e.args[0])
                        else: out.append(e)
            else: out.append(x)
    go(t)
    return out
