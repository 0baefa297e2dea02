"""Conversions between the V2/V3 and V4 models keep everything both models can express."""
from common import *
from props.p01_roundtrip import S
from props.p08_rulesets import path_of, fieldtok, ROOT
from props.p05_pact import V4P, RRP, MP, PT, FRESH, kept, same_elems

CAT, MRC = "matchingrules::Category", "matchingrules::MatchingRuleCategory"
BODYISH = ("BODY", "CONTENTS")

def md_plus_ct(act, want):
    """The metadata; a content type entry may be added where there is none."""
    if act is want: return True
    if act.op == "coll" and act.args[0] == frozenset([want]):
        return all(k is cstr("contentType") and any(w.op == "discr" and (w.args[0].op == "entry" or w.args[0].op == "call" and w.args[0].args[0] == "get") for w in support(g)) or any(w.op == "call" and w.args[0] in ("contains_key", "is_empty") for w in support(g)) for k, v, g in act.args[1])
    return None if opaque_in(act) else False

def body_kept(act, want):
    return act is want or (None if opaque_in(act) else False)

def fld(b, *ns):
    for n in ns: b = mk("field", b, None, n)
    return b

def value_of(m, y): return m.N(m.I.models.payload(y, OPT)) if y is not None else None

def conv(ctx, key, fn, adt, expect, wrap=None, args=None, **kw):
    """Every listed field of the result is the field of the value converted."""
    c = ctx.models()
    ctx.need(fn)
    m = comp(ctx, **kw)
    m.opq.discard(fn)
    try: y, _ = m.interp(fn, args or [S])
    except Budget: ctx.ob(key, None, "budget", ctx.where(fn)); return None, None
    y = m.norm(y) if y is not None else None
    finish(ctx, m)
    wh = ctx.where(fn)
    if y is None: ctx.ob(key + ":result", False, "never returns", wh); return m, None
    if wrap:
        good = "Some" if wrap == OPT else "Ok"
        sp = m.I.models.split(y, wrap)
        oth = [g for g, vr, p in sp if vr != good]
        ctx.ob(key + ":result", not oth or (None if opaque_in(y) else False), "the conversion is refused when %s" % "; ".join(show_g(g, 4)[:200] or "always" for g in oth), wh)
        vs = [(g, p) for g, vr, p in sp if vr == good]
        if not vs: return m, None
        y = m.N(phi(vs))
    for f, w in expect.items():
        act = m.N(m.I.field(y, None, f))
        if isinstance(w, tuple): pred, want = w; r = pred(act, want)
        else: want = w; r = act is want
        if r is False and opaque_in(act): r = None
        ctx.ob("%s.%s" % (key, f), r, "the converted value has %s instead of %s" % (show(act, 6)[:400], show(want, 4)), wh)
    return m, y

@prop("P11", "Conversions between model versions keep everything both can express", floor=60)
def p11(ctx):
    ctx.rule("Value-flow summary of every conversion function: each field of the converted value must be the corresponding field of the value converted, on every path.")
    c = ctx.models()
    names = fields_of(Interp([c]), REQ)
    same = lambda adt: {f: fld(S, f) for f in fields_of(Interp([c]), adt)}
    conv(ctx, "Request->V4", REQ + "::as_v4_request", REQ4, same(REQ4))
    conv(ctx, "HttpRequest->V3", REQ4 + "::as_v3_request", REQ, same(REQ))
    conv(ctx, "Response->V4", RESP + "::as_v4_response", RES4, same(RES4))
    conv(ctx, "HttpResponse->V3", RES4 + "::as_v3_response", RESP, same(RESP))
    both = {f: fld(S, f) for f in ("id", "description", "provider_states")}
    def parts(a, b): return {x + "." + y: None for x in a for y in b}
    for tr in ("as_v4_http",): conv(ctx, "V3 interaction->V4", tm(RRI, INT, tr), HTTP, both | {"request": fld(S, "request"), "response": fld(S, "response")}, OPT)
    conv(ctx, "V3 interaction->V4 boxed", tm(RRI, INT, "as_v4"), HTTP, both | {"request": fld(S, "request"), "response": fld(S, "response")}, OPT)
    conv(ctx, "V4 HTTP->V3", tm(HTTP, INT, "as_request_response"), RRI, both | {"request": fld(S, "request"), "response": fld(S, "response")}, OPT)
    mc = {"contents": fld(S, "contents"), "metadata": fld(S, "metadata"), "generators": fld(S, "generators")}
    conv(ctx, "V3 message->contents", MSG + "::as_message_content", MC, mc)
    conv(ctx, "contents->V3 message", MC + "::as_v3_message", MSG, mc)
    for tr in ("as_v4_async_message", "as_v4"):
        m, y = conv(ctx, "V3 message->V4 (%s)" % tr, tm(MSG, INT, tr), AMSG, both, OPT)
        if y is not None: nested(ctx, m, "V3 message->V4 (%s)" % tr, m.I.field(y, None, "contents"), mc, ctx.where(tm(MSG, INT, tr)))
    C = fld(S, "contents")
    m, y = conv(ctx, "V4 message->V3", tm(AMSG, INT, "as_message"), MSG, both | {"contents": fld(C, "contents"), "metadata": (md_plus_ct, fld(C, "metadata")),
         "generators": fld(C, "generators")}, OPT)
    # pacts
    pk = {"consumer": fld(S, "consumer"), "provider": fld(S, "provider")}
    V3 = spec("V3")
    def elems(meth):
        def p(act, want):
            cs = find_all(act, lambda t: t.op == "call" and t.args[0].split("::")[-1] == meth and t.args[1][0] is mk("elem", want))
            if not cs: return None if opaque_in(act) else False
            if act in cs: return True
            if act.op != "coll" or act.args[0]: return None
            for k, v, g in act.args[1]:
                if not any(v is x or v is mk("field", x, "Some", "0") for x in cs): return None if opaque_in(v) else False
                if [w for w in support(g) if not any(w is mk("discr", x) for x in cs)]: return False
            return True
        return p
    conv(ctx, "V4 pact->V3", tm(V4P, PT, "as_request_response_pact"), RRP, pk | {"interactions": (elems("as_request_response"), fld(S, "interactions")), "specification_version": V3}, RES)
    conv(ctx, "V4 pact->V3 messages", tm(V4P, PT, "as_message_pact"), MP, pk | {"messages": (elems("as_message"), fld(S, "interactions")), "specification_version": V3}, RES)
    conv(ctx, "V3 pact->V4", tm(RRP, PT, "as_v4_pact"), V4P, pk | {"interactions": (elems("as_v4"), fld(S, "interactions"))}, RES, extra_opaque=[tm(RRI, INT, "as_v4")])
    conv(ctx, "V3 message pact->V4", tm(MP, PT, "as_v4_pact"), V4P, pk | {"interactions": (elems("as_v4"), fld(S, "messages"))}, RES, extra_opaque=[tm(MSG, INT, "as_v4")])
    for a, fn in ((V4P, "as_v4_pact"), (RRP, "as_request_response_pact"), (MP, "as_message_pact")):
        conv(ctx, "identity %s" % a.split("::")[-1], tm(a, PT, fn), a, same(a), RES)
    for a in (V4P, RRP, MP):
        for fn in ("as_request_response_pact", "as_message_pact", "as_v4_pact"):
            if (a, fn) in ((RRP, "as_message_pact"), (MP, "as_request_response_pact")): continue
            metadata(ctx, a, fn)
    rules_kept(ctx)
    there_and_back(ctx)

def nested(ctx, m, key, v, expect, wh):
    for f, w in expect.items():
        act = m.N(m.I.field(m.N(v), None, f))
        if isinstance(w, tuple): r = w[0](act, w[1]); want = w[1]
        else: want = w; r = act is want
        if r is False and opaque_in(act): r = None
        ctx.ob("%s.%s" % (key, f), r, "the converted value has %s instead of %s" % (show(act, 6)[:400], show(want, 4)), wh)

def metadata(ctx, adt, fn):
    """Metadata entries survive, by class of key."""
    c = ctx.models()
    f = ctx.need(tm(adt, PT, fn))
    wh = ctx.where(f)
    names = fields_of(Interp([c]), adt)
    to_v4 = fn == "as_v4_pact"
    for k in (FRESH, "pactRust", "pact-rust"):
        inner = mk("coll", frozenset(), frozenset([(cstr("models"), agg(VALUE, "String", (sym("v"),)) if adt == V4P else sym("v"), TT)]))
        mv = agg(VALUE, "Object", (inner,)) if adt == V4P else inner
        me = agg(adt, adt.split("::")[-1], tuple(mk("coll", frozenset(), frozenset([(cstr(k), mv, TT)])) if x == "metadata" else fld(S, x) for x in names))
        m = comp(ctx)
        for t in (RRI, MSG): m.opq.add(tm(t, INT, "as_v4"))
        y, _ = m.interp(f, [me])
        y = m.norm(y); finish(ctx, m)
        md = m.N(m.I.field(m.I.models.payload(y, RES), None, "metadata"))
        a = m.I.models.get(md, cstr(k))
        a = m.N(m.I.models.payload(a, OPT)) if a is not NONE else None
        b = m.I.models.get(a, cstr("models")) if a is not None else NONE
        b = m.N(m.I.models.payload(b, OPT)) if b is not NONE else None
        if b is not None and b.op == "agg" and b.args[0] == VALUE: b = b.args[2][0]
        ctx.ob("%s.%s:metadata[%s]" % (adt.split("::")[-1], fn, k.strip("\u0001")), b is sym("v") or (None if opaque_in(md) else False), "the entry becomes " + (show(a, 6)[:300] if a is not None else "nothing"), wh)

def rules_kept(ctx):
    """The matching rules of a message are kept under their own category (the body of an HTTP part and the contents of a message are the same thing)."""
    ctx.rule("Each conversion of a message is interpreted on messages with matching rules in every category and pair of categories; every list of rules must be found at its own path under its own category.")
    R = Cases(ctx)
    I = R.I
    cats = variants_of(I, CAT)
    cat = lambda v: agg(CAT, v, ())
    pa, pb = path_of(ROOT, fieldtok(cstr("a"))), path_of(ROOT, fieldtok(cstr("b")))
    def ruleset(*es): return agg(MRS, "MatchingRules", (dict_of(*[(cat(v), agg(MRC, "MatchingRuleCategory", (cat(v), dict_of(*ps)))) for v, ps in es]),))
    def one(v): return (v, ((pa, sym("rules for " + v)), (pb, sym("more rules for " + v))))
    sets = [(v, [one(v)]) for v in cats] + [("%s and %s" % (v, w), [one(v), one(w)]) for i, v in enumerate(cats) for w in cats[i + 1:] if not (v in BODYISH and w in BODYISH)]
    sets += [("both bodies", [("BODY", ((pa, sym("rules for BODY")),)), ("CONTENTS", ((pb, sym("rules for CONTENTS")),))]), ("all", [one(v) for v in cats if v != "CONTENTS"]), ("none", [])]
    M = lambda t, n: tm(t, INT, n)
    def content(r): return R.struct(MC, matching_rules=r, generators=agg(GENS, "Generators", (EMPTY,)), contents=agg(BODY, "Missing", ()), metadata=EMPTY)
    def message(r): return R.struct(MSG, matching_rules=r, generators=agg(GENS, "Generators", (EMPTY,)), contents=agg(BODY, "Missing", ()), metadata=EMPTY)
    convs = [("V3 message->contents", MSG + "::as_message_content", message, lambda y: R.get(y, "matching_rules")),
             ("contents->V3 message", MC + "::as_v3_message", content, lambda y: R.get(y, "matching_rules")),
             ("V3 message->V4 (as_v4_async_message)", M(MSG, "as_v4_async_message"), message, lambda y: R.get(R.get(y.args[2][0], "contents"), "matching_rules")),
             ("V3 message->V4 (as_v4)", M(MSG, "as_v4"), message, lambda y: R.get(R.get(y.args[2][0], "contents"), "matching_rules")),
             ("V4 message->V3", M(AMSG, "as_message"), lambda r: R.struct(AMSG, contents=content(r)), lambda y: R.get(y.args[2][0], "matching_rules"))]
    for R.order in R.orders:
        for key, fn, make, out in convs:
            ctx.need(fn)
            for n, es in sets:
                k = "%s rules %s %s" % (key, n, R.order)
                y = R.run(fn, make(ruleset(*es)))
                try: y = R.norm(out(y))
                except (IndexError, KeyError, AttributeError): ctx.ob(k, None if opaque_in(y) else False, "there is no such value: " + show(y, 4)[:200], ctx.where(fn)); continue
                c = y.args[2][0] if y.op == "agg" and y.args[0] == MRS else y
                if c.op != "coll" or c.args[0] or any(e[0] is None or e[0].op != "agg" for e in c.args[1]): ctx.ob(k, None, "the rules are " + show(y, 6)[:300], ctx.where(fn)); continue
                got = {kk.args[1]: v for kk, v, g in c.args[1]}
                bad = []
                for v, ps in es:
                    for p, l in ps:
                        xs = [got[w] for w in (BODYISH if v in BODYISH else (v,)) if w in got]
                        if not any(z.op == "agg" and I.models.get(R.get(z, "rules"), p) is some(l) for z in xs): bad.append("%s of %s" % (show(l, 2), v))
                ctx.ob(k, not bad or (None if opaque_in(c) else False), "lost or moved: %s; the rules become %s" % (", ".join(bad), show(c, 6)[:300]), ctx.where(fn))
    R.order = "asc"

def there_and_back(ctx):
    """An upgrade followed by the matching downgrade gives the original back."""
    ctx.rule("Each upgrade followed by the downgrade to the original type is interpreted on values with matching rules and generators in every category, bodies of every state and metadata with and without a content type; every attribute of the result must be that of the original.")
    R = Cases(ctx)
    I = R.I
    GC = "generators::GeneratorCategory"
    cat = lambda t, v: agg(t, v, ())
    pa, pb = path_of(ROOT, fieldtok(cstr("a"))), path_of(ROOT, fieldtok(cstr("b")))
    def ruleset(*vs): return agg(MRS, "MatchingRules", (dict_of(*[(cat(CAT, v), agg(MRC, "MatchingRuleCategory", (cat(CAT, v), dict_of((pa, sym("rules for " + v)), (pb, sym("more rules for " + v)))))) for v in vs]),))
    def genset(*vs): return agg(GENS, "Generators", (dict_of(*[(cat(GC, v), sym("generators for " + v)) for v in vs]),))
    cats, gcats = variants_of(I, CAT), variants_of(I, GC)
    present = lambda ct: agg(BODY, "Present", (sym("bytes"), ct, sym("hint")))
    ct = sym("ct")
    bodies = [(s, agg(BODY, s, ())) for s in ("Missing", "Empty", "Null")] + [("without type", present(NONE)), ("with type", present(some(ct)))]
    mds = [("none", EMPTY), ("other", dict_of(("destination", sym("topic")))), ("contentType", dict_of(("contentType", sym("type")))), ("both", dict_of(("Zone", sym("zone")), ("contentType", sym("type"))))]
    M = lambda t, n: tm(t, INT, n)
    def cmp(key, x, y, wh, body=None, md=None):
        if y.op != "agg" or y.args[0] not in (x.args[0],): return ctx.ob(key, None if opaque_in(y) or y.op in ("phi", "call") else False, "the value comes back as " + show(y, 5)[:300], wh)
        y = R.norm(y)
        for f in R.fields(x.args[0]):
            a, b = R.get(y, f), R.get(x, f)
            if f in ("request", "response") and b.op == "agg": cmp(key + " " + f, b, a, wh, body); continue
            if f in ("metadata",) and body == "with type" and md in ("none", "other"):
                es = R.norm(b).args[1] if b.op == "coll" else ()
                got = {k: v for k, v, _ in a.args[1]} if a.op == "coll" else {}
                bad = [k for k, v, _ in es if got.get(k) is not v] + [k for k in got if k not in {e[0] for e in es} | {cstr("contentType")}]
                ctx.ob("%s.%s" % (key, f), True if not bad else None if opaque_in(a) else False, "the metadata comes back as " + show(a, 5)[:300], wh)
                continue
            judge(ctx, "%s.%s" % (key, f), a, R.norm(b), wh, "the value that comes back has " + f)
    msgs, rris, reqs, resps = [], [], [], []
    one = [("rules " + v, ruleset(v), genset()) for v in cats] + [("generators " + v, ruleset(), genset(v)) for v in gcats] + [("all", ruleset(*cats), genset(*gcats)), ("none", ruleset(), genset())]
    for k, r, g in one: msgs.append((k, R.struct(MSG, matching_rules=r, generators=g, contents=bodies[0][1], metadata=mds[3][1]), "Missing", "both"))
    for bn, b in bodies:
        for mn, md in mds: msgs.append(("%s body, %s metadata" % (bn, mn), R.struct(MSG, matching_rules=ruleset("BODY"), generators=genset("BODY"), contents=b, metadata=md), bn, mn))
    hdr = some(dict_of(("Content-Type", listof(cstr("a"))), ("x-other", listof(sym("h1"), sym("h2")))))
    def http(t, r, g, b, h): return R.struct(t, matching_rules=r, generators=g, body=b, headers=h)
    parts = [(k, r, g, bodies[0][1], hdr) for k, r, g in one] + [("%s body, %s" % (bn, hn), ruleset("BODY", "HEADER"), genset("BODY"), b, h) for bn, b in bodies for hn, h in (("no headers", NONE), ("empty headers", some(EMPTY)), ("headers", hdr))]
    for R.order in R.orders:
        for k, x, bn, mn in msgs:
            for up in ("as_v4_async_message", "as_v4"):
                u = R.run(M(MSG, up), x)
                if u.op == "agg" and u.args[1] == "Some":
                    d = R.run(M(AMSG, "as_message"), u.args[2][0])
                    if d.op == "agg" and d.args[1] == "Some": cmp("there and back: V3 message by %s, %s %s" % (up, k, R.order), x, d.args[2][0], ctx.where(M(AMSG, "as_message")), bn, mn); continue
                    u = d
                ctx.ob("there and back: V3 message by %s, %s %s" % (up, k, R.order), None if opaque_in(u) or u.op != "agg" else False, "there is no such value: " + show(u, 4)[:200], ctx.where(M(MSG, up)))
        for k, r, g, b, h in parts:
            for t, t4, up, down in ((REQ, REQ4, "as_v4_request", "as_v3_request"), (RESP, RES4, "as_v4_response", "as_v3_response")):
                x = http(t, r, g, b, h)
                cmp("there and back: %s, %s %s" % (t.split("::")[-1], k, R.order), x, R.run(t4 + "::" + down, R.run(t + "::" + up, x)), ctx.where(t4 + "::" + down))
            x = R.struct(RRI, request=http(REQ, r, g, b, h), response=http(RESP, r, g, b, h))
            for up in ("as_v4", "as_v4_http"):
                u = R.run(M(RRI, up), x)
                d = R.run(M(HTTP, "as_request_response"), u.args[2][0]) if u.op == "agg" and u.args[1] == "Some" else u
                if d.op == "agg" and d.args[1] == "Some": cmp("there and back: V3 interaction by %s, %s %s" % (up, k, R.order), x, d.args[2][0], ctx.where(M(HTTP, "as_request_response")), None)
                else: ctx.ob("there and back: V3 interaction by %s, %s %s" % (up, k, R.order), None if opaque_in(d) or d.op != "agg" else False, "there is no such value: " + show(d, 4)[:200], ctx.where(M(RRI, up)))
    R.order = "asc"
