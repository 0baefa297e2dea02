"""The views of an interaction agree, for every interaction type behind the interaction interfaces."""
from common import *
from props.p01_roundtrip import S

TYPES = {RRI: 3, MSG: 3, HTTP: 4, AMSG: 4, SMSG: 4}

def impl(c, adt, tr, me):
    n = tm(adt, tr, me)
    return n if n in c.fns else "%s::%s" % (tr, me) if "%s::%s" % (tr, me) in c.fns else None

def fld(b, *ns):
    for n in ns: b = mk("field", b, None, n)
    return b

def selfagg(c, adt): return agg(adt, adt.split("::")[-1], tuple(fld(S, f) for f in fields_of(Interp([c]), adt)))

def run(ctx, fn, args, opaque=()):
    m = comp(ctx, extra_opaque=opaque)
    m.opq.discard(fn)
    try: y, mem = m.interp(fn, args)
    except Budget: return m, None, None
    finish(ctx, m)
    return m, y, mem

def is_type(y, adt): return all(v.op == "agg" and v.args[0] == adt or v.op in ("sym",) for _, v in alts(y))

@prop("P19", "All views of an interaction agree whatever its type", floor=300)
def p19(ctx):
    ctx.rule("Value-flow summary of every method of the interaction interfaces for every implementing type: getters return the field, setters change exactly that field, mutable views point to it, "
             "type predicates agree with the views they promise, and copies are the same interaction of the same type. The getters, copies and additions of the pact types are interpreted on pacts of up to two interactions.")
    c = ctx.models()
    from props.p33_pacts import views, Pacts
    views(ctx, Pacts(ctx))
    parts(ctx)
    for adt, ver in TYPES.items():
        t = adt.split("::")[-1]
        me = selfagg(c, adt)
        def ob(k, ok_, detail, fn): ctx.ob("%s.%s" % (t, k), ok_, detail, ctx.where(fn) if fn else "")
        def need(tr, n):
            fn = impl(c, adt, tr, n)
            if fn is None: ob(n, False, "the method is not implemented", None)
            return fn
        # getters
        gets = [(INT, f, (f,)) for f in ("id", "description", "provider_states")]
        if adt in (MSG,): gets += [(INT, "contents", ("contents",)), (INT, "contents_for_verification", ("contents",))]
        if adt == AMSG: gets += [(INT, "contents", ("contents", "contents")), (INT, "contents_for_verification", ("contents", "contents"))]
        if adt in (RRI, HTTP): gets += [(INT, "contents", ("response", "body")), (INT, "contents_for_verification", ("response", "body"))]
        if ver == 4:
            gets += [(INT, "pending", ("pending",))] + [(V4I, f, (f,)) for f in ("key", "comments", "plugin_config", "interaction_markup", "transport")]
        for tr, n, path in gets:
            fn = need(tr, n)
            if not fn: continue
            m, y, _ = run(ctx, fn, [me])
            if y is None: ob(n, None, "", fn); continue
            y = m.norm(y); w = fld(S, *path)
            ob(n, y is w or (None if opaque_in(y) else False), "returns %s instead of %s" % (show(y, 4)[:200], show(w)), fn)
        # setters
        sets = [(INT, "set_id", "id"), (INT, "set_description", "description")] + ([(V4I, "set_transport", "transport")] if ver == 4 else [])
        for tr, n, f in sets:
            fn = need(tr, n)
            if not fn: continue
            m, y, mem = run(ctx, fn, [])
            v = mem and mem.get(("param", "self"))
            if v is None: ob(n, None, "", fn); continue
            for x in fields_of(m.I, adt):
                a = m.norm(m.I.field(v, None, x))
                if x == f: ob(n, a.op == "sym" and a is not S or (None if opaque_in(a) else False), "sets %s to %s" % (x, show(a, 4)[:200]), fn)
                elif a is not fld(S, x): ob(n + ":" + x, None if opaque_in(a) else False, "changes %s to %s" % (x, show(a, 4)[:200]), fn)
        # mutable views
        muts = [(INT, "provider_states_mut", "provider_states")] + ([(V4I, f + "_mut", f) for f in ("comments", "plugin_config", "interaction_markup")] if ver == 4 else [])
        for tr, n, f in muts:
            fn = need(tr, n)
            if not fn: continue
            m, y, mem = run(ctx, fn, [])
            good = y is not None and y.op == "mref" and y.args[0] == ("param", "self") and [p[2] for p in y.args[1]] == [f]
            ob(n, good or (None if y is None or y.op != "mref" else False), "does not point to %s" % f, fn)
            if y is not None and mem and mem.get(("param", "self")) is not S: ob(n + ":effect", False, "changes the interaction", fn)
        # predicates and views
        preds = {"is_request_response": adt in (RRI, HTTP), "is_message": adt in (MSG, AMSG), "is_v4": ver == 4,
                 "is_v4_http": adt == HTTP, "is_v4_async_message": adt == AMSG, "is_v4_sync_message": adt == SMSG}
        val = {}
        for n, want in preds.items():
            fn = need(INT, n)
            if not fn: continue
            m, y, _ = run(ctx, fn, [me])
            val[n] = y
            ob(n, y is boolc(want) or (None if y is None or y.op != "const" else False), "is %s for a %s" % (show(y) if y else y, t), fn)
        views = {"as_request_response": (RRI, (RRI, HTTP)), "as_message": (MSG, (MSG, AMSG)), "as_v4_http": (HTTP, (HTTP, RRI)), "as_v4_async_message": (AMSG, (AMSG, MSG)), "as_v4_sync_message": (SMSG, (SMSG,)),
                 "as_v4": (None, (HTTP, AMSG, SMSG, RRI, MSG))}
        for n, (target, types) in views.items():
            fn = need(INT, n)
            if not fn: continue
            m, y, _ = run(ctx, fn, [me])
            if y is None: ob(n, None, "", fn); continue
            y0 = y
            goods, others = split_some(m, y)
            if adt in types:
                ob(n, not others and bool(goods) or (None if opaque_in(y) else False), "a %s is not available as this type" % t, fn)
                if target == adt or (target is None and ver == 4):
                    same = goods and all(m.norm(v) is S and is_type(v, adt) for _, v in goods)
                    ob(n + ":same", bool(same) or (None if opaque_in(y) else False), "the view is not the same interaction: " + show(m.norm(y), 5)[:300], fn)
                elif goods and target:
                    for f in ("id", "description", "provider_states"):
                        a = m.norm(m.I.field(phi(goods), None, f))
                        ob(n + "." + f, a is fld(S, f) or (None if opaque_in(a) else False), "the view has " + show(a, 4)[:200], fn)
            else:
                ob(n, not goods or (None if opaque_in(y) else False), "a %s is offered as this type" % t, fn)
        for n, types in {"as_v4_mut": (HTTP, AMSG, SMSG), "as_v4_http_mut": (HTTP,), "as_v4_async_message_mut": (AMSG,), "as_v4_sync_message_mut": (SMSG,)}.items():
            fn = need(INT, n)
            if not fn: continue
            m, y, mem = run(ctx, fn, [])
            if y is None: ob(n, None, "", fn); continue
            if adt in types: ob(n, y.op == "agg" and y.args[1] == "Some" and y.args[2][0].op == "mref" and y.args[2][0].args[:2] == (("param", "self"), ()) or (None if opaque_in(y) else False), "is %s" % show(y, 4)[:200], fn)
            else: ob(n, y is NONE or (None if opaque_in(y) else False), "a %s is offered as this type" % t, fn)
        # copies
        for tr, n in ((INT, "boxed"), (INT, "arced"), (INT, "thread_safe")) + (((V4I, "boxed_v4"), (V4I, "to_super")) if ver == 4 else ()):
            fn = need(tr, n)
            if not fn: continue
            m, y, _ = run(ctx, fn, [me])
            if y is None: ob(n, None, "", fn); continue
            if y.op == "call" and y.args[0].split("::")[-1] == "new" and len(y.args[1]) == 1: y = y.args[1][0]     # Mutex::new
            z = m.norm(y)
            ob(n, (z is S and is_type(y, adt)) or (None if opaque_in(z) or z.op == "call" else False), "the copy is " + show(z, 5)[:300], fn)
        for fn in c.fns:
            if "Clone for std::boxed::Box<(dyn" in fn and fn.endswith("::clone"):
                if "V4Interaction" in fn and ver != 4 or "Interaction" not in fn: continue
                m, y, _ = run(ctx, fn, [me])
                k = "clone:" + ("V4Interaction" if "V4Interaction" in fn else "Interaction")
                if y is None: ob(k, False, "a boxed %s cannot be cloned (the clone panics)" % t, fn); continue
                z = m.norm(y)
                ob(k, (z is S and is_type(y, adt)) or (None if opaque_in(z) else False), "the clone is " + show(z, 5)[:300], fn)
        for fn in c.fns:
            if fn.startswith("<(dyn ") and fn.endswith("std::fmt::Display>::fmt") and "Interaction" in fn:
                if "V4Interaction" in fn and ver != 4: continue
                m, y, mem = run(ctx, fn, [me])
                k = "display:" + ("V4Interaction" if "V4Interaction" in fn else "Interaction")
                bad = y is None or all(v.op == "agg" and v.args[1] == "Err" for _, v in alts(y))
                ob(k, not bad, "a %s cannot be displayed" % t, fn)
        if ver == 4:
            fn = need(V4I, "v4_type")
            if fn:
                m, y, _ = run(ctx, fn, [me])
                w = {HTTP: "Synchronous_HTTP", AMSG: "Asynchronous_Messages", SMSG: "Synchronous_Messages"}[adt]
                ob("v4_type", y is not None and y.op == "agg" and y.args[1] == w, "is " + (show(y) if y else "nothing"), fn)
    # keys
    for adt in (HTTP, AMSG, SMSG): keys(ctx, c, adt)

def split_some(m, y):
    goods, others = [], []
    for g, vr, p in m.I.models.split(y, OPT): (goods if vr == "Some" else others).append((g, p))
    return goods, others

def keys(ctx, c, adt):
    t = adt.split("::")[-1]
    me = selfagg(c, adt)
    fn = ctx.need(tm(adt, V4I, "unique_key"))
    wk = impl(c, adt, V4I, "with_unique_key")
    hashes = [n for n, r in c.fns.items() if n.startswith(adt + "::") and r["argc"] == 1 and c.ty(r["locals"][0]) == "std::string::String" and c.ty(r["locals"][1]) == "&" + adt]
    m, y, _ = run(ctx, fn, [me], hashes)
    k = fld(S, "key")
    good = y is not None
    for g, v in alts(y) if y is not None else []:
        v = m.norm(v)
        if v is mk("field", k, "Some", "0"): good = good and implies(g, lit(mk("discr", k), "Some"))
        elif contains_key(v, k): good = None
        elif v.op == "call" and v.args[0] in hashes: good = good and implies(g, lit(mk("discr", k), "None"))
        else: good = None if good and opaque_in(v) else good
    ctx.ob(t + ".unique_key", good, "the unique key is %s" % (show(y, 4)[:300] if y is not None else y), ctx.where(fn))
    if wk is None: ctx.ob(t + ".with_unique_key", False, "missing", fn); return
    m, y, _ = run(ctx, wk, [me], hashes)
    for f in fields_of(m.I, adt):
        a = m.norm(m.I.field(y, None, f)) if y is not None else UNDEF
        if f == "key":
            inner = [v for _, v in alts(m.I.models.payload(a, OPT))]
            ctx.ob(t + ".with_unique_key.key", a.op == "agg" and a.args[1] == "Some" and not contains(a, NONE) or (None if opaque_in(a) else False), "the key becomes " + show(a, 4)[:200], ctx.where(wk))
        else: ctx.ob("%s.with_unique_key.%s" % (t, f), a is fld(S, f) or (None if opaque_in(a) else False), "becomes " + show(a, 4)[:200], ctx.where(wk))

def contains_key(v, k): return v.op not in ("call",) and contains(v, k) and v.op != "field"

PART = "http_parts::HttpPart"
def parts(ctx):
    """The parts of an interaction behind their common interface."""
    c = ctx.models()
    ctx.rule("Each accessor of the common interface of requests, responses and messages is interpreted on an arbitrary part: it returns, or points to, the attribute it names, and changes nothing.")
    R = Cases(ctx)
    for fn0 in sorted(n for n in c.fns if n.endswith(" as %s>::body" % PART)):
        adt = fn0[1:].split(" as ")[0]
        t = adt.split("::")[-1]
        names = fields_of(Interp([c]), adt)
        if not names: continue
        at = {"body": "contents" if "body" not in names else "body", "matching_rules": "matching_rules", "generators": "generators", "headers": "headers"}
        for n, f in at.items():
            ps = (f,) if adt != AMSG else ("contents", f)       # the contents of a message hold them
            if ps[0] not in names or n == "headers" and f not in names: continue
            g = impl(c, adt, PART, n)
            if g:
                y = R.run(g, selfagg(c, adt))
                y = y if y is None else R.norm(y)
                ctx.ob("%s.part.%s" % (t, n), y is fld(S, *ps) or (None if y is None or opaque_in(y) else False), "the %s of a %s is %s" % (n, t, show(y, 4)[:200] if y is not None else y), ctx.where(g))
            g = impl(c, adt, PART, n + "_mut")
            if g and n != "headers":
                m, y, mem = run(ctx, g, [])
                good = y is not None and y.op == "mref" and y.args[0] == ("param", "self") and tuple(p[2] for p in y.args[1]) == ps
                ctx.ob("%s.part.%s_mut" % (t, n), good or (None if y is None or y.op != "mref" else False), "does not point to %s" % f, ctx.where(g))
                if y is not None and mem and mem.get(("param", "self")) is not S: ctx.ob("%s.part.%s_mut:effect" % (t, n), False, "changes the part", ctx.where(g))
    for adt in (RRI, MSG):
        t = adt.split("::")[-1]
        for n, f in (("matching_rules", "matching_rules"), ("contents", "contents")):
            g = impl(c, adt, INT, n)
            if not g: continue
            y = R.run(g, selfagg(c, adt))
            y = y if y is None else R.norm(y)
            if adt == MSG:
                want = (fld(S, f), some(fld(S, f)))
                ctx.ob("%s.%s" % (t, n), y in want or (None if y is None or opaque_in(y) else False), "the %s is %s" % (n, show(y, 4)[:200] if y is not None else y), ctx.where(g))
            elif n == "matching_rules": ctx.ob("%s.%s" % (t, n), y is NONE or (None if y is None or opaque_in(y) else False), "a request/response interaction has rules of its own: %s" % (show(y, 4)[:200] if y is not None else y), ctx.where(g))
