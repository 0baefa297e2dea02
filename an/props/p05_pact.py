"""Whole pacts survive a write/read cycle."""
from common import *
from props.p01_roundtrip import S

V4P, RRP, MP = "v4::pact::V4Pact", "sync_pact::RequestResponsePact", "message_pact::MessagePact"
PT = "pact::Pact"
IFJ = "v4::interaction::interaction_from_json"
EMPTYC = mk("coll", frozenset(), frozenset())
FRESH = "\u0001other"

def inverse(pairs):
    """Rule: reader(.., writer(x, ..), ..) is x (each pair has its own property); the specification versions must agree."""
    def rule(N, t):
        n, a = t.args
        for reader, writer, wrap in pairs:
            if n != reader: continue
            for x in a:
                if x.op == "call" and (x.args[0] == writer or writer == "dyn" and x.args[0].split("::")[-1] == "to_json"):
                    sp = [y for y in x.args[1][1:] if y.op == "agg" and y.args[0] == SPEC]
                    sr = [y for y in a if y.op == "agg" and y.args[0] == SPEC]
                    if sp != sr and sp and sr: return None
                    return agg(RES, "Ok", (x.args[1][0],)) if wrap else x.args[1][0]
        if n == "from_value" and a[0].op == "jsonof": return agg(RES, "Ok", (a[0].args[1],))
        if n == "from_value" and a[0].op == "field" and a[0].args[1] == "Ok" and a[0].args[0].op == "call" and a[0].args[0].args[0] == "to_value": return agg(RES, "Ok", (a[0].args[0].args[1][0],))
        return None
    return rule

def same_elems(act, want, ordered):
    """act holds exactly the elements of want (ordered: in the same order)."""
    x = act
    if x.op == "coll" and not x.args[0] and len(x.args[1]) == 1:
        k, v, g = next(iter(x.args[1]))
        if k is None and v.op == "elem" and g is TT: x = v.args[0]
    if x is want: return True
    if not ordered and x.op == "call" and x.args[0] in ("sorted", "rev") and x.args[1][0] is want: return True
    return None if opaque_in(act) else False

def pact(ctx, key, adt, reader, spec_v, field, pairs, meta_val, ordered):
    c = ctx.models()
    W, R = ctx.need(tm(adt, PT, "to_json")), ctx.need(reader)
    names = fields_of(Interp([c]), adt)
    wh = ctx.where(R)
    m = comp(ctx, skip={W, R})
    for r, w, _ in pairs: m.opq.update([r, w])
    m.rules = [inverse(pairs)] + m.rules
    rargs = (lambda v: [v, sym("source")]) if adt == V4P else (lambda v: [sym("source"), v])
    def go(meta):
        me = agg(adt, adt.split("::")[-1], tuple(meta if x == "metadata" else spec(spec_v) if x == "specification_version" else mk("field", S, None, x) for x in names))
        y = m.roundtrip(W, R, [me, spec(spec_v)], lambda v: rargs(phi([(g, x) for g, x in split_result(v)[0]])))
        finish(ctx, m)
        return y
    def get(md, *ks):
        for k in ks:
            o = m.I.models.get(md, cstr(k))
            md = m.N(m.I.models.payload(o, OPT)) if o is not NONE else None
            if md is None: return None
        return md
    y = go(EMPTYC)
    goods, others = split_result(y)
    ctx.ob(key + ":result", True if goods and not others else None if any(opaque_in(v) or any(opaque_in(x) for x in support(g)) for g, v in others) else False,
           "a written pact is rejected when it is read back: " + "; ".join(show_g(g, 4)[:300] + show(v, 3)[:100] for g, v in others[:2]), wh)
    if not goods: return
    v = phi(goods)
    F = lambda f: m.N(m.I.field(v, None, f))
    for f in names:
        act, want = F(f), mk("field", S, None, f)
        if f in ("consumer", "provider"): ok_ = act is want
        elif f == "specification_version": ok_ = act is spec(spec_v)
        elif f == field: ok_ = same_elems(act, want, ordered)
        elif f == "plugin_data": ok_ = same_elems(act, want, True) or plugin_elems(act, want)
        elif f == "metadata":
            ver = get(act, "pactSpecification", "version")
            if adt == V4P and ver is not None and ver.op == "agg": ver = ver.args[2][0]
            ok_ = ver is cstr(VERSIONS[spec_v]) and get(act, "pactRust") is not None and get(act, "pact-specification") is None and get(act, "plugins") is None
        else: continue
        ctx.ob("%s.%s" % (key, f), None if ok_ is False and opaque_in(act) else ok_, "the value read back is %s" % show(act, 7)[:500], wh)
    # every metadata key: the ones the code compares with, and one that differs from all of them
    mv = meta_val
    for k in (FRESH, "pactSpecification", "pact-specification", "pactRust", "pact-rust"):
        y = go(mk("coll", frozenset(), frozenset([(cstr(k), mv, TT)])))
        goods, _ = split_result(y)
        kk = "%s.metadata[%s]" % (key, k.strip("\u0001"))
        if not goods: ctx.ob(kk, False, "never read back", wh); continue
        md = m.N(m.I.field(phi(goods), None, "metadata"))
        nk = {"pact-specification": "pactSpecification", "pact-rust": "pactRust"}.get(k, k)
        a = get(md, nk)
        if a is None: ctx.ob(kk, False, "the entry is lost: " + show(md, 5)[:300], wh); continue
        if nk == "pactSpecification":
            ver = get(md, nk, "version")
            if adt == V4P and ver is not None and ver.op == "agg": ver = ver.args[2][0]
            ctx.ob(kk, ver is cstr(VERSIONS[spec_v]) or (None if opaque_in(a) else False), "the version is " + (show(ver, 5)[:200] if ver is not None else "gone"), wh)
        elif nk == "pactRust":
            ctx.ob(kk, contains(a, mv) or (None if opaque_in(a) else False), "the tool versions of the pact are lost: " + show(a, 5)[:300], wh)
        else: ctx.ob(kk, kept(a, mv) or (None if opaque_in(a) else False), "the entry comes back as " + show(a, 6)[:300], wh)

def kept(a, mv):
    if a is mv: return True
    # a map copied entry by entry
    if a.op == "coll" and not a.args[0] and len(a.args[1]) == 1:
        k, v, g = next(iter(a.args[1]))
        e = mk("elem", mv)
        return k is mk("field", e, None, "0") and v is mk("field", e, None, "1") and g is TT
    return False

def plugin_elems(act, want):
    if act.op == "coll" and not act.args[0] and len(act.args[1]) == 1:
        k, v, g = next(iter(act.args[1]))
        if v is mk("elem", want) and not [w for w in support(g) if not (w.op == "call" and w.args[0] == "is_empty" and w.args[1][0] is want)
                                          and not (w.op == "discr" and w.args[0].op == "call" and w.args[0].args[0] in ("to_value", "from_value"))]: return True
    return False

VERSIONS = {"V4": "4.0", "V3": "3.0.0", "V2": "2.0.0", "V1_1": "1.1.0", "V1": "1.0.0"}

@prop("P05", "Pacts survive a write/read cycle", floor=35)
def p05(ctx):
    ctx.rule("The pact writer is composed with the pact reader (interprocedural value flow over MIR); consumer, provider, every interaction or message, plugin data and the specification version must come back. "
             "Metadata is decided per equivalence class of keys: each key the code compares with, and one that differs from all of them.")
    v4 = [(IFJ, "dyn", True)]
    pact(ctx, "v4", V4P, V4P + "::pact_from_json", "V4", "interactions", v4, sym("value"), False)
    boxed(ctx)
    for s in ("V3", "V2", "V1_1", "V1"):
        pact(ctx, "http." + s, RRP, RRP + "::from_json", s, "interactions", [(RRI + "::from_json", RRI + "::to_json", True)], sym("values"), True)
    pact(ctx, "message", MP, MP + "::from_json", "V3", "messages", [(MSG + "::from_json", MSG + "::to_json", True)], sym("values"), True)
    dispatch(ctx)
    with ctx.part("several"): several(ctx)

def several(ctx):
    """Pacts with several interactions, some of them alike in everything but one part, are written and read back with all of them."""
    from props.p33_pacts import Pacts
    c = ctx.models()
    R = Pacts(ctx)
    for t, kinds, v, reader in ((V4P, (HTTP, AMSG, SMSG), "V4", V4P + "::pact_from_json"), (RRP, (RRI,), "V3", RRP + "::from_json"), (MP, (MSG,), "V3", MP + "::from_json")):
        W, RD = ctx.need(tm(t, PT, "to_json")), ctx.need(reader)
        fld = "messages" if t == MP else "interactions"
        def one(kind, d, ss=(), key=None): return R.inter(kind, d=d, ss=ss, **({"id": NONE, "key": key} if t == V4P else {"id": NONE}))
        for kind in kinds:
            k2 = kinds[(kinds.index(kind) + 1) % len(kinds)]
            sets = [("same", [one(kind, "a"), one(kind, "a", ("s",))]), ("equal", [one(kind, "a"), one(kind, "a")]), ("order", [one(kind, "b"), one(kind, "a"), one(kind, "c")]),
                    ("apart", [one(kind, "a"), one(kind, "b"), one(kind, "a", ("s",))]), ("states", [one(kind, "a", ("s",)), one(kind, "b", ("s",))]), ("none", []), ("empty", [one(kind, ""), one(kind, "", ("s",))]),
                    ("case", [one(kind, "a"), one(kind, "A"), one(kind, " a")])]
            if t == V4P: sets += [("keys", [one(kind, "a", key="k"), one(kind, "a", key="l")]), ("key", [one(kind, "a", key="k"), one(kind, "b", key="k")]), ("kinds", [one(kind, "a"), one(k2, "a")])]
            for n, xs in sets:
                key = "%s.several.%s.%s" % (t.split("::")[-1], kind.split("::")[-1], n)
                js = []
                for x in xs:
                    p, xi = R.run(W, R.pact(t, [x]), spec(v)), None
                    j = good_(p)
                    js.append(R.entry(j, fld) if j is not None else None)
                y = good_(R.run(W, R.pact(t, xs), spec(v)))
                got = R.entry(y, fld) if y is not None else None
                def arr(g): return list(g.args[2][0].args[2]) if g is not None and g.op == "agg" and g.args[:2] == (VALUE, "Array") and g.args[2][0].op == "agg" and g.args[2][0].args[0] == "[]" else [] if g is not None and g.op == "agg" and g.args[:2] == (VALUE, "Array") and g.args[2][0] is EMPTY else None
                js = [arr(j) for j in js]
                got = arr(got)
                if got is None or any(j is None or len(j) != 1 for j in js): ctx.ob(key, None, "the written pact is not known: " + show(y, 4)[:300] if y is not None else "no result", ctx.where(W)); continue
                want = [j[0] for j in js]
                same = len(got) == len(want) and all(sum(x is g for g in got) == sum(x is w for w in want) for x in want)
                if same and t != V4P: same = all(g is w for g, w in zip(got, want))
                ctx.ob(key, same or (None if any(opaque_in(g) for g in got) else False), "%d interactions are written as %d: %s" % (len(xs), len(got), "; ".join(show(g, 6)[:200] for g in got)), ctx.where(W))
                back = R.run(RD, *([y, cstr("f")] if t == V4P else [cstr("f"), y]))
                b = good_(back)
                bl = R.norm(R.I.field(b, None, fld)) if b is not None else None
                if bl is not None and bl is EMPTY: bl = listof()
                n_ = len(bl.args[2]) if bl is not None and bl.op == "agg" and bl.args[0] == "[]" else None
                ctx.ob(key + ":read", None if n_ is None else n_ == len(xs), "%d interactions are read back as %s" % (len(xs), n_ if n_ is not None else show(back, 4)[:300]), ctx.where(RD))

        # an interaction without a description gets one from its place
        for kind in kinds:
            y = good_(R.run(W, R.pact(t, [one(kind, x) for x in "abc"]), spec(v)))
            def bare(o):
                return agg(VALUE, "Object", (mk("coll", frozenset(), frozenset(e for e in o.args[2][0].args[1] if e[0] is not cstr("description"))),))
            try:
                ents = {k: x for k, x, g in y.args[2][0].args[1]}
                js = agg(VALUE, "Array", (listof(*[bare(o) for o in ents[cstr(fld)].args[2][0].args[2]]),))
                doc = agg(VALUE, "Object", (mk("coll", frozenset(), frozenset((k, js if k is cstr(fld) else x, TT) for k, x in ents.items())),))
            except (AttributeError, KeyError, IndexError): ctx.ob("%s.unnamed.%s" % (t.split("::")[-1], kind.split("::")[-1]), None, "the written pact is not known", ctx.where(W)); continue
            b = good_(R.run(RD, *([doc, cstr("f")] if t == V4P else [cstr("f"), doc])))
            xs = R.norm(R.I.field(b, None, fld)) if b is not None else None
            for i in range(3):
                try: d = R.get(xs.args[2][i], "description")
                except Exception: d = xs if xs is not None else mk("undef")
                if d.op == "call" and len(d.args[1]) == 1: d = d.args[1][0]
                judge(ctx, "%s.unnamed.%s.%d" % (t.split("::")[-1], kind.split("::")[-1], i), d, cstr("%s %d" % ("Message" if t == MP else "Interaction", i)), ctx.where(RD), "the description is")

def good_(y): return y.args[2][0] if y.op == "agg" and y.args[:2] == (RES, "Ok") else None

def boxed(ctx):
    """The other readers of a V4 pact agree with the one checked above."""
    c = ctx.models()
    a = V4P + "::pact_from_json"
    rs = [n for n in fns_by_sig(c, c.ty(c.fns["v4::pact::from_json"]["locals"][0]), "&str")] if "v4::pact::from_json" in c.fns else []
    if not rs: ctx.ob("v4.from_json", False, "no loader of V4 pacts found", "rust/pact_models/src/v4/pact.rs")
    for n in rs:
        if not n.startswith("v4::"): continue
        m = comp(ctx)
        m.opq.add(IFJ)
        x, _ = m.interp(a, [sym("json"), sym("source")]); x = m.norm(x)
        y, _ = m.interp(n, [sym("source"), sym("json")]); y = m.norm(y)
        finish(ctx, m)
        gx, gy = split_result(x)[0], split_result(y)[0]
        for f in fields_of(m.I, V4P):
            p, q = m.N(m.I.field(phi(gx), None, f)), m.N(m.I.field(phi(gy), None, f))
            ctx.ob("v4.from_json.%s" % f, p is q or (None if opaque_in(q) or opaque_in(p) else False), "the loaders disagree: %s and %s" % (show(p, 5)[:200], show(q, 5)[:200]), ctx.where(n))

def dispatch(ctx):
    """Every interaction type is written with the type attribute its own reader is selected by."""
    c = ctx.models()
    R = ctx.need(IFJ)
    for adt in (HTTP, AMSG, SMSG):
        W, rd = ctx.need(tm(adt, V4I, "to_json")), ctx.need(adt + "::from_json")
        m = comp(ctx, skip={W, R, rd})
        m.opq.add(rd)
        y = m.roundtrip(W, R, [S], lambda v: [sym("source"), sym("index"), v])
        finish(ctx, m)
        goods, others = split_result(y)
        k = "dispatch:" + adt.split("::")[-1]
        readers = {t.args[0] for t in find_all(y, lambda t: t.op == "call" and t.args[0].endswith("::from_json"))}
        bad = [(g, v) for g, v in alts(y) if not (v.op == "call" and v.args[0] == rd or find_all(v, lambda t: t.op == "call" and t.args[0] == rd))]
        unk = opaque_in(y)
        ctx.ob(k, readers == {rd} or (None if unk and not readers - {rd} else False), "read back by %s" % (sorted(readers) or "nothing"), ctx.where(R))
        ctx.ob(k + ":accepted", not bad or (None if unk else False), "a written interaction is rejected: " + "; ".join(show_g(g, 4)[:300] + show(v, 3)[:100] for g, v in bad[:2]), ctx.where(R))
