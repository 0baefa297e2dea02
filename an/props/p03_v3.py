"""V2/V3 models: messages, requests, responses, interactions and provider states survive a write/read cycle."""
from common import *
from props.p01_roundtrip import rt, S, upper_of, none_or_id
from props.p22_query import forms as query_forms
from props.p10_bodies import classify
from props.p34_states import named_or_none, states as provider_states

def headers_joined(act, want):
    """Every header is kept under its own name, with the values written as one list and split again."""
    if act is want: return True
    some_seen = False
    for g, v in alts(act):
        if v is NONE:
            if not implies(g, lit(mk("discr", want), "None")): return False
            continue
        if not (v.op == "agg" and v.args[0] == OPT): return None if opaque_in(v) else False
        c = under(v, g).args[2][0]
        p = mk("field", want, "Some", "0")
        if c is p: continue
        if c.op != "coll" or c.args[0] or len(c.args[1]) != 1: return None if opaque_in(c) else False
        k, x, h = next(iter(c.args[1]))
        e = mk("elem", p)
        if k is not mk("field", e, None, "0"): return False
        # every header is written
        bad = [w for w in support(h) if not (w.op == "call" and w.args[0] == "is_empty" and w.args[1][0] is p)]
        if h is not TT and bad: return None if any(opaque_in(w) for w in bad) else False
        vals = mk("field", e, None, "1")
        if not values_ok(x, vals, k): return None if opaque_in(x) else False
        some_seen = True
    return True

LIB = {"split", "join", "trim", "to_lowercase", "contains", "is_empty", "to_ascii_lowercase", "eq_ic"}
def values_ok(x, vals, k):
    """x is built from all of `vals` by joining and splitting only."""
    if x is vals: return True
    leaves = find_all(x, lambda t: t is vals)
    if not leaves: return False
    for t in find_all(x, lambda t: t.op == "call"):
        n = t.args[0].split("::")[-1]
        if n not in LIB: return None
        if n == "join" and t.args[1][1].op == "const" and t.args[1][1].args[1].strip() != ",": return False
        if n == "split" and t.args[1][1].op == "const" and t.args[1][1].args[1] != ",": return False
    for t in find_all(x, lambda t: t.op == "field"):
        if t.args[0].op == "elem" and t is not vals and t is not k: return False
    return True

def any_body(act, want): return True

SPECS = ("V3", "V2", "V1_1", "V1")

@prop("P03", "V3 messages survive a write/read cycle", floor=10)
def p03(ctx):
    rt(ctx, "message", MSG + "::to_json", MSG + "::from_json", MSG, [S, spec("V3")], lambda v: [sym("index"), v, spec("V3")],
       expect={"id": none_or_id, "contents": any_body})
    states(ctx, "message", MSG, MSG + "::to_json", MSG + "::from_json", "contents", [spec("V3")], lambda v: [sym("index"), v, spec("V3")])
    rt(ctx, "state", PS + "::to_json", PS + "::from_json_v3", PS, result=None)
    with ctx.part("provider states"): provider_states(ctx)

@prop("P04", "V2/V3 request-response interactions survive a write/read cycle", floor=30)
def p04(ctx):
    rt(ctx, "interaction", RRI + "::to_json", RRI + "::from_json", RRI, [S, spec("V3")], lambda v: [sym("index"), v, spec("V3")], expect={"id": none_or_id})
    for s in SPECS:
        ra = lambda v: [v, spec(s)]
        q = {"query": query_v2} if s != "V3" else {}
        rt(ctx, "request." + s, REQ + "::to_json", REQ + "::from_json", REQ, [S, spec(s)], ra, expect={"method": upper_of, "headers": headers_joined, "body": any_body} | q)
        rt(ctx, "response." + s, RESP + "::to_json", RESP + "::from_json", RESP, [S, spec(s)], ra, expect={"headers": headers_joined, "body": any_body})
    for s in ("V3", "V2"):
        ra = lambda v: [v, spec(s)]
        states(ctx, "request." + s, REQ, REQ + "::to_json", REQ + "::from_json", "body", [spec(s)], ra)
        states(ctx, "response." + s, RESP, RESP + "::to_json", RESP + "::from_json", "body", [spec(s)], ra)
    # before V3 only the first provider state can be written, by name
    for s in SPECS[1:]:
        m, y = rt(ctx, "interaction." + s, RRI + "::to_json", RRI + "::from_json", RRI, [S, spec(s)], lambda v: [sym("index"), v, spec(s)],
                  expect={"id": none_or_id, "provider_states": first_state})
    rt(ctx, "state", PS + "::to_json", PS + "::from_json_v3", PS, result=None)
    with ctx.part("provider states"): provider_states(ctx)
    with ctx.part("query"): query_forms(ctx)

def query_v2(act, want):
    """The query string is encoded and parsed: decided by its own property; here it must stem from the query and exist when it does."""
    if act is want: return True
    return bool(find_all(act, lambda t: t is mk("field", want, "Some", "0"))) or act.op in ("phi", "call") and opaque_in(act)

def first_state(act, want):
    """The name of the first provider state is kept (before V3 nothing else can be written)."""
    if act is want: return True
    names = find_all(act, lambda t: t.op == "field" and t.args[2] == "name" and contains(t, want))
    if not names: return None if opaque_in(act) else False
    n = names[0]
    return named_or_none(act, agg(PS, "ProviderState", (n, EMPTY)), lambda w: w.op == "call" and w.args[0] == "is_empty" and w.args[1][0] in (n, want) or w.op == "discr" and contains(w, want))

def states(ctx, key, adt, writer, reader, field, wextra, rargs):
    """Missing, empty and null bodies are told apart; present ones stay present."""
    c = ctx.models()
    ctx.rule("The states of a body (missing, empty, null, present) are written so that the reader tells them apart: the writer is interpreted with the body fixed to each state and the reader on the result.")
    m = comp(ctx, skip={writer, reader}, bodies=False)
    for b in fns_by_sig(c, "std::option::Option<content_types::ContentType>", "&" + BODY): m.opq.add(b)
    for b in fns_by_sig(c, "std::option::Option<content_types::ContentType>", "&" + adt): m.opq.add(b)
    for n in c.fns:
        if n.startswith("content_types::") or "content_types::ContentType as" in n: m.opq.add(n)
    names = fields_of(Interp([c]), adt) or []
    # what a present body is written as
    b = sym("bytes")
    me = agg(adt, adt.split("::")[-1], tuple(agg(BODY, "Present", (b, sym("ct"), sym("hint"))) if f == field else mk("field", S, None, f) for f in names))
    try:
        w, _ = m.interp(writer, [me] + wextra)
        kinds = set()
        for o in [v for _, v in alts(m.norm(w))]:
            if not (o.op == "agg" and o.args[0] == VALUE and o.args[1] == "Object"): kinds.add(None); continue
            for g, v in alts(m.N(m.I.models.get(o.args[2][0], cstr(field)))):
                if v is NONE: kinds.add("absent"); continue
                for _, x in alts(m.N(m.I.models.payload(v, OPT))):
                    k = classify(x, b)
                    if k == "?": k = "lossy text" if find_all(x, lambda t: t.op == "call" and "lossy" in t.args[0]) else "constant" if not contains(x, b) and not opaque_in(x) else None
                    kinds.add(k)
        good = kinds == {"json", "text", "base64"}
        ctx.ob("%s.%s:written" % (key, field), good or (None if None in kinds and not kinds & {"lossy text", "constant", "absent"} else False), "a body is written as %s; its JSON, its text and base64 of bytes that are neither are needed" % sorted(map(str, kinds)), ctx.where(writer))
    except Budget: ctx.ob("%s.%s:written" % (key, field), None, "budget", ctx.where(writer))
    for st in ("Missing", "Empty", "Null", "Present"):
        body = agg(BODY, st, () if st != "Present" else (sym("bytes"), sym("ct"), sym("hint")))
        me = agg(adt, adt.split("::")[-1], tuple(body if f == field else mk("field", S, None, f) for f in names))
        k = "%s.%s:%s" % (key, field, st)
        try: y = m.roundtrip(writer, reader, [me] + wextra, rargs)
        except Budget as e: ctx.ob(k, None, "budget", ctx.where(reader)); continue
        finish(ctx, m)
        goods, _ = split_result(y)
        act = m.N(m.I.field(phi(goods), None, field)) if goods else None
        if act is None: ctx.ob(k, False, "never read back", ctx.where(reader)); continue
        bad, unk = [], False
        for g, v in alts(act):
            if v.op == "agg" and v.args[0] == BODY:
                if v.args[1] == st: continue
                if st == "Present" and v.args[1] in ("Empty", "Null"):
                    # an empty text or a JSON null
                    if any(w.op == "call" and w.args[0] == "is_empty" or w.op == "discr" for w in support(g)): continue
                bad.append((g, v))
            elif opaque_in(v) or v.op in ("call", "field"): unk = True
            else: bad.append((g, v))
        if bad: ctx.ob(k, False, "a body that is %s comes back as %s" % (st.lower(), "; ".join(show(v, 3)[:80] for g, v in bad)), ctx.where(reader))
        else: ctx.ob(k, None if unk else True, "", ctx.where(reader))
