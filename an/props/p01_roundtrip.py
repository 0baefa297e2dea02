"""Round trips: a document written by the library and read back gives the value that was written."""
from common import *

RULE = ("Composition by interprocedural value-flow analysis over MIR: the reader is interpreted on the abstract JSON document the writer builds for a symbolic value, "
        "and the normal form (global value numbering with branch conditions as decision diagrams) of every field of the result must be that field of the value written. "
        "Nested parts are summarised by their own reader/writer pair, which has its own obligations.")

def upper_of(act, want): return act is want or act.op == "call" and act.args[0] == "to_uppercase" and act.args[1][0] is want

def body_typed(act, want):
    """The body itself; its content type may be filled in when it was absent."""
    if act is want: return True
    for g, v in alts(act):
        if v is want: continue
        if v.op == "agg" and v.args[0] == BODY:
            if not implies(g, lit_discr(want, v.args[1])): return False
            if v.args[1] == "Present":
                b, ct, hint = v.args[2]
                if b is not mk("field", want, "Present", "0") or hint is not mk("field", want, "Present", "2"): return False
                o = mk("field", want, "Present", "1")
                for g2, c in alts(ct):
                    if c is o: continue
                    if c.op == "agg" and c.args[1] == "Some" and c.args[2][0] is mk("field", o, "Some", "0"): continue
                    if implies(g2, lit_discr(o, "None")): continue
                    return False
        else: return False
    return True

def lit_discr(x, v):
    d = mk("discr", x)
    return lit(d, v) if d in DOMAIN else TT

def none_or_id(act, want): return act is NONE

S = sym("self")
def rt(ctx, key, writer, reader, adt, wargs=None, rargs=lambda v: [v], expect=None, skip=(), result="Ok", only=None, **kw):
    c = ctx.models()
    ctx.need(writer); ctx.need(reader)
    ctx.rule(RULE)
    m = comp(ctx, skip=set(skip) | {reader, writer}, **kw)
    try: y = m.roundtrip(writer, reader, wargs, rargs)
    except Budget as e:
        ctx.ob(key, None, "analysis budget exhausted in %s" % e, ctx.where(reader)); return None, None
    check_fields(ctx, key, m, y, adt, S, expect, ctx.where(reader), result, only)
    return m, y

@prop("P01", "V4 HTTP interactions survive a write/read cycle", floor=20)
def p01(ctx):
    ix = lambda v: [v, sym("index")]
    rt(ctx, "http", tm(HTTP, V4I, "to_json"), HTTP + "::from_json", HTTP, rargs=ix, expect={"id": none_or_id, "comments": drops_only_empty})
    rt(ctx, "request", REQ4 + "::to_json", REQ4 + "::from_json", REQ4, expect={"method": upper_of, "body": body_typed})
    rt(ctx, "response", RES4 + "::to_json", RES4 + "::from_json", RES4, expect={"body": body_typed})
    markup(ctx)
    shared(ctx)

def shared(ctx, bodies=True):
    """The parts that interactions of every kind are made of (imported late: these modules use this one)."""
    import props.p34_states, props.p09_names, props.p10_bodies
    with ctx.part("provider states"): props.p34_states.states(ctx)
    with ctx.part("names"): props.p09_names.names(ctx, (props.p09_names.HINT, props.p09_names.VIT))
    if bodies:
        with ctx.part("bodies"): props.p10_bodies.bodies(ctx)

def markup(ctx):
    n = "v4::interaction::InteractionMarkup"
    rt(ctx, "markup", n + "::to_json", n + "::from_json", n, result=None)

@prop("P02", "V4 asynchronous and synchronous messages survive a write/read cycle", floor=25)
def p02(ctx):
    ix = lambda v: [v, sym("index")]
    rt(ctx, "async", tm(AMSG, V4I, "to_json"), AMSG + "::from_json", AMSG, rargs=ix, expect={"id": none_or_id, "comments": drops_only_empty})
    rt(ctx, "sync", tm(SMSG, V4I, "to_json"), SMSG + "::from_json", SMSG, rargs=ix, expect={"id": none_or_id, "comments": drops_only_empty})
    rt(ctx, "contents", MC + "::to_json", MC + "::from_json", MC, expect={"contents": body_typed})
    markup(ctx)
    shared(ctx)
