"""Provider states: every documented form is read, in order and with its parameters; what is written is read back."""
from common import *

FORM = ("The reader of provider states is interpreted on each form that the specifications give them (a list of objects, a single name, the older attribute, null, nothing) with arbitrary names and parameters, "
        "and the writer's document is read back.")

def states(ctx):
    c = ctx.models()
    ctx.rule(FORM)
    R = Cases(ctx)
    rd, r3, w = (ctx.need(PS + x) for x in ("::from_json", "::from_json_v3", "::to_json"))
    W = ctx.where
    st = lambda n, p=EMPTY: R.struct(PS, name=n if isinstance(n, T) else cstr(n), params=p)
    arr = lambda *xs: agg(VALUE, "Array", (listof(*xs),))
    n1, n2, v1, v2 = sym("name1"), sym("name2"), sym("value1"), sym("value2")
    PV = [("any", v1)] + [(k, agg(VALUE, k, p)) for k, p in (("Null", ()), ("Bool", (boolc(False),)), ("String", (cstr(""),)), ("String blank", (cstr(" "),)), ("Array", (listof(),)), ("Object", (EMPTY,)))]
    PV = [(k, v if k != "String blank" else jstr(" ")) for k, v in PV]
    # written and read back
    for k, v in PV:
        x = st(n1, dict_of(("p", v), ("q", v2)))
        judge(ctx, "written: parameter %s" % k, R.run(r3, R.run(w, x)), x, W(w), "the state read back is")
    for k, p in (("none", EMPTY), ("two", dict_of(("a", v1), ("B", v2)))):
        for nn, n in (("any", n1), ("empty", cstr("")), ("blank", cstr(" "))):
            x = st(n, p)
            j = R.run(w, x)
            judge(ctx, "written: %s name, %s" % (nn, k), R.run(r3, j), x, W(w), "the state read back is")
            judge(ctx, "written in a list: %s name, %s" % (nn, k), R.run(rd, obj(providerStates=arr(j, R.run(w, st(n2))))), listof(x, st(n2)), W(rd), "the states read back are")
    # forms
    o = lambda **k: obj(**k)
    blank = jstr(" ")
    for key, doc, want in [
        ("nothing", o(description=jstr("d")), listof()),
        ("empty list", o(providerStates=arr()), listof()),
        ("one", o(providerStates=arr(o(name=jstr(n1)))), listof(st(n1))),
        ("two in order", o(providerStates=arr(o(name=jstr(n1), params=agg(VALUE, "Object", (dict_of(("p", v1)),))), o(name=jstr(n2)))), listof(st(n1, dict_of(("p", v1))), st(n2))),
        ("same name twice", o(providerStates=arr(o(name=jstr(n1), params=agg(VALUE, "Object", (dict_of(("p", v1)),))), o(name=jstr(n1), params=agg(VALUE, "Object", (dict_of(("p", v2)),))))), listof(st(n1, dict_of(("p", v1))), st(n1, dict_of(("p", v2))))),
        ("list before name", o(providerStates=arr(o(name=jstr(n1))), providerState=jstr(n2)), listof(st(n1))),
        ("single name", o(providerState=jstr("a state")), listof(st("a state"))),
        ("single blank name", o(providerState=blank), listof(st(" "))),
        ("single empty name", o(providerState=jstr("")), listof()),
        ("single null", o(providerState=agg(VALUE, "Null", ())), listof()),
        ("older name", o(provider_state=jstr("a state")), listof(st("a state"))),
        ("older null", o(provider_state=agg(VALUE, "Null", ())), listof()),
        ("current before older", o(providerState=jstr("new"), provider_state=jstr("old")), listof(st("new"))),
    ]:
        judge(ctx, "form: " + key, R.run(rd, doc), want, W(rd), "the states read are")
    # any name that is not empty
    y = R.run(rd, o(providerState=jstr(n1)))
    ok_ = named_or_none(y, st(n1), lambda w: w.op == "call" and w.args[0] == "is_empty" and w.args[1][0] is n1)
    ctx.ob("form: any name", ok_, "the states read are " + show(y, 6)[:300], W(rd))

def named_or_none(act, want, empty):
    """A list of exactly `want`; nothing only where a test that `empty` accepts holds."""
    for g, v in alts(act):
        if v.op == "agg" and v.args[0] == "[]":
            if len(v.args[2]) == 1 and same(v.args[2][0], want): continue
            h = neg(g) if not v.args[2] else None
            if v.args[2]: return None if opaque_in(v) else False
        elif v.op == "coll" and not v.args[0]:
            h = None
            for k, x, cond in v.args[1]:
                if not same(x, want): return None if opaque_in(x) else False
                h = cond
            # left out only where the name is empty
            if h is None: h = neg(g)
            else: h = disj([x for x in (h, neg(g)) if x is not None])
        else: return None if opaque_in(v) else False
        n = TT if h is None else neg(h)
        if n is None: continue
        es = [lit(w, True) for w in support(n) if empty(w)]
        if not es or not implies(n, disj(es)): return None if any(opaque_in(w) for w in support(n)) else False
    return True

@prop("P34", "Provider states are read and written in every documented form", floor=30)
def p34(ctx): states(ctx)
