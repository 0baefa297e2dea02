"""Pacts: their interactions, plugins and metadata."""
from common import *
import itertools

V4P, RRP, MP = "v4::pact::V4Pact", "sync_pact::RequestResponsePact", "message_pact::MessagePact"
PT, PD = "pact::Pact", "plugins::PluginData"
LIST = {V4P: "interactions", RRP: "interactions", MP: "messages"}
KINDS = {HTTP: "Synchronous_HTTP", AMSG: "Asynchronous_Messages", SMSG: "Synchronous_Messages"}
V4T = "v4::V4InteractionType"
VERS = {"V1": "1.0.0", "V1_1": "1.1.0", "V2": "2.0.0", "V3": "3.0.0", "V4": "4.0"}

class Pacts(Cases):
    """Pacts and interactions of every type."""
    def states(R, ss): return listof(*[R.struct(PS, name=cstr(s), params=EMPTY) for s in ss])
    def inter(R, kind, i="1", d="a", ss=(), key=None, **k):
        body, rules, gens = agg(BODY, "Missing", ()), agg(MRS, "MatchingRules", (EMPTY,)), agg(GENS, "Generators", (EMPTY,))
        f = dict(id=some(cstr(i)), description=cstr(d), provider_states=R.states(ss))
        if kind in (HTTP, AMSG, SMSG):
            f.update(key=NONE if key is None else some(cstr(key)), comments=EMPTY, pending=FALSE, plugin_config=EMPTY, interaction_markup=R.struct("v4::interaction::InteractionMarkup", markup=cstr(""), markup_type=cstr("")), transport=NONE)
        p = dict(headers=NONE, body=body, matching_rules=rules, generators=gens)
        mc = R.struct(MC, contents=body, metadata=EMPTY, matching_rules=rules, generators=gens)
        if kind in (RRI, HTTP):
            f.update(request=R.struct(REQ if kind == RRI else REQ4, method=cstr("GET"), path=cstr("/"), query=NONE, **p), response=R.struct(RESP if kind == RRI else RES4, status=const("int", 200), **p))
        elif kind == MSG: f.update(contents=body, metadata=EMPTY, matching_rules=rules, generators=gens)
        elif kind == AMSG: f.update(contents=mc)
        else: f.update(request=mc, response=listof(mc))
        f.update(k)
        return R.struct(kind, **f)
    def pact(R, t, xs=(), c="c", p="p", **k):
        f = {LIST[t]: listof(*xs), "consumer": agg("Consumer", "Consumer", (cstr(c),)), "provider": agg("Provider", "Provider", (cstr(p),)), "metadata": EMPTY}
        if t == V4P: f["plugin_data"] = listof()
        else: f["specification_version"] = spec("V3")
        f.update(k)
        return R.struct(t, **f)
    def entry(R, v, *ks):
        """An entry of nested JSON objects; None when absent."""
        for k in ks:
            if v.op == "agg" and v.args[0] == VALUE and v.args[1] == "Object": v = v.args[2][0]
            if v.op != "coll": return UNDEF
            o = R.I.models.get(v, cstr(k))
            if o is NONE: return None
            if not (o.op == "agg" and o.args[1] == "Some"): return UNDEF
            v = o.args[2][0]
        return v

def good(y, adt=None):
    """The value of an Ok result, when it is one."""
    if y.op == "agg" and y.args[:2] == (RES, "Ok") and (adt is None or y.args[2][0].op == "agg" and y.args[2][0].args[0] == adt): return y.args[2][0]
    return None
def is_err(y): return y.op == "agg" and y.args[:2] == (RES, "Err")

def lists(ctx, key, got, want, where, what):
    """An exact list."""
    judge(ctx, key, got if got is not EMPTY else listof(), listof(*want), where, what)

def views(ctx, R):
    """The getters, copies and conversions of every pact type."""
    W = ctx.where
    for t, own in ((V4P, HTTP), (RRP, RRI), (MP, MSG)):
        n = t.split("::")[-1]
        f = lambda me: ctx.need(tm(t, PT, me))
        for cnt in range(3):
            xs = [R.inter(own, str(i), "d%d" % i) for i in range(cnt)]
            p = R.pact(t, xs)
            lists(ctx, "%s interactions %d" % (n, cnt), R.run(f("interactions"), p), xs, W(f("interactions")), "the interactions are")
            y = R.run(f("interactions_mut"), mk("sym", "self")) if cnt == 0 else None
        md = dict_of(("a", dict_of(("x", cstr("1"))))) if t != V4P else dict_of(("a", obj(x=jstr("1"))), ("b", jstr("2")))
        p = R.pact(t, [R.inter(own)], metadata=md, **({} if t == V4P else dict(specification_version=spec("V2"))))
        judge(ctx, n + " consumer", R.run(f("consumer"), p), R.get(p, "consumer"), W(f("consumer")), "the consumer is")
        judge(ctx, n + " provider", R.run(f("provider"), p), R.get(p, "provider"), W(f("provider")), "the provider is")
        judge(ctx, n + " metadata", R.run(f("metadata"), p), dict_of(("a", dict_of(("x", cstr("1"))))), W(f("metadata")), "the metadata is")
        if t == V4P:
            q = R.put(p, metadata=dict_of(("a", obj(n=jnum("i64", const("int", 12)), t=agg(VALUE, "Bool", (TRUE,)), f=agg(VALUE, "Bool", (FALSE,)), e=jstr("")))))
            judge(ctx, n + " metadata values", R.run(f("metadata"), q), dict_of(("a", dict_of(("e", cstr("")), ("f", cstr("false")), ("n", cstr("12")), ("t", cstr("true"))))), W(f("metadata")), "the metadata is")
        judge(ctx, n + " specification version", R.run(f("specification_version"), p), spec("V4" if t == V4P else "V2"), W(f("specification_version")), "the version is")
        judge(ctx, n + " is_v4", R.run(f("is_v4"), p), boolc(t == V4P), W(f("is_v4")), "the answer is")
        for me in ("boxed", "arced", "thread_safe"):
            y = R.run(f(me), p)
            while y.op == "call" and y.args[0].split("::")[-1] == "new" and len(y.args[1]) == 1: y = y.args[1][0]
            judge(ctx, "%s %s" % (n, me), y, p, W(f(me)), "the copy is")
        me = {V4P: "as_v4_pact", RRP: "as_request_response_pact", MP: "as_message_pact"}[t]
        judge(ctx, "%s %s" % (n, me), R.run(f(me), p), ok(p), W(f(me)), "the same pact is")
        for k in (HTTP, AMSG, SMSG, RRI, MSG):
            a = R.inter(k, "2", "n")
            x = {V4P: R.run(ctx.need(tm(k, INT, "as_v4")), a), RRP: R.run(ctx.need(tm(k, INT, "as_request_response")), a), MP: R.run(ctx.need(tm(k, INT, "as_message")), a)}[t]
            if not (x.op == "agg" and x.args[0] == OPT): continue
            m = R.comp()
            y, s = m.interp_mut(f("add_interaction"), [a], p); finish(ctx, m)
            key = "%s add %s" % (n, k.split("::")[-1])
            if x is NONE: ctx.ob(key, True if is_err(y) and s is p else None if opaque_in(y) else False, "an interaction that cannot be held is accepted: %s" % show(y, 4)[:100], W(f("add_interaction")))
            else: judge(ctx, key, agg("()", "", (y, s)), agg("()", "", (ok(UNIT), R.put(p, **{LIST[t]: listof(R.inter(own), x.args[2][0])}))), W(f("add_interaction")), "the pact afterwards is")
        kinds = {V4P: (HTTP, AMSG, SMSG), RRP: (RRI,), MP: (MSG,)}[t]
        for k in kinds:
            ctx.ob("%s holds %s" % (n, k), True, "")

@prop("P33", "Pacts keep their interactions, plugins and metadata", floor=200)
def p33(ctx):
    ctx.rule("Every operation of the pact types is interpreted on pacts with up to three interactions of every kind, with every form of metadata entry and of plugin data, in both iteration orders of the maps, and the result compared with the definition.")
    R = Pacts(ctx)
    W = ctx.where
    views(ctx, R)
    # metadata
    for R.order in R.orders:
        for t, own in ((V4P, HTTP), (RRP, RRI), (MP, MSG)):
            n = t.split("::")[-1]
            val = (lambda **k: obj(**{a: jstr(b) for a, b in k.items()})) if t == V4P else (lambda **k: dict_of(*[(a, cstr(b)) for a, b in k.items()]))
            f = ctx.need(tm(t, PT, "to_json"))
            cases = [("none", [], {}), ("other", [("x", val(a="1", b="2"))], {"x": obj(a=jstr("1"), b=jstr("2"))}), ("version", [("pactSpecification", val(version="9"))], {}), ("old version name", [("pact-specification", val(version="9"))], {}),
                     ("tool", [("pactRust", val(ffi="1", models="0"))], {"pactRust.ffi": jstr("1")}), ("old tool name", [("pact-rust", val(ffi="1"))], {"pactRust.ffi": jstr("1")}),
                     ("all", [("pactSpecification", val(version="9")), ("pactRust", val(ffi="1")), ("y", val(a="1"))], {"pactRust.ffi": jstr("1"), "y": obj(a=jstr("1"))})]
            if t == V4P: cases += [("text", [("x", jstr("1"))], {"x": jstr("1")}), ("null", [("x", agg(VALUE, "Null", ()))], {"x": agg(VALUE, "Null", ())}), ("list", [("x", agg(VALUE, "Array", (listof(jstr("1")),)))], {"x": agg(VALUE, "Array", (listof(jstr("1")),))})]
            for v in {V4P: ("V4",), RRP: ("V1", "V1_1", "V2", "V3", "V4"), MP: ("V3", "V4")}[t]:
                for k, es, want in cases:
                    y = good(R.run(f, R.pact(t, metadata=dict_of(*es)), spec(v)))
                    key = "%s metadata %s %s %s" % (n, k, v, R.order)
                    if y is None: ctx.ob(key, None, "not resolved", W(f)); continue
                    md = R.entry(y, "metadata")
                    if md is None: ctx.ob(key, False, "the metadata is not written", W(f)); continue
                    ver, tool = R.entry(y, "metadata", "pactSpecification", "version"), R.entry(y, "metadata", "pactRust", "models")
                    def jd(k2, got, w, what):
                        if got is None: ctx.ob(key + " " + k2, False, "%s is not written: %s" % (what, show(md, 6)[:200]), W(f))
                        else: judge(ctx, key + " " + k2, got, w, W(f), "%s is written as" % what)
                    jd("version", ver, jstr(VERS[v]), "the version")
                    ctx.ob(key + " tool", False if tool is None else True if tool.op == "agg" and tool.args[1] == "String" else None, "the version of the tool is not written: %s" % show(md, 6)[:200], W(f))
                    for p, w in want.items(): jd(p, R.entry(y, "metadata", *p.split(".")), w, "the entry %s" % p)
                    old = [o for o in ("pact-rust", "pact-specification") if R.entry(y, "metadata", o) not in (None, UNDEF)]
                    ctx.ob(key + " names", not old, "the old names %s are written" % old, W(f))
            # versions of tools
            f = ctx.need(tm(t, PT, "add_md_version"))
            for k, es, want in [("none", [], {"k": "1"}), ("other entry", [("x", val(a="1"))], {"k": "1"}), ("tool", [("pactRust", val(ffi="2"))], {"k": "1", "ffi": "2"}), ("same", [("pactRust", val(k="0", ffi="2"))], {"k": "1", "ffi": "2"})]:
                s = R.mut(f, R.pact(t, metadata=dict_of(*es)), cstr("k"), cstr("1"))
                w = dict_of(*([("pactRust", val(**want))] + [e for e in es if e[0] != "pactRust"]))
                judge(ctx, "%s add version %s %s" % (n, k, R.order), R.get(s, "metadata") if s.op == "agg" else s, w, W(f), "the metadata afterwards is")
        # reading metadata
        f = ctx.need("pact::parse_meta_data")
        for k, v, w in [("none", obj(), EMPTY), ("no object", obj(metadata=jstr("x")), EMPTY), ("texts", obj(metadata=obj(a=obj(x=jstr("1"), y=jstr("2")))), dict_of(("a", dict_of(("x", cstr("1")), ("y", cstr("2")))))), ("entry no object", obj(metadata=obj(a=jstr("1"), b=obj(x=jstr("1")))), dict_of(("a", EMPTY), ("b", dict_of(("x", cstr("1")))))),
                        ("numbers", obj(metadata=obj(a=obj(n=jnum("i64", const("int", 12)), t=agg(VALUE, "Bool", (TRUE,)), e=jstr("")))), dict_of(("a", dict_of(("e", cstr("")), ("n", cstr("12")), ("t", cstr("true")))))),
                        ("old names", agg(VALUE, "Object", (dict_of(("metadata", agg(VALUE, "Object", (dict_of(("pact-specification", obj(version=jstr("1"))), ("pact-rust", obj(x=jstr("2")))),)))),)), dict_of(("pactSpecification", dict_of(("version", cstr("1")))), ("pactRust", dict_of(("x", cstr("2"))))))]:
            judge(ctx, "read metadata %s %s" % (k, R.order), R.run(f, v), w, W(f), "the metadata read is")
        # plugins
        f = ctx.need(tm(V4P, PT, "add_plugin"))
        def pd(n, v, cfg): return R.struct(PD, name=cstr(n), version=cstr(v), configuration=cfg)
        c1, c2 = dict_of(("x", jstr("1")), ("y", obj(m=jstr("1"), n=jstr("2"))), ("l", agg(VALUE, "Array", (listof(jstr("1")),)))), dict_of(("y", obj(n=jstr("3"), o=jstr("4"))), ("z", jstr("5")), ("l", agg(VALUE, "Array", (listof(jstr("2")),))))
        both = dict_of(("x", jstr("1")), ("y", obj(m=jstr("1"), n=jstr("3"), o=jstr("4"))), ("z", jstr("5")), ("l", agg(VALUE, "Array", (listof(jstr("1"), jstr("2")),))))
        for k, a, (n, v, cfg), want in (("first", [], ("p", "1", c1), [pd("p", "1", c1)]), ("same", [pd("p", "1", c1)], ("p", "1", c2), [pd("p", "1", both)]), ("other version", [pd("p", "1", c1)], ("p", "2", c2), [pd("p", "1", c1), pd("p", "2", c2)]), ("other name", [pd("p", "1", c1)], ("q", "1", c2), [pd("p", "1", c1), pd("q", "1", c2)]),
                                        ("second", [pd("q", "1", c2), pd("p", "1", c1)], ("p", "1", c2), [pd("q", "1", c2), pd("p", "1", both)]), ("no data", [pd("p", "1", c1)], ("p", "1", None), [pd("p", "1", c1)]), ("first without data", [], ("p", "1", None), [pd("p", "1", EMPTY)])):
            s = R.mut(f, R.pact(V4P, plugin_data=listof(*a)), cstr(n), cstr(v), NONE if cfg is None else some(cfg))
            judge(ctx, "plugin %s %s" % (k, R.order), R.get(s, "plugin_data") if s.op == "agg" else s, listof(*want), W(f), "the plugin data afterwards is")
    for t in (RRP, MP):
        f = ctx.need(tm(t, PT, "add_plugin"))
        y = R.run(f, R.pact(t), cstr("p"), cstr("1"), NONE)
        ctx.ob("plugin of a %s" % t.split("::")[-1], True if is_err(y) else None if opaque_in(y) else False, "a plugin is accepted", W(f))
    for t in (V4P, RRP, MP):
        for k, data in (("without", listof()), ("with", listof(R.struct(PD, name=cstr("p"), version=cstr("1"), configuration=EMPTY)))):
            if t != V4P and k == "with": continue
            p = R.pact(t, **({"plugin_data": data} if t == V4P else {}))
            for me, w in (("requires_plugins", boolc(k == "with")), ("plugin_data", data)):
                f = ctx.need(tm(t, PT, me))
                y = R.run(f, p)
                judge(ctx, "%s %s %s" % (t.split("::")[-1], me, k), listof() if y is EMPTY else y, w, W(f), "the answer is")
    # interactions found by their ids, of which none is another
    find = ctx.need(V4P + "::find_interaction_with_id")
    ids = ["k1", "K1", "k11", "k", "", " k1", "1k"]
    for k in KINDS:
        xs = [R.inter(k, x, "d%d" % i) for i, x in enumerate(ids)]
        for i, x in enumerate(ids): judge(ctx, "find %r %s" % (x, KINDS[k]), R.run(find, R.pact(V4P, xs), cstr(x)), some(xs[i]), W(find), "the interaction found is")
        for x in ids:
            if x != "k1": judge(ctx, "find absent %r %s" % (x, KINDS[k]), R.run(find, R.pact(V4P, xs[:1]), cstr(x)), NONE, W(find), "the interaction found is")
        for i in range(2):
            nk = [R.inter(k, "x", "d", key="k1", **{"id": NONE}), R.inter(k, "k1", "e", key="k2")]
            judge(ctx, "find by id, not key %d %s" % (i, KINDS[k]), R.run(find, R.pact(V4P, nk[:1 + i]), cstr("k1")), some(nk[1]) if i else NONE, W(find), "the interaction found is")
    # interactions of a V4 pact by kind
    alls = [l for n in range(4) for l in itertools.product(KINDS, repeat=n)]
    has, mixed, filt, find = [ctx.need(V4P + "::" + n) for n in ("has_interactions", "has_mixed_interactions", "filter_interactions", "find_interaction_with_id")]
    name = lambda l: "[" + ", ".join(KINDS[k] for k in l) + "]"
    rr, ms, tj = ctx.need(tm(V4P, PT, "as_request_response_pact")), ctx.need(tm(V4P, PT, "as_message_pact")), ctx.need(tm(V4P, PT, "to_json"))
    for l in alls:
        xs = [R.inter(k, str(i), "d%d" % i) for i, k in enumerate(l)]
        p = R.pact(V4P, xs)
        for k in KINDS:
            judge(ctx, "has %s %s" % (KINDS[k], name(l)), R.run(has, p, agg(V4T, KINDS[k], ())), boolc(k in l), W(has), "the answer is")
            if len(l) < 3 or ctx.tier == "thorough": lists(ctx, "filter %s %s" % (KINDS[k], name(l)), R.run(filt, p, agg(V4T, KINDS[k], ())), [x for x, k2 in zip(xs, l) if k2 == k], W(filt), "the interactions of the kind are")
        judge(ctx, "mixed " + name(l), R.run(mixed, p), boolc(len(set(l)) > 1), W(mixed), "the answer is")
        for i in range(len(l) + 1): judge(ctx, "find %d %s" % (i, name(l)), R.run(find, p, cstr(str(i))), some(xs[i]) if i < len(l) else NONE, W(find), "the interaction found is")
        if len(l) == 3 and ctx.tier != "thorough": continue
        # downgrades
        for f, me, t2, k in ((rr, "as_request_response", RRP, HTTP), (ms, "as_message", MP, AMSG)):
            md = dict_of(("pactSpecification", obj(version=jstr("4.0"))), ("a", obj(x=jstr("1"))), ("b", jstr("2")))
            y = good(R.run(f, R.put(p, metadata=md)), t2)
            key = "%s %s" % (me, name(l))
            if y is None: ctx.ob(key, None, "not resolved", W(f)); continue
            vs = [R.run(ctx.need(tm(k2, INT, me)), x) for x, k2 in zip(xs, l)]
            lists(ctx, key, R.get(y, LIST[t2]), [v.args[2][0] for v in vs if v.op == "agg" and v.args[1] == "Some"], W(f), "the interactions of the downgraded pact are")
            for a in ("consumer", "provider"): judge(ctx, key + " " + a, R.get(y, a), R.get(p, a), W(f), "the %s is" % a)
            judge(ctx, key + " version", R.get(y, "specification_version"), spec("V3"), W(f), "the specification version is")
            judge(ctx, key + " metadata", R.get(y, "metadata"), dict_of(("pactSpecification", dict_of(("version", cstr("3.0.0")))), ("a", dict_of(("x", cstr("1"))))), W(f), "the metadata is")
        for v in ("V1", "V2", "V3"):
            y = R.run(tj, p, spec(v))
            key = "written as %s %s" % (v, name(l))
            if y is UNDEF and PANICKED[0]: ctx.ob(key, False, "writing the pact panics", W(tj)); continue
            if len(set(l)) > 1 or SMSG in l or AMSG in l and v != "V3": ctx.ob(key, True if is_err(y) else None if good(y) is None else False, "a pact with interactions %s cannot be written as %s but is" % (name(l), v), W(tj)); continue
            n = R.entry(good(y) or UNDEF, "messages" if AMSG in l else "interactions")
            es = R.I.models.exact_items(n) if n is not None and n is not UNDEF else None
            ds = [R.entry(e, "description") for e in es] if es is not None else None
            ctx.ob(key, None if n is UNDEF else False if n is None or is_err(y) else None if ds is None else [d for d in ds] == [jstr("d%d" % i) for i in range(len(l))], "the interactions written are %s" % ([show(d, 3) for d in ds] if ds is not None else show(y, 4)[:200]), W(tj))
    # the order of written interactions
    for ds in itertools.chain(itertools.permutations("abc"), itertools.product("ab", repeat=2)):
        xs = [R.inter(HTTP, str(i), d) for i, d in enumerate(ds)]
        y = good(R.run(tj, R.pact(V4P, xs), spec("V4")))
        key = "sorted " + "".join(ds)
        n = R.entry(y, "interactions") if y is not None else None
        es = R.I.models.exact_items(n) if n is not None and n is not UNDEF else None
        if es is None: ctx.ob(key, None, "not resolved: %s" % show(y, 4)[:200] if y is not None else "", W(tj)); continue
        got = [R.entry(e, "description") for e in es]
        ctx.ob(key, got == [jstr(d) for d in sorted(ds)], "interactions %s are written as %s" % (list(ds), [show(d, 3) for d in got]), W(tj))
    # upgrades
    for t, k in ((RRP, RRI), (MP, MSG)):
        f = ctx.need(tm(t, PT, "as_v4_pact"))
        for n in range(3):
            xs = [R.inter(k, str(i), "d%d" % i) for i in range(n)]
            p = R.pact(t, xs, metadata=dict_of(("a", dict_of(("x", cstr("1")))), ("b", EMPTY)))
            y = good(R.run(f, p), V4P)
            key = "upgrade %s %d" % (t.split("::")[-1], n)
            if y is None: ctx.ob(key, None, "not resolved", W(f)); continue
            vs = [R.run(ctx.need(tm(k, INT, "as_v4")), x) for x in xs]
            lists(ctx, key, R.get(y, "interactions"), [v.args[2][0] for v in vs], W(f), "the interactions of the upgraded pact are")
            for a in ("consumer", "provider"): judge(ctx, key + " " + a, R.get(y, a), R.get(p, a), W(f), "the %s is" % a)
            judge(ctx, key + " metadata", R.get(y, "metadata"), dict_of(("a", obj(x=jstr("1"))), ("b", obj())), W(f), "the metadata is")
