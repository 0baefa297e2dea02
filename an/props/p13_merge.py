"""Merging pacts."""
from common import *
import itertools

V4P, RRP, MP = "v4::pact::V4Pact", "sync_pact::RequestResponsePact", "message_pact::MessagePact"
RW = "pact::ReadWritePact"
REQF = ("request", "response")

@prop("P13", "Merging pacts keeps every interaction", floor=800)
def p13(ctx):
    ctx.rule("The merge of each pact type is interpreted on every pair of interaction lists of length up to two over a family of descriptions, provider states and keys, in every order, and on the other pact types; every interaction must be in the result exactly once. "
             "Conflicts are checked attribute by attribute, plugin data and the other fields of the pact by comparing values.")
    R = Cases(ctx)
    W = ctx.where
    merge = {t: ctx.need(tm(t, RW, "merge")) for t in (V4P, RRP, MP)}
    def party(t, n): return agg(t, t, (cstr(n),))
    def states(ss): return listof(*[R.struct(PS, name=cstr(s), params=EMPTY) for s in ss])
    def body(): return agg(BODY, "Missing", ())
    rules, gens = agg(MRS, "MatchingRules", (EMPTY,)), agg(GENS, "Generators", (EMPTY,))
    def req(t, **k): return R.struct(t, **dict(dict(method=cstr("GET"), path=cstr("/"), query=NONE, headers=NONE, body=body(), matching_rules=rules, generators=gens), **k))
    def res(t, **k): return R.struct(t, **dict(dict(status=const("int", 200), headers=NONE, body=body(), matching_rules=rules, generators=gens), **k))
    def mc(): return R.struct(MC, contents=body(), metadata=EMPTY, matching_rules=rules, generators=gens)
    def common(t, i, d, ss, **k): return dict(dict(id=some(cstr(i)), description=cstr(d), provider_states=states(ss)), **k)
    def v4(k): return dict(key=NONE if k is None else some(cstr(k)), comments=EMPTY, pending=FALSE, plugin_config=EMPTY, interaction_markup=R.struct("v4::interaction::InteractionMarkup", markup=cstr(""), markup_type=cstr("")), transport=NONE)
    def mk_i(kind, i, d, ss, key=None, rq={}, rs={}):
        if kind == RRI: return R.struct(RRI, request=req(REQ, **rq), response=res(RESP, **rs), **common(RRI, i, d, ss))
        if kind == MSG: return R.struct(MSG, contents=body(), metadata=EMPTY, matching_rules=rules, generators=gens, **common(MSG, i, d, ss))
        if kind == HTTP: return R.struct(HTTP, request=req(REQ4, **rq), response=res(RES4, **rs), **v4(key), **common(HTTP, i, d, ss))
        if kind == AMSG: return R.struct(AMSG, contents=mc(), **v4(key), **common(AMSG, i, d, ss))
        return R.struct(SMSG, request=mc(), response=listof(mc()), **v4(key), **common(SMSG, i, d, ss))
    def pact(t, xs, c="c", p="p", **k):
        f = {"messages" if t == MP else "interactions": listof(*xs)}
        return R.struct(t, consumer=party("Consumer", c), provider=party("Provider", p), **dict(dict(plugin_data=listof()) if t == V4P else {}, **dict(f, **k)))
    def out(y):
        """Fields of the interactions of a merged pact: (id, description, state names) or None."""
        if not (y.op == "agg" and y.args[:2] == (RES, "Ok")): return None
        p = y.args[2][0]
        if p.op != "agg": return None
        xs = R.I.models.exact_items(R.get(p, "messages" if p.args[0] == MP else "interactions"))
        if xs is None: return None
        r = []
        for x in xs:
            if x.op != "agg": return None
            d, ss = R.get(x, "description"), R.I.models.exact_items(R.get(x, "provider_states"))
            i = R.get(x, "id")
            if not (is_const(d) and ss is not None and i.op == "agg" and i.args[1] == "Some" and is_const(i.args[2][0])): return None
            ns = [R.get(s, "name") if s.op == "agg" else UNDEF for s in ss]
            if not all(is_const(n) for n in ns): return None
            r.append((i.args[2][0].args[1], d.args[1], tuple(n.args[1] for n in ns), x.args[0]))
        return r
    def is_const(v): return v.op == "const"
    def err_of(y): return y.op == "agg" and y.args[:2] == (RES, "Err")
    def expect(key, t, a, b, want, sources, what):
        """want: groups of ids; exactly one of each group is in the result."""
        y = R.run(merge[t], a, b)
        o = out(y)
        if o is None:
            ctx.ob(key, False if err_of(y) else None, "%s: %s" % (what, "refused" if err_of(y) else "not resolved: " + show(y, 5)[:200]), W(merge[t])); return None
        ids = [x[0] for x in o]
        good = len(ids) == len(want) and all(sum(1 for i in ids if i in grp) == 1 for grp in want) and all(x[1:3] == sources[x[0]] for x in o)
        ctx.ob(key, good, "%s gives %s" % (what, ", ".join("%s%s" % (x[1], list(x[2])) for x in o) or "nothing"), W(merge[t]))
        return o
    def refuse(key, t, a, b, what):
        y = R.run(merge[t], a, b)
        ctx.ob(key, True if err_of(y) else None if out(y) is None else False, "%s is accepted" % what, W(merge[t]))
    # 1. lists of interactions identified by description and provider states
    fam = [("a", ()), ("a", ("s",)), ("b", ()), ("b", ("s", "t"))] + ([("a", ("s", "t")), ("b", ("s",))] if ctx.tier == "thorough" else [])
    lists = [l for n in range(3) for l in itertools.permutations(fam, n)]
    name = lambda l: "[" + ", ".join("%s%s" % (d, list(ss)) for d, ss in l) + "]"
    for t, kind in ((RRP, RRI), (MP, MSG), (V4P, HTTP)):
        for la in lists:
            A = pact(t, [mk_i(kind, "1.%d" % i, d, ss) for i, (d, ss) in enumerate(la)])
            for lb in lists:
                B = pact(t, [mk_i(kind, "2.%d" % i, d, ss) for i, (d, ss) in enumerate(lb)])
                src = dict([("1.%d" % i, x) for i, x in enumerate(la)] + [("2.%d" % i, x) for i, x in enumerate(lb)])
                want = [{"1.%d" % i} if t == V4P or x not in lb else {"2.%d" % lb.index(x)} for i, x in enumerate(la)] + [{"2.%d" % j} for j, z in enumerate(lb) if z not in la]
                expect("%s %s %s" % (t.split("::")[-1], name(la), name(lb)), t, A, B, want, src, "merging %s with %s" % (name(la), name(lb)))
        # interactions that are the same within one pact are not joined
        dup = [("a", ()), ("a", ())]
        D = pact(t, [mk_i(kind, "1.%d" % i, d, ss) for i, (d, ss) in enumerate(dup)])
        for la in [l for l in lists if dup[0] not in l]:
            A = pact(t, [mk_i(kind, "2.%d" % i, d, ss) for i, (d, ss) in enumerate(la)])
            src = dict([("1.%d" % i, x) for i, x in enumerate(dup)] + [("2.%d" % i, x) for i, x in enumerate(la)])
            for d, (X, Y) in (("first", (D, A)), ("second", (A, D))):
                expect("%s same in the %s, %s" % (t.split("::")[-1], d, name(la)), t, X, Y, [{i} for i in src], src, "merging a pact with the same interaction twice with %s" % name(la))
    # 2. V4 interactions identified by their key, and by their kind
    kf = [("k1", "a", ()), ("k2", "a", ()), ("k3", "b", ("s",)), (None, "a", ()), (None, "b", ("s",))]
    def same(x, y): return x[0] == y[0] if x[0] is not None and y[0] is not None else x[1:] == y[1:]
    kl = [l for n in range(3) for l in itertools.permutations(kf, n) if not (n == 2 and same(*l))]
    for la in kl:
        A = pact(V4P, [mk_i(HTTP, "1.%d" % i, d, ss, k) for i, (k, d, ss) in enumerate(la)])
        for lb in kl:
            B = pact(V4P, [mk_i(HTTP, "2.%d" % i, d, ss, k) for i, (k, d, ss) in enumerate(lb)])
            src = dict([("1.%d" % i, x[1:]) for i, x in enumerate(la)] + [("2.%d" % i, x[1:]) for i, x in enumerate(lb)])
            keep = ["2.%d" % j for j, z in enumerate(lb) if not any(same(x, z) for x in la)]
            # one of several that are the same as one: the first pact's interactions are all kept
            want = [{"1.%d" % i} for i in range(len(la))] + [{j} for j in keep]
            expect("keys %s %s" % (la, lb), V4P, A, B, want, src, "merging interactions (key, description, states) %s with %s" % (la, lb))
    kinds = (HTTP, AMSG, SMSG)
    for x, y in itertools.product(kinds, repeat=2):
        for z in kinds:
            if z == y: continue
            A, B = pact(V4P, [mk_i(x, "1.0", "a", ())]), pact(V4P, [mk_i(y, "2.0", "a", ()), mk_i(z, "2.1", "a", ())])
            want = [{"1.0"}] + [{i} for i, k in (("2.0", y), ("2.1", z)) if k != x]
            expect("kinds %s" % [k.split("::")[-1] for k in (x, y, z)], V4P, A, B, want, {i: ("a", ()) for i in ("1.0", "2.0", "2.1")}, "merging interactions of kinds %s" % [k.split("::")[-1] for k in (x, y, z)])
    # 3. other pact types
    for t, k, t2, k2, good in ((RRP, RRI, V4P, HTTP, True), (RRP, RRI, V4P, AMSG, False), (RRP, RRI, V4P, SMSG, False), (RRP, RRI, MP, MSG, False), (MP, MSG, V4P, AMSG, True), (MP, MSG, V4P, HTTP, False), (MP, MSG, V4P, SMSG, False), (MP, MSG, RRP, RRI, False),
                               (V4P, HTTP, RRP, RRI, True), (V4P, AMSG, MP, MSG, True), (V4P, SMSG, RRP, RRI, True)):
        for da, db in (("a", "b"), ("b", "a")):
            key, what = "%s with %s %s %s" % (t.split("::")[-1], t2.split("::")[-1], k2.split("::")[-1], da), "merging a pact of %s with one of %s" % (k.split("::")[-1], k2.split("::")[-1])
            A, B = pact(t, [mk_i(k, "1.0", da, ("s",))]), pact(t2, [mk_i(k2, "2.0", db, ())])
            if good: expect(key, t, A, B, [{"1.0"}, {"2.0"}], {"1.0": (da, ("s",)), "2.0": (db, ())}, what)
            else: refuse(key, t, A, B, what)
    # 4. other consumers and providers, conflicts
    for t, k in ((RRP, RRI), (MP, MSG), (V4P, HTTP)):
        n = t.split("::")[-1]
        A = pact(t, [mk_i(k, "1.0", "a", ())])
        refuse(n + " other consumer", t, A, pact(t, [mk_i(k, "2.0", "b", ())], c="d"), "a pact of another consumer")
        refuse(n + " other provider", t, A, pact(t, [mk_i(k, "2.0", "b", ())], p="q"), "a pact of another provider")
        refuse(n + " other consumer, empty", t, pact(t, []), pact(t, [], c="d"), "a pact of another consumer")
        for f in R.fields(t):
            if f in ("interactions", "messages", "plugin_data"): continue
            y = R.run(merge[t], A, pact(t, [mk_i(k, "2.0", "b", ())]))
            if not (y.op == "agg" and y.args[1] == "Ok" and y.args[2][0].op == "agg" and y.args[2][0].args[0] == t): ctx.ob("%s %s" % (n, f), None, "not resolved: " + show(y, 4)[:200], W(merge[t])); continue
            judge(ctx, "%s %s" % (n, f), R.get(y.args[2][0], f), R.get(A, f), W(merge[t]), "the %s of the merged pact is" % f)
        f = ctx.need(tm(t, RW, "default_file_name"))
        judge(ctx, n + " file name", R.run(f, A), cstr("c-p.json"), W(f), "the file name is")
    q = lambda v: some(dict_of(("q", listof(some(cstr(v))))))
    h = lambda v: some(dict_of(("h", listof(cstr(v)))))
    bd = lambda v: agg(BODY, "Present", (cstr(v), NONE, NONE))
    diffs = [("method", dict(method=cstr("PUT")), {}, False), ("path", dict(path=cstr("/x")), {}, False), ("query", dict(query=q("1")), {}, False), ("status", {}, dict(status=const("int", 404)), False),
             ("request headers", dict(headers=h("1")), {}, True), ("request body", dict(body=bd("x")), {}, True), ("response headers", {}, dict(headers=h("1")), True), ("response body", {}, dict(body=bd("x")), True)]
    for n, rq, rs, good in diffs:
        for pos in (0, 1):
            for other, ok2 in (((), "a"), (("s",), "a")):
                A = [mk_i(RRI, "1.0", "a", other, rq=rq, rs=rs)]; B = [mk_i(RRI, "2.0", "a", other)]
                (A if pos else B).insert(0, mk_i(RRI, "3.0", "z", ()))
                for d, (X, Y) in (("", (A, B)), (" swapped", (B, A))):
                    key = "conflict %s %d %s%s" % (n, pos, list(other), d)
                    if good:
                        expect(key, RRP, pact(RRP, X), pact(RRP, Y), [{"1.0", "2.0"}, {"3.0"}], {"1.0": ("a", other), "2.0": ("a", other), "3.0": ("z", ())}, "merging interactions that only differ in their %s" % n)
                    else: refuse(key, RRP, pact(RRP, X), pact(RRP, Y), "an interaction with the same description and states but another %s" % n)
        for sa, sb in (((), ("s",)), (("s",), ()), (("s",), ("t",)), (("s",), ("s", "t")), (("s", "t"), ("s",)), (("t",), ("s", "t")), (("s", "t"), ("s", "u")), (("u", "t"), ("s", "t")), (("s", "t", "u"), ("s", "x", "u"))):
            A, B = [mk_i(RRI, "1.0", "a", sa, rq=rq, rs=rs)], [mk_i(RRI, "2.0", "a", sb)]
            expect("no conflict %s %s %s" % (n, list(sa), list(sb)), RRP, pact(RRP, A), pact(RRP, B), [{"1.0"}, {"2.0"}], {"1.0": ("a", sa), "2.0": ("a", sb)}, "merging interactions with other provider states")
        A, B = [mk_i(RRI, "1.0", "a", ("s",), rq=rq, rs=rs)], [mk_i(RRI, "2.0", "b", ("s",))]
        expect("no conflict %s description" % n, RRP, pact(RRP, A), pact(RRP, B), [{"1.0"}, {"2.0"}], {"1.0": ("a", ("s",)), "2.0": ("b", ("s",))}, "merging interactions with other descriptions")
    # 5. plugin data
    PD = "plugins::PluginData"
    def pd(n, v, cfg): return R.struct(PD, name=cstr(n), version=cstr(v), configuration=cfg)
    for R.order in R.orders:
        c1, c2 = dict_of(("x", jstr("1")), ("y", obj(m=jstr("1"), n=jstr("2")))), dict_of(("y", obj(n=jstr("3"), o=jstr("4"))), ("z", jstr("5")))
        both = dict_of(("x", jstr("1")), ("y", obj(m=jstr("1"), n=jstr("3"), o=jstr("4"))), ("z", jstr("5")))
        for key, a, b, want in (("same plugin", [pd("p", "1", c1)], [pd("p", "1", c2)], [pd("p", "1", both)]), ("other version", [pd("p", "1", c1)], [pd("p", "2", c2)], [pd("p", "1", c1), pd("p", "2", c2)]), ("other name", [pd("p", "1", c1)], [pd("q", "1", c2)], [pd("p", "1", c1), pd("q", "1", c2)]),
                                ("none", [], [pd("p", "1", c1)], [pd("p", "1", c1)]), ("kept", [pd("p", "1", c1)], [], [pd("p", "1", c1)]), ("several", [pd("p", "1", c1), pd("q", "1", dict_of())], [pd("r", "2", c1), pd("p", "1", c2), pd("s", "3", dict_of())], [pd("p", "1", both), pd("q", "1", dict_of()), pd("r", "2", c1), pd("s", "3", dict_of())]),
                                ("nothing to configure", [], [pd("p", "1", dict_of())], [pd("p", "1", dict_of())]), ("same with nothing", [pd("p", "1", c1)], [pd("p", "1", dict_of())], [pd("p", "1", c1)]), ("nothing and same", [pd("p", "1", dict_of())], [pd("p", "1", c1)], [pd("p", "1", c1)]),
                                ("second", [pd("q", "1", c1), pd("p", "1", c1)], [pd("p", "1", c2)], [pd("q", "1", c1), pd("p", "1", both)])):
            y = R.run(merge[V4P], pact(V4P, [], plugin_data=listof(*a)), pact(V4P, [], plugin_data=listof(*b)))
            v = R.get(y.args[2][0], "plugin_data") if y.op == "agg" and y.args[1] == "Ok" and y.args[2][0].op == "agg" else y
            judge(ctx, "plugins %s %s" % (key, R.order), v, listof(*want), W(merge[V4P]), "the plugin data of the merged pact is")
