"""Which matching rules apply to a value, and editing sets of rules."""
from common import *
from props.p23_paths import Paths, ROOT, STAR, STARI, F, IX, DPT
import text, itertools
from norm import Norm

MR, RLT, MRC, MRSS, CAT, LOGIC = "matchingrules::MatchingRule", "matchingrules::RuleList", "matchingrules::MatchingRuleCategory", "matchingrules::MatchingRules", "matchingrules::Category", "matchingrules::RuleLogic"
AND, OR = agg(LOGIC, "And", ()), agg(LOGIC, "Or", ())
def I_(n): return const("int", n)
def rule(n): return agg(MR, "Regex", (sym(n) if isinstance(n, str) else n,))
def adt(ty, **kw): return agg(ty, ty.split("::")[-1], kw)

class Rules(Paths):
    """Builds values through the declared fields, whatever their order."""
    def __init__(self, ctx):
        super().__init__(ctx)
        self.I = Interp([ctx.models()])
        self.orders = ("asc", "desc")
        self.order = "asc"
    def comp(self): return raw(self.ctx, peel=True, maporder=self.order)
    def struct(self, ty, **kw):
        fs = [f[0] for f in self.I.adts[ty]["variants"][0]["fields"]]
        return agg(ty, ty.split("::")[-1], tuple(kw.get(f, UNDEF) for f in fs))
    def get(self, v, name):
        if v.op != "agg" or v.args[0] not in self.I.adts: return mk("field", v, None, name)
        fs = [f[0] for f in self.I.adts[v.args[0]]["variants"][0]["fields"]]
        return v.args[2][fs.index(name)]
    def list(self, *rules, logic=AND, cascaded=FALSE): return self.struct(RLT, rules=listof(*rules), rule_logic=logic, cascaded=cascaded)
    def category(self, name, entries): return self.struct(MRC, name=agg(CAT, name, ()), rules=mk("coll", frozenset(), frozenset((p, r, TT) for p, r in entries)))
    def rules(self, *cats): return self.struct(MRSS, rules=mk("coll", frozenset(), frozenset((self.get(c, "name"), c, TT) for c in cats)))
    def run(self, f, *args):
        m = self.comp()
        y, _ = m.interp(self.ctx.need(f), list(args)); finish(self.ctx, m)
        return y if y is not None else UNDEF
    def mut(self, f, base, *args):
        m = self.comp()
        _, s = m.interp_mut(self.ctx.need(f), list(args), base); finish(self.ctx, m)
        return s

def A1(n): return text.of_chars([text.achar("abcdef", n)])
def weight(t, frag):
    """The documented weight of a path token for a fragment: 2 when it names it, 1 for a wildcard, 0 otherwise."""
    k = t.args[1]
    isnum = frag.op == "const" and frag.args[1].isdigit()
    if k == "Root": return 2 if frag is cstr("$") else 0
    if k == "Field": return 2 if frag is t.args[2][0] else 0
    if k == "Index": return 2 if isnum and int(frag.args[1]) == t.args[2][0].args[1] else 0
    if k == "Star": return 1
    return 1 if isnum or frag is cstr("[*]") else 0
def path_weight(ts, path):
    if len(path) < len(ts): return 0
    w = 1
    for t, f in zip(ts, path): w *= weight(t, f)
    return w

NAME, OTHER = A1(1), text.of_chars([text.achar("uvwxyz", 2), text.achar("uvwxyz", 3)])
TOKENS = [("$", ROOT), ("name", F(NAME)), ("other", F(OTHER)), ("0", IX(I_(0))), ("12", IX(I_(12))), ("*", STAR), ("[*]", STARI)]
FRAGS = [("$", cstr("$")), ("name", NAME), ("other", OTHER), ("0", cstr("0")), ("12", cstr("12")), ("[*]", cstr("[*]")), ("*", cstr("*"))]

@prop("P27", "The most specific matching rules are the ones applied", floor=400)
def p27(ctx):
    R = Rules(ctx)
    W = ctx.where
    ctx.rule("The weight of a path for a concrete path is the product of the weights of its parts (2 for the same name or index, 1 for a wildcard that covers it, 0 otherwise), and 0 when it is longer than the concrete path; interpreted for every pair of path part and fragment.")
    ctx.rule("For every set of one to three rules from a family of paths, and both iteration orders of the map that holds them, the rules selected for a concrete path are those of the matching path with the greatest weight, marked as cascaded when they come from a parent; equal weights give the same answer in both orders.")
    f = ctx.need(DPT + "::path_weight")
    seqs = [()] + [(t,) for t in TOKENS] + [(TOKENS[0], t) for t in TOKENS[1:]] + [(TOKENS[0], t, u) for t in TOKENS[1:] for u in TOKENS[1:]]
    paths = [()] + [(x,) for x in FRAGS] + [(FRAGS[0], x) for x in FRAGS[1:]] + [(FRAGS[0], x, y) for x in (FRAGS[1], FRAGS[3]) for y in FRAGS[1:5]]
    for ts in seqs:
        p = R.of(*[t for _, t in ts])
        for ps in paths:
            if ts and len(ps) not in (len(ts), len(ts) - 1, len(ts) + 1): continue
            frs = [x for _, x in ps]
            key = "%s for %s" % (" ".join(n for n, _ in ts) or "empty", " ".join(n for n, _ in ps) or "empty")
            w = path_weight([t for _, t in ts], frs)
            judge(ctx, "weight: " + key, R.run(f, p, listof(*frs)), agg("()", "", (I_(w), I_(len(ts)))), W(f), "the weight is")
            if len(ts) < 3 or ctx.tier == "thorough":
                judge(ctx, "matches: " + key, R.call("matches_path", p, listof(*frs)), boolc(w > 0), W(DPT + "::matches_path"), "the path matches:")
                judge(ctx, "matches exactly: " + key, R.call("matches_path_exactly", p, listof(*frs)), boolc(w > 0 and len(ts) == len(ps)), W(DPT + "::matches_path_exactly"), "the path matches exactly:")
    # selection
    fam = [("$", ROOT), ("$.a", ROOT, F("a")), ("$.b", ROOT, F("b")), ("$.*", ROOT, STAR), ("$.a.b", ROOT, F("a"), F("b")), ("$.a.*", ROOT, F("a"), STAR), ("$.*.b", ROOT, STAR, F("b")), ("$.a[*]", ROOT, F("a"), STARI), ("$.a[0]", ROOT, F("a"), IX(I_(0))), ("$.a[*].c", ROOT, F("a"), STARI, F("c")), ("$.a[0].*", ROOT, F("a"), IX(I_(0)), STAR)]
    P = {x[0]: (x[1:], R.of(*x[1:])) for x in fam}
    targets = [["$"], ["$", "a"], ["$", "b"], ["$", "a", "b"], ["$", "a", "0"], ["$", "a", "0", "c"], ["$", "z"]]
    fs = ctx.need(MRC + "::select_best_matcher")
    L = {n: R.list(rule(n), rule(n + "'"), logic=OR if i % 2 else AND) for i, n in enumerate(P)}
    def wt(n, path):
        ts = P[n][0]
        return path_weight(ts, [cstr(x) for x in path]) * len(ts)
    sets = [()] + [(n,) for n in P] + list(itertools.combinations(P, 2)) + [("$", "$.a", "$.a.*"), ("$.*", "$.a", "$.a[*]"), ("$.a", "$.a.*", "$.a.b"), ("$.a[*].c", "$.a[0].*", "$.a"), ("$.b", "$.z", "$.a")][:4]
    if ctx.tier == "thorough": sets += list(itertools.combinations(P, 3))
    for ns in sets:
        for path in targets:
            for cat in (("BODY", "METADATA") if len(ns) < 2 else ("BODY",)):
                got = {}
                for o in R.orders if len(ns) > 1 else R.orders[:1]:
                    R.order = o
                    got[o] = R.run(fs, R.category(cat, [(P[n][1], L[n]) for n in ns]), listof(*[cstr(x) for x in path]))
                R.order = "asc"
                ws = {n: wt(n, path) for n in ns if wt(n, path) > 0}
                best = [n for n in ws if ws[n] == max(ws.values())]
                key = "%s: %s of {%s}" % (cat, ".".join(path), ", ".join(ns))
                for n in best[:1] if len(best) < 2 else []:
                    for o, y in got.items(): judge(ctx, "select %s %s" % (o, key), y, R.struct(RLT, rules=listof(rule(n), rule(n + "'")), rule_logic=R.get(L[n], "rule_logic"), cascaded=boolc(len(P[n][0]) != len(path))), W(fs), "the rules selected are")
                if not best:
                    for o, y in got.items(): judge(ctx, "select %s %s" % (o, key), R.get(y, "rules"), listof(), W(fs), "the rules selected are")
                if len(best) > 1:
                    a, b = got["asc"], got["desc"]
                    und = any(opaque_in(x) for x in (a, b))
                    ctx.ob("tie " + key, True if a is b else None if und else False, "the rules selected depend on the random order of a map: %s or %s" % (show(a, 4)[:200], show(b, 4)[:200]), W(fs))
                    for o, y in got.items():
                        if not opaque_in(y): ctx.ob("tie %s %s" % (o, key), any(R.get(y, "rules") is R.get(L[n], "rules") for n in best), "the rules selected are not those of one of the best paths: " + show(y, 4)[:200], W(fs))
                # by the rules for the body
                if cat == "BODY" and len(ns) == 2 and len(best) == 1:
                    fb = ctx.need(MRSS + "::resolve_body_matchers_by_path")
                    y = R.run(fb, R.rules(R.category(cat, [(P[n][1], L[n]) for n in ns])), listof(*[cstr(x) for x in path]))
                    judge(ctx, "body " + key, R.get(y, "rules"), R.get(L[best[0]], "rules"), W(fb), "the rules selected are")
    fb = ctx.need(MRSS + "::resolve_body_matchers_by_path")
    judge(ctx, "body: no rules", R.get(R.run(fb, R.rules(R.category("HEADER", [(P["$.a"][1], L["$.a"])])), listof(cstr("$"), cstr("a"))), "rules"), listof(), W(fb), "the rules selected are")
    # the other categories
    fr = ctx.need(MRC + "::resolve_matchers_for_path")
    fd = ctx.need(MRC + "::matcher_is_defined")
    gr, gd, gw, gt = [ctx.need(MRSS + "::" + x) for x in ("resolve_matchers", "matcher_is_defined", "wildcard_matcher_is_defined", "type_matcher_defined")]
    inst = {x: [g for g in ctx.models().fns if g == x] for x in (gr, gd, gw, gt)}
    for cat in variants_of(R.I, CAT):
        coll = cat in ("HEADER", "QUERY", "BODY", "CONTENTS", "METADATA")
        for ns in [(), ("$.a",), ("$.b",), ("$.*",), ("$.a", "$.b"), ("$.a.b", "$.b"), ("$.a.*", "$.*")]:
            c = R.category(cat, [(P[n][1], L[n]) for n in ns])
            for path in (["$", "a"], ["$", "a", "b"], ["$", "z"], ["$"]):
                pl = listof(*[cstr(x) for x in path])
                hit = [n for n in ns if not coll or wt(n, path) > 0]
                key = "%s %s of {%s}" % (cat, ".".join(path), ", ".join(ns))
                y = R.run(fr, c, pl)
                want = R.category(cat, [(P[n][1], L[n]) for n in hit])
                judge(ctx, "matching " + key, y, want, W(fr), "the rules that match are")
                judge(ctx, "defined " + key, R.run(fd, c, pl), boolc(bool(hit)), W(fd), "a rule is defined:")
                if len(hit) == 1 and cat not in ("BODY", "METADATA"):
                    judge(ctx, "select " + key, R.get(R.run(fs, c, pl), "rules"), R.get(L[hit[0]], "rules"), W(fs), "the rules selected are")
                rs, cv = R.rules(c), agg(CAT, cat, ())
                judge(ctx, "resolve " + key, R.run(gr, rs, cv, pl), some(want), W(gr), "the rules that match are")
                judge(ctx, "has rule " + key, R.run(gd, rs, cv, pl), boolc(bool(hit)), W(gd), "a rule is defined:")
                wild = [n for n in ns if P[n][0][-1] is STAR and (cat not in ("BODY", "HEADER", "QUERY") or cat == "BODY" and wt(n, path) > 0 and len(P[n][0]) == len(path))]
                judge(ctx, "has wildcard " + key, R.run(gw, rs, cv, pl), boolc(bool(wild)), W(gw), "a wildcard rule is defined:")
        other = agg(CAT, "PATH" if cat != "PATH" else "BODY", ())
        rs = R.rules(R.category(cat, [(P["$.a"][1], L["$.a"])]))
        pl = listof(cstr("$"), cstr("a"))
        judge(ctx, "other category: resolve " + cat, R.run(gr, rs, other, pl), NONE, W(gr), "the rules are")
        for g in (gd, gw): judge(ctx, "other category: %s %s" % (g.split("::")[-1], cat), R.run(g, rs, other, pl), FALSE, W(g), "a rule is defined:")
    # several matches, other than for bodies: the same answer whatever the order of the map
    for ns, path in [(("$.a", "$.*"), ["$", "a"]), (("$.a", "$.a[0]"), ["$", "a", "0"]), (("$", "$.a"), ["$", "a"])]:
        for cat in ("HEADER", "QUERY", "CONTENTS"):
            got = []
            for o in R.orders:
                R.order = o
                got.append(R.run(fs, R.category(cat, [(P[n][1], L[n]) for n in ns]), listof(*[cstr(x) for x in path])))
            R.order = "asc"
            a, b = got
            ctx.ob("tie %s: %s of {%s}" % (cat, ".".join(path), ", ".join(ns)), True if a is b else None if opaque_in(a) or opaque_in(b) else False, "the rules selected depend on the random order of a map: %s or %s" % (show(a, 4)[:200], show(b, 4)[:200]), W(fs))

def sample_rules(R):
    """One value of every rule: variant name -> value."""
    out = {}
    for v in R.I.adts[MR]["variants"]:
        out[v["name"]] = agg(MR, v["name"], tuple(sym("p%d" % i) for i, _ in enumerate(v["fields"])))
    return out

TYPE = {"Type", "MinType", "MaxType", "MinMaxType"}
VALUES = {"Values", "EachValue"}

@prop("P28", "Editing sets of matching rules keeps every rule", floor=150)
def p28(ctx):
    editing(ctx, lambda n: rule(n))
    # rules that can be told apart
    with ctx.part("known rules"): editing(ctx, lambda n: rule(cstr(n)))

def editing(ctx, rule):
    R = Rules(ctx)
    W = ctx.where
    ctx.rule("Each operation that adds, merges, renames, filters or copies matching rules is interpreted on sets of known shape with arbitrary rules, for both iteration orders of the maps involved; the result must hold exactly the rules of its operands, in order, under their categories and paths.")
    ctx.rule("Each classification of a rule is interpreted on every type of rule.")
    r, a, b, c = rule("r"), rule("a"), rule("b"), rule("c")
    L = lambda *xs, **k: R.list(*xs, **k)
    def eq(key, f, got, want, what="the rules are"):
        if not same(got, want): got = Norm(R.I.adts, {}, [])(got)
        return judge(ctx, key, got, want, W(f), what)
    # lists of rules
    f = RLT + "::empty"
    for lg, n in ((AND, "and"), (OR, "or")): eq("empty list " + n, f, R.run(f, lg), L(logic=lg))
    eq("default list", RLT + "::empty", R.run(tm(RLT, "std::default::Default", "default")), L())
    eq("equality list", RLT + "::equality", R.run(RLT + "::equality"), L(agg(MR, "Equality", ())))
    eq("list of one", RLT + "::new", R.run(RLT + "::new", r), L(r))
    for n, xs in [("none", ()), ("one", (a,)), ("two", (a, b))]:
        for lg in (AND, OR):
            x = L(*xs, logic=lg)
            t = "%s %s" % (n, lg.args[1])
            eq("is_empty " + t, RLT + "::is_empty", R.run(RLT + "::is_empty", x), boolc(not xs), "is_empty is")
            eq("add_rule " + t, RLT + "::add_rule", R.mut(RLT + "::add_rule", x, r), L(*xs, r, logic=lg))
            for n2, ys in [("none", ()), ("one", (c,)), ("two", (c, r)), ("same", (a,))]:
                y = L(*ys, logic=OR)
                eq("add_rules %s + %s" % (t, n2), RLT + "::add_rules", R.mut(RLT + "::add_rules", x, y), L(*(xs + ys), logic=lg))
                eq("and_rules %s + %s" % (t, n2), RLT + "::and_rules", R.run(RLT + "::and_rules", x, y), L(*(xs + ys), logic=lg))
            for fl in (TRUE, FALSE):
                eq("as_cascaded %s %s" % (t, fl.args[1]), RLT + "::as_cascaded", R.run(RLT + "::as_cascaded", x, fl), L(*xs, logic=lg, cascaded=fl))
    mkr = lambda n: agg(MR, "Regex", (n,))
    k1, k2 = mkr(cstr("x")), mkr(cstr("y"))
    # filtering, by a predicate of the crate itself
    values = mk("fn", MR + "::is_values_matcher", MR + "::is_values_matcher", False, ())
    vm = agg(MR, "Values", ())
    for fl in (TRUE, FALSE):
        for lg in (AND, OR):
            for n, xs, want in [("none", (), ()), ("no", (k1, k2), ()), ("first", (vm, k1), (vm,)), ("last", (k1, vm), (vm,)), ("all", (vm, vm), (vm, vm))]:
                t = "%s %s %s" % (n, lg.args[1], fl.args[1])
                eq("filter list " + t, RLT + "::filter", R.run(RLT + "::filter", L(*xs, logic=lg, cascaded=fl), values), L(*want, logic=lg, cascaded=fl))
                eq("add_rule cascaded " + t, RLT + "::add_rule", R.mut(RLT + "::add_rule", L(*xs, logic=lg, cascaded=fl), k2), L(*xs, k2, logic=lg, cascaded=fl))
                eq("and_rules cascaded " + t, RLT + "::and_rules", R.run(RLT + "::and_rules", L(*xs, logic=lg, cascaded=fl), L(k2)), L(*xs, k2, logic=lg, cascaded=fl))
    t1 = agg(MR, "Type", ())
    for n, xs, want in [("none", (), ()), ("distinct", (k1, k2), (k1, k2)), ("twice", (k1, k1), (k1,)), ("apart", (k1, t1, k1), (k1, t1)), ("pairs", (t1, t1, k2, k2), (t1, k2)), ("one kind", (k1, k2, k1), (k1, k2))]:
        eq("remove_duplicates " + n, RLT + "::remove_duplicates", R.run(RLT + "::remove_duplicates", L(*xs, logic=OR, cascaded=TRUE)), L(*want, logic=OR, cascaded=TRUE))
    # classification of every rule
    S = sample_rules(R)
    for v, x in S.items():
        for f, want in [("is_type_matcher", v in TYPE), ("is_length_type_matcher", v in TYPE - {"Type"}), ("is_values_matcher", v in VALUES), ("can_cascade", v not in VALUES | {"EachKey"})]:
            eq("%s %s" % (f, v), MR + "::" + f, R.run(MR + "::" + f, x), boolc(want), f + " is")
        eq("for_single_item " + v, MR + "::for_single_item", R.run(MR + "::for_single_item", x), agg(MR, "Type", ()) if v in TYPE else x, "the rule for a single item is")
        for n, xs, ev in [("alone", (x,), {v}), ("first", (x, k1), {v, "Regex"}), ("last", (k1, x), {v, "Regex"})]:
            l = L(*xs)
            for f, want in [("type_matcher_defined", bool(ev & TYPE)), ("values_matcher_defined", bool(ev & VALUES)), ("has_non_type_matchers", bool(ev - TYPE))]:
                eq("list %s %s %s" % (f, v, n), RLT + "::" + f, R.run(RLT + "::" + f, l), boolc(want), f + " is")
            if n != "alone": continue
            none, other = (R.of(ROOT, F("b")), L()), (R.of(ROOT, F("b")), L(k1))
            for cn, es in [("first", ((R.of(ROOT, F("a")), l), other)), ("last", (other, (R.of(ROOT, F("c")), l))), ("with an empty list", (none, (R.of(ROOT, F("c")), l))), ("in a list", ((R.of(ROOT, F("a")), L(k1, x)), other)), ("only", ((R.of(ROOT, F("a")), l),))]:
                for R.order in R.orders:
                    cat = R.category("BODY", es)
                    for f, want in [("type_matcher_defined", v in TYPE), ("values_matcher_defined", v in VALUES)]:
                        eq("category %s %s %s %s" % (f, v, cn, R.order), MRC + "::" + f, R.run(MRC + "::" + f, cat), boolc(want), f + " is")
            R.order = "asc"
    # generators that come with rules
    g1 = agg("generators::Generator", "Regex", (sym("g"),))
    inner = R.category("BODY", [(R.of(ROOT), L(t1))])
    T2 = lambda i, gs: agg("()", "", (const("int", i), inner, gs))
    gs = dict_of((R.of(ROOT, F("x")), g1))
    acs = [("no variants", listof(), False), ("no generators", listof(T2(0, EMPTY), T2(1, EMPTY)), False), ("generators first", listof(T2(0, gs), T2(1, EMPTY)), True), ("generators last", listof(T2(0, EMPTY), T2(1, EMPTY), T2(2, gs)), True)]
    fh, fg, fc = MR + "::has_generators", MR + "::generators", MRC + "::generators"
    for v, x in S.items():
        if v == "ArrayContains": continue
        eq("has_generators " + v, fh, R.run(fh, x), FALSE, "has_generators is")
        eq("generators " + v, fg, R.run(fg, x), listof(), "the generators are")
    pa, pb = R.of(ROOT, F("a")), R.of(ROOT, F("b"), F("c"))
    for n, vs, has in acs:
        x = agg(MR, "ArrayContains", (vs,))
        G = agg("generators::Generator", "ArrayContains", (vs,))
        eq("has_generators ArrayContains, " + n, fh, R.run(fh, x), boolc(has), "has_generators is")
        eq("generators ArrayContains, " + n, fg, R.run(fg, x), listof(G), "the generators are")
        for cn, es, ps in [("nothing", (), ()), ("alone", ((pa, L(x)),), (pa,)), ("first", ((pa, L(x, k1)),), (pa,)), ("last", ((pa, L(k1, t1, x)),), (pa,)), ("another path", ((pa, L(k1)), (pb, L(x))), (pb,)), ("both paths", ((pa, L(x)), (pb, L(k1, x))), (pa, pb))]:
            for R.order in R.orders:
                eq("category generators %s, %s %s" % (n, cn, R.order), fc, R.run(fc, R.category("BODY", es)), dict_of(*[(q, G) for q in ps if has]), "the generators are")
    R.order = "asc"
    # categories
    pa, pb, pc = R.of(ROOT, F("a")), R.of(ROOT, F("b")), R.of(ROOT, F("c"), STARI)
    HDR = "HEADER"
    def C(*es, name=HDR): return R.category(name, es)
    catv = lambda n: agg(CAT, n, ())
    eq("empty category", MRC + "::empty", R.run(MRC + "::empty", catv(HDR)), C())
    for n, es in [("none", ()), ("one", ((pa, L(a)),)), ("two", ((pa, L(a)), (pb, L(b, logic=OR))))]:
        x = C(*es)
        eq("category is_empty " + n, MRC + "::is_empty", R.run(MRC + "::is_empty", x), boolc(not es), "is_empty is")
        eq("category is_not_empty " + n, MRC + "::is_not_empty", R.run(MRC + "::is_not_empty", x), boolc(bool(es)), "is_not_empty is")
        for t in variants_of(R.I, CAT)[:4]: eq("category rename %s %s" % (n, t), MRC + "::rename", R.run(MRC + "::rename", x, catv(t)), C(*es, name=t))
        f = MRC + "::add_rule"
        eq("category add_rule %s new path" % n, f, R.mut(f, x, pc, r, OR), C(*es, (pc, L(r, logic=OR))))
        if es: eq("category add_rule %s same path" % n, f, R.mut(f, x, pa, r, OR), C(*[(p, L(a, r) if p is pa else l) for p, l in es]))
        f = MRC + "::add_rules"
        for o in R.orders:
            R.order = o
            eq("category add_rules %s none %s" % (n, o), f, R.mut(f, x, C()), C(*es))
            eq("category add_rules %s other paths %s" % (n, o), f, R.mut(f, x, C((pc, L(c, r, logic=OR)))), C(*es, (pc, L(c, r, logic=OR))))
            if es: eq("category add_rules %s same and other paths %s" % (n, o), f, R.mut(f, x, C((pa, L(c, r)), (pc, L(r)))), C(*[(p, L(a, c, r) if p is pa else l) for p, l in es], (pc, L(r))))
        R.order = "asc"
    for o in R.orders:
        R.order = o
        f = MRC + "::as_rule_list"
        eq("as_rule_list none " + o, f, R.run(f, C()), L())
        eq("as_rule_list one " + o, f, R.run(f, C((pa, L(a, b, logic=OR)))), L(a, b, logic=OR))
    R.order = "asc"
    # whole sets
    H, B, Q = C((pa, L(a))), C((pb, L(b)), name="BODY"), C((pa, L(c)), name="QUERY")
    E = C(name="PATH")
    for n, cs in [("none", ()), ("empty category", (E,)), ("one", (H,)), ("two", (H, B)), ("one and an empty one", (E, B))]:
        x = R.rules(*cs)
        full = any(cc in (H, B) for cc in cs)
        for o in R.orders:
            R.order = o
            eq("rules is_empty %s %s" % (n, o), MRSS + "::is_empty", R.run(MRSS + "::is_empty", x), boolc(not full), "is_empty is")
            eq("rules is_not_empty %s %s" % (n, o), MRSS + "::is_not_empty", R.run(MRSS + "::is_not_empty", x), boolc(full), "is_not_empty is")
        R.order = "asc"
        f = MRSS + "::rules_for_category"
        for t, w in [("HEADER", H), ("BODY", B), ("QUERY", Q), ("STATUS", None)]:
            eq("rules_for_category %s %s" % (n, t), f, R.run(f, x, catv(t)), some(w) if w in cs else NONE, "the category is")
        f = MRSS + "::add_rules"
        eq("add_rules to %s: new category" % n, f, R.mut(f, x, catv("QUERY"), C((pa, L(c)), (pb, L(r)), name="QUERY")), R.rules(*cs, C((pa, L(c)), (pb, L(r)), name="QUERY")))
        if H in cs:
            eq("add_rules to %s: same category" % n, f, R.mut(f, x, catv("HEADER"), C((pa, L(c)), (pb, L(r)))), R.rules(*[C((pa, L(a, c)), (pb, L(r))) if y is H else y for y in cs]))
        f = MRSS + "::merge"
        for o in R.orders:
            R.order = o
            for n2, ds in [("none", ()), ("another", (Q,)), ("the same", (H,)), ("the same and another", (C((pa, L(c)), (pb, L(r))), Q))]:
                want = []
                for y in cs:
                    z = [d for d in ds if R.get(d, "name") is R.get(y, "name")]
                    if not z: want.append(y); continue
                    want.append(C((pa, L(a, a)) if z[0] is H else (pa, L(a, c)), *([] if z[0] is H else [(pb, L(r))])))
                want += [d for d in ds if all(R.get(d, "name") is not R.get(y, "name") for y in cs)]
                eq("merge %s with %s %s" % (n, n2, o), f, R.mut(f, x, R.rules(*ds)), R.rules(*want))
            f2 = MRSS + "::rename"
            eq("rename %s: header to query %s" % (n, o), f2, R.run(f2, x, catv("HEADER"), catv("QUERY")), R.rules(*[C((pa, L(a)), name="QUERY") if y is H else y for y in cs]))
            eq("rename %s: header to header %s" % (n, o), f2, R.run(f2, x, catv("HEADER"), catv("HEADER")), x)
            if cs == (H, B):
                eq("rename to a name in use, other paths %s" % o, f2, R.run(f2, x, catv("HEADER"), catv("BODY")), R.rules(C((pa, L(a)), (pb, L(b)), name="BODY")))
                eq("rename to a name in use, same path %s" % o, f2, R.run(f2, R.rules(H, C((pa, L(b)), name="BODY")), catv("HEADER"), catv("BODY")), R.rules(C((pa, L(b, a)), name="BODY")))
        R.order = "asc"
        f = MRSS + "::add_category"
        if not any(R.get(y, "name") is catv("QUERY") for y in cs):
            eq("add_category %s: new" % n, f, R.mut(f, x, catv("QUERY")), R.rules(*cs, C(name="QUERY")))
        if H in cs: eq("add_category %s: present" % n, f, R.mut(f, x, catv("HEADER")), x)
