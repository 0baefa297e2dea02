"""Sets of matching rules and generators keep their category, path, rules and logic through a write/read cycle."""
from common import *
import re
from props.p06_rules import MR, GEN, CAT, CATEGORY, DP

RL, LOGIC, TOK = "matchingrules::RuleList", "matchingrules::RuleLogic", "path_exp::PathToken"
GCAT = "generators::GeneratorCategory"

PATHS = {}
def text_of(t):
    v = t.args[1]
    if v == "Root": return cstr("$")
    if v == "Star": return cstr(".*")
    if v == "StarIndex": return cstr("[*]")
    x = t.args[2][0]
    if v == "Index": return catstr("[", x, "]")
    plain = x.op == "fresh" or x.op == "const" and re.fullmatch(r"[A-Za-z0-9_:#@-]+", x.args[1])
    return catstr(".", x) if plain else catstr("['", x, "']")

def path_of(*toks):
    """The path with these tokens; its expression is the one DocPath writes for them."""
    e = catstr(*[text_of(t) for t in toks])
    p = agg(DP, "DocPath", (listof(*toks), e))
    PATHS[e] = p
    return p
ROOT = agg(TOK, "Root", ())
def fieldtok(x): return agg(TOK, "Field", (x,))
EMPTYPATH = agg(DP, "DocPath", (listof(), cstr("")))
def anypath(*parts):
    e = catstr(*parts)
    p = agg(DP, "DocPath", (sym("tokens_of_" + show(e)), e))
    PATHS[e] = p
    return p

def keep(I, fr, st, name, path, virt, args, g):
    """Paths as token lists: the expression of a path is a function of its tokens (decided for the path type itself)."""
    if name == DP + "::new":
        x = I.deref_all(st, args[0])
        while x.op == "call" and x.args[0].split("::")[-1] in ("to_string", "into"): x = x.args[1][0]
        if x.op == "field" and x.args[2] == "expr": return ok(x.args[0])
        if x in PATHS: return ok(PATHS[x])
        if x.op == "fresh": return ok(agg(DP, "DocPath", (listof(ROOT, fieldtok(x)), x)))
        if x.op == "const" and x.args[1] == "": return ok(EMPTYPATH)
        if x.op == "const" and re.fullmatch(r"\$(\.[A-Za-z0-9_:#@-]+)*", x.args[1]): return ok(path_of(ROOT, *[fieldtok(cstr(f)) for f in x.args[1].split(".")[1:]]))
        if x.op == "const" and re.fullmatch(r"[A-Za-z][A-Za-z0-9_:#@-]*(\.[A-Za-z0-9_:#@-]+)+", x.args[1]): return ok(agg(DP, "DocPath", (listof(ROOT, *[fieldtok(cstr(f)) for f in x.args[1].split(".")]), x)))
        if x.op == "const" and re.fullmatch(r"[A-Za-z][A-Za-z0-9_:#@-]*", x.args[1]): return ok(agg(DP, "DocPath", (listof(ROOT, fieldtok(x)), x)))
        if x.op == "const" and re.fullmatch(r"[A-Za-z][A-Za-z0-9_:#@-]*[^].['A-Za-z0-9_:#@-].*", x.args[1]): return err(sym("not a path"))
    if name in (DP + "::push_field", DP + "::push") and args[0].op == "mref":
        cur = I.read_cell(st, args[0])
        toks = I.field(cur, None, "path_tokens")
        if toks.op == "agg" and toks.args[0] == "[]":
            t = I.deref_all(st, args[1])
            t = fieldtok(t) if name.endswith("push_field") else t
            I.write_cell(st, args[0], path_of(*(toks.args[2] + (t,))), g)
            return args[0]
    if name == DP + "::root": return path_of(ROOT)
    if name == DP + "::empty": return EMPTYPATH
    if name == MR + "::from_json":
        x = I.deref_all(st, args[0])
        if x.op == "call" and x.args[0] == MR + "::to_json": return ok(x.args[1][0])
    if name == GEN + "::to_json": return some(agg(VALUE, "Object", (mapof((cstr("type"), jstr(call("gentype", I.deref_all(st, args[0])))), (cstr("generator"), I.deref_all(st, args[0]))),)))
    if name == GEN + "::from_map":
        t, x = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        y = I.models.get(x, cstr("generator"))
        if y.op == "agg" and y.args[1] == "Some" and t is call("gentype", y.args[2][0]): return some(y.args[2][0])
    return None

def machine(ctx):
    c = ctx.models()
    m = Comp([c], {}, rules=[pairs.byte_rules], keep=keep)
    m.opq |= {MR + "::to_json", MR + "::from_json", GEN + "::to_json", GEN + "::from_map", DP + "::new"}
    return m

NAMES = [("name", fresh("name")), ("named matchers", cstr("matchers")), ("with a space", cstr("a b")), ("with a dot", cstr("a.b"))]
def paths_for(cat):
    if cat in ("HEADER", "QUERY"): return [(l, path_of(ROOT, fieldtok(n))) for l, n in NAMES]
    if cat == "PATH": return [("whole", EMPTYPATH)]
    if cat in ("METHOD", "STATUS"): return [("whole", EMPTYPATH)]
    return [("root", path_of(ROOT)), ("field", anypath("$.", sym("rest"))), ("index", anypath("$[", sym("rest"))),
            ("dollar", anypath("$['", fresh("f1"), "$", fresh("f2"), "']"))]

@prop("P08", "Sets of matching rules and generators survive a write/read cycle", floor=40)
def p08(ctx):
    c = ctx.models()
    ctx.rule("For every category, with an arbitrary path, arbitrary rules combined by either logic, and for every specification version, the set written into a document and read back has the same rules (generators) under the same category and path.")
    ctx.assume += ["A document path parses back from its own expression (decided for the path type on its own).", "Single rules and generators are decided by P06 and P07."]
    w, r = ctx.need("matchingrules::matchers_to_json"), ctx.need("matchingrules::matchers_from_json")
    gw, gr = ctx.need("generators::generators_to_json"), ctx.need("generators::generators_from_json")
    I = Interp([c])
    lists = [("one rule", [sym("rule1")]), ("two rules", [sym("rule1"), sym("rule2")])]
    for s in ("V3", "V4"):
        for cat in variants_of(I, CATEGORY):
            k = agg(CATEGORY, cat, ())
            for pl, p in paths_for(cat):
                for ll, rules in lists:
                    for lg in variants_of(I, LOGIC):
                        rl = agg(RL, "RuleList", (listof(*rules), agg(LOGIC, lg, ()), FALSE))
                        x = agg(MRS, "MatchingRules", (mapof((k, agg(CAT, "MatchingRuleCategory", (k, mapof((p, rl)))))),))
                        m = machine(ctx)
                        j, _ = m.interp(w, [x, spec(s)])
                        y, _ = m.interp(r, [obj(matchingRules=j), NONE])
                        if y is None: ctx.ob("rules:%s:%s:%s:%s:%s" % (s, cat, pl, ll, lg), False, "cannot be read back", ctx.where(r)); continue
                        check_equal(ctx, "rules:%s:%s:%s:%s:%s" % (s, cat, pl, ll, lg), m, m.norm(y), m.norm(x), ctx.where(r), "Ok")
    # before V3: one rule per path, of the parts of a request or response
    for s in ("V1", "V1_1", "V2"):
        for cat in ("PATH", "HEADER", "QUERY", "BODY"):
            k = agg(CATEGORY, cat, ())
            for pl, p in paths_for(cat):
                rl = agg(RL, "RuleList", (listof(sym("rule1")), agg(LOGIC, "And", ()), FALSE))
                def want(p): return agg(MRS, "MatchingRules", (mapof((k, agg(CAT, "MatchingRuleCategory", (k, mapof((p, rl)))))),))
                m = machine(ctx)
                j, _ = m.interp(w, [want(p), spec(s)])
                y, _ = m.interp(r, [obj(matchingRules=j), NONE])
                key = "rules:%s:%s:%s" % (s, cat, pl)
                if y is None: ctx.ob(key, False, "cannot be read back", ctx.where(r)); continue
                y = m.norm(y)
                # names may be read back as plain names
                plain = agg(DP, "DocPath", (p.args[2][0], p.args[2][0].args[2][1].args[2][0])) if cat in ("HEADER", "QUERY") else p
                alt = m.norm(want(plain))
                check_equal(ctx, key, m, y, alt if all(v is alt or same(v, alt) for _, v in split_result(y, "Ok")[0]) else m.norm(want(p)), ctx.where(r), "Ok")
    for s in ("V3", "V4"):
        for cat in variants_of(I, GCAT):
            k = agg(GCAT, cat, ())
            for pl, p in paths_for(cat):
                x = agg(GENS, "Generators", (mapof((k, mapof((p, sym("generator"))))),))
                m = machine(ctx)
                j, _ = m.interp(gw, [x, spec(s)])
                y, _ = m.interp(gr, [obj(generators=j)])
                if y is None: ctx.ob("generators:%s:%s:%s" % (s, cat, pl), False, "cannot be read back", ctx.where(gr)); continue
                check_equal(ctx, "generators:%s:%s:%s" % (s, cat, pl), m, m.norm(y), m.norm(x), ctx.where(gr), "Ok")
    whole_sets(ctx)

def tokens_of(v):
    """The value with the expression of every path left out."""
    memo = {}
    def go(x):
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is None:
            if x.op == "agg":
                r = agg(DP, "DocPath", (x.args[2][0], UNIT)) if x.args[0] == DP else agg(x.args[0], x.args[1], tuple(go(y) for y in x.args[2]))
            elif x.op == "coll": r = mk("coll", x.args[0], frozenset((go(k), go(y), g) for k, y, g in x.args[1]))
            else: r = x
            memo[x] = r
        return r
    return go(v)

def whole_sets(ctx):
    """Sets with several entries at every level."""
    from props.p27_select import Rules, F, IX, STAR, STARI, ROOT, OR
    ctx.rule("Sets with rules (generators) in several categories, several paths in each and several rules for each path are interpreted, written for every version that can hold them and read back, for both iteration orders of the maps; strings inside are arbitrary.")
    R = Rules(ctx)
    w, r = ctx.need("matchingrules::matchers_to_json"), ctx.need("matchingrules::matchers_from_json")
    gw, gr = ctx.need("generators::generators_to_json"), ctx.need("generators::generators_from_json")
    V = lambda name, *p: agg(MR, name, p)
    G = lambda name, *p: agg(GEN, name, p)
    rx = lambda n: V("Regex", sym(n))
    lists = lambda n: [R.list(rx(n + "1")), R.list(rx(n + "2"), V("Type"), logic=OR), R.list(V("Date", sym(n + "3")), V("MinType", const("int", 2)), V("Equality"), V("Include", sym(n + "4")))]
    root, empty = R.of(ROOT), R.run(DP + "::empty")
    body = [root, R.of(ROOT, F("a")), R.of(ROOT, F("a"), F("b c"), STARI), R.of(ROOT, F("a"), IX(const("int", 0)), STAR)]
    names = [R.of(ROOT, F(n)) for n in ("X-Test", "matchers", "a b", "ids[]", "a[0]", "$", "*", "0", "it's", "combine")]
    def paths(cat): return [empty] if cat in ("PATH", "METHOD", "STATUS") else names if cat in ("HEADER", "QUERY", "METADATA") else body
    def full(cats, k=None):
        out = []
        for i, c in enumerate(cats):
            ls = lists(c)
            out.append(R.category(c, [(p, ls[(j + i) % 3]) for j, p in enumerate(paths(c)[:k])]))
        return R.rules(*out)
    cats = variants_of(R.I, CATEGORY)
    sets = [("nothing", R.rules())] + [("%s, every path" % c, full([c])) for c in cats] + [("%s and %s" % (a, b), full([a, b], 2)) for i, a in enumerate(cats) for b in cats[i + 1:]] + [("every category", full(cats))]
    def eq(key, got, want, f, what):
        if not same(got, want): got = R_norm(got)
        judge(ctx, key, got, want, ctx.where(f), what)
    R_norm = lambda v: Norm(R.I.adts, {}, [])(v)
    for s in ("V3", "V4"):
        for R.order in R.orders:
            for n, x in sets:
                if " and " in n and (s, R.order) not in (("V3", "asc"), ("V4", "desc")): continue
                j = R.run(w, x, spec(s))
                eq("set: %s %s %s" % (s, n, R.order), R.run(r, obj(matchingRules=j), NONE), ok(x), r, "the rules are read back as")
            l = lists("PATH")[1]
            j = R.run(w, R.rules(R.category("PATH", [(root, l)])), spec(s))
            eq("set: %s PATH, at the root" % s, R.run(r, obj(matchingRules=j), NONE), ok(R.rules(R.category("PATH", [(empty, l)]))), r, "the rules are read back as")
    # the generators
    gcats = variants_of(R.I, GCAT)
    gens = [G("Regex", sym("g1")), G("Uuid", NONE), G("RandomBoolean"), G("Date", some(sym("g2")), some(sym("g3"))), G("ProviderStateGenerator", sym("g4"), NONE)]
    def gfull(cats, k=None): return agg(GENS, "Generators", (mapof(*[(agg(GCAT, c, ()), mapof(*[(p, gens[(j + i) % len(gens)]) for j, p in enumerate(paths(c)[:k])])) for i, c in enumerate(cats)]),))
    gsets = [("nothing", gfull([]))] + [("%s, every path" % c, gfull([c])) for c in gcats] + [("%s and %s" % (a, b), gfull([a, b], 2)) for i, a in enumerate(gcats) for b in gcats[i + 1:]] + [("every category", gfull(gcats))]
    for s in ("V3", "V4"):
        for R.order in R.orders:
            for n, x in gsets:
                if " and " in n and (s, R.order) not in (("V3", "asc"), ("V4", "desc")): continue
                j = R.run(gw, x, spec(s))
                eq("generators: %s %s %s" % (s, n, R.order), R.run(gr, obj(generators=j)), ok(x), gr, "the generators are read back as")
    # before V3: one rule for each path, of the parts of a request or response
    for s in ("V1", "V1_1", "V2"):
        for R.order in R.orders:
            for cs in [["PATH"], ["HEADER"], ["QUERY"], ["BODY"], ["PATH", "HEADER"], ["HEADER", "QUERY"], ["QUERY", "BODY"], ["PATH", "HEADER", "QUERY", "BODY"]]:
                for pr in ("empty path", "root path") if "PATH" in cs else ("",):
                    def one(path_of_path, f):
                        return R.rules(*[R.category(c, [(f(c, path_of_path if c == "PATH" else p), R.list(rx("%s%d" % (c, i)))) for i, p in enumerate(paths(c)[:{1: None, 2: 4}.get(len(cs), 2)])]) for c in cs])
                    x = one(root if pr == "root path" else empty, lambda c, p: p)
                    j = R.run(w, x, spec(s))
                    y = R_norm(R.run(r, obj(matchingRules=j), NONE))
                    # names may be read back as plain names: compare what the paths are made of
                    want = tokens_of(ok(one(empty, lambda c, p: p)))
                    y = tokens_of(y)
                    eq("set: %s %s %s %s" % (s, ", ".join(cs), pr, R.order), y, want, r, "the rules are read back as")
