"""Names and versions: the tables that name a value and the ones that read the name back are inverse; versions are recognised."""
from common import *

DT, UF, HINT, VIT, HS = "expression_parser::DataType", "generators::UuidFormat", "content_types::ContentTypeHint", "v4::V4InteractionType", "HttpStatus"
CATEGORY, GCAT = "matchingrules::Category", "generators::GeneratorCategory"
T_STR = "std::convert::Into<&'a str>"

def names_table(ctx, c, I):
    """type -> (variant -> documented name, namers, parsers, other accepted spellings)"""
    disp, fs = "std::fmt::Display", "std::str::FromStr"
    return [
        (SPEC, dict(V1="V1", V1_1="V1.1", V2="V2", V3="V3", V4="V4", Unknown="unknown"), [("text", tm(SPEC, disp, "fmt"))],
         [(tm(SPEC, "std::convert::From<%s>" % t, "from"), None) for t in ("&str", "std::string::String", "&std::string::String")],
         {"v1": "V1", "v1.1": "V1_1", "v2": "V2", "v3": "V3", "v4": "V4", "V9": "Unknown", "": "Unknown", "1": "Unknown"}),
        (CATEGORY, dict(METHOD="method", PATH="path", HEADER="header", QUERY="query", BODY="body", STATUS="status", CONTENTS="contents", METADATA="metadata"),
         [("text", tm(CATEGORY, disp, "fmt")), ("val", tm(CATEGORY, T_STR, "into")), ("val", tm(CATEGORY, "std::convert::Into<std::string::String>", "into"))],
         [(tm(CATEGORY, fs, "from_str"), "Ok"), (tm(CATEGORY, "std::convert::From<&'a str>", "from"), None), (tm(CATEGORY, "std::convert::From<std::string::String>", "from"), None)],
         {"headers": "HEADER", "Header": "HEADER", "BODY": "BODY", "Query": "QUERY"}),
        (GCAT, dict(METHOD="method", PATH="path", HEADER="header", QUERY="query", BODY="body", STATUS="status", METADATA="metadata"),
         [("val", tm(GCAT, T_STR, "into")), ("val", tm(GCAT, "std::convert::Into<std::string::String>", "into"))], [(tm(GCAT, fs, "from_str"), "Ok")], {"Header": "HEADER", "BODY": "BODY"}),
        (UF, dict(Simple="simple", LowerCaseHyphenated="lower-case-hyphenated", UpperCaseHyphenated="upper-case-hyphenated", Urn="URN"), [("text", tm(UF, disp, "fmt"))], [(tm(UF, fs, "from_str"), "Ok")], {}),
        (HINT, dict(BINARY="BINARY", TEXT="TEXT", DEFAULT="DEFAULT"), [("text", tm(HINT, disp, "fmt"))], [(tm(HINT, "std::convert::TryFrom<&str>", "try_from"), "Ok")], {}),
        (VIT, dict(Synchronous_HTTP="Synchronous/HTTP", Asynchronous_Messages="Asynchronous/Messages", Synchronous_Messages="Synchronous/Messages"),
         [("text", tm(VIT, disp, "fmt"))], [(tm(VIT, fs, "from_str"), "Ok")], {}),
        (HS, dict(Information="info", Success="success", Redirect="redirect", ClientError="clientError", ServerError="serverError", NonError="nonError", Error="error"),
         [("json", HS + "::to_json")], [(HS + "::from_json", "Ok", "json")], {}),
        (DT, dict(STRING="STRING", INTEGER="INTEGER", DECIMAL="DECIMAL", FLOAT="FLOAT", RAW="RAW", BOOLEAN="BOOLEAN"),
         [("json", tm(DT, "std::convert::Into<serde_json::Value>", "into"))], [(tm(DT, "std::convert::From<serde_json::Value>", "from"), None, "json")],
         {"string": "STRING", "Integer": "INTEGER", "boolean": "BOOLEAN", "other": "RAW"}),
    ]

@prop("P09", "Names are read back as what they name", floor=100)
def p09(ctx):
    names(ctx)
    codes(ctx)

def names(ctx, only=None):
    c = ctx.models()
    ctx.rule("For every variant of every named type, each function that names it gives the name the pact specification defines, and each function that reads names gives the variant back for that name and for the other spellings the documentation allows; a string different from every name is an error or the documented default.")
    I = Interp([c])
    for ty, tab, namers, parsers, extra in names_table(ctx, c, I):
        if only is not None and ty not in only: continue
        want_vars = {v["name"] for v in I.adts[ty]["variants"] if not v["fields"]} if ty in I.adts else set()
        if not want_vars: ctx.ob("type:" + ty, False, "the type no longer exists", ty); continue
        for v in sorted(want_vars - set(tab)): 
            # a new value: its name must still be read back
            tab = dict(tab); tab[v] = None
        short = ty.split("::")[-1]
        for v, nm in tab.items():
            if v not in want_vars: ctx.ob("%s:%s" % (short, v), False, "the value no longer exists", ty); continue
            x = agg(ty, v, ())
            nms = []
            for kind, f in namers:
                ctx.need(f)
                m = comp(ctx)
                if kind == "text": t = m.text(f, x)
                else: t, _ = m.interp(f, [x])
                finish(ctx, m)
                if kind == "json" and t is not None and t.op == "agg" and t.args[1] == "String": t = t.args[2][0]
                if nm is not None: check_equal(ctx, "name:%s:%s:%s" % (short, v, f.split("<")[-1].split("::")[-1] + kind), m, t if t is not None else UNDEF, cstr(nm), ctx.where(f), what="the name")
                if t is not None: nms.append(t)
            for p in parsers:
                f, wrap = ctx.need(p[0]), p[1]
                for n in ([cstr(nm)] if nm is not None else nms[:1]):
                    m = comp(ctx)
                    y, _ = m.interp(f, [agg(VALUE, "String", (n,)) if len(p) > 2 else n])
                    check_equal(ctx, "read:%s:%s:%s" % (short, v, f.split("<")[-1].split(">")[0]), m, y, x, ctx.where(f), wrap, what="the value read")
        for n, v in extra.items():
            for p in parsers:
                m = comp(ctx)
                y, _ = m.interp(p[0], [jstr(n) if len(p) > 2 else cstr(n)])
                check_equal(ctx, "read:%s:%s:%s" % (short, n, p[0].split("<")[-1].split(">")[0]), m, y, agg(ty, v, ()), ctx.where(p[0]), p[1], what="the value read")
        # anything else
        default = {SPEC: "Unknown", DT: "RAW", CATEGORY: "BODY"}
        for p in parsers:
            m = comp(ctx)
            n = fresh("other")
            y, _ = m.interp(p[0], [agg(VALUE, "String", (n,)) if len(p) > 2 else n])
            key = "other:%s:%s" % (short, p[0].split("<")[-1].split(">")[0])
            if p[1] is None: check_equal(ctx, key, m, y, agg(ty, default[ty], ()), ctx.where(p[0]), what="the default")
            else:
                goods, others = split_result(y, "Ok")
                ctx.ob(key, not goods, "any other string is read as " + "; ".join(show(v, 3) for g, v in goods[:3]), ctx.where(p[0]))

def codes(ctx):
    c = ctx.models()
    I = Interp([c])
    # a list of status codes
    m = comp(ctx)
    x = agg(HS, "StatusCodes", (sym("codes"),))
    j, _ = m.interp(HS + "::to_json", [x])
    ctx.need(HS + "::from_json")
    R = Cases(ctx)
    for n in (0, 1, 2, 3):
        xs = [sym("code%d" % i) for i in range(n)]
        x = agg(HS, "StatusCodes", (listof(*xs),))
        j = R.run(HS + "::to_json", x)
        judge(ctx, "statusCodes:%d written" % n, R.norm(R.run(HS + "::from_json", j)), ok(x), ctx.where(HS + "::from_json"), "a list of status codes is read back as")
    doc = agg(VALUE, "Array", (listof(*[jnum("u64", const("int", i)) for i in (200, 404)]),))
    judge(ctx, "statusCodes:read", R.run(HS + "::from_json", doc), ok(agg(HS, "StatusCodes", (listof(const("int", 200), const("int", 404)),))), ctx.where(HS + "::from_json"), "a list of status codes is read as")
    # generator categories and rule categories
    f = ctx.need(tm(GCAT, "std::convert::Into<%s>" % CATEGORY, "into"))
    for v in variants_of(I, GCAT):
        m = comp(ctx)
        y, _ = m.interp(f, [agg(GCAT, v, ())])
        check_equal(ctx, "category:" + v, m, y, agg(CATEGORY, v, ()), ctx.where(f), what="the rule category")

SEMVER = "lenient_semver::Version"
def semver(table):
    """Transfer function of the version parser: gives the declared (major, minor) for the given texts."""
    def keep(I, fr, st, name, path, virt, args, g):
        if name.startswith("lenient_semver") and name.endswith("parse"):
            x = I.deref_all(st, args[0])
            if x in table: return ok(agg(SEMVER, "Version", tuple(const("int", i) for i in table[x]))) if table[x] else err(sym("not a version"))
        return None
    return keep

VERSIONS = [("1.0.0", (1, 0, 0), "V1"), ("1.1.0", (1, 1, 0), "V1_1"), ("2.0.0", (2, 0, 0), "V2"), ("3.0.0", (3, 0, 0), "V3"), ("4.0", (4, 0, 0), "V4"), ("1", (1, 0, 0), "V1"), ("1.0", (1, 0, 0), "V1"), ("1.1", (1, 1, 0), "V1_1"), ("2", (2, 0, 0), "V2"), ("3", (3, 0, 0), "V3"), ("4", (4, 0, 0), "V4"), ("3.0.1", (3, 0, 1), "V3"), ("4.0.0", (4, 0, 0), "V4")]
BAD = [("0.9", (0, 9, 0)), ("5.0", (5, 0, 0)), ("1.2.0", (1, 2, 0)), ("2.1.0", (2, 1, 0)), ("3.1.0", (3, 1, 0)), ("4.1.0", (4, 1, 0)), ("", None), ("x.y", None)]
LOADERS = {"V4": "v4::pact::V4Pact"}

@prop("P21", "The specification version of a pact is recognised and decides how it is loaded", floor=60)
def p21(ctx):
    c = ctx.models()
    ctx.rule("The version strings of the pact specifications, and nothing else, parse to the version they name; the version a pact writes is the one read from its metadata under every documented attribute; versions compare in their order of release; loading a document goes to the reader of its version and kind.")
    ctx.assume += ["The semantic version parser (lenient_semver) gives the major and minor number of a version string and rejects what is not one."]
    I = Interp([c])
    pv, vs = ctx.need(SPEC + "::parse_version"), ctx.need(SPEC + "::version_str")
    table = {cstr(s): t for s, t, _ in VERSIONS} | {cstr(s): t for s, t in BAD}
    def machine(opq=()):
        m = comp(ctx, extra_opaque=opq); m.keep = semver(table); return m
    for v in variants_of(I, SPEC):
        if v == "Unknown": continue
        m = machine()
        s, _ = m.interp(vs, [spec(v)])
        y, _ = m.interp(pv, [s])
        check_equal(ctx, "written version:" + v, m, y, spec(v), ctx.where(vs), "Ok", what="the version read back")
    for s, t, v in VERSIONS:
        m = machine()
        y, _ = m.interp(pv, [cstr(s)])
        check_equal(ctx, "parse:" + s, m, y, spec(v), ctx.where(pv), "Ok", what="the version")
    for s, t in BAD:
        m = machine()
        y, _ = m.interp(pv, [cstr(s)])
        goods, others = split_result(y, "Ok") if y is not None else ([], [])
        ctx.ob("parse:'%s'" % s, not goods, "is taken for a version: " + "; ".join(show(v, 3) for g, v in goods[:3]), ctx.where(pv))
    # order
    pc = tm(SPEC, "std::cmp::PartialOrd", "partial_cmp")
    rel = ["Unknown", "V1", "V1_1", "V2", "V3", "V4"]
    ctx.need(pc)
    for i, a in enumerate(rel):
        for j, b in enumerate(rel):
            m = machine()
            y, _ = m.interp(pc, [spec(a), spec(b)])
            check_equal(ctx, "order:%s:%s" % (a, b), m, y, some(agg("std::cmp::Ordering", "Less" if i < j else "Greater" if i > j else "Equal", ())), ctx.where(pc), what="the order")
    # metadata
    md, ds = ctx.need("pact::parse_meta_data"), ctx.need("pact::determine_spec_version")
    for key in ("pactSpecification", "pact-specification"):
        for s, t, v in VERSIONS:
            m = machine()
            j = obj(metadata=agg(VALUE, "Object", (mapof((cstr(key), obj(version=jstr(s)))),)))
            y, _ = m.interp(md, [j])
            y, _ = m.interp(ds, [sym("file"), m.norm(y)])
            check_equal(ctx, "metadata:%s:%s" % (key, s), m, y, spec(v), ctx.where(ds), what="the version")
    for l, j in [("no metadata", obj()), ("no version", obj(metadata=obj(pactSpecification=obj()))), ("no specification", obj(metadata=obj()))]:
        m = machine()
        y, _ = m.interp(md, [j])
        y, _ = m.interp(ds, [sym("file"), m.norm(y)])
        check_equal(ctx, "metadata:" + l, m, y, spec("V3"), ctx.where(ds), what="the version")
    # dispatch
    load = ctx.need("pact::load_pact_from_json")
    R = {"V4": "v4::pact::from_json", "messages": "<message_pact::MessagePact as pact::Pact>::from_json"}
    rr, mp = [[n for n in c.fns if n.split("::")[-1] == "from_json" and "::tests::" not in n and k in n.split(" as ")[0] and c.fns[n]["kind"] != "closure"] for k in ("sync_pact::RequestResponsePact", "message_pact::MessagePact")]
    v4 = ctx.need("v4::pact::from_json")
    if not rr or not mp: ctx.ob("loaders", False, "the readers of the pact types no longer exist", load); return
    target = {"v4": {v4}, "rr": set(rr), "mp": set(mp)}
    for s, t, v in VERSIONS[:5] + [("none", None, "V3")]:
        for kind in ("interactions", "messages"):
            m = machine([v4] + rr + mp)
            kv = [(cstr(kind), sym("items"))]
            if s != "none": kv.append((cstr("metadata"), obj(pactSpecification=obj(version=jstr(s)))))
            j = agg(VALUE, "Object", (mapof(*kv),))
            y, _ = m.interp(load, [sym("source"), j])
            finish(ctx, m)
            want = "v4" if v == "V4" else "mp" if kind == "messages" else "rr"
            called = {x.args[0] for x in find_all(y, lambda z: z.op == "call" and z.args[0] in set().union(*target.values()))} if y is not None else set()
            good = bool(called) and called <= target[want] and all(j in x.args[1] or m.norm(j) in x.args[1] for x in find_all(y, lambda z: z.op == "call" and z.args[0] in called))
            ctx.ob("load:%s:%s" % (s, kind), good, "the document is read by %s" % (sorted(called) or show(y, 4)[:200] if y is not None else "nothing"), ctx.where(load))
