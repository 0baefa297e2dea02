"""Checking the format of a pact file reports each problem where it is."""
from common import *
from models import is_str_const

V = "<%s as verify_json::PactJsonVerifier>::verify_json"
CON, PRO, PS, RRI_, RRP, MP, V4 = (V % x for x in ("Consumer", "Provider", "provider_states::ProviderState", "sync_interaction::RequestResponseInteraction",
                                                   "sync_pact::RequestResponsePact", "message_pact::MessagePact", "v4::pact::V4Pact"))
LEVEL = "verify_json::ResultLevel"
VERSIONS = ("V1", "V1_1", "V2", "V3", "V4")

class Lit(str): "A string whose characters are known; other strings have arbitrary contents"

def term(v, name="x"):
    if v is None: return agg(VALUE, "Null", ())
    if v is True or v is False: return agg(VALUE, "Bool", (sym(name),))
    if isinstance(v, int): return agg(VALUE, "Number", (mk("num", ("u64", "i64", "f64")[v % 3], sym(name)),))
    if isinstance(v, Lit): return jstr(str(v))
    if isinstance(v, str): return agg(VALUE, "String", (sym(name),))
    if isinstance(v, list): return agg(VALUE, "Array", (listof(*[term(x, "%s_%d" % (name, i)) for i, x in enumerate(v)]),))
    return agg(VALUE, "Object", (dict_of(*[(k, term(x, "%s_%s" % (name, i))) for i, (k, x) in enumerate(sorted(v.items()))]),))

def kind(v): return "Null" if v is None else "Bool" if v is True or v is False else "Number" if isinstance(v, int) else "String" if isinstance(v, str) else "Array" if isinstance(v, list) else "Object"
ALL = (None, True, 0, 1, 2, "s", [], ["s"], {}, {"a": "s"})
def but(*ks): return [x for x in ALL if kind(x) not in ks]

# --- what is to be reported: (path, level, words of the message) --------------
E_, W_ = "ERROR", "WARNING"
def lv(strict): return E_ if strict else W_

def named(path, v, strict):
    if not isinstance(v, dict): return [(path, E_, ("Object", "got " + kind(v)))]
    out = []
    if "name" not in v: out.append((path + "/name", lv(strict), ("name",)))
    elif not isinstance(v["name"], str): out.append((path + "/name", E_, ("String", "got " + kind(v["name"]))))
    return out + [(path, lv(strict), ("'%s'" % k,)) for k in v if k != "name"]

def state(path, v, strict):
    if isinstance(v, str): return []
    if not isinstance(v, dict): return [(path, E_, ("String", "Object", "got " + kind(v)))]
    out = []
    if "name" not in v: out.append((path, E_, ("name",)))
    elif not isinstance(v["name"], str): out.append((path, E_, ("name", "String", "got " + kind(v["name"]))))
    if "params" in v and not isinstance(v["params"], dict): out.append((path, E_, ("params", "Object", "got " + kind(v["params"]))))
    return out + [(path, lv(strict), ("'%s'" % k,)) for k in v if k not in ("name", "params")]

def interaction(path, v, strict, ver):
    if not isinstance(v, dict): return [(path, E_, ("Object", "got " + kind(v)))]
    out = []
    if "description" not in v: out.append((path, lv(strict), ("description",)))
    elif not isinstance(v["description"], str): out.append((path + "/description", E_, ("String", "got " + kind(v["description"]))))
    if "providerStates" in v:
        ps = v["providerStates"]
        if isinstance(ps, list):
            for i, s in enumerate(ps): out += state("%s/providerStates/%d" % (path, i), s, strict)
        else: out.append((path, E_, ("'providerStates'", "Array", "got " + kind(ps))))
    elif "providerState" in v:
        if ver in ("V3", "V4"): out.append((path, W_, ("'providerState'", "'providerStates'")))
        out += state(path + "/providerStates/0", v["providerState"], strict)
    elif "provider_state" in v:
        out.append((path, W_, ("'provider_state'", "'providerStates'")))
        out += state(path + "/providerStates/0", v["provider_state"], strict)
    known = ("_id", "description", "providerState", "provider_state", "providerStates", "request", "response")
    return out + [(path, lv(strict), ("'%s'" % k,)) for k in v if k not in known]

def metadata(v):
    if not isinstance(v, dict): return [("/metadata", E_, ("Object", "got " + kind(v)))]
    out, spec = [], v.get("pactSpecification", NONE)
    if spec is NONE and "pact-specification" in v:
        out.append(("/metadata", W_, ("'pact-specification'", "'pactSpecification'")))
        spec = v["pact-specification"]
    if "pactSpecificationVersion" in v: out.append(("/metadata", W_, ("'pactSpecificationVersion'",)))
    if spec is NONE: return out
    p = "/metadata/pactSpecification"
    if not isinstance(spec, dict): return out + [(p, E_, ("Object", "got " + kind(spec)))]
    if "version" not in spec: return out + [(p, W_, ("version",))]
    x = spec["version"]
    if x is None: return out + [(p + "/version", W_, ())]
    if not isinstance(x, str): return out + [(p + "/version", E_, ("String", "got " + kind(x)))]
    if x not in GOOD: out.append((p + "/version", E_, ("'%s'" % x,)))
    return out
GOOD = ("1.0", "1.0.0", "1.1", "1.1.0", "2", "2.0", "2.0.0", "3", "3.0", "3.0.0", "4", "4.0", "4.0.0")
BADV = ("", "junk", "1.2", "1.2.0", "2.1", "3.1.0", "4.1", "0.9", "0", "5", "5.0.0", "10.0", "33.0", "-3", "V")

def pact(v, strict, ver):
    if not isinstance(v, dict): return [("/", E_, ("Object", "got " + kind(v)))]
    out = []
    for k in ("consumer", "provider"): out += named("/" + k, v[k], strict) if k in v else [("/" + k, lv(strict), (k,))]
    if "interactions" not in v or v["interactions"] == []: out.append(("/interactions", W_, ("nteractions",)))
    elif not isinstance(v["interactions"], list): out.append(("/interactions", E_, ("Array", "got " + kind(v["interactions"]))))
    else:
        for i, x in enumerate(v["interactions"]): out += interaction("/interactions/%d" % i, x, strict, ver)
    if "metadata" in v: out += metadata(v["metadata"])
    return out + [("/" + k, lv(strict), ("'%s'" % k,)) for k in v if k not in ("consumer", "provider", "interactions", "metadata")]

def shell(v): return [("/", E_, ("Object", "got " + kind(v)))] if not isinstance(v, dict) else []

# --- what is reported --------------------------------------------------------
def text(t):
    if is_str_const(t): return t.args[1]
    if t.op == "call" and t.args[0].split("::")[-1] == "add" and len(t.args[1]) == 2:
        a, b = (text(x) for x in t.args[1])
        return None if a is None or b is None else a + b
    return None

def reported(R, y):
    """The reports as (path, level, message), or None where they are not resolved."""
    if y.op == "coll": es = [(e[1], e[2]) for e in y.args[1]] if not y.args[0] else None
    elif y.op == "agg" and y.args[0] == "[]": es = [(e, TT) for e in y.args[2]]
    else: return None
    if es is None: return None
    out = []
    for e, g in es:
        if e is None or g is not TT or e.op != "agg": return None
        p, l, m = (R.get(e, f) for f in ("path", "level", "message"))
        p = text(p)
        if p is None or l.op != "agg": return None
        out.append((p, l.args[1], m))
    return out

def words(m):
    if is_str_const(m): return m.args[1]
    return None

@prop("P20", "Checking the format of a pact file reports each problem where it is", floor=1500)
def p20(ctx):
    ctx.rule("The format checks of a consumer, provider, provider state, interaction, metadata and pact are interpreted on every JSON type in every position, on missing, deprecated and unknown attributes, for every specification version, "
             "strictly and not, with arbitrary contents of the strings, numbers and booleans; the reports (where, how grave, and the names and types that the message has to mention) are compared as a whole with those that the shape calls for.")
    def check(R, fn, path, v, strict, ver, want, key, where):
        y = R.run(fn, cstr(path), term(v), boolc(strict), agg("PactSpecification", ver, ()))
        what = "%s%s of %s" % ("strict " if strict else "", key, brief(v))
        if y.op == "undef": return ctx.ob(what, False, "the check panics", where)
        got = reported(R, y)
        if got is None: return ctx.ob(what, None, "not resolved: " + show(y, 6)[:300], where)
        gs, ws = sorted((p, l) for p, l, _ in got), sorted((p, l) for p, l, _ in want)
        if gs != ws: return ctx.ob(what, False, "reports %s instead of %s" % (fmt(gs), fmt(ws)), where)
        for p, l, ks in want: # each expected report has one message of its own
            cands = [g for g in got if g[:2] == (p, l)]
            texts = [words(g[2]) for g in cands]
            if any(t is not None and all(k in t for k in ks) for t in texts): continue
            if any(t is None for t in texts): return ctx.ob(what, None, "message not resolved: " + show(cands[0][2], 5)[:200], where)
            return ctx.ob(what, False, "the report at %s does not mention %s but says %s" % (p, " and ".join(ks), " / ".join(map(repr, texts))), where)
        return ctx.ob(what, True, "", where)
    def fmt(xs): return ", ".join("%s at %s" % (l, p) for p, l in xs) or "nothing"
    def brief(v):
        if isinstance(v, dict): return "{%s}" % ", ".join("%s: %s" % (k, brief(x)) for k, x in v.items())
        if isinstance(v, list): return "[%s]" % ", ".join(map(brief, v))
        return repr(str(v)) if isinstance(v, Lit) else kind(v) + ("%d" % v if kind(v) == "Number" else "")
    def each(): return ((s, ver) for s in (False, True) for ver in (VERSIONS if ctx.tier == "thorough" else ("V1", "V3", "V4")))

    def one(R, fn, key, oracle, shapes, path="/a/b"):
        where = ctx.where(fn)
        with ctx.part(key):
            for v in shapes:
                for s, ver in each():
                    check(R, fn, path, v, s, ver, oracle(path, v, s, ver), "%s, %s," % (key, ver), where)
    objs = [{}, {"name": "s", "name2": "s"}, {"Name": "s"}, {"name": "s", "a": None, "params": {}, "b": 1}, {"a": None}]
    names = [{"name": x} for x in ALL] + [{"name": x, "zz": "s"} for x in (None, 1, "s")]
    bad = but("Object")
    states = list(ALL) + objs + names + [{"name": "s", "params": x} for x in ALL] + [{"params": x} for x in ALL] + [{"name": [], "params": [], "other": "s"}, {"name": "s", "params": {"a": None, "b": []}, "param": {}}]
    ints = but("Object") + [{}, {"description": "s"}] + [{"description": x} for x in ALL] + [{"description": "s", k: x} for k in ("providerStates", "providerState", "provider_state") for x in ALL]
    ints += [{"description": "s", "providerStates": x} for x in ([None], [1, "s"], ["s", {}, {"name": "s"}], [{"name": "s", "params": "s"}, {"name": "s", "x": "s"}, True], [[]])]
    ints += [{"description": "s", "providerState": {"name": 1}}, {"description": "s", "provider_state": {"params": []}}, {"description": "s", "providerState": "s", "provider_state": 1}, {"description": "s", "providerState": 1, "provider_state": "s"},
             {"description": "s", "providerStates": [], "providerState": 1}, {"description": "s", "providerStates": [], "provider_state": None}, {"providerStates": ["s"], "provider_state": 1, "providerState": 1}]
    ints += [{k: x, "description": "s"} for k in ("_id", "request", "response", "key", "comments", "type", "Request", "interaction", "matchingRules") for x in (None, "s", {})] + [{"a": 1, "b": 2, "c": None}]
    ok_i = {"description": "s", "request": {}, "response": {}}
    full = {"consumer": {"name": "s"}, "provider": {"name": "s"}, "interactions": [ok_i], "metadata": {"pactSpecification": {"version": Lit("3.0.0")}}}
    def without(*ks): return {k: v for k, v in full.items() if k not in ks}
    def with_(**kw): return dict(full, **{k.replace("__", "-"): v for k, v in kw.items()})
    pacts = but("Object") + [{}, full] + [without(k) for k in full] + [with_(**{k: x}) for k in full for x in ALL] + [with_(**{k: "s"}) for k in ("other", "comments", "Consumer", "messages", "name")]
    pacts += [without("consumer", "provider"), with_(interactions=[ok_i, 1]), with_(interactions=[None, ok_i, {"description": 1}]), with_(interactions=[ok_i, ok_i, dict(ok_i, zz="s")]), with_(consumer={"name": 1, "a": "s"}, provider={}), {"a": 1, "b": None, "consumer": {}}]
    pacts += [with_(interactions=[dict(ok_i, providerState="s"), dict(ok_i, providerStates=[1, {}])])]
    metas = [{}, {"other": 1}] + [{k: x} for k in ("pactSpecification", "pact-specification", "pactSpecificationVersion") for x in ALL]
    metas += [{k: {"version": x}} for k in ("pactSpecification", "pact-specification") for x in but("String")]
    metas += [{k: {"version": Lit(x)}} for k in ("pactSpecification", "pact-specification") for x in GOOD + BADV]
    metas += [{"pactSpecification": {"version": Lit("3.0.0")}, k: x} for k in ("pact-specification", "pactSpecificationVersion") for x in (None, "s", {"version": Lit("9")})] + [{"pactSpecification": {"Version": Lit("3.0.0")}}, {"pact-specification": {}, "pactSpecificationVersion": None}]
    jobs = [
        lambda: one(Cases(ctx), CON, "consumer", lambda p, v, s, ver: named(p, v, s), list(ALL) + objs + names),
        lambda: one(Cases(ctx), PRO, "provider", lambda p, v, s, ver: named(p, v, s), list(ALL) + objs + names),
        lambda: one(Cases(ctx), PS, "provider state", lambda p, v, s, ver: state(p, v, s), states),
        lambda: one(Cases(ctx), RRI_, "interaction", interaction, ints[:len(ints) // 2]),
        lambda: one(Cases(ctx), RRI_, "interaction", interaction, ints[len(ints) // 2:]),
        lambda: one(Cases(ctx), RRP, "pact", lambda p, v, s, ver: pact(v, s, ver), pacts),
        lambda: one(Cases(ctx), RRP, "metadata", lambda p, v, s, ver: pact(v, s, ver), [with_(metadata=x) for x in metas]),
        lambda: (one(Cases(ctx), MP, "message pact", lambda p, v, s, ver: shell(v), list(ALL), "/"), one(Cases(ctx), V4, "V4 pact", lambda p, v, s, ver: shell(v), list(ALL), "/"))]
    ctx.spread(jobs)
