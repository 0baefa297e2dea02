"""Matching: which values a rule accepts, and which mismatches the comparison of two documents reports."""
import re
from common import *

MR, HS, CATEGORY, RLIST, RLOGIC = "matchingrules::MatchingRule", "HttpStatus", "matchingrules::MatchingRuleCategory", "matchingrules::RuleList", "matchingrules::RuleLogic"
OKU = ok(agg("()", "", ()))
BAD = err(call("error"))
M_ = "<%s as matchers::Matches<%s>>::matches_with"
JSONM = "json::<impl matchers::Matches<&serde_json::Value> for serde_json::Value>::matches_with"

def accepts(y):
    """True, False or None (undecided)."""
    hs = {x.args[1] if x.op == "agg" and x.args[0] == RES else None for _, x in alts(y)}
    return {"Ok": True, "Err": False}.get(next(iter(hs))) if len(hs) == 1 else None

def verdict(ctx, key, y, want, where, what):
    if y is UNDEF and PANICKED[0]: return ctx.ob(key, False, "%s ends in a panic" % what, where)
    a = accepts(y) if y is not UNDEF else None
    if a is None: return ctx.ob(key, None, "not resolved: " + show(y, 5)[:300], where)
    ctx.ob(key, a == want, "%s is %s" % (what, "accepted" if a else "refused"), where)

# --- the reference: what a rule says of a value -------------------------------
DATES = {"yyyy-MM-dd": r"(?!2021-02-29)\d{4}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01])", "dd/MM/yyyy": r"(0[1-9]|[12]\d|3[01])/(0[1-9]|1[0-2])/\d{4}",
         "HH:mm:ss": r"([01]\d|2[0-3]):[0-5]\d:[0-5]\d", "HH:mm": r"([01]\d|2[0-3]):[0-5]\d",
         "yyyy-MM-dd'T'HH:mm:ssXXX": r"(?!2021-02-29)\d{4}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01])T([01]\d|2[0-3]):[0-5]\d:[0-5]\d(Z|[+-]\d\d:\d\d)",
         "yyyy-MM-dd HH:mm": r"\d{4}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01]) ([01]\d|2[0-3]):[0-5]\d"}
DEFAULT = {"Date": "yyyy-MM-dd", "Time": "HH:mm:ss", "Timestamp": "yyyy-MM-dd'T'HH:mm:ssXXX"}
SEMVER = r"(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(-[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?(\+[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?"
RANGES = {"Information": (100, 199), "Success": (200, 299), "Redirect": (300, 399), "ClientError": (400, 499), "ServerError": (500, 599), "NonError": (0, 399), "Error": (400, 65535)}

def kind(v):
    return "null" if v is None else "bool" if isinstance(v, bool) else "integer" if isinstance(v, int) else "decimal" if isinstance(v, float) else "text" if isinstance(v, str) else "list" if isinstance(v, list) else "map"
def text(v):
    import json
    return v if isinstance(v, str) else json.dumps(v, separators=(",", ":"), sort_keys=True)
def same_type(e, a, json):
    k = {kind(e), kind(a)}
    return len(k) == 1 or (json and k == {"integer", "decimal"})
def status(st, n): return 0 <= n <= 65535 and (n in st if isinstance(st, tuple) else RANGES[st][0] <= n <= RANGES[st][1])

def reference(rule, e, a, json, cascaded):
    """Whether the actual value is acceptable under the rule; None where nothing is claimed."""
    n, x = rule[0], rule[1:]
    k = kind(a)
    if n in ("Equality", "Values"): return None if n == "Values" and not (json or k == "text") else kind(e) == k and e == a
    if n == "Regex":
        try: return re.search(x[0], text(a)) is not None
        except re.error: return False
    if n == "Include": return x[0] in text(a) if k != "bool" or json else None
    if n in ("Type", "MinType", "MaxType", "MinMaxType"):
        if not same_type(e, a, json): return False
        if k != "list" or n == "Type" or cascaded: return True
        return (n == "MaxType" or len(a) >= x[0]) and (n == "MinType" or len(a) <= x[-1])
    if n == "Null": return k == "null" if json else False
    if n == "Number":
        if k == "text" and not json: return re.fullmatch(r"-?\d+(\.\d+)?", a) is not None
        return k in ("integer", "decimal")
    if n == "Integer":
        if k == "text" and not json: return re.fullmatch(r"-?\d+", a) is not None
        return k == "integer"
    if n == "Decimal":
        if k == "text" and not json: return None if re.fullmatch(r"-?\d+", a) else re.fullmatch(r"-?\d+\.\d+", a) is not None
        return k == "decimal"
    if n == "Boolean": return k == "bool" or k == "text" and a in ("true", "false")
    if n in DEFAULT: return re.fullmatch(DATES[x[0] or DEFAULT[n]], a) is not None if k == "text" else None
    if n == "Semver": return k == "text" and re.fullmatch(SEMVER, a) is not None
    if n == "NotEmpty": return a != "" if k == "text" else None if not json else k not in ("null",) and not (k in ("list", "map") and not a)
    if n == "StatusCode":
        if json: return None
        if k == "text": return re.fullmatch(r"\d+", a) is not None and status(x[0], int(a))
        return status(x[0], a) if k == "integer" else False if k == "bool" else None

# --- building values -----------------------------------------------------------
def rule_term(rule):
    n, x = rule[0], rule[1:]
    if n == "StatusCode":
        return agg(MR, n, (agg(HS, "StatusCodes", (listof(*[const("int", v) for v in x[0]]),)) if isinstance(x[0], tuple) else agg(HS, x[0], ()),))
    return agg(MR, n, tuple(cstr(v) if isinstance(v, str) else const("int", v) for v in x))
def jterm(v):
    k = kind(v)
    if k == "null": return agg(VALUE, "Null", ())
    if k == "bool": return agg(VALUE, "Bool", (boolc(v),))
    if k == "integer": return jnum("i64" if v < 0 else "u64", const("int", v))
    if k == "decimal": return jnum("f64", const("float", v))
    if k == "text": return jstr(v)
    if k == "list": return agg(VALUE, "Array", (listof(*[jterm(x) for x in v]),))
    return agg(VALUE, "Object", (dict_of(*[(x, jterm(y)) for x, y in v.items()]),))
def plain(v): return boolc(v) if isinstance(v, bool) else const("int", v) if isinstance(v, int) else const("float", v) if isinstance(v, float) else cstr(v)

TEXT_RULES = [("Equality",), ("Values",), ("Type",), ("MinType", 5), ("MaxType", 1), ("MinMaxType", 5, 9), ("Include", "0"), ("Include", "a"), ("Include", ""), ("Regex", "^1"), ("Regex", r"^\d+$"), ("Regex", r"^[a-z]+$"), ("Regex", "b"), ("Regex", "("),
              ("Number",), ("Integer",), ("Decimal",), ("Boolean",), ("Null",), ("Semver",), ("NotEmpty",)] + [(d, f) for d in DEFAULT for f in ("", *{"Date": ["dd/MM/yyyy"], "Time": ["HH:mm"], "Timestamp": ["yyyy-MM-dd HH:mm"]}[d])]
STATUS = [("StatusCode", s) for s in RANGES] + [("StatusCode", (200, 418)), ("StatusCode", ())]
TEXTS = ["", "100", "-3", "1.5", "-0.25", "abc", "Abc", "abc ", "abcd", "true", "false", "True", "TRUE", "1.2.3", "1.2", "1.02.3", "1.2.3-rc.1+b7", "2020-02-29", "2021-02-29", "2021-13-01", "29/02/2020", "12:30:45", "24:00:00", "12:30", "2020-02-29T12:30:45+01:00", "2020-02-29T12:30:45", "2020-02-29 12:30", "null", "1e", "0x1", "-", "12a"]
CODES = [0, 99, 100, 101, 199, 200, 204, 299, 300, 399, 400, 418, 499, 500, 599, 600, 999]

def label(rule): return rule[0] + ("(%s)" % ", ".join(str(x) for x in rule[1:]) if rule[1:] else "")

@prop("P40", "A matching rule accepts exactly the values it describes", floor=1500)
def p40(ctx):
    ctx.rule("For texts, numbers, booleans, bytes and JSON values of every kind, and every matching rule that says something about a single value, the comparison accepts the actual value exactly if the documented meaning of the rule does; both where the rule is defined for the value itself and where it is inherited.")
    ctx.models(); ctx.matching()
    def texts():
        with ctx.part("texts"):
            R = Cases(ctx, crates=[ctx.models(), ctx.matching()])
            f = M_ % ("&str", "&str"); w = ctx.where(ctx.need(f))
            for rule in TEXT_RULES + STATUS:
                es = [("abc", a) for a in (TEXTS if rule[0] != "StatusCode" else [str(c) for c in CODES] + ["", "-1", "abc", "65736", "200.0"])]
                if rule[0] in ("Equality", "Values"): es += [("", "a"), ("a", ""), ("abc ", "abc"), ("1", "1.0"), ("abc", "abc")]
                for e, a in es:
                    for cascaded in (FALSE, TT) if rule[0] not in ("Values", "Null") else (FALSE,):
                        want = reference(rule, e, a, False, cascaded is TT)
                        if want is None: continue
                        y = R.run(f, cstr(e), cstr(a), rule_term(rule), boolc(cascaded is TT))
                        verdict(ctx, "%s, text %r for %r%s" % (label(rule), a, e, ", inherited" if cascaded is TT else ""), y, want, w, "the text %r under %s" % (a, label(rule)))
            s, e, a = sym("s"), sym("expected"), sym("actual")
            for h, (x, z) in (((M_ % ("std::string::String", "&str")), ("abc", "abd")), (M_ % ("std::string::String", "std::string::String"), ("abc", "abd")), (M_ % ("std::string::String", "&std::string::String"), ("abc", "abd")), (M_ % ("&std::string::String", "&std::string::String"), ("abc", "abd"))):
                w2 = ctx.where(ctx.need(h))
                for rule in (("Equality",), ("Regex", "d$"), ("Include", "c"), ("Values",)):
                    for p, q in ((x, z), (z, x), (x, x)):
                        verdict(ctx, "%s: %s, %r for %r" % (h, label(rule), q, p), R.run(h, cstr(p), cstr(q), rule_term(rule), FALSE), reference(rule, p, q, False, False), w2, "the text %r under %s" % (q, label(rule)))
            # arbitrary texts
            for n, cond in (("Equality", "eq"), ("Include", "contains")):
                y = R.norm(R.run(f, e, a, agg(MR, n, (s,) if n == "Include" else ()), FALSE))
                verdict(ctx, "%s, equal arbitrary texts" % n, R.norm(R.run(f, a, a, agg(MR, n, (a,) if n == "Include" else ()), FALSE)), True, w, "any text under %s of itself" % n)
            for n in ("Type", "MinType", "MaxType", "MinMaxType"):
                verdict(ctx, "%s, arbitrary texts" % n, R.run(f, e, a, agg(MR, n, tuple(sym("n%d" % i) for i in range({"Type": 0, "MinMaxType": 2}.get(n, 1)))), FALSE), True, w, "any text under %s" % n)
    def numbers():
        with ctx.part("numbers"):
            R = Cases(ctx, crates=[ctx.models(), ctx.matching()])
            rules = [r for r in TEXT_RULES if r[0] not in DEFAULT and r[0] not in ("Values", "NotEmpty")]
            U, F, I = [0, 1, 100, 200, 65736, 18446744073709551615], [0.5, 1.5, 100.25, -2.5], [0, -3, 3, 100]
            for te, ta, es, vs in (("u64", "u64", U, U), ("u64", "f64", U, F), ("f64", "f64", F, F), ("f64", "u64", F, U), ("i64", "i64", I, I), ("&str", "u64", ["100", "abc"], U), ("&str", "i64", ["100", "abc"], I), ("u16", "u16", [100, 200], [100, 200, 404]), ("i32", "i32", I, I),
                                   ("bool", "bool", [True, False], [True, False]), ("&str", "u16", ["100"], [100, 404]), ("&str", "i32", ["100"], I), ("std::string::String", "u64", ["100"], U), ("std::string::String", "i64", ["100"], I), ("std::string::String", "u16", ["100"], [100]), ("std::string::String", "i32", ["100"], I)):
                f = M_ % (te, ta); w = ctx.where(ctx.need(f))
                for rule in rules + (STATUS if ta in ("u64", "u16") and te != "f64" else []):
                    for cascaded in (False, True):
                        if cascaded and rule[0] in ("Null",): continue
                        pairs = [(e, a) for e in (es if rule[0] in ("Equality",) else es[:1]) for a in (vs if rule[0] != "StatusCode" else sorted(set(CODES[::3] + vs)))]
                        for e, a in pairs:
                            want = reference(rule, e, a, False, cascaded)
                            if want is None: continue
                            verdict(ctx, "%s, %s %s for %s %r%s" % (label(rule), ta, a, te, e, ", inherited" if cascaded else ""), R.run(f, plain(e), plain(a), rule_term(rule), boolc(cascaded)), want, w, "%s under %s" % (a, label(rule)))
    def raw_bytes():
        with ctx.part("bytes"):
            R = Cases(ctx, crates=[ctx.models(), ctx.matching()])
            for te, ta in (("bytes::Bytes", "&bytes::Bytes"), ("bytes::Bytes", "bytes::Bytes")):
                f = M_ % (te, ta); w = ctx.where(ctx.need(f))
                for rule in (("Equality",), ("Type",), ("MinType", 5), ("MaxType", 1), ("MinMaxType", 5, 9), ("Include", "b"), ("Include", "x"), ("Regex", "^a"), ("Regex", "x$"), ("Regex", "("), ("NotEmpty",), ("Number",), ("Integer",), ("Decimal",), ("Boolean",), ("Null",), ("Semver",)):
                    for e, a in (("abc", "abc"), ("abc", "abd"), ("abc", ""), ("", "abc"), ("", ""), ("abc", "abcabcabcabcabx"), ("abcabcabcabcabx", "abcabcabcabcaby"), ("abcabcabc", "abcabcabcd")):
                        want = rule[0] not in ("Number", "Integer", "Decimal", "Boolean", "Semver", "Null") and reference(rule, e, a, False, False)
                        verdict(ctx, "%s: %s, bytes %r for %r" % (ta, label(rule), a, e), R.run(f, cstr(e), cstr(a), rule_term(rule), FALSE), want, w, "the bytes %r under %s" % (a, label(rule)))
    def json_values():
        with ctx.part("JSON values"):
            R = Cases(ctx, crates=[ctx.models(), ctx.matching()])
            f = JSONM; w = ctx.where(ctx.need(f))
            vs = [None, True, False, 0, 100, -3, 1.5, -0.25, "", "100", "abc", "true", "false", "True", "1.2.3", "1.2", "2020-02-29", "2021-02-29", "12:30:45", "29/02/2020", "2020-02-29T12:30:45+01:00", [], [1], [1, 2], ["abc", "b", "c"], {}, {"a": 1}, {"a": "abc", "b": [True]}]
            fixed = [None, True, 7, 2.5, "abc", [1], {"a": 1}]
            for rule in [r for r in TEXT_RULES if r[0] not in ("MinType", "MaxType", "MinMaxType")] + [("MinType", 0), ("MinType", 1), ("MinType", 2), ("MaxType", 0), ("MaxType", 1), ("MaxType", 2), ("MinMaxType", 1, 2), ("MinMaxType", 2, 2), ("MinMaxType", 0, 0)]:
                for cascaded in (False, True):
                    es = fixed if "Type" in rule[0] else vs if rule[0] in ("Equality", "Values") else fixed[4:5]
                    for e in es:
                        for a in vs:
                            want = reference(rule, e, a, True, cascaded)
                            if want is None or rule[0] == "Include" and kind(a) == "decimal": continue
                            verdict(ctx, "%s, JSON %s for %s%s" % (label(rule), text(a) if not isinstance(a, str) else repr(a), text(e) if not isinstance(e, str) else repr(e), ", inherited" if cascaded else ""), R.run(f, jterm(e), jterm(a), rule_term(rule), boolc(cascaded)), want, w, "%s for %s under %s" % (text(a), text(e), label(rule)))
    def codes():
        with ctx.part("status codes"):
            R = Cases(ctx, crates=[ctx.models(), ctx.matching()])
            f = M_ % ("u16", "u16"); w = ctx.where(ctx.need(f))
            for st in RANGES:
                lo, hi = RANGES[st]
                for c in sorted({0, 99, lo, lo + 1, (lo + hi) // 2, hi - 1, hi, max(lo - 1, 0), min(hi + 1, 65535), 65535} | set(CODES)):
                    verdict(ctx, "StatusCode(%s), %d" % (st, c), R.run(f, const("int", 200), const("int", c), rule_term(("StatusCode", st)), FALSE), status(st, c), w, "the status %d under %s" % (c, st))
    ctx.spread([texts, numbers, raw_bytes, json_values, codes])

# --- comparing documents ---------------------------------------------------------
CAT_N = "matchingrules::Category"
def left(t): return agg("itertools::Either", "Left", (t,))

class Doc:
    """The comparison interpreted on documents of known shape."""
    def __init__(self, ctx):
        self.ctx, self.R = ctx, Cases(ctx, crates=[ctx.models(), ctx.matching()])
        self.R.orders, self.R.maxdepth = ("asc",), 30
        self.root = self.R.run("path_exp::DocPath::root")
        self.paths = {}
    def path(self, p):
        if p not in self.paths:
            y = self.R.run("path_exp::DocPath::new", cstr(p))
            self.paths[p] = y.args[2][0] if y.op == "agg" and y.args[1] == "Ok" else y
        return self.paths[p]
    def rules(self, rules, name="BODY"):
        """rules: {path: (logic, [rule terms])}"""
        def entry(ps): return agg(RLIST, "RuleList", tuple({"rules": listof(*ps[1]), "rule_logic": agg(RLOGIC, ps[0], ()), "cascaded": FALSE}[f] for f in self.R.fields(RLIST)))
        return self.R.struct(CATEGORY, name=agg(CAT_N, name, ()), rules=mapof(*[(self.path(p), entry(v)) for p, v in rules.items()]))
    def context(self, rules=None, exact=False, name="BODY"):
        return self.R.struct("CoreMatchingContext", config=agg("DiffConfig", "NoUnexpectedKeys" if exact else "AllowUnexpectedKeys", ()), matchers=self.rules(rules or {}, name),
                             matching_spec=agg("PactSpecification", "V4", ()), plugin_configuration=mk("coll", frozenset(), frozenset()))

def reported(R, y, field="path"):
    """The set of paths (or other fields) of the mismatches of a result; None when it is not resolved."""
    out = set()
    if y is UNDEF: return None
    for _, x in alts(y):
        if x.op != "agg" or x.args[0] != RES: return None
        if x.args[1] == "Ok": s = frozenset()
        else:
            l = R.norm(x.args[2][0])
            if l.op == "agg" and l.args[0] == "[]": l = l.args[2]
            elif l.op == "coll" and not l.args[0] and all(k is None and not g for k, v, g in l.args[1]): l = [v for k, v, g in l.args[1]]
            else: return None
            s = set()
            for i in l:
                p = R.get(i, field) if i.op == "agg" else None
                if p is None or not (p.op == "const" and p.args[0] == "str"): return None
                s.add(p.args[1])
            s = frozenset(s)
        out.add(s)
    return set(out.pop()) if len(out) == 1 else None

def same_paths(ctx, key, R, y, want, where, what):
    if y is UNDEF and PANICKED[0]: return ctx.ob(key, False, "%s ends in a panic" % what, where)
    got = reported(R, y)
    if got is None:
        a = accepts(y) if y is not UNDEF else None
        if a is not None and a != (not want): return ctx.ob(key, False, "%s %s" % (what, "is accepted" if a else "is refused"), where)
        return ctx.ob(key, None, "not resolved: " + show(y, 5)[:300], where)
    ctx.ob(key, got == set(want), "%s: differences at %s, expected at %s" % (what, sorted(got) or "no path", sorted(want) or "no path"), where)

def step(p, k):
    if isinstance(k, int): return "%s[%d]" % (p, k)
    return p + "." + k if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_-]*", k) else "%s['%s']" % (p, k)

def differences(p, e, a, exact):
    """Where two documents differ when no matching rules are defined."""
    if isinstance(e, dict) and isinstance(a, dict):
        out = set()
        if set(e) - set(a) or exact and set(e) != set(a): out.add(p)
        for k in e:
            if k in a: out |= differences(step(p, k), e[k], a[k], exact)
        return out
    if isinstance(e, list) and isinstance(a, list):
        out = set()
        if len(e) != len(a): out.add(p)
        if not e: return out
        for i, (x, y) in enumerate(zip(e, a)): out |= differences(step(p, i), x, y, exact)
        return out
    return set() if kind(e) == kind(a) and e == a else {p}

DOCS = [None, True, False, 0, 1, -1, 1.5, "", "a", "b", "1", "true", "null", [], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "b", "c"], [[]], [{}], [{"a": "x"}], {}, {"a": "x"}, {"a": "y"}, {"a": None}, {"a": []}, {"a": {}}, {"b": "x"}, {"a": "x", "b": "y"}, {"a": "x", "b": "z"}, {"a": "x", "c": "y"},
        {"a": {"b": {"c": 1}}}, {"a": {"b": {"c": 2}}}, {"a": {"b": {"c": 1, "d": 2}}}, {"a": {"b": {}}}, {"a": [{"b": 1}, {"b": 2}]}, {"a": [{"b": 1}, {"b": 3}]}, {"a": [{"b": 1}]}, {"a": [{"b": 1}, {"c": 2}]}, {"a": [[1, 2], [3]]}, {"a": [[1, 2], [4]]}, {"a": [[1, 2], [3, 4]]}, {"x y": 1}, {"x y": 2}]

@prop("P41", "Comparing JSON without rules reports exactly the places that differ", floor=1000)
def p41(ctx):
    ctx.rule("For every pair out of a family of JSON documents (all kinds of values, nested objects and lists, missing and additional entries), and both settings for unexpected keys, the set of paths at which the comparison reports a difference is the set of places where the documents differ.")
    ctx.models(); ctx.matching()
    def part(i, n):
        def run():
            with ctx.part("documents"):
                D = Doc(ctx)
                w = ctx.where(ctx.need("json::compare_json"))
                pairs = [(e, a, x) for e in DOCS for a in DOCS for x in (False, True) if not isinstance(e, (dict, list)) or not x or isinstance(a, dict) and isinstance(e, dict) or isinstance(a, list)]
                for j, (e, a, x) in enumerate(pairs):
                    if j % n != i: continue
                    y = D.R.run("json::compare_json", D.root, jterm(e), jterm(a), D.context(exact=x))
                    k = "%s against %s%s" % (text(a) if not isinstance(a, str) else repr(a), text(e) if not isinstance(e, str) else repr(e), ", exact keys" if x else "")
                    same_paths(ctx, k, D.R, y, differences("$", e, a, x), w, k)
        return run
    ctx.spread([part(i, 4) for i in range(4)])

# --- comparing documents under rules ------------------------------------------------
def tokens(p): return [("i", int(x)) if x.isdigit() and b else ("*", 1) if x == "*" and b else ("*", 0) if x == "*" else ("f", x) for b, x in [(m.group(1) == "[", m.group(2)) for m in re.finditer(r"([.\[])([^.\[\]]+)", p)]]
class Under:
    """Where two documents differ when rules are defined: rules is {path: (logic, [rule])}."""
    def __init__(self, rules, exact): self.rules, self.exact = [(p, tokens(p), v) for p, v in rules.items()], exact
    def best(self, path):
        out = (0, None, None)
        for p, t, v in self.rules:
            if len(t) > len(path): continue
            w = 2
            for x, y in zip(t, path): w *= 2 if x == y else 1 if x[0] == "*" and (x[1] == 0 or y[0] == "i") else 0
            w *= len(t) + 1
            if w > out[0]: out = (w, v, len(t) != len(path))
        return out[1:]
    def direct(self, path, names=()):
        for p, t, v in self.rules:
            if len(t) == len(path) and all(x == y or x[0] == "*" for x, y in zip(t, path)) and any(not names or r[0] in names for r in v[1]): return True
        return False
    @staticmethod
    def text(path): 
        p = "$"
        for k, x in path: p = step(p, x)
        return p
    def keys(self, path, e, a):
        out = set()
        if not self.direct(path, ("Values", "EachValue", "EachKey")) and (set(e) - set(a) or self.exact and set(e) != set(a)): out.add(self.text(path))
        if self.direct(path):
            for r in self.best(path)[0][1]:
                if r[0] == "EachKey": out |= {self.text(path + [("f", k)]) for k in a for s in r[1] if not reference(s, "", k, False, False)}
        return out
    def __call__(self, path, e, a):
        here = {self.text(path)}
        rl, cascaded = self.best(path)
        if isinstance(e, dict) and isinstance(a, dict):
            if self.exact and not e and a: return here
            out = set()
            for r in rl[1] if rl else [None]:
                if r and not cascaded and r[0] in ("Values", "EachValue"):
                    u = self if r[0] == "Values" else Under({self.text(path) + ".*": ("And", r[1])}, self.exact)
                    for k in a:
                        if k in e: out |= u(path + [("f", k)], e[k], a[k])
                        elif e: out |= u(path + [("f", k)], e[min(e)], a[k])
                    continue
                if r and r[0] == "Equality" and e != a or r and r[0] == "NotEmpty" and not a: out |= here
                out |= self.keys(path, e, a)
                for k in e:
                    if k in a: out |= self(path + [("f", k)], e[k], a[k])
            return out
        if isinstance(e, list) and isinstance(a, list):
            if not rl:
                out = here if len(e) != len(a) else set()
                if e:
                    for i, (x, y) in enumerate(zip(e, a)): out = out | self(path + [("i", i)], x, y)
                return out
            if not e: return set()
            res = []
            for r in rl[1]:
                out = set()
                if r[0] == "ArrayContains":
                    for i, rs in r[1]:
                        if i >= len(e) or all(Under(rs, self.exact)([], e[i], x) for x in a): out |= here
                elif r[0] != "EachValue" or not cascaded:
                    u = self
                    if r[0] == "EachValue": u = Under({self.text(path) + "[*]": ("And", r[1])}, self.exact)
                    elif r[0] not in ("Values", "EachKey") and reference(r, e, a, True, cascaded) is False and "Type" in r[0] or r[0] == "Equality" and e != a or r[0] == "NotEmpty" and not a: out |= here
                    for i, y in enumerate(a): out |= u(path + [("i", i)], e[i] if i < len(e) else e[0], y)
                res.append(out)
            return set().union(*res) if rl[0] == "And" or all(res) else set()
        if isinstance(e, (dict, list)): return here
        if not rl: return set() if kind(e) == kind(a) and e == a else here
        vs = [r[0] in ("EachKey", "EachValue") or reference(r, e, a, True, cascaded) for r in rl[1]]
        return set() if (all if rl[0] == "And" else any)(vs) else here

MRD = "matchingrules::expressions::MatchingRuleDefinition"
def deep_rule(D, r):
    if r[0] in ("EachKey", "EachValue"):
        d = D.R.struct(MRD, value=cstr(""), value_type=agg("matchingrules::expressions::ValueType", "Unknown", ()), rules=listof(*[left(rule_term(x)) for x in r[1]]), generator=NONE, expression=cstr(""))
        return agg(MR, r[0], (d,))
    if r[0] == "ArrayContains":
        return agg(MR, r[0], (listof(*[agg("()", "", (const("int", i), D.rules({p: (lg, [deep_rule(D, y) for y in rs]) for p, (lg, rs) in v.items()}), mk("coll", frozenset(), frozenset()))) for i, v in r[1]]),))
    return rule_term(r)

A1 = lambda *rs: ("And", list(rs))
OR = lambda *rs: ("Or", list(rs))
T_, I_, N_, EQ = ("Type",), ("Integer",), ("Null",), ("Equality",)
def X(n): return ("Regex", n)
LISTS = [{"a": x} for x in ([], [1], [1, 2], [1, 2, 3], ["x"], [1, "x"], [None, 1], [{"b": 1}], [{"b": 1}, {"b": "x"}], [{"b": 1}, {"b": 2}, {"c": 3}], [{"b": 5, "c": 1}], [{"b": 7}, {"c": "y"}, {"b": 9}], [[1], [2, 3]], [[], [1, 2, 3]], "x", {})] + [{}]
MAPS = [{"a": x} for x in ({}, {"k": 1}, {"k": "x"}, {"m": 1}, {"k": 1, "m": 2}, {"k": 1, "m": "x"}, {"K9": 3}, {"k": {"c": "1"}}, {"m": {"c": "1"}, "n": {"c": "x", "d": 1}}, {"k": {"d": 1}}, 1, [1])] + [{}]
SCALARS = [{"a": x, "b": y} for x in (None, True, 1, 2.5, "1", "x", [1], {}) for y in (1, 2)] + [{"a": 1}, {"b": 1}, {"a": 2, "b": 1, "c": 1}]
SETS = [
    ({"$": A1(T_)}, ({"a": [1], "b": 1, "c": {"d": "x"}}, {"a": []}, {"a": [{"b": 1}]}), LISTS + SCALARS + [{"a": [5, 6], "b": 7, "c": {"d": "y"}}, {"a": ["x"], "b": "x", "c": {"d": 1}}, {"a": [], "b": 0, "c": {}}, {"a": [{"b": 3}, {"b": "x"}, {}]}]),
    ({"$.a": A1(T_)}, ({"a": 1, "b": 1}, {"a": "x", "b": 1}, {"a": None, "b": 1}, {"a": True, "b": 1}), SCALARS),
    ({"$.a": A1(EQ), "$": A1(T_)}, ({"a": 1, "b": 1}, {"a": "x", "b": 1}), SCALARS),
    ({"$.a": A1(EQ)}, ({"a": [1, 2]}, {"a": {"k": 1}}), LISTS + MAPS),
    ({"$.a": A1(("NotEmpty",))}, ({"a": {"k": 1}}, {"a": "x"}), MAPS),
    ({"$.a": A1(I_, ("Number",))}, ({"a": 1, "b": 1},), SCALARS), ({"$.a": OR(I_, N_)}, ({"a": 1, "b": 1},), SCALARS), ({"$.a": OR(N_, X(r"^\d+$"), ("Boolean",))}, ({"a": 1, "b": 1},), SCALARS), ({"$.a": A1(X(r"^\d"), ("Include", "1"))}, ({"a": "1", "b": 1},), SCALARS), ({"$.a": A1(I_, N_)}, ({"a": 1, "b": 1},), SCALARS), ({"$.b": A1(I_)}, ({"a": "x", "b": 5}, {"b": 5}), SCALARS),
    ({"$.*": A1(I_)}, ({"a": 1, "b": 1},), SCALARS), ({"$.*": A1(I_), "$.a": A1(X("x"))}, ({"a": "x", "b": 1},), SCALARS),
    *[({"$.a": A1(r)}, ({"a": [1]}, {"a": [1, 2]}, {"a": []}, {"a": [{"b": 1}]}, {"a": [[1]]}), LISTS) for r in (T_, ("MinType", 2), ("MaxType", 2), ("MinMaxType", 1, 2), ("MinType", 0), ("MaxType", 0))],
    ({"$.a": A1(("MinType", 2)), "$.a[*].b": A1(I_)}, ({"a": [{"b": 1}]},), LISTS), ({"$.a": A1(("MinType", 1)), "$.a[*].*": A1(T_)}, ({"a": [{"b": 1}]},), LISTS), ({"$.a[*]": OR(I_, N_)}, ({"a": [1]}, {"a": [1, 2]}), LISTS), ({"$.a[1]": A1(I_)}, ({"a": [1, 2]}, {"a": ["x", 7]}), LISTS), ({"$.a": A1(T_), "$.a[1]": A1(X("x"))}, ({"a": [1, "x"]}, {"a": [1, 2]}), LISTS), ({"$.a": OR(("MinType", 3), ("MaxType", 1))}, ({"a": [1]},), LISTS), ({"$.a": A1(("MinType", 2), ("MaxType", 2))}, ({"a": [1]},), LISTS), ({"$.a": A1(("MaxType", 2)), "$.a[*]": A1(("MinType", 1))}, ({"a": [[1]]},), LISTS),
    ({"$.a": A1(("Values",))}, ({"a": {"k": 1}}, {"a": {}}), MAPS), ({"$.a": A1(("Values",)), "$.a.*": A1(I_)}, ({"a": {"k": 1}},), MAPS), ({"$.a": A1(("Values",)), "$.a.*.c": A1(X(r"^\d$"))}, ({"a": {"k": {"c": "1"}}},), MAPS),
    ({"$.a": A1(("EachValue", [I_]))}, ({"a": {"k": 1}},), MAPS), ({"$.a": A1(("EachValue", [I_]))}, ({"a": [1]}, {"a": [1, 2]}), LISTS), ({"$.a": A1(("EachKey", [X("^[a-z]$")]))}, ({"a": {"k": 1}}, {"a": {"k": 1, "m": 2}}), MAPS), ({"$.a": A1(("EachKey", [X("^[a-z]$")]), ("EachValue", [I_]))}, ({"a": {"k": 1}},), MAPS), ({"$.a": A1(("EachValue", [T_]))}, ({"a": [{"b": 1}]},), LISTS),
    ({"$.a": A1(("ArrayContains", [(0, {"$": A1(I_)})]))}, ({"a": [5]},), LISTS), ({"$.a": A1(("ArrayContains", [(0, {"$.b": A1(I_)}), (1, {"$.c": A1(T_)})]))}, ({"a": [{"b": 1}, {"c": "x"}]},), LISTS), ({"$.a": A1(("ArrayContains", [(0, {}), (1, {})]))}, ({"a": [1, "x"]},), LISTS), ({"$.a": A1(("ArrayContains", [(2, {})]))}, ({"a": [1, 2]},), LISTS),
]

def rs_label(rules):
    def one(r): return r[0] + ("(%s)" % "; ".join(str(x) if not isinstance(x, list) else ", ".join(label(y) if isinstance(y[0], str) else "%d: %s" % (y[0], rs_label(y[1])) for y in x) for x in r[1:]) if r[1:] else "")
    return ", ".join("%s %s" % (p, (" and " if lg == "And" else " or ").join(one(r) for r in rs)) for p, (lg, rs) in rules.items()) or "none"

@prop("P42", "Comparing JSON under rules reports exactly the places the rules refuse", floor=700)
def p42(ctx):
    ctx.rule("For families of rule sets (by type, lengths, each key and value, variants of a list, wildcards, several rules joined by and/or, nested and overriding paths) and families of JSON documents, the set of paths at which the comparison reports a difference is the one that follows from the meaning of each rule, the most specific rule of each path and inheritance by the paths below it.")
    ctx.models(); ctx.matching()
    def part(i, n):
        def run():
            with ctx.part("documents"):
                D = Doc(ctx)
                w = ctx.where(ctx.need("json::compare_json"))
                j = 0
                for rules, es, as_ in SETS:
                    terms = {p: (lg, [deep_rule(D, r) for r in rs]) for p, (lg, rs) in rules.items()}
                    for x in (False, True):
                        c = D.context(terms, exact=x)
                        for e in es:
                            for a in as_:
                                if x and not any(isinstance(y, dict) and len(y) > 1 for y in (a, a.get("a"))): continue
                                j += 1
                                if j % n != i: continue
                                y = D.R.run("json::compare_json", D.root, jterm(e), jterm(a), c)
                                k = "%s: %s for %s%s" % (rs_label(rules), text(a), text(e), ", exact keys" if x else "")
                                same_paths(ctx, k, D.R, y, Under(rules, x)([], e, a), w, k)
        return run
    ctx.spread([part(i, 6) for i in range(6)])
