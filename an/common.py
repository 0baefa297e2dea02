"""Shared pieces of the checks: evaluation helpers, the reader/writer pairs, comparison of values with expectations."""
from engine import *
import engine, guards, models
from guards import *
from models import VALUE, EMPTY, VDOM
from norm import Norm
from rt import Comp
import pairs
from report import prop, Ctx, Missing, crate

SPEC = "PactSpecification"
def spec(v): return agg(SPEC, v, ())
V4I = "v4::interaction::V4Interaction"
INT = "interaction::Interaction"
def tm(ty, tr, m): return "<%s as %s>::%s" % (ty, tr, m)

HTTP, AMSG, SMSG = "v4::synch_http::SynchronousHttp", "v4::async_message::AsynchronousMessage", "v4::sync_message::SynchronousMessage"
RRI, MSG = "sync_interaction::RequestResponseInteraction", "message::Message"
REQ4, RES4, MC = "v4::http_parts::HttpRequest", "v4::http_parts::HttpResponse", "v4::message_parts::MessageContents"
REQ, RESP = "request::Request", "response::Response"
MRS, GENS = "matchingrules::MatchingRules", "generators::Generators"
BODY = "bodies::OptionalBody"
PS = "provider_states::ProviderState"

# reader -> (writer, wrapper of the result)
PAIRS = {
    REQ4 + "::from_json": (REQ4 + "::to_json", RES),
    RES4 + "::from_json": (RES4 + "::to_json", RES),
    REQ + "::from_json": (REQ + "::to_json", RES),
    RESP + "::from_json": (RESP + "::to_json", RES),
    "v4::interaction::InteractionMarkup::from_json": ("v4::interaction::InteractionMarkup::to_json", None),
    MC + "::from_json": (MC + "::to_json", RES),
    PS + "::from_json_v3": (PS + "::to_json", None),
}

def fns_by_sig(c, ret, first=None, pred=lambda r: True):
    """Functions of crate c by return type and first parameter type: helpers are found by what they are, not by name."""
    k = (id(c), ret, first)
    if k in _sigs: return [n for n in _sigs[k] if pred(c.fns[n])]
    out = _sigs[k] = []
    for n, r in c.fns.items():
        if r["kind"] in ("closure", "const", "static") or r["test"]: continue
        ls = r["locals"]
        if c.ty(ls[0]) != ret: continue
        if first is not None and (r["argc"] < 1 or c.ty(ls[1]) != first): continue
        out.append(n)
    return [n for n in out if pred(c.fns[n])]

_sigs = {}
def raw(ctx, crates=None, **kw):
    """An interpreter that sees through every function."""
    return Comp(crates or [ctx.models()], {}, **kw)

def comp(ctx, skip=(), extra_opaque=(), rules=(), crates=None, bodies=True, **kw):
    C = crates or [ctx.models()]
    c = C[0]
    p = {r: w for r, w in PAIRS.items() if r not in skip and w[0] not in skip}
    m = Comp(C, p, **kw)
    I = Interp(C)
    rs = list(rules)
    def keyed(*a):
        if a[0] in skip or a[2] in skip: return
        m.opq.update([a[0], a[2]]); rs.append(pairs.Keyed(I, *a))
    keyed("matchingrules::matchers_from_json", "matchingRules", "matchingrules::matchers_to_json", True, agg(MRS, "MatchingRules", (EMPTY,)))
    keyed("generators::generators_from_json", "generators", "generators::generators_to_json", True, agg(GENS, "Generators", (EMPTY,)))
    if bodies:
        for b in fns_by_sig(c, BODY, "&serde_json::Value"):
            if "From<" in b: continue
            if b.startswith("v4::"): keyed(b, 1, BODY + "::to_v4_json", False, agg(BODY, "Missing", ()))
            else:
                m.opq.add(b)
        # content type sniffing of bodies
        for b in fns_by_sig(c, "std::option::Option<content_types::ContentType>", "&" + BODY): m.opq.add(b)
    rs.append(pairs.byte_rules)
    m.rules = rs
    m.opq |= set(extra_opaque)
    return m

def finish(ctx, m):
    ctx.functions |= m.inlined
    for k, n in m.unknown.items(): ctx.unknown[k] = ctx.unknown.get(k, 0) + n

def opaque_in(t):
    """t contains something the interpreter lost track of (an unresolved loop value, too many alternatives, ...)."""
    return bool(find_all(t, lambda x: x.op in ("loop", "fold", "mut", "many", "undef", "rv") or x.op == "call" and (x.args[0].startswith(("closure?", "apply")) or x.args[0] in engine.UNKNOWN and x.args[0] not in VETTED)))

# library functions without a model whose values may be compared as they are (each is a function of its arguments); a value that holds any other is not decided
VETTED = set(["<chrono::DateTime<Tz> as chrono::Timelike>::with_minute",
    "<chrono::DateTime<Tz> as chrono::Timelike>::with_nanosecond",
    "<chrono::DateTime<Tz> as chrono::Timelike>::with_second",
    "<std::string::String as std::cmp::Ord>::cmp",
    "<std::vec::Vec<u8> as hex::FromHex>::from_hex",
    "ariadne::Config::with_color",
    "ariadne::Label::<S>::new",
    "ariadne::Label::<S>::with_message",
    "ariadne::Report::<'_, S>::build",
    "ariadne::ReportBuilder::<'a, S>::finish",
    "ariadne::ReportBuilder::<'a, S>::with_config",
    "ariadne::ReportBuilder::<'a, S>::with_label",
    "ariadne::ReportBuilder::<'a, S>::with_message",
    "ariadne::ReportBuilder::<'a, S>::with_note",
    "base64::Engine::decode",
    "base64::Engine::encode",
    "bytes::BufMut::writer",
    "bytes::buf::Writer::<B>::get_ref",
    "http_parts::HttpPart::body",
    "http_parts::HttpPart::lookup_content_type",
    "mime::Mime::params",
    "mime::Mime::subtype",
    "mime::Mime::suffix",
    "mime::Mime::type_",
    "regex::Match::<'h>::start",
    "regex::Regex::find",
    "regex::Regex::new",
    "serde::Serializer::serialize_unit_variant",
    "serde_json::from_slice",
    "std::char::methods::<impl char>::escape_unicode",
    "std::char::methods::<impl char>::is_ascii_alphanumeric",
    "std::char::methods::<impl char>::is_digit",
    "std::cmp::impls::<impl std::cmp::Ord for &A>::cmp",
    "std::iter::repeat",
    "std::str::from_utf8",
    "std::sync::Mutex::<T>::new"])

def split_result(y, good="Ok"):
    """Alternatives of a Result/Option value: (good alternatives, other alternatives)."""
    a, b = [], []
    for g, v in alts(y):
        if v.op == "agg" and v.args[1] == good and v.args[0] in (RES, OPT): a.append((g, v.args[2][0]))
        elif v is UNDEF or v.op == "agg" and v.args[0] in (RES, OPT) and v.args[2] == (UNDEF,): continue   # no value: cannot happen
        else: b.append((g, v))
    return a, b

def fields_of(I, adt):
    a = I.adts.get(adt)
    return [f[0] for f in a["variants"][0]["fields"]] if a else None

def check_fields(ctx, key, m, y, adt, base, expect=None, where="", result="Ok", only=None):
    """y must be the value `base` of type adt again, field by field.  expect: field -> accepted terms or predicate."""
    expect = expect or {}
    I = m.I
    finish(ctx, m)
    if y is None:
        ctx.ob(key + ":result", False, "the function never returns normally", where); return
    goods, others = split_result(y, result) if result else ([(TT, y)], [])
    if y.op not in ("agg", "phi") and result: 
        ctx.ob(key + ":result", None, "result not resolved: " + show(y, 5)[:300], where); return
    if others:
        un = any(opaque_in(v) or any(opaque_in(x) for x in support(g)) for g, v in others)
        ctx.ob(key + ":result", None if un else False, "a written document is rejected or lost when it is read back: " + "; ".join(show_g(g, 4)[:300] + show(v, 4)[:120] for g, v in others[:3]), where)
    elif result: ctx.ob(key + ":result", True, "", where)
    names = fields_of(I, adt)
    if not names:
        ctx.ob(key + ":type", False, "type %s not found" % adt, where); return
    if not goods: return
    v = m.norm_of(phi(goods)) if hasattr(m, "norm_of") else phi(goods)
    for f in names:
        if only and f not in only: continue
        act = m.N(v) if False else I.field(v, None, f)
        act = m.N(act)
        ex = expect.get(f, None)
        want = mk("field", base, None, f)
        if callable(ex): good = ex(act, want)
        elif ex is not None: good = any(act is e for e in (ex if isinstance(ex, (list, tuple)) else [ex]))
        else: good = act is want
        if good: ctx.ob(key + "." + f, True, "", where)
        elif good is None or opaque_in(act): ctx.ob(key + "." + f, None, "not resolved: " + show(act, 5)[:300], where)
        else: ctx.ob(key + "." + f, False, "the value read back is %s instead of %s" % (show(act, 7)[:600], show(want, 4)), where)

def drops_only_empty(act, want):
    """`want` (a map) without the entries whose value is null or empty."""
    if act is want: return True
    if act.op != "coll" or len(act.args[1]) != 1: return False
    if act.args[0] and act.args[0] != frozenset([want]): return False
    k, v, g = next(iter(act.args[1]))
    e = mk("elem", want)
    if k is not mk("field", e, None, "0") or v is not mk("field", e, None, "1"): return False
    d = mk("discr", v)
    nul = lit(d, "Null") if d in DOMAIN else None
    empties = [x for x in [nul] if x is not None]
    for w in support(g):
        if w.op == "call" and w.args[0] == "is_empty":
            x = w.args[1][0]
            if x is v or x.op == "field" and x.args[0] is v: empties.append(lit(w, True))
    n = neg(g)
    return n is None or bool(empties) and implies(n, disj(empties))

# ---- values of a type, by structure
def variants_of(I, adt): return [v["name"] for v in I.adts[adt]["variants"]]

def fieldless(I, adt):
    a = I.adts.get(adt)
    return bool(a and a["kind"] == "enum" and not any(v["fields"] for v in a["variants"]))

def shapes(c, I, tyid, name, depth=3):
    """Structured arbitrary values of a type: every variant of every enum in it, arbitrary leaves.  [(label, value)]"""
    t = c.tys[tyid]
    s = t["s"]
    args = [x for x in t.get("args", ()) if isinstance(x, int)]
    if s.startswith("std::option::Option<") and args:
        return [("None", NONE)] + [("Some(%s)" % l if l else "Some", some(v)) for l, v in shapes(c, I, args[0], name, depth)]
    a = I.adts.get(s)
    if depth and a and a.get("local") and a["kind"] == "enum":
        out = []
        for v in a["variants"]: out += variant_shapes(c, I, s, v["name"], name, depth - 1)
        return out
    return [("", sym(name))]

def variant_shapes(c, I, adt, variant, name, depth=3):
    """Arbitrary values of one variant of an enum."""
    v = [x for x in I.adts[adt]["variants"] if x["name"] == variant][0]
    acc = [("", ())]
    for i, (fname, ty) in enumerate([f[:2] for f in v["fields"]]):
        acc = [(l + ("," if l and l2 else "") + l2, t + (x,)) for l, t in acc for l2, x in shapes(c, I, ty, "%s.%s.%s" % (name, variant, fname), depth)]
    return [(variant + ("(%s)" % l if l else ""), agg(adt, variant, t)) for l, t in acc]

def check_equal(ctx, key, m, y, want, where="", result=None, what="the value read back"):
    """y (wrapped in Ok/Some when result) is `want` on every path."""
    finish(ctx, m)
    if y is None: return ctx.ob(key, False, "the function never returns normally", where)
    goods, others = split_result(y, result) if result else ([(TT, y)], [])
    if others:
        un = any(opaque_in(v) or any(opaque_in(x) for x in support(g)) for g, v in others)
        # a rejection that depends on nothing but library calls on the input is still a rejection
        return ctx.ob(key, None if un else False, "not accepted: " + "; ".join(show_g(g, 4)[:300] + show(v, 4)[:200] for g, v in others[:3]), where)
    if not goods: return ctx.ob(key, False, "there is no value", where)
    bad = [(g, v) for g, x in goods for g2, v in alts(x) if not (v is want or same(v, want))]
    if not bad: return ctx.ob(key, True, "", where)
    if any(opaque_in(v) for g, v in bad): return ctx.ob(key, None, "not resolved: " + show(bad[0][1], 5)[:300], where)
    return ctx.ob(key, False, "%s is %s instead of %s" % (what, show(bad[0][1], 7)[:600], show(want, 5)[:300]), where)

def same(a, b):
    """Structurally equal, where alternatives of a may each equal b."""
    if a is b: return True
    if a.op == "phi": return all(same(x, b) for _, x in a.args[0])
    if a.op == "coll" and b.op == "agg" and b.args[0] == "[]":       # a list without its order
        return not a.args[0] and len(a.args[1]) == len(b.args[2]) and all(k is None and g is TT for k, v, g in a.args[1]) and all(any(same(v, x) for _, v, _ in a.args[1]) for x in b.args[2])
    if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args[2]) == len(b.args[2]): return all(same(x, y) for x, y in zip(a.args[2], b.args[2]))
    if a.op == "coll" and b.op == "coll" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        rest = list(b.args[1])
        for k, v, g in sorted(a.args[1], key=repr):
            hit = next((e for e in rest if g is e[2] and (k is e[0] or k is not None and e[0] is not None and same(k, e[0])) and same(v, e[1])), None)
            if hit is None: return False
            rest.remove(hit)
        return True
    return False

def strings_in(t):
    return {x.args[1] for x in find_all(t, lambda y: y.op == "const" and y.args[0] == "str")}

def obj(**kw):
    """A JSON object with the given entries."""
    return agg(VALUE, "Object", (mk("coll", frozenset(), frozenset((cstr(k.replace("__", ":")), v, TT) for k, v in kw.items())),))
def jstr(s): return agg(VALUE, "String", (cstr(s) if isinstance(s, str) else s,))
def jnum(ty, x): return agg(VALUE, "Number", (x if x.op == "const" else mk("num", ty, x),))
_M = models.Models.__new__(models.Models)
def catstr(*ps): return _M.concat([cstr(p) if isinstance(p, str) else p for p in ps])
from models import fresh
def listof(*xs): return agg("[]", "", tuple(xs))
def mapof(*kv): return mk("coll", frozenset(), frozenset((k, v, TT) for k, v in kv))

PANICKED = [False]
def panics(m, y):
    """Whether the last interpretation has no result because it reached a panic for certain."""
    def sure(e):
        if e.kind == "panic": return True
        if e.kind == "unwrap": return e.data[1].op == "agg" and e.data[1].args[1] == ("None" if e.data[1].args[0] == OPT else "Ok" if e.data[0] in ("unwrap_err", "expect_err") else "Err") and e.data[1].args[0] in (OPT, RES)
        return e.kind == "assert" and e.data[2].op == "const" and e.data[2].args[1] != e.data[3]
    PANICKED[0] = (y is None or y is UNDEF) and any(sure(e) for e in m.I.events.values())

class Cases:
    """Values of known shape, built through the declared fields, and functions interpreted on them."""
    def __init__(self, ctx, opaque=(), keep=None, crates=None):
        self.ctx, self.crates, self.order, self.opaque, self.keep = ctx, crates or [ctx.models()], "asc", set(opaque), keep
        self.I = Interp(self.crates)
        self.orders, self.maxpeel, self.maxdepth = ("asc", "desc"), None, 14
    def comp(self): return raw(self.ctx, peel=True, maporder=self.order, opaque=self.opaque, keep=self.keep, maxpeel=self.maxpeel, maxdepth=self.maxdepth, crates=self.crates)
    def fields(self, ty): return [f[0] for f in self.I.adts[ty]["variants"][0]["fields"]] if ty in self.I.adts else []
    def struct(self, ty, **kw):
        return agg(ty, ty.split("::")[-1], tuple(kw.get(f, sym(f)) for f in self.fields(ty)))
    def get(self, v, name):
        if v.op != "agg" or v.args[0] not in self.I.adts: return mk("field", v, None, name)
        return v.args[2][self.fields(v.args[0]).index(name)]
    def put(self, v, **kw):
        return agg(v.args[0], v.args[1], tuple(kw.get(f, x) for f, x in zip(self.fields(v.args[0]), v.args[2])))
    def run(self, f, *args):
        m = self.comp()
        y, _ = m.interp(self.ctx.need(f), list(args)); finish(self.ctx, m); panics(m, y)
        return y if y is not None else UNDEF
    def mut(self, f, base, *args):
        m = self.comp()
        _, s = m.interp_mut(self.ctx.need(f), list(args), base); finish(self.ctx, m)
        return s
    def act(self, f, base, *args):
        """The result of a method that takes `&mut self`."""
        m = self.comp()
        y, _ = m.interp_mut(self.ctx.need(f), list(args), base); finish(self.ctx, m); panics(m, y)
        return y if y is not None else UNDEF
    def text(self, f, x):
        m = self.comp(); t = m.text(self.ctx.need(f), x); finish(self.ctx, m)
        return t
    def hash(self, v):
        m = self.comp(); h = m.hash_of(self.ctx.need("<%s as std::hash::Hash>::hash" % v.args[0]), v); finish(self.ctx, m)
        return h
    def norm(self, v): return Norm(self.I.adts, {}, [])(v)

def dict_of(*entries): return mk("coll", frozenset(), frozenset((k if isinstance(k, T) else cstr(k), v, TT) for k, v in entries))

def unresolved(got, want):
    """The value still holds operations that were not carried out."""
    known = set(find_all(want, lambda y: y.op not in ("agg", "const", "text", "coll", "num", "sym", "achar")))
    return bool(find_all(got, lambda y: y.op in ("call", "next", "closure") and y not in known))

def undecided(v):
    """The value depends on a question about a character class that was not decided."""
    gs = [g for x in find_all(v, lambda y: y.op in ("phi", "coll")) for g in ([a[0] for a in x.args[0]] if x.op == "phi" else [e[2] for e in x.args[1]])]
    return any(find_all(s, lambda y: y.op in ("text", "achar")) for g in gs for s in support(g))

def headclash(got, want):
    """One is a success and the other a failure, whatever they carry (the carried values are not looked at)."""
    heads = [{"Ok": 1, "Err": 2, "Some": 3, "None": 4}.get(x.args[1]) if x.op == "agg" else None for x in (got, want)]
    return set(heads) in ({1, 2}, {3, 4})

def judge(ctx, key, got, want, where, what):
    """got: a value; want: the exact value."""
    if got is want or same(got, want): return ctx.ob(key, True, "", where)
    if got is UNDEF and PANICKED[0]: return ctx.ob(key, False, "%s none at all (a panic) instead of %s" % (what, show(want, 6)[:300]), where)
    if not headclash(got, want) and (opaque_in(got) or undecided(got) or unresolved(got, want)): return ctx.ob(key, None, "not resolved: " + show(got, 5)[:300], where)
    return ctx.ob(key, False, "%s %s instead of %s" % (what, show(got, 6)[:300], show(want, 6)[:300]), where)
