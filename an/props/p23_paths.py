"""Document paths: what is built reads back as what it was built from, and expressions are read by the documented grammar."""
from common import *
import text, itertools

DPT, TOKT = "path_exp::DocPath", "path_exp::PathToken"
PD = tm(DPT, "std::fmt::Display", "fmt")
A, D, S = "ABCXYZabcxyz", "0123456789", " .[]$*~/+%\"()"
def A_(n): return text.achar(A, n)
def D_(n): return text.achar(D, n)
def txt(*parts): return text.of_chars([c for p in parts for c in (text.chars_of(cstr(p)) if isinstance(p, str) else text.chars_of(p))])
def tok(k, *xs): return agg(TOKT, k, xs)
ROOT, STAR, STARI = tok("Root"), tok("Star"), tok("StarIndex")
def F(n): return tok("Field", n if isinstance(n, T) else cstr(n))
def num(*ds): return mk("num", txt(*ds))
N1, N2 = num(D_("i")), num(text.achar("123456789", "i"), D_("j"))
def IX(n): return tok("Index", n)

NAMES = [("letter", txt(A_(1))), ("letter, digit", txt(A_(1), D_(2))), ("letters", txt(A_(1), A_(2), A_(3))), ("underscore", txt("_", A_(1))), ("with a hyphen", txt(A_(1), "-", A_(2))), ("with a colon", txt(A_(1), ":", A_(2))),
         ("with @", txt("@", A_(1))), ("with #", txt("#", A_(2))), ("starting with a digit", txt(D_(1), A_(2))), ("with punctuation", txt(A_(1), text.achar(S, 2), A_(3))), ("punctuation", txt(text.achar(S, 1), text.achar(S, 2))),
         ("starting with punctuation", txt(text.achar(S, 1), A_(2))), ("ending with punctuation", txt(A_(1), text.achar(S, 2))), ("not ASCII", txt(text.achar("éßñ日本ÉÑΔ", 1), A_(2))), ("emoji", cstr("\U0001F600")),
         ("a line break", txt(A_(1), "\n")), ("a quote", cstr("'")), ("with a quote", txt(A_(1), "'", A_(2))), ("starting with a quote", txt("'", A_(1))), ("ending with a quote", txt(A_(1), "'")), ("two quotes", cstr("''")),
         ("a back-slash", cstr("\\")), ("with a back-slash", txt(A_(1), "\\", A_(2))), ("ending with a back-slash", txt(A_(1), "\\")), ("two back-slashes", cstr("\\\\")), ("back-slash, quote", cstr("\\'")), ("quote, back-slash", cstr("'\\")),
         ("quote and bracket", txt(A_(1), "']", A_(2)))]
FEW = [n for n in NAMES if n[0] in ("letter, digit", "starting with a digit", "with punctuation", "with a quote", "ending with a back-slash", "not ASCII")]

class Paths:
    def __init__(self, ctx):
        self.ctx = ctx
        for f in ("new", "tokens", "from_tokens", "root", "empty"): ctx.need(DPT + "::" + f)
        ctx.need(PD)
    def comp(self):
        return raw(self.ctx, peel=True)
    def call(self, f, *args):
        m = self.comp()
        y, _ = m.interp(self.ctx.need(DPT + "::" + f), list(args))
        finish(self.ctx, m)
        return y if y is not None else UNDEF
    def mutated(self, f, base, *args):
        m = self.comp()
        _, s = m.interp_mut(self.ctx.need(DPT + "::" + f), list(args), base)
        finish(self.ctx, m)
        return s
    def expr(self, p):
        m = self.comp(); t = m.text(PD, p); finish(self.ctx, m)
        return t
    def tokens(self, p):
        return self.call("tokens", p)
    def parse(self, e):
        """("ok", tokens) | ("err", None) | (None, value): not resolved | ("panic", None)"""
        y = self.call("new", e)
        if y is UNDEF: return "panic", None
        if y.op == "agg" and y.args[0] == RES:
            if y.args[1] == "Err": return "err", None
            return "ok", self.tokens(y.args[2][0])
        return None, y
    def of(self, *toks): return self.call("from_tokens", listof(*toks))

def inverse(ctx, P, key, path, want, where):
    """The path holds the tokens `want`, and the expression it displays is read as those tokens."""
    t = P.tokens(path)
    if judge(ctx, "tokens:" + key, t, listof(*want), where, "the path is") is False: return
    e = P.expr(path)
    if not want: return
    k, v = P.parse(e)
    if k == "ok": judge(ctx, "expr:" + key, v, listof(*want), where, "the expression %s is read as" % show(e, 4))
    elif k in ("err", "panic"): ctx.ob("expr:" + key, None if opaque_in(e) or text.chars_of(e) is None else False, "the expression %s the path displays %s" % (show(e, 4)[:200], "is rejected" if k == "err" else "makes the parser panic"), where)
    else: ctx.ob("expr:" + key, None, "not resolved: " + show(v, 4)[:300], where)

@prop("P23", "Paths built from names and indexes read back as themselves", floor=300)
def p23(ctx):
    P = Paths(ctx)
    ctx.rule("A path is interpreted for names given as strings over character classes; the expression it displays, interpreted through the parser, must give the tokens the path holds, for every way of building or changing a path.")
    ctx.rule("The parser, interpreted on every string over the character classes up to a length, accepts exactly what the path grammar in the documentation accepts, with those tokens, and never unwraps a missing value.")
    W = ctx.where
    elems = [("name %s" % n, F(v)) for n, v in NAMES] + [("index", IX(N1)), ("index 2", IX(N2)), ("star", STAR), ("star index", STARI)]
    few = [("name %s" % n, F(v)) for n, v in FEW] + [("index", IX(N2)), ("star", STAR), ("star index", STARI)]
    w = W(DPT + "::from_tokens")
    inverse(ctx, P, "root", P.of(ROOT), [ROOT], w)
    inverse(ctx, P, "root()", P.call("root"), [ROOT], W(DPT + "::root"))
    for n, e in elems: inverse(ctx, P, n, P.of(ROOT, e), [ROOT, e], w)
    for (n, e), (n2, e2) in itertools.product(elems, few): inverse(ctx, P, "%s / %s" % (n, n2), P.of(ROOT, e, e2), [ROOT, e, e2], w)
    if ctx.tier == "thorough":
        for xs in itertools.product(few, few, few): inverse(ctx, P, " / ".join(n for n, _ in xs), P.of(ROOT, *[e for _, e in xs]), [ROOT] + [e for _, e in xs], w)
    # building step by step
    # a path without its root, and the path without parts
    for n, ts in [("no parts", []), ("no root", [few[0][1]]), ("no root, two parts", [few[0][1], IX(N2)])]:
        for k in range(4): judge(ctx, "drop %d %s" % (k, n), P.tokens(P.call("drop", P.of(*ts), const("int", k))), listof(*(ts[:len(ts) - k] if k < len(ts) else [ROOT])), W(DPT + "::drop"), "the path is")
        judge(ctx, "len " + n, P.call("len", P.of(*ts)), const("int", len(ts)), W(DPT + "::len"), "the length is")
        judge(ctx, "last " + n, P.call("last", P.of(*ts)), some(ts[-1]) if ts else NONE, W(DPT + "::last"), "the last part is")
    bases = [("$", [ROOT])] + [("$ / " + n, [ROOT, e]) for n, e in few] + [("$ / %s / %s" % (few[0][0], n), [ROOT, few[0][1], e]) for n, e in few[2:4] + few[-3:]]
    ren = lambda v: rename(v, "n")
    for bi, (bn, ts) in enumerate(bases):
        b = P.of(*ts)
        for n, v in (NAMES if bi in (0, 2) or ctx.tier == "thorough" else FEW):
            x = ren(v)
            inverse(ctx, P, "push_field %s: %s" % (bn, n), P.mutated("push_field", b, x), ts + [F(x)], W(DPT + "::push_field"))
            inverse(ctx, P, "push %s: name %s" % (bn, n), P.mutated("push", b, F(x)), ts + [F(x)], W(DPT + "::push"))
            end = ts[:-1] if ts[-1] is STAR else ts
            inverse(ctx, P, "join_field %s: %s" % (bn, n), P.call("join_field", b, x), end + [F(x)], W(DPT + "::join_field"))
            inverse(ctx, P, "join %s: %s" % (bn, n), P.call("join", b, x), ts + [F(x)], W(DPT + "::join"))
        i = ren(N2.args[0]); ix = mk("num", i)
        inverse(ctx, P, "push_index " + bn, P.mutated("push_index", b, ix), ts + [IX(ix)], W(DPT + "::push_index"))
        inverse(ctx, P, "push index " + bn, P.mutated("push", b, IX(ix)), ts + [IX(ix)], W(DPT + "::push"))
        inverse(ctx, P, "push_star " + bn, P.mutated("push_star", b), ts + [STAR], W(DPT + "::push_star"))
        inverse(ctx, P, "push star " + bn, P.mutated("push", b, STAR), ts + [STAR], W(DPT + "::push"))
        inverse(ctx, P, "push_star_index " + bn, P.mutated("push_star_index", b), ts + [STARI], W(DPT + "::push_star_index"))
        inverse(ctx, P, "push star index " + bn, P.mutated("push", b, STARI), ts + [STARI], W(DPT + "::push"))
        end = ts[:-1] if ts[-1] in (STAR, STARI) else ts
        inverse(ctx, P, "join_index " + bn, P.call("join_index", b, ix), end + [IX(ix)], W(DPT + "::join_index"))
        for part in [] if bi > 1 and ctx.tier != "thorough" else ["[]", "[1]", "**", "*a", "a*", ".", "$", " ", "-1", "1.5", "1a", "[ *]", "[**]", "'*'", "a.b", "a[*]", "~", "\u0661"]:
            inverse(ctx, P, "join %s: %s" % (bn, part), P.call("join", b, cstr(part)), ts + [F(cstr(part))], W(DPT + "::join"))
        for part, t in [("*", STAR), ("[*]", STARI), ("0", IX(const("int", 0))), ("12", IX(const("int", 12)))]:
            inverse(ctx, P, "join %s: %s" % (bn, part), P.call("join", b, cstr(part)), ts + [t], W(DPT + "::join"))
        # taking apart
        y = P.call("parent", b)
        wp = W(DPT + "::parent")
        if len(ts) == 1: judge(ctx, "parent " + bn, y, NONE, wp, "the parent is")
        elif y.op == "agg" and y.args[1] == "Some": inverse(ctx, P, "parent " + bn, y.args[2][0], ts[:-1], wp)
        else: ctx.ob("parent " + bn, None if opaque_in(y) or y.op == "phi" else False, "the path has no parent: " + show(y, 4)[:200], wp)
        for k in range(len(ts) + 2):
            inverse(ctx, P, "drop %d %s" % (k, bn), P.call("drop", b, const("int", k)), ts[:len(ts) - k] if k < len(ts) else [ROOT], W(DPT + "::drop"))
        lo = [F(text.of_chars([lower(c) for c in text.chars_of(t.args[2][0])])) if t.args[1] == "Field" else t for t in ts]
        inverse(ctx, P, "to_lower_case " + bn, P.call("to_lower_case", b), lo, W(DPT + "::to_lower_case"))
        # views
        judge(ctx, "len " + bn, P.call("len", b), const("int", len(ts)), W(DPT + "::len"), "the length is")
        judge(ctx, "last " + bn, P.call("last", b), some(ts[-1]), W(DPT + "::last"), "the last part is")
        fs = [t.args[2][0] for t in ts if t.args[1] == "Field"]
        judge(ctx, "first_field " + bn, P.call("first_field", b), some(fs[0]) if fs else NONE, W(DPT + "::first_field"), "the first name is")
        judge(ctx, "last_field " + bn, P.call("last_field", b), some(fs[-1]) if fs else NONE, W(DPT + "::last_field"), "the last name is")
        judge(ctx, "is_root " + bn, P.call("is_root", b), boolc(len(ts) == 1), W(DPT + "::is_root"), "is_root is")
        judge(ctx, "is_wildcard " + bn, P.call("is_wildcard", b), boolc(ts[-1] is STAR), W(DPT + "::is_wildcard"), "is_wildcard is")
        # the pieces, as text
        disp = {"Root": lambda t: cstr("$"), "Star": lambda t: cstr("*"), "StarIndex": lambda t: cstr("[*]"), "Field": lambda t: t.args[2][0], "Index": lambda t: t.args[2][0].args[0]}
        judge(ctx, "to_vec " + bn, P.call("to_vec", b), listof(*[disp[t.args[1]](t) for t in ts]), W(DPT + "::to_vec"), "the parts are")
        # JSON pointer
        wj = W(DPT + "::as_json_pointer")
        y = P.call("as_json_pointer", b)
        if any(t in (STAR, STARI) for t in ts): ctx.ob("json pointer " + bn, y.op == "agg" and y.args[1] == "Err" if not opaque_in(y) else None, "a wildcard is written into a JSON pointer: " + show(y, 4)[:200], wj)
        elif not any(c.op == "achar" and text.test(c, lambda x: x in "~/") is None for t in ts if t.args[1] == "Field" for c in text.chars_of(t.args[2][0])):
            judge(ctx, "json pointer " + bn, y, ok(pointer(ts)), wj, "the pointer is")
    for s, want in [("a~b", "a~0b"), ("a/b", "a~1b"), ("~/", "~0~1"), ("~1", "~01"), ("/~", "~1~0")]:
        judge(ctx, "json pointer: " + s, P.call("as_json_pointer", P.of(ROOT, F(s), IX(N1))), ok(txt("/" + want + "/", N1.args[0])), W(DPT + "::as_json_pointer"), "the pointer is")
    # one path after another
    for (n1, a), (n2, b) in itertools.product(few, few[1::2]):
        inverse(ctx, P, "push_path %s: %s" % (n1, n2), P.mutated("push_path", P.of(ROOT, a), P.of(ROOT, b, STAR)), [ROOT, a, b, STAR], W(DPT + "::push_path"))
    # equality, and conversion to and from strings
    weq = ctx.need(tm(DPT, "std::cmp::PartialEq", "eq"))
    for i, (n1, ts) in enumerate(bases):
        for j, (n2, us) in enumerate(bases):
            if abs(i - j) > 2 and j: continue
            m = P.comp(); y, _ = m.interp(weq, [P.of(*ts), P.of(*us)]); finish(ctx, m)
            judge(ctx, "eq %s == %s" % (n1, n2), y if y is not None else UNDEF, boolc(i == j), W(weq), "equality is")
        for f in [x for x in ctx.models().fns if x.startswith("<std::string::String as std::convert::From<") and "DocPath" in x]:
            m = P.comp(); y, _ = m.interp(f, [P.of(*ts)]); finish(ctx, m)
            judge(ctx, "string of %s: %s" % (n1, f.split("From<")[1].split(">")[0]), y, P.expr(P.of(*ts)), W(f), "the string is")
        for f in [x for x in ctx.models().fns if x.startswith("<%s as std::convert::TryFrom<" % DPT) and x.endswith("try_from")]:
            m = P.comp(); y, _ = m.interp(f, [P.expr(P.of(*ts))]); finish(ctx, m)
            if y is not None and y.op == "agg" and y.args[1] == "Ok": judge(ctx, "from string %s: %s" % (n1, f.split("From<")[1].split(">")[0]), P.tokens(y.args[2][0]), listof(*ts), W(f), "the string is read as")
            else: ctx.ob("from string %s: %s" % (n1, f.split("From<")[1].split(">")[0]), None if y is None or opaque_in(y) else False, "the string is not accepted", W(f))
    grammar(ctx, P)

def lower(c): return text.case(c, str.lower)
def rename(v, tag):
    return text.of_chars([text.achar(c.args[0], (tag, c.args[1])) if c.op == "achar" else c for c in text.chars_of(v)])
def pointer(ts):
    out = []
    for t in ts[1:]:
        out.append(cstr("/"))
        if t.args[1] == "Field":
            for c in text.chars_of(t.args[2][0]): out.append(cstr("~0") if c.op == "const" and c.args[1] == "~" else cstr("~1") if c.op == "const" and c.args[1] == "/" else txt(c))
        else: out.append(t.args[2][0].args[0])
    return txt(*out) if out else cstr("")

# ---- the grammar of the documentation, on character classes

CLASSES = [("$",) * 2, (".",) * 2, ("[",) * 2, ("]",) * 2, ("'",) * 2, ("*",) * 2, ("\\",) * 2, ("digit", D), ("letter", A + "é日"), ("numeral", "²Ⅷ٣"), ("ident", "-_:#@"), ("other", " +~/%(\"!\n")]
class Reject(Exception): pass
def reference(cl):
    """Tokens of a string given as character classes, as lists of positions; Reject when not in the grammar."""
    i, n, toks = 0, len(cl), []
    IDENT = ("letter", "digit", "numeral", "ident")
    def ident(i):
        j = i
        while j < n and cl[j] in IDENT: j += 1
        if j < n and cl[j] not in (".", "[", "'"): raise Reject
        toks.append(("Field", list(range(i, j))))
        return j
    if n == 0: return []
    toks.append(("Root",))
    if cl[0] == "$": i = 1
    elif cl[0] in ("letter", "digit", "numeral"): i = ident(0)
    else: raise Reject
    while i < n:
        if cl[i] == ".":
            i += 1
            if i >= n: raise Reject
            if cl[i] == "*": toks.append(("Star",)); i += 1
            elif cl[i] in IDENT: i = ident(i)
            else: raise Reject
        elif cl[i] == "[":
            i += 1
            if i >= n: raise Reject
            if cl[i] == "*": toks.append(("StarIndex",)); i += 1
            elif cl[i] == "'":
                i += 1; s = []
                while i < n and cl[i] != "'":
                    if cl[i] == "\\" and i + 1 < n and cl[i + 1] in ("'", "\\"): i += 1
                    s.append(i); i += 1
                if i >= n or not s: raise Reject
                i += 1
                toks.append(("Field", s))
            elif cl[i] == "digit":
                j = i
                while j < n and cl[j] == "digit": j += 1
                toks.append(("Index", list(range(i, j)))); i = j
            else: raise Reject
            if i >= n or cl[i] != "]": raise Reject
            i += 1
        else: raise Reject
    return toks

def grammar(ctx, P):
    w = ctx.where(DPT + "::new")
    k = 4 if ctx.tier == "thorough" else 3
    names = [c[0] for c in CLASSES]
    cls = dict(CLASSES)
    strings = [xs for l in range(k) for xs in itertools.product(names, repeat=l)]
    strings += [("$",) + xs for xs in itertools.product(names, repeat=k)]
    strings += [("$", "[", "'") + xs for xs in itertools.product(("'", "]", "\\", "letter", "other"), repeat=4)]
    strings += [("$", "[") + xs for xs in itertools.product(("digit", "numeral", "]", "*", "letter"), repeat=3)]
    strings += [("$", ".", "letter") + xs for xs in itertools.product(("digit", ".", "[", "letter", "other", "*"), repeat=2)]
    bad, opened, done = [], [], set()
    for xs in strings:
        if xs in done: continue
        done.add(xs)
        for off in range(5 if "ident" in xs and len(xs) <= 3 else 1): grammar1(ctx, P, w, cls, xs, off)
    for s in ("$[99999999999999999999999999]", "$.a[340282366920938463463374607431768211456].b"):
        kind, v = P.parse(cstr(s))
        ctx.ob("index too large: " + s, kind in ("err", "ok") if kind else None, "the parser panics on %s" % s, w)

def grammar1(ctx, P, w, cls, xs, off):
        e = txt(*[("-_:#@"[(i + off) % 5] if c == "ident" else text.achar(cls[c], i)) for i, c in enumerate(xs)]) if xs else cstr("")
        try:
            want = []
            for t in reference(xs):
                if t[0] == "Field": want.append(F(txt(*[text.chars_of(e)[i] for i in t[1]])))
                elif t[0] == "Index": want.append(IX(mk("num", txt(*[text.chars_of(e)[i] for i in t[1]]))))
                else: want.append(tok(t[0]))
        except Reject: want = None
        key = "grammar: " + " ".join(xs) + (" %d" % off if off else "")
        kind, v = P.parse(e)
        s = show(e, 4)
        if kind == "panic": ctx.ob(key, False, "the parser panics on %s" % s, w)
        elif kind is None: ctx.ob(key, None, "not resolved: " + show(v, 4)[:200], w)
        elif want is None: ctx.ob(key, kind == "err", "%s is not a path expression but is read as %s" % (s, show(v, 5)[:200] if v is not None else ""), w)
        elif kind == "err": ctx.ob(key, False, "%s is rejected" % s, w)
        else: judge(ctx, key, v, listof(*want), w, "%s is read as" % s)
