"""Abstract strings: sequences of characters of which each is known or is any member of a class.

A string is a constant, or a term text(c1, ..., cn) whose elements are character constants or achar(set, id): an arbitrary but fixed
member of the set.  Predicates on a character are decided only when they agree on the whole class."""
from engine import *

def achar(chars, name):
    s = frozenset(chars)
    return const("char", next(iter(s))) if len(s) == 1 else mk("achar", s, name)

def chars_of(v):
    """The characters of a string whose length is known, or None."""
    if v.op == "const" and v.args[0] == "str": return [const("char", ch) for ch in v.args[1]]
    if v.op == "const" and v.args[0] == "char": return [v]
    if v.op == "achar": return [v]
    if v.op == "text": return list(v.args[0])
    return None

def of_chars(cs):
    if all(c.op == "const" for c in cs): return cstr("".join(str(c.args[1]) for c in cs))
    return mk("text", tuple(cs))

def members(c):
    return c.args[0] if c.op == "achar" else frozenset([c.args[1]])

def test(c, pred):
    """True/False when pred agrees on every member of the class of c, else None."""
    r = {bool(pred(x)) for x in members(c)}
    return r.pop() if len(r) == 1 else None

def widths(cs):
    """Bytes of each character in UTF-8; None when the members of a class differ."""
    w = [{len(x.encode("utf8", "surrogatepass")) for x in members(c)} for c in cs]
    return [x.pop() for x in w] if all(len(x) == 1 for x in w) else None

def eq_char(a, b):
    if a is b: return True
    if a.op == "const" and b.op == "const": return a.args[1] == b.args[1]
    return False if not (members(a) & members(b)) else None

def eq_text(a, b):
    if a is b: return True
    x, y = chars_of(a), chars_of(b)
    if x is None or y is None: return None
    if len(x) != len(y): return False
    r = [eq_char(p, q) for p, q in zip(x, y)]
    return False if False in r else None if None in r else True

def find(cs, pat, start=0):
    """Positions of the constant characters pat in cs; None when not decided."""
    i, out = start, []
    while i + len(pat) <= len(cs):
        r = [eq_char(c, p) for c, p in zip(cs[i:], pat)]
        if False in r: i += 1
        elif None in r: return None
        else: out.append(i); i += max(1, len(pat))
    return out

PREDS = {
    "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_alphanumeric": str.isalnum, "is_whitespace": str.isspace,
    "is_ascii_alphabetic": lambda x: x.isascii() and x.isalpha(), "is_ascii_digit": lambda x: x.isascii() and x.isdigit(),
    "is_ascii_alphanumeric": lambda x: x.isascii() and x.isalnum(), "is_ascii": str.isascii, "is_control": lambda x: ord(x) < 32 or 127 <= ord(x) < 160,
    "is_ascii_hexdigit": lambda x: x in "0123456789abcdefABCDEF", "is_ascii_punctuation": lambda x: x in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
    "is_ascii_uppercase": lambda x: x.isascii() and x.isupper(), "is_ascii_lowercase": lambda x: x.isascii() and x.islower(),
    "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_ascii_whitespace": lambda x: x in " \t\n\r\x0c", "is_ascii_graphic": lambda x: 33 <= ord(x) <= 126,
}

def samples(v, limit=64):
    """Concrete members of the string class: every member of every position is used at least once."""
    cs = chars_of(v)
    n = max(len(members(c)) for c in cs) if cs else 1
    ms = [sorted(members(c)) for c in cs]
    return ["".join(m[i % len(m)] for m in ms) for i in range(min(n, limit))]

def ascii_lower(x): return "".join(y.lower() if y.isascii() else y for y in x)
def ascii_upper(x): return "".join(y.upper() if y.isascii() else y for y in x)

def case(c, f):
    for g, h in ((ascii_lower, str.lower), (ascii_upper, str.upper)):
        if f is g and all(g(x) == h(x) for x in members(c)): f = h
    if c.op == "const": return const("char", f(c.args[1]))
    if all(f(x) == x for x in c.args[0]): return c
    n = c.args[1]
    if isinstance(n, tuple) and n and n[0] == "case":      # a change of case of a change of case
        _, g, base = n
        if all(f(g(x)) == x for x in base.args[0]): return base
        if all(f(g(x)) == f(x) for x in base.args[0]): return case(base, f)
    return achar([f(x) for x in c.args[0]], ("case", f, c))

# ---- regular expressions with constant patterns

import re as _re, itertools as _it
_rx = {}
def regex(pattern):
    """The Python equivalent of a Rust regex; None when the pattern is not understood."""
    if pattern not in _rx:
        try:
            p = _re.sub(r"(?<!\\)\$", r"\\Z", pattern).replace("(?<", "(?P<").replace("(?P<=", "(?<=").replace("(?P<!", "(?<!") if "[" not in pattern or not _re.search(r"\[[^\]]*\$", pattern) else None
            _rx[pattern] = _re.compile(p) if p is not None else None
        except _re.error: _rx[pattern] = None
    return _rx[pattern]

def unbalanced(pattern):
    """The pattern opens a group that it does not close: no regular expression of any dialect."""
    p = _re.sub(r"\\.", "", pattern)
    return "[" not in p and p.count("(") != p.count(")")

def all_members(v, limit=300000):
    """Every string of the class, or None when there are too many."""
    cs = chars_of(v)
    if cs is None: return None
    ids, n = {}, 1
    for c in cs:
        if c.op == "achar" and c not in ids:
            ids[c] = len(ids); n *= len(c.args[0])
            if n > limit: return None
    keys = list(ids)
    out = []
    for combo in _it.product(*[sorted(k.args[0]) for k in keys]):
        out.append("".join(combo[ids[c]] if c.op == "achar" else c.args[1] for c in cs))
    return out

_fm = {}
def regex_spans(pattern, v):
    """Spans (character positions) of the groups of every match, when they are the same for every string of the class; else None."""
    k = (pattern, v)
    if k in _fm: return _fm[k]
    r, ms = regex(pattern), all_members(v)
    res = None
    if r is not None and ms is not None:
        for s in ms:
            x = [[m.span(i) for i in range(r.groups + 1)] for m in r.finditer(s)]
            if res is None: res = x
            elif res != x: res = None; break
    _fm[k] = res
    return res
