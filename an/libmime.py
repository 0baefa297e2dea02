"""The grammar of the mime crate (0.3): media types and their parameters, on strings of known length over character classes."""
import text
from engine import *

TOKEN = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
class Undecided(Exception): pass

def parse(v):
    """mime::Mime of (type, subtype, suffix, parameters), False when it is no media type, None when that is not decided."""
    cs = text.chars_of(v)
    if cs is None: return None
    try: r = _parse(cs)
    except Undecided: return None
    return r

def _is(c, pred):
    r = text.test(c, pred)
    if r is None: raise Undecided
    return r

def _parse(cs):
    at = lambda i, ch: _is(cs[i], lambda x: x == ch)
    tok = lambda i: _is(cs[i], lambda x: x in TOKEN)
    T_ = lambda a, b, low=True: text.of_chars([text.case(c, _lower) if low else c for c in cs[a:b]])
    n, i = len(cs), 0
    while i < n and tok(i): i += 1
    if i == n or not at(i, "/") or i == 0: return False
    slash = i; i += 1; start = i; plus = None
    while i < n:
        if at(i, "+") and i > start: plus = i
        elif at(i, ";") and i > start: break
        elif not tok(i): return False
        i += 1
    end, params = i, []
    start = i + 1; i += 1
    while start < n:
        # name
        restart = False
        while True:
            if i >= n: return False
            if at(i, " ") and i == start: start = i = i + 1; restart = True; break
            if tok(i): i += 1; continue
            if at(i, "=") and i > start: break
            return False
        if restart: continue
        name, i = T_(start, i), i + 1
        start, quoted = i, False
        while True:
            if i >= n:
                if quoted: return False
                val = (start, n); start = n; break
            if quoted:
                if at(i, '"') and i > start: val = (start, i); i += 1; break
                if not _is(cs[i], lambda x: (ord(x) > 31 and ord(x) != 127)): return False
            elif at(i, '"') and i == start: quoted = True; start = i + 1
            elif tok(i): pass
            elif at(i, ";") and i > start: val = (start, i); start = i = i + 1; break
            else: return False
            i += 1
        if quoted:
            while True:
                if i >= n: start = n; break
                if at(i, ";"): start = i = i + 1; break
                if not at(i, " "): return False
                i += 1
        params.append(agg("()", "", (name, T_(*val, low=name is cstr("charset")))))
    sub_end = plus if plus is not None else end
    return agg("mime::Mime", "Mime", (T_(0, slash), T_(slash + 1, sub_end), some(T_(plus + 1, end)) if plus is not None else NONE, agg("[]", "", params)))

def _lower(x): return x.lower() if x.isascii() else x

def method(m, v, val):
    """Accessors of a parsed media type; its names are texts."""
    ty, sub, suf, ps = v.args[2]
    if m == "type_": return ty
    if m == "subtype": return sub
    if m == "suffix": return suf
    if m == "params": return ps
    if m == "get_param":
        key = val(1)
        for p in ps.args[2]:
            r = text.eq_text(p.args[2][0], key)
            if r is None: return None
            if r: return some(p.args[2][1])
        return NONE
    if m == "essence_str": return text.of_chars(text.chars_of(ty) + [const("char", "/")] + text.chars_of(sub) + ([const("char", "+")] + text.chars_of(suf.args[2][0]) if suf is not NONE else []))
    return None
