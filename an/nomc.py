"""Parser combinators of the nom library: parsers are kept as terms and applied to texts whose characters are known or members of a class."""
from engine import *
import text

KINDS = {"is_a", "is_not", "tag", "tag_no_case", "take_while_m_n", "take_while", "take_while1", "take_till", "take_till1", "char", "one_of", "none_of", "opt", "value", "many0", "many1", "alt", "delimited", "preceded", "terminated", "separated_pair", "pair", "tuple",
         "map", "verify", "recognize", "all_consuming", "cut", "map_res", "map_opt", "not", "peek", "separated_list0", "separated_list1", "fold_many0", "count", "take", "eof", "complete"}
DIRECT = {"digit1": "0123456789", "digit0": "0123456789", "alpha1": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "alpha0": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
          "alphanumeric1": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "alphanumeric0": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
          "space0": " \t", "space1": " \t", "multispace0": " \t\r\n", "multispace1": " \t\r\n"}
ERRT = "nom::Err"

class Undecided(Exception): pass
class Fail(Exception):
    def __init__(self, v): self.v = v          # the value inside Err(...)

def failure(): return agg(ERRT, "Error", (call("error"),))
def tup(*x): return agg("()", "", tuple(x))
def is_parser(f): return f.op == "agg" and f.args[0] == "nom"
def make(kind, args): return agg("nom", kind, tuple(args))

def chars(s):
    cs = text.chars_of(s)
    if cs is None: raise Undecided
    return cs

def span(s, ok_, lo, hi):
    """Takes up to hi leading characters for which ok_ is true."""
    cs, n = chars(s), 0
    while n < len(cs) and (hi is None or n < hi):
        r = ok_(cs[n])
        if r is None: raise Undecided
        if not r: break
        n += 1
    if n < lo: raise Fail(failure())
    return text.of_chars(cs[n:]), text.of_chars(cs[:n])

def result(v):
    """(rest, output) of a parser's result."""
    if v is None: raise Undecided
    if v.op == "agg" and v.args[1] == "Ok":
        t = v.args[2][0]
        if t.op == "agg" and t.args[0] == "()" and len(t.args[2]) == 2: return t.args[2]
    if v.op == "agg" and v.args[1] == "Err":
        raise Fail(v.args[2][0])
    raise Undecided

def recoverable(e):
    if e.op == "agg" and e.args[0].split("<")[0] == ERRT: return e.args[1] == "Error"
    raise Undecided

class Runner:
    def __init__(self, M, deref, ap): self.M, self.deref, self.ap, self.n = M, deref, ap, 0
    def known(self, s):
        s = self.deref(s)
        return self.M.norm_text(s) if hasattr(self.M, "norm_text") else s
    def fn(self, f, xs):
        self.n += 1
        return self.deref(self.ap(f, xs, ("nom", self.n)))
    def pred(self, f):
        f = self.deref(f)
        def go(c):
            if c.op == "achar":
                rs = {self.truth(self.fn(f, [const("char", x)])) for x in c.args[0]}
                return rs.pop() if len(rs) == 1 else None
            return self.truth(self.fn(f, [c]))
        return go
    def truth(self, v):
        if v is TRUE: return True
        if v is FALSE: return False
        return None
    def member(self, st):
        st = self.deref(st)
        cs = chars(st)
        def go(c):
            rs = [text.eq_char(c, x) for x in cs]
            if True in rs: return True
            if None in rs:
                ms = set().union(*[text.members(x) for x in cs])
                return True if text.members(c) <= ms else None
            return False
        return go
    def run(self, p, s):
        """(rest, output), or raises Fail / Undecided."""
        p = self.deref(p)
        if not is_parser(p): return result(self.fn(p, [s]))
        k, a = p.args[1], p.args[2]
        s = self.deref(s)
        if k in ("is_a", "one_of"):
            return span(s, self.member(a[0]), 1, None) if k == "is_a" else span(s, self.member(a[0]), 1, 1)
        if k in ("is_not", "none_of"):
            m = self.member(a[0])
            def no(c):
                r = m(c)
                return None if r is None else not r
            return span(s, no, 1, None if k == "is_not" else 1)
        if k in ("tag", "tag_no_case", "char"):
            t, cs = chars(self.deref(a[0])), chars(s)
            if len(cs) < len(t): 
                pass
            for i, x in enumerate(t):
                if i >= len(cs): raise Fail(failure())
                if k == "tag_no_case":
                    lo = {str(y).lower() for y in text.members(x)}
                    r = text.test(cs[i], lambda y: str(y).lower() in lo) if len(lo) == 1 else None
                else: r = text.eq_char(cs[i], x)
                if r is None: raise Undecided
                if not r: raise Fail(failure())
            n = len(t)
            return text.of_chars(cs[n:]), (cs[0] if k == "char" else text.of_chars(cs[:n]))
        if k in ("take_while_m_n", "take_while", "take_while1", "take_till", "take_till1"):
            lo, hi, f = (0, None, a[0])
            if k == "take_while_m_n":
                lo, hi = [self.deref(x) for x in a[:2]]
                if lo.op != "const" or hi.op != "const": raise Undecided
                lo, hi, f = lo.args[1], hi.args[1], a[2]
            elif k.endswith("1"): lo = 1
            t = self.pred(f)
            def no(c):
                r = t(c)
                return None if r is None else not r
            return span(s, no if "till" in k else t, lo, hi)
        if k == "take":
            n = self.deref(a[0])
            if n.op != "const": raise Undecided
            return span(s, lambda c: True, n.args[1], n.args[1])
        if k in ("opt", "not", "peek"):
            try: r, o = self.run(a[0], s)
            except Fail as e:
                if not recoverable(e.v): raise
                if k == "peek": raise
                return s, (NONE if k == "opt" else UNIT)
            if k == "not": raise Fail(failure())
            return (r, some(o)) if k == "opt" else (s, o)
        if k == "value":
            r, _ = self.run(a[1], s)
            return r, a[0]
        if k == "alt":
            t = self.deref(a[0])
            if t.op != "agg" or t.args[0] not in ("()", "[]"): raise Undecided
            last = None
            for x in t.args[2]:
                try: return self.run(x, s)
                except Fail as e:
                    if not recoverable(e.v): raise
                    last = e
            raise last
        if k in ("many0", "many1"):
            out, first = [], True
            while True:
                try: r, o = self.run(a[0], s)
                except Fail as e:
                    if not recoverable(e.v) or first and k == "many1": raise
                    return s, agg("[]", "", tuple(out))
                if r is s: raise Fail(failure())
                s, first = r, False
                out.append(o)
        if k in ("delimited", "preceded", "terminated", "separated_pair", "pair"):
            out = []
            for x in a:
                s, o = self.run(x, s); out.append(o)
            return s, {"delimited": lambda: out[1], "preceded": lambda: out[1], "terminated": lambda: out[0], "separated_pair": lambda: tup(out[0], out[2]), "pair": lambda: tup(*out)}[k]()
        if k == "tuple":
            t = self.deref(a[0])
            if t.op != "agg" or t.args[0] != "()": raise Undecided
            out = []
            for x in t.args[2]:
                s, o = self.run(x, s); out.append(o)
            return s, tup(*out)
        if k == "map":
            r, o = self.run(a[0], s)
            return r, self.fn(a[1], [o])
        if k in ("map_res", "map_opt"):
            r, o = self.run(a[0], s)
            y = self.fn(a[1], [o])
            if y.op == "agg" and y.args[1] in ("Ok", "Some"): return r, y.args[2][0]
            if y.op == "agg" and y.args[1] in ("Err", "None"): raise Fail(failure())
            raise Undecided
        if k == "verify":
            r, o = self.run(a[0], s)
            t = self.truth(self.fn(a[1], [o]))
            if t is None: raise Undecided
            if not t: raise Fail(failure())
            return r, o
        if k in ("recognize", "all_consuming", "cut", "complete"):
            try: r, o = self.run(a[0], s)
            except Fail as e:
                if k == "cut" and recoverable(e.v): raise Fail(agg(ERRT, "Failure", e.v.args[2]))
                raise
            if k == "recognize":
                x, y = chars(s), chars(r)
                return r, text.of_chars(x[:len(x) - len(y)])
            if k == "all_consuming" and chars(r): raise Fail(failure())
            return r, o
        if k == "eof":
            if chars(s): raise Fail(failure())
            return s, s
        raise Undecided

def apply(M, deref, ap, p, s):
    """The Result of applying a parser."""
    try:
        r, o = Runner(M, deref, ap).run(p, s)
        return ok(tup(r, o))
    except Fail as e: return err(e.v)
    except Undecided: return None

def call_(M, I, fr, st, name, m, args, deref, ap):
    if m in KINDS and name.startswith("nom::") and "::{" not in name: return make(m, args)
    if m in DIRECT:
        try:
            s = deref(args[0])
            r, o = span(s, lambda c: text.test(c, lambda x: x in DIRECT[m]), int(m.endswith("1")), None)
            return ok(tup(r, o))
        except Fail as e: return err(e.v)
        except Undecided: return None
    return None
