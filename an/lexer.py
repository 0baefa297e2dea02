"""Tokens of a text, from the automaton that the derive macro of logos generated.

The automaton is read out of the compiled functions of the token type (one per state, with jump tables as constants), and followed over
a text whose characters are known or members of a class; the reading is kept only when every member of the classes gives the same tokens.
"""
from engine import *
import text

class NotFollowed(Exception): pass

class Automaton:
    def __init__(self, F_of, recs, crate, ty):
        self.base = next((n for n in recs if n.startswith("<%s as logos::Logos<" % ty) and n.endswith(">::lex")), None)
        if self.base is None: raise NotFollowed("no automaton for " + ty)
        self.recs, self.tys = recs, crate.tys
        self.consts = {}

    def token(self, bs, pos):
        """(start, end, None | ("err",) | ("ok", variant) | ("call", function, variant)) for the text from pos."""
        self.bs, self.start, self.end, self.tok = bs, pos, pos, None
        self.next, self.steps = self.base, 0
        self.run(self.base, ["lex"])
        return self.start, self.end, self.tok

    # ---- a small evaluator of the automaton's functions
    def run(self, fid, args):
        while True:
            r = self.recs[fid]
            if isinstance(r, tuple): r = r[0]
            env = {i + 1: a for i, a in enumerate(args)}
            b, nxt = 0, None
            while True:
                self.steps += 1
                if self.steps > 20000: raise NotFollowed("too long")
                B = r["blocks"][b]
                for s in B["s"]: self.assign(env, s[0], self.rvalue(env, s[1]))
                t = B["t"]; k = t["t"]
                if k == "goto": b = t["to"]
                elif k == "return": break
                elif k == "switch":
                    d = self.operand(env, t["d"])
                    d = int(d)
                    b = next((x for v, x in t["ts"] if int(v) == d), t["else"])
                elif k == "assert":
                    if bool(self.operand(env, t["cond"])) != t["exp"]: raise NotFollowed("assertion")
                    b = t["to"]
                elif k == "call":
                    f = t["f"]["k"]["fn"]
                    name = f["p"]
                    a = [self.operand(env, x) for x in t["args"]]
                    if name == "logos::Logos::lex": name, f = self.base, {"l": 1}
                    if f.get("l") and (name == self.base or name.startswith(self.base + "::")) and a == ["lex"] and not name.endswith("::callback") and self.ends(r, t["to"]):
                        nxt = (name, a); break
                    self.assign(env, t["dst"], self.call(name, f, a))
                    b = t["to"]
                elif k == "drop": b = t["to"]
                else: raise NotFollowed(k)
            if nxt is None: return env.get(0)
            fid, args = nxt

    def ends(self, r, b):
        while r["blocks"][b]["t"]["t"] == "goto" and not r["blocks"][b]["s"]: b = r["blocks"][b]["t"]["to"]
        return r["blocks"][b]["t"]["t"] == "return"

    def call(self, name, f, a):
        m = name.rsplit("::", 1)[-1]
        if name.startswith("logos::internal::"):
            if m in ("read", "read_at"): return self.read(self.end + (a[1] if m == "read_at" else 0), self.tys[f["a"][1]])
            if m == "bump_unchecked": self.end += a[1]; return ()
            if m == "trivia": self.start = self.end; return ()
            if m == "error":
                while self.end < len(self.bs) and 0x80 <= self.bs[self.end] < 0xC0: self.end += 1
                self.tok = ("err",); return ()
            if m == "end": self.tok = None; return ()
            if m == "set":
                v = a[1]
                if v[0] == "adt" and v[2] == "Ok" and v[3] and v[3][0][0] == "adt" and not v[3][0][3]: self.tok = ("ok", v[3][0][2])
                elif v[0] == "adt" and v[2] == "Err": self.tok = ("err",)
                else: raise NotFollowed("token")
                return ()
            if m == "test":
                c = self.read(self.end, self.tys[f["a"][1]])
                return False if c[1] == 0 else self.run(a[1][1], [c[3][0]])
            if m == "construct": self.tok = ("call", a[0][1], a[1][1].rsplit("::", 1)[-1]); return ()
        if m == "callback": return ("cb", name)
        if m == "wrapping_sub": return (a[0] - a[1]) % 256
        if m == "checked_shl": return ("adt", 1, "Some", ((a[0] << a[1]) % 2 ** 64,)) if a[1] < 64 else ("adt", 0, "None", ())
        if f.get("l") and name in self.recs: return self.run(name, a)
        raise NotFollowed(name)

    def read(self, at, ty):
        s = ty["s"]
        if s == "u8": n = 1
        elif "[u8; " in s: n = int(s[s.index("[u8; ") + 5:].split("]")[0].split("_")[0])
        else: raise NotFollowed(s)
        if at + n > len(self.bs): return ("adt", 0, "None", ())
        return ("adt", 1, "Some", (self.bs[at] if s == "u8" else ("arr",) + tuple(self.bs[at:at + n]),))

    def constant(self, name):
        if name not in self.consts: self.consts[name] = self.run(name, [])
        return self.consts[name]

    def operand(self, env, o):
        if "k" in o:
            k = o["k"]
            if "int" in k: return int(k["int"])
            if "bool" in k: return k["bool"]
            if "fn" in k: return ("fn", k["fn"].get("r") or k["fn"]["p"])
            if "named" in k: return self.constant(k["named"])
            if "static" in k: return self.constant(k["static"])
            if k.get("zst"):
                s = self.tys[k["ty"]]["s"] if isinstance(k.get("ty"), int) else ""
                return ()
            raise NotFollowed("constant %s" % k)
        return self.place(env, o.get("c") or o.get("m"))

    def place(self, env, p):
        v = env[p[0]]
        for e in p[1:]:
            if e == "*" or e[0] == "v": continue
            if e[0] == "f": v = v[3][e[1]] if isinstance(v, tuple) and v and v[0] == "adt" else v[e[1]]
            elif e[0] == "i":
                i = env[e[1]]
                v = v[i + 1] if v[0] == "arr" else v[i]
            elif e[0] == "c": v = v[e[1] + 1]
            else: raise NotFollowed(str(e))
        return v

    def rvalue(self, env, r):
        k = r[0]
        if k == "use": return self.operand(env, r[1])
        if k == "ref" or k == "raw": return self.place(env, r[2])
        if k == "discr":
            v = self.place(env, r[1])
            return v[1]
        if k == "agg":
            if r[1][0] == "adt": return ("adt", r[1][2], r[1][3], tuple(self.operand(env, x) for x in r[2]))
            if r[1][0] == "array": return ("arr",) + tuple(self.operand(env, x) for x in r[2])
            if r[1][0] == "tuple": return ("adt", 0, "", tuple(self.operand(env, x) for x in r[2]))
        if k == "bin":
            x, y = self.operand(env, r[2]), self.operand(env, r[3])
            o = r[1]
            if o == "BitAnd": return x & y
            if o == "Lt": return x < y
            if o == "Le": return x <= y
            if o == "Gt": return x > y
            if o == "Ge": return x >= y
            if o == "Eq": return x == y
            if o == "Ne": return x != y
        if k == "cast" and r[1] == "IntToInt": return self.operand(env, r[2])
        raise NotFollowed(str(r)[:80])

    def assign(self, env, dst, v):
        if len(dst) != 1: raise NotFollowed("assignment")
        env[dst[0]] = v

_auto, _memo = {}, {}
def token(I, crate, ty, v, pos):
    """The token of the text v (a string whose characters are known or of a class) from the character pos: (start, end, token) in characters, or None."""
    key = (id(I.recs), ty)
    if key not in _auto:
        try: _auto[key] = Automaton(I.fn, I.recs, crate, ty)
        except NotFollowed: _auto[key] = None
    A = _auto[key]
    if A is None: return None
    mk_ = (key, v, pos)
    if mk_ in _memo: return _memo[mk_]
    res = None
    try:
        for s in text.samples(v):
            offs, bs = [], b""
            for ch in s: offs.append(len(bs)); bs += ch.encode("utf-8", "surrogatepass")
            offs.append(len(bs))
            st, en, tok = A.token(bs, offs[pos])
            r = (offs.index(st), offs.index(en), tok)
            if res is None: res = r
            elif res != r: res = None; break
        if not text.samples(v): res = None
    except (NotFollowed, KeyError, ValueError, IndexError, TypeError) as e:
        I.unknown.setdefault("lexer: %s" % e, 0); res = None
    _memo[mk_] = res
    return res
