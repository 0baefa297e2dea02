"""Reader/writer pairs of the document fragments, as normaliser rules.

Each pair has its own obligation (it is composed and checked on its own); elsewhere reader(writer(x)) stands for x."""
from engine import *
import models
from models import VALUE, EMPTY
from guards import *

MR, GEN = "matchingrules::MatchingRules", "generators::Generators"

class Keyed:
    """reader(J, ...) reads the value stored under `key` of J, which writer(x, ...) produced."""
    def __init__(self, I, reader, key, writer, wrap, absent, objvariant=None):
        self.I, self.reader, self.key, self.writer, self.wrap, self.absent = I, reader, key, writer, wrap, absent
        self.used = []
    def __call__(self, N, t):
        n, a = t.args
        if n != self.reader: return None
        k = self.key if isinstance(self.key, str) else None
        kt = cstr(k) if k is not None else a[self.key]
        o = N(self.I.models.get(a[0], kt))
        out, xs, nones = [], [], []
        for g, v in alts(o):
            if v.op == "agg" and v.args[0] == OPT and v.args[1] == "Some":
                p = v.args[2][0]
                p = self.I.models.objmap(p)
                if p.op == "field" and p.args[1] == "Object": p = p.args[0]
                if p.op == "call" and p.args[0] == self.writer:
                    out.append((g, p.args[1][0])); xs.append(p)
                else: out.append((g, mk("read", self.reader, p))); xs.append(None)
            elif v is NONE: nones.append(g)
            else: return None
        for g in nones:
            x = xs[0] if xs and xs[0] is not None and all(x is xs[0] for x in xs) else None
            if x is not None:
                d = mk("discr", x)
                DOMAIN.setdefault(d, models.VDOM)
                if implies(g, lit(d, models.VDOM - {"Object"})): out.append((g, x.args[1][0])); continue
                if N.says_empty(g, x.args[1][0]): out.append((g, x.args[1][0])); continue
            out.append((g, self.absent))
        r = N.eta_phi(phi([(g, N(v)) for g, v in out]))
        return agg(RES, "Ok", (r,)) if self.wrap else r

def byte_rules(N, t):
    """Library inverses: base64, UTF-8, JSON text, numbers."""
    n, a = t.args
    if n == "base64::Engine::decode":
        x = a[1]
        for g, v in alts(x):
            if not (v.op == "call" and v.args[0] == "base64::Engine::encode"): return None
        return agg(RES, "Ok", (phi([(g, v.args[1][1]) for g, v in alts(x)]),))
    if n in ("as_u64", "as_i64", "as_f64") and a[0].op == "agg" and a[0].args[0] == VALUE:
        if a[0].args[1] == "Number": return some(a[0].args[2][0])
        return NONE
    return None
