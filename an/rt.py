"""Composition of a writer with its reader: the reader is interpreted on the term the writer produces, and the result is
normalised.  A field survives when its normal form is the field itself."""
from facts import *
import engine, guards
from engine import *
from norm import *
import models

def base(t):
    """Terms the value t is made of: (sym/field paths of the inputs, unknown calls)."""
    return t

class Comp:
    def __init__(self, crates, pairs=None, rules=None, opaque=(), keep=None, budget=3000000, maxdepth=14, peel=False, maporder=None, maxpeel=None):
        self.C = crates
        self.pairs = pairs or {}
        self.opq = set(opaque)
        for r, (w, _) in self.pairs.items(): self.opq |= {r, w}
        self.rules = rules or []
        self.keep = keep
        self.budget = budget
        self.maxdepth = maxdepth
        self.peel, self.maxpeel = peel, maxpeel or MAXPEEL
        self.maporder = maporder
        self.inlined = set()
        self.unknown = {}

    def interpreter(self):
        I = Interp(self.C, opaque=lambda n: n in self.opq, budget=self.budget, keep=self.keep, maxdepth=self.maxdepth)
        I.peel, I.maxpeel = self.peel, self.maxpeel
        I.maporder = self.maporder
        return I

    def interp(self, fn, args=None):
        I = self.interpreter()
        v, m = I.run(fn, args)
        self.inlined |= I.inlined | {fn}
        for k, n in I.unknown.items(): self.unknown[k] = self.unknown.get(k, 0) + n
        self.I = I
        return v, m

    def hash_of(self, fn, v):
        """What the value writes to a hasher, in order."""
        I = self.interpreter()
        cell = ("param", "hasher")
        _, m = I.run(fn, [v, mk("mref", cell, ())], {cell: agg("[]", "", ())})
        self.inlined |= I.inlined | {fn}
        for k, n in I.unknown.items(): self.unknown[k] = self.unknown.get(k, 0) + n
        self.I = I
        return (m or {}).get(cell, UNDEF)

    def interp_mut(self, fn, args, init):
        """Interprets fn with its parameter 0 a mutable reference to a cell holding `init`: (result, final value of the cell)."""
        I = self.interpreter()
        cell = ("param", "self")
        v, m = I.run(fn, [mk("mref", cell, ())] + list(args), {cell: init})
        self.inlined |= I.inlined | {fn}
        for k, n in I.unknown.items(): self.unknown[k] = self.unknown.get(k, 0) + n
        self.I = I
        return v, (m or {}).get(cell, init)

    def text(self, fn, x):
        """The text a Display implementation writes for x."""
        I = self.interpreter()
        cell = ("fmt", "text")
        v, m = I.run(fn, [x, mk("mref", cell, ())], {cell: cstr("")})
        self.inlined |= I.inlined | {fn}
        self.I = I
        return (m or {}).get(cell, UNDEF)

    def norm(self, v):
        self.N = Norm(self.I.adts, self.pairs, self.rules)
        return self.N(v)

    def roundtrip(self, writer, reader, wargs=None, rargs=lambda v: [v]):
        w, _ = self.interp(writer, wargs)
        self.written = w
        r, _ = self.interp(reader, rargs(w))
        return self.norm(r)
