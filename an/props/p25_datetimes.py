"""Date and time expressions: the documented grammar, and where each expression leads from a date and time."""
import itertools
from common import *
import chronos, text
from chronos import days_of, civil, length, parts, D, W, H, MIN, S, MS

EX = "generators::datetime_expressions::"
FORM = ("Dates are places in the calendar (every weekday, month, month length and leap year, carried along exactly through loops that go day by day), clocks have unknown parts, and amounts are known or digits of a class; the expressions are those of the documented grammar, "
        "and the same with a part left out, doubled, exchanged or replaced. Each must lead to the date and time the grammar gives, or be refused when the grammar does not have it.")
UNKNOWN = object()
WDS = dict(mon="monday", tues="tuesday", wed="wednesday", thurs="thursday", fri="friday", sat="saturday", sun="sunday")
MOS = dict(jan="january", feb="february", mar="march", apr="april", may="may", jun="june", jul="july", aug="august", sep="september", oct="october", nov="november", dec="december")
WD = {n: i for i, p in enumerate(WDS.items()) for n in p}
MO = {n: i + 1 for i, p in enumerate(MOS.items()) for n in p}
DUNIT, TUNIT = dict(day=D, week=W, month="m", year="y"), dict(hour=H, minute=MIN, second=S, millisecond=MS)

class No(Exception): pass
class Unclear(Exception): pass
def digits(*cs): return text.of_chars([c for p in cs for c in (text.chars_of(cstr(p)) if isinstance(p, str) else text.chars_of(p))])
def dig(n, f="0123456789"): return text.achar(f, n)
def dt(y, m, d, clock=()):
    c = [const("int", x) for x in clock] + [sym(n) for n in ("hour", "minute", "second", "nano")[len(clock):]]
    return chronos.make(days_of(y, m, d), tuple(c))

# an outcome is a list of date-times any of which will do, or a predicate on (days, clock, shifts)
def months(x, k):
    n, c, sh = parts(x)
    if sh: raise Unclear()
    y, m, d = civil(n)
    t = y * 12 + m - 1 + k; y, m = t // 12, t % 12 + 1
    if not -chronos.MAXY <= y <= chronos.MAXY: raise No()
    ds = [d] if d <= length(y, m) else list(range(1, length(y, m) + 1))
    return [chronos.make(days_of(y, m, e), c) for e in ds]
def years(x, k):
    n, c, sh = parts(x)
    if sh: raise Unclear()
    y, m, d = civil(n); y += k
    if not -chronos.MAXY <= y <= chronos.MAXY: raise No()
    return [chronos.make(days_of(y, m, d), c)] if d <= length(y, m) else [chronos.make(days_of(y, 2, 28), c), chronos.make(days_of(y, 3, 1), c)]
def shift(x, unit, v, sign):
    """One adjustment of a date-time: unit, amount (an int or a text of digits) and direction."""
    n, c, sh = parts(x)
    if unit in ("m", "y"):
        if not isinstance(v, int): raise Unclear()
        return (months if unit == "m" else years)(x, sign * v)
    if isinstance(v, int):
        if v >= 2 ** 63 or v * unit > (2 ** 63 - 1) * MS: raise No()
        r = chronos.shifted(x, sign * v * unit)
        if r is None: raise No()
        return [r]
    return [chronos.make(n, c, sh + (agg("shift", "", (const("int", sign * unit), v)),))]
def weekday(x, w, sign):
    n, c, sh = parts(x)
    if sh: raise Unclear()
    n += sign
    while (n + 3) % 7 != w: n += sign
    return [chronos.make(n, c)]
def month(x, m, sign):
    n, c, sh = parts(x)
    if sh: raise Unclear()
    y, k, _ = civil(n)
    y += (1 if m <= k else 0) if sign > 0 else (-1 if m >= k else 0)
    return [chronos.make(days_of(y, m, 1), c)]

class Ref:
    """The grammar, over words (a number is a word too)."""
    def __init__(self, toks): self.t, self.i = list(toks), 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def take(self):
        k = self.peek()
        if k is None: raise No()
        self.i += 1
        return k
    def number(self):
        k = self.take()
        if isinstance(k, str):
            if not k.isdigit() or int(k) >= 2 ** 64: raise No()
            return int(k)
        return k
    def ops(self, units):
        out = []
        while self.peek() is not None:
            o = self.take()
            if not isinstance(o, str) or o not in ("+", "-"): raise No()
            v, u = self.number(), self.take()
            if not isinstance(u, str): raise No()
            u = u[:-1] if u.endswith("s") and u[:-1] in units else u
            if u not in units: raise No()
            out.append(lambda x, u=units[u], v=v, s=1 if o == "+" else -1: shift(x, u, v, s))
        return out
    def date(self):
        k = self.peek()
        if k in ("now", "today", "yesterday", "tomorrow"):
            self.i += 1
            first = [lambda x: [x]] if k in ("now", "today") else [lambda x: shift(x, D, 1, -1 if k == "yesterday" else 1)]
            return first + self.ops(DUNIT)
        if k in ("+", "-"): return self.ops(DUNIT)
        if k in ("next", "last"):
            self.i += 1
            s, o = 1 if k == "next" else -1, self.take()
            if not isinstance(o, str): raise No()
            if o in DUNIT: f = lambda x: shift(x, DUNIT[o], 1, s)
            elif o == "fortnight": f = lambda x: shift(x, W, 2, s)
            elif o in WD: f = lambda x: weekday(x, WD[o], s)
            elif o in MO: f = lambda x: month(x, MO[o], s)
            elif o[:-1] in DUNIT: raise Unclear()
            else: raise No()
            return [f] + self.ops(DUNIT)
        raise No()
    def time(self):
        def clock(*hms):
            def f(x):
                n, c, sh = parts(x)
                if sh: raise Unclear()
                return [chronos.make(n, tuple(const("int", v) for v in hms))]
            return f
        k = self.peek()
        if k == "now": self.i += 1; return self.ops(TUNIT)
        if k in ("midnight", "noon"):
            self.i += 1
            return [clock(12 if k == "noon" else 0, 0, 0, 0)] + self.ops(TUNIT)
        if k in ("+", "-"): return self.ops(TUNIT)
        if k in ("next", "last"):
            self.i += 1
            s, o = 1 if k == "next" else -1, self.take()
            if not isinstance(o, str): raise No()
            if o not in TUNIT:
                if o[:-1] in TUNIT: raise Unclear()
                raise No()
            return [lambda x: shift(x, TUNIT[o], 1, s)] + self.ops(TUNIT)
        h = self.number()
        if self.take() != "o'clock" or not isinstance(h, int) or not 1 <= h <= 12: raise No()
        ap = self.peek()
        if ap in ("am", "pm"): self.i += 1
        def f(x):
            n, c, sh = parts(x)
            if ap == "am": hour = h
            elif ap == "pm": hour = 12 + h % 12
            else:
                if c[0].op != "const": raise Unclear()
                hour = 12 + h % 12 if c[0].args[1] < 12 else h
            return clock(hour, 0, 0, 0)(x)
        return [f] + self.ops(TUNIT)

def apply(fs, x):
    """The date-times an expression may lead to."""
    xs = [x]
    for f in fs:
        out = []
        for y in xs: out += f(y)
        if len(out) > 1 and f is not fs[-1]: raise Unclear()
        xs = out
    return xs

def words(toks, sep=" ", pre="", post=""):
    out = [pre]
    for i, k in enumerate(toks):
        if i: out.append(sep)
        out.append(k)
    return digits(*(out + [post]))

def strip(v):
    while v.op == "cast": v = v.args[-2]
    return v
def canon(x):
    """A date-time with its shifts in a fixed order; None when something in it is not understood."""
    if not chronos.is_dt(x): return None
    n, c, sh = parts(x)
    out = []
    for y in sh:
        u, v = y.args[2][0].args[1], strip(y.args[2][1])
        if v.op == "num": v = v.args[0]
        if v.op not in ("const", "text"): return None
        out.append((u, v.args[1] if v.op == "const" and v.args[0] == "int" else v))
    return n, c, tuple(sorted(out, key=lambda p: (p[0], str(p[1]))))

def tell(x):
    n, c, sh = parts(x)
    return "%04d-%02d-%02d" % civil(n) + " " + ":".join(show(p, 2) for p in c) + "".join(" %+d ns * %s" % (s.args[2][0].args[1], show(s.args[2][1], 4)) for s in sh)

def outcome(ctx, key, y, want, W, what):
    """want: date-times that will do, or None when the expression is none of the grammar."""
    if y is UNDEF: return ctx.ob(key, False, "there is no answer at all (a panic) for %s" % what, W)
    goods, others = split_result(y)
    if want is None:
        clear = not goods or len(alts(y)) == len(goods)
        return ctx.ob(key, (not goods) if clear else None, "%s is not of the grammar or out of range, but leads to %s" % (what, show(phi(goods), 6)[:200] if goods else ""), W)
    if not goods: return ctx.ob(key, False, "%s is refused" % what, W)
    if others: return ctx.ob(key, None, "%s may be refused" % what, W)
    gs = [canon(v) for g, v in alts(phi(goods))]
    if any(g is None for g in gs): return ctx.ob(key, None, "not resolved for %s: %s" % (what, show(y, 6)[:200]), W)
    ws = [canon(w) for w in want]
    bad = [g for g in gs if g not in ws]
    ctx.ob(key, not bad, "%s leads to %s, where %s is expected" % (what, show(phi(goods), 6)[:200], " or ".join(tell(w) for w in want[:3])), W)

def run(ctx):
    ctx.rule(FORM)
    R = Cases(ctx); R.maxpeel = 9000
    fd, ft, fb = (ctx.need(EX + n) for n in ("execute_date_expression", "execute_time_expression", "execute_datetime_expression"))
    seen = set()
    def check(kind, key, toks, at, where=None, sep=" ", pre="", post="", pfx=""):
        f = {"date": fd, "time": ft}[kind]
        e = words(toks, sep, pre, post)
        k = (kind, e, at)
        if k in seen: return
        seen.add(k)
        try:
            r = Ref(toks)
            want = apply(getattr(r, kind)(), at)
        except No: want = None
        except Unclear: return
        outcome(ctx, "%s: %s" % (kind, key), R.run(f, at, e), want, ctx.where(f), "the %s expression %s from %s" % (kind, show(e, 4), tell(at)))
    A, B = dt(2000, 1, 1), dt(2023, 10, 18, (10,))
    # dates ------------------------------------------------------------------------------------------------
    ends = [(2000, 1, 1), (2000, 2, 29), (1999, 12, 31), (2001, 2, 28), (2100, 2, 28), (2023, 10, 18)]
    two, three = digits(dig(1, "123456789"), dig(2)), digits(dig(3, "123456789"), dig(4), dig(5))
    with ctx.part("base dates"):
        for b in ("now", "today", "yesterday", "tomorrow"):
            for e in ends: check("date", "%s from %04d-%02d-%02d" % ((b,) + e), [b], dt(*e))
    nums = ["1", "2", "0", "10", "007", two, three, digits(dig(6))]
    with ctx.part("adjusted dates"):
        for (u, s), o, (i, n) in itertools.product([("day", 0), ("week", 0), ("day", 1), ("week", 1)], "+-", enumerate(nums)):
            for e in ends[:3]: check("date", "%s %d %s%s from %04d-%02d-%02d" % ((o, i, u, "s" * s) + e), [o, n, u + "s" * s], dt(*e))
            check("date", "tomorrow %s %d %s%s" % (o, i, u, "s" * s), ["tomorrow", o, n, u + "s" * s], B)
            check("date", "next week %s %d %s%s" % (o, i, u, "s" * s), ["next", "week", o, n, u + "s" * s], B)
        for a, b in itertools.product([("+", "3", "days"), ("-", "2", "weeks"), ("+", two, "days"), ("-", three, "weeks"), ("+", "5", "months"), ("-", "1", "year")], repeat=2):
            check("date", "two adjustments: %s" % show(words(a + b), 4), a + b, B); check("date", "two adjustments of a base: %s" % show(words(a + b), 4), ("yesterday",) + a + b, B)
            check("date", "two adjustments after an offset: %s" % show(words(a + b), 4), ("last", "fri") + a + b, B)
        check("date", "three adjustments", ["+", "1", "day", "-", "2", "weeks", "+", "3", "months"], B)
    with ctx.part("months and years"):
        starts = [(2000, 1, 31), (1999, 3, 31), (2023, 5, 15), (2023, 12, 1), (2024, 2, 29), (2023, 8, 30), (2023, 12, 31)]
        for e, o, n, s in itertools.product(starts, "+-", ("0", "1", "2", "11", "12", "13", "25"), ("", "s")):
            if s and n != "2": continue
            check("date", "%s %s month%s from %04d-%02d-%02d" % ((o, n, s) + e), [o, n, "month" + s], dt(*e))
        for e, o, n in [(starts[2], "+", "100"), (starts[4], "-", "49")] + ([(e, o, n) for e in starts[:4] for o in "+-" for n in ("61", "150", "240")] if ctx.tier == "thorough" else []): check("date", "%s %s months from %04d-%02d-%02d" % ((o, n) + e), [o, n, "months"], dt(*e))
        for e, o, n, s in itertools.product(starts, "+-", ("0", "1", "4", "100", "2000"), ("", "s")):
            check("date", "%s %s year%s from %04d-%02d-%02d" % ((o, n, s) + e), [o, n, "year" + s], dt(*e))
        for e, o, u in itertools.product(starts, ("next", "last"), ("day", "week", "month", "year", "fortnight")):
            check("date", "%s %s from %04d-%02d-%02d" % ((o, u) + e), [o, u], dt(*e))
    with ctx.part("weekdays"):
        for i, o, w in itertools.product(range(7), ("next", "last"), WD):
            check("date", "%s %s from weekday %d" % (o, w, i), [o, w], chronos.make(days_of(2023, 12, 28) + i, parts(A)[1]))
    with ctx.part("named months"):
        for m, o, n in itertools.product(range(1, 13), ("next", "last"), MO):
            if ctx.tier != "thorough" and not ((MO[n] - m) % 12 in (0, 1, 11) or (m + MO[n]) % 4 == 1) or n in MOS and n != MOS[n] and ctx.tier != "thorough" and m % 4 != 1: continue
            for d in ([15] if ctx.tier != "thorough" else [1, 2, 15, length(2023, m)]): check("date", "%s %s from month %d, day %d" % (o, n, m, d), [o, n], dt(2023, m, d))
        for m, n, o in itertools.product((1, 2, 3, 12), ("jan", "february", "mar", "december"), ("next", "last")):
            for y in ((1999, 2000, 2100) if ctx.tier == "thorough" else (1999, 2000)): check("date", "%s %s from the end of month %d of %d" % (o, n, m, y), [o, n], dt(y, m, length(y, m))); check("date", "%s %s from the start of month %d of %d" % (o, n, m, y), [o, n], dt(y, m, 1))
    # times ------------------------------------------------------------------------------------------------
    clocks = [(), (0,), (9,), (11,), (12,), (23,), (23, 59), (23, 59, 59, 999 * MS), (0, 0, 0, 0), (10, 30, 15, 5 * MS)]
    with ctx.part("times of day"):
        for c in clocks:
            at = dt(2023, 10, 18, c)
            for b in ("now", "midnight", "noon"): check("time", "%s at %s" % (b, c), [b], at)
            for h, ap in itertools.product(["1", "2", "6", "9", "11", "12", "05", "0", "13", "24", "100", "258", "4294967297"], ([], ["am"], ["pm"])): check("time", "%s o'clock %s at %s" % (h, "".join(ap), c), [h, "o'clock"] + ap, at)
            for o, u in itertools.product(("next", "last"), TUNIT): check("time", "%s %s at %s" % (o, u, c), [o, u], at)
    with ctx.part("adjusted times"):
        for c in [(10,), (0, 0), (23, 59, 59, 999 * MS), ()]:
            at = dt(2023, 12, 31, c)
            for u, s, o, (i, n) in itertools.product(TUNIT, ("", "s"), "+-", enumerate(nums)):
                if s and i % 2 and ctx.tier != "thorough": continue
                check("time", "%s %d %s%s at %s" % (o, i, u, s, c), [o, n, u + s], at)
                for j, b in enumerate((["now"], ["midnight"], ["noon"], ["2", "o'clock"], ["3", "o'clock", "am"], ["4", "o'clock", "pm"], ["next", "hour"], ["last", "minute"])):
                    if c == (10,) and (ctx.tier == "thorough" or not s or i == 1 or j == 3): check("time", "base %d %s %d %s%s" % (j, o, i, u, s), b + [o, n, u + s], at)
        for a, b in itertools.product([("+", "3", "hours"), ("-", "20", "minutes"), ("+", two, "seconds"), ("-", three, "milliseconds")], repeat=2):
            for j, x in enumerate(((), ("now",), ("noon",), ("2", "o'clock"), ("2", "o'clock", "pm"), ("next", "minute"))): check("time", "two adjustments of base %d: %s" % (j, show(words(a + b), 4)), x + a + b, dt(2023, 10, 18, (10, 30, 15, 0)))
    # amounts out of range -----------------------------------------------------------------------------------
    with ctx.part("amounts out of range"):
        big = ["99999999", "9999999999", "106751991168", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967297", "18446744069414584321", "99999999999999999999999"]
        for o, u, n in itertools.product("+-", ("day", "weeks", "months", "year"), big):
            if u == "months" and n == "99999999": continue      # it takes too many steps to go there day by day
            check("date", "%s %s %s" % (o, n, u), [o, n, u], B)
        for o, u, n in itertools.product("+-", ("hour", "minutes", "second", "milliseconds"), big): check("time", "%s %s %s" % (o, n, u), [o, n, u], dt(2023, 10, 18, (10, 30, 15, 0)))
    # what is not in the grammar -------------------------------------------------------------------------------
    with ctx.part("not in the grammar"):
        at = dt(2023, 10, 18, (10, 30, 15, 0))
        goods = {"date": [["now"], ["tomorrow", "+", "2", "days"], ["-", "1", "week"], ["next", "monday"], ["last", "june", "+", "1", "day"], ["+", "1", "day", "-", "2", "weeks"], ["next", "fortnight"]],
                 "time": [["now"], ["midnight", "+", "2", "hours"], ["-", "1", "minute"], ["next", "hour"], ["last", "second", "+", "1", "hour"], ["2", "o'clock"], ["2", "o'clock", "am"], ["7", "o'clock", "pm"], ["2", "o'clock", "-", "1", "second"], ["+", "1", "hour", "-", "2", "seconds"]]}
        other = {"date": ["now", "tomorrow", "+", "-", "next", "last", "3", "day", "weeks", "fortnight", "tuesday", "may", "noon", "hour", "#", "x", "+1", "Now", "é", "@", "1.5", "o'clock"],
                 "time": ["now", "noon", "+", "-", "next", "last", "3", "hour", "seconds", "am", "pm", "o'clock", "today", "day", "#", "x", "Now", "é", "@", "1.5", "clock"]}
        for kind in ("date", "time"):
            def bad(key, toks, **kw):
                toks = [w for k in toks for w in (["+", "1"] if k == "+1" else [k])]
                check(kind, key, toks, at, **kw)
            for i, t in enumerate(goods[kind]):
                for j in range(len(t)):
                    if t[:j] + t[j + 1:]: bad("%d without word %d" % (i, j), t[:j] + t[j + 1:])
                    if j: bad("%d up to word %d" % (i, j), t[:j]); bad("%d with words %d and %d exchanged" % (i, j - 1, j), t[:j - 1] + [t[j], t[j - 1]] + t[j + 1:])
                    bad("%d with word %d twice" % (i, j), t[:j + 1] + t[j:])
                    for o in other[kind]: bad("%d with word %d replaced by %s" % (i, j, o), t[:j] + [o] + t[j + 1:])
                for o in other[kind]:
                    bad("%d followed by %s" % (i, o), t + [o]); bad("%d after %s" % (i, o), [o] + t)
                check(kind, "%d in wide spaces" % i, t, at, sep=" \t "); check(kind, "%d in spaces" % i, t, at, pre="  ", post=" ")
                tight = [t[0]]
                if all(not (a[-1:].isalnum() and b[:1].isalnum()) for a, b in zip(t, t[1:])) or kind == "date" and t[0] in "+-": check(kind, "%d without spaces" % i, t, at, sep="")
            f = {"date": fd, "time": ft}[kind]
            for e in ["not valid", "#", "nowish", "n", "1", "day", "hour", "2 o clock", "+", "next", "last", "+ one day", "nowtoday", "12:30", "2000-01-01"]:
                outcome(ctx, "%s: no expression: %r" % (kind, e), R.run(f, at, cstr(e)), None, ctx.where(f), "the text %r" % e)
    # both -------------------------------------------------------------------------------------------------
    with ctx.part("dates and times together"):
        W_ = ctx.where(fb)
        ds = [[], ["now"], ["today"], ["yesterday"], ["tomorrow", "+", "4", "years"], ["-", "2", "weeks"], ["next", "june"], ["last", "month"], ["last", "sunday", "+", two, "days"], ["next"], ["+", "1", "hour"], ["noon"], ["x"]]
        ts = [None, [], ["now"], ["midnight"], ["noon", "-", "1", "hour"], ["3", "o'clock", "+", "40", "milliseconds"], ["5", "o'clock", "am"], ["next", "hour"], ["+", two, "minutes"], ["1"], ["today"], ["13", "o'clock"], ["#"]]
        for (i, d), (j, t), c, sp in itertools.product(enumerate(ds), enumerate(ts), [(10,), (23, 30)], [" @ ", "@"]):
            if t is None and not d and sp == "@": pass
            x = dt(2023, 10, 31, c)
            if t is None: e = words(d)
            elif not d: e = digits(sp.strip(), words([""] + t if t else []))
            elif not t: e = digits(words(d), sp.strip())
            else: e = digits(words(d), sp, words(t))
            if (e, c) in seen: continue
            seen.add((e, c))
            try:
                want = [x]
                if d: want = apply(Ref(d).date(), x)
                if t: want = [z for y in want for z in apply(Ref(t).time(), y)] if len(want) == 1 else None
                if want is None: continue
            except No: want = None
            except Unclear: continue
            outcome(ctx, "together: %d, %d at %s%s" % (i, j, c, "" if sp == "@" else ", spaced"), R.run(fb, x, e), want, W_, "the expression %s from %s" % (show(e, 4), tell(x)))
        for c, f in (("date", fd), ("time", ft), ("date and time", fb)): outcome(ctx, "empty %s" % c, R.run(f, A, cstr("")), [A], ctx.where(f), "the empty %s expression" % c)

@prop("P25", "Date and time expressions lead where the documentation says", floor=1500)
def p25(ctx): run(ctx)
