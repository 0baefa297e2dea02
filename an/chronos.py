"""Dates and times of chrono: what its operations do to a date, whose place in the calendar is known, and a clock, whose parts may not be."""
from engine import *

DTM, TD, WD = "chrono::DateTime", "chrono::TimeDelta", "chrono::Weekday"
DAYS = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
MS, S, MIN, H, D, W = 10 ** 6, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9, 7 * 86400 * 10 ** 9
UNITS = {"nanoseconds": 1, "microseconds": 1000, "milliseconds": MS, "seconds": S, "minutes": MIN, "hours": H, "days": D, "weeks": W}
MAXY = 262142
def I_(n): return const("int", n)
def known(x): return x.op == "const" and x.args[0] == "int"

def days_of(y, m, d):
    y -= m <= 2
    era = y // 400; yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468
def civil(z):
    z += 719468
    era = z // 146097; doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1
def length(y, m): return 28 + (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) if m == 2 else 30 if m in (4, 6, 9, 11) else 31

def make(n, clock, shifts=()): return agg(DTM, "DateTime", (I_(n), agg("clock", "", tuple(clock)), agg("shifts", "", tuple(shifts))))
def parts(x): return x.args[2][0].args[1], x.args[2][1].args[2], x.args[2][2].args[2]
def is_dt(x): return x.op == "agg" and x.args[0] == DTM

def shifted(x, ns):
    """The date-time some nanoseconds later, or None when there is none."""
    n, c, sh = parts(x)
    if sh: return make(n, c, sh + (agg("shift", "", (I_(1), I_(ns))),))
    rest, out, carry = ns, [], 0
    # each part of the clock that the amount does not touch may be unknown
    sizes = [H, MIN, S, 1]; tops = [24, 60, 60, 10 ** 9]
    k = next((i for i, u in enumerate([H, MIN, S, 1]) if ns % u == 0), 3) if ns % D else -1
    if k >= 0 and not all(known(p) for p in c[:k + 1]):
        return make(n, c, (agg("shift", "", (I_(1), I_(ns))),))
    tot = sum(c[i].args[1] * sizes[i] for i in range(k + 1)) + ns
    d, tot = divmod(tot, D)
    for i in range(k + 1):
        out.append(I_(tot // sizes[i])); tot %= sizes[i]
    if not -MAXY <= civil(n + d)[0] <= MAXY: return None
    return make(n + d, tuple(out) + c[k + 1:])

def months(x, k):
    n, c, sh = parts(x)
    y, m, d = civil(n)
    t = y * 12 + m - 1 + k
    y, m = t // 12, t % 12 + 1
    if abs(k) > 2 ** 31 - 1 or not -MAXY <= y <= MAXY: return None
    return make(days_of(y, m, min(d, length(y, m))), c, sh)

def call_(I, name, m, vals, OPTf, int_cast=None):
    """The value of a call, NotImplemented when it is none of these, or 'panic'."""
    some, NONE = OPTf
    opt = lambda v: NONE if v is None else some(v)
    x = vals[0] if vals else None
    if "TimeDelta" in name or "Duration" in name:
        u = m[4:] if m.startswith("try_") else m
        if u in UNITS and len(vals) == 1 and not is_td(x):
            if known(x):
                v = x.args[1]
                bad = not -2 ** 63 <= v < 2 ** 63 or abs(v * UNITS[u]) > (2 ** 63 - 1) * MS and u not in ("nanoseconds", "microseconds")
                if bad and not m.startswith("try_"): return "panic"
                r = None if bad else agg(TD, "TimeDelta", (I_(1), I_(v * UNITS[u])))
            else: r = agg(TD, "TimeDelta", (I_(UNITS[u]), x))
            return opt(r) if m.startswith("try_") else r
        if m == "neg" and is_td(x): return agg(TD, "TimeDelta", (I_(-x.args[2][0].args[1]), x.args[2][1]))
        if m == "mul" and is_td(x) and known(vals[1]): return agg(TD, "TimeDelta", (I_(x.args[2][0].args[1] * vals[1].args[1]), x.args[2][1]))
        if m == "zero" and not vals: return agg(TD, "TimeDelta", (I_(1), I_(0)))
    if m == "new" and ("chrono::Months" in name or "chrono::Days" in name) and len(vals) == 1: return agg("chrono::Months" if "Months" in name else "chrono::Days", "", (x,))
    if x is not None and x.op == "agg" and x.args[0] == WD:
        i = DAYS.index(x.args[1])
        if m == "num_days_from_monday": return I_(i)
        if m == "number_from_monday": return I_(i + 1)
        if m == "num_days_from_sunday": return I_((i + 1) % 7)
        if m == "number_from_sunday": return I_((i + 1) % 7 + 1)
        if m in ("succ", "pred"): return agg(WD, DAYS[(i + (1 if m == "succ" else -1)) % 7], ())
        if m in ("days_since",) and vals[1].op == "agg": return I_((i - DAYS.index(vals[1].args[1])) % 7)
        return NotImplemented
    if x is None or not is_dt(x): return NotImplemented
    n, c, sh = parts(x)
    names = ("hour", "minute", "second", "nanosecond")
    if m in ("clone", "to_owned"): return x
    if m in ("add", "sub", "add_assign", "sub_assign", "checked_add_signed", "checked_sub_signed", "checked_add_months", "checked_sub_months", "checked_add_days", "checked_sub_days") and len(vals) == 2:
        a = vals[1]; sign = -1 if "sub" in m else 1
        if a.op != "agg": return NotImplemented
        if a.args[0] == TD:
            u, k = a.args[2][0].args[1] * sign, a.args[2][1]
            r = shifted(x, u * k.args[1]) if known(k) else make(n, c, sh + (agg("shift", "", (I_(u), k)),))
        elif a.args[0] == "chrono::Days":
            k = a.args[2][0]
            r = shifted(x, sign * D * k.args[1]) if known(k) else make(n, c, sh + (agg("shift", "", (I_(sign * D), k)),))
        elif a.args[0] == "chrono::Months":
            k = a.args[2][0]
            if sh or not known(k): return NotImplemented
            r = months(x, sign * k.args[1])
        else: return NotImplemented
        if m.startswith("checked_"): return opt(r)
        return "panic" if r is None else r
    if m in ("timezone", "offset"): return call(m, sym("zone"))
    if sh: return NotImplemented
    y, mo, d = civil(n)
    if m == "year": return I_(y)
    if m == "month": return I_(mo)
    if m == "month0": return I_(mo - 1)
    if m == "day": return I_(d)
    if m == "day0": return I_(d - 1)
    if m == "ordinal": return I_(n - days_of(y, 1, 1) + 1)
    if m == "ordinal0": return I_(n - days_of(y, 1, 1))
    if m == "weekday": return agg(WD, DAYS[(n + 3) % 7], ())
    if m in names: return c[names.index(m)]
    if m.startswith("with_") and len(vals) == 2:
        p, v = m[5:], vals[1]
        if p in names:
            if not known(v): return NotImplemented
            i = names.index(p)
            return opt(make(n, c[:i] + (v,) + c[i + 1:]) if 0 <= v.args[1] < (24, 60, 60, 2 * 10 ** 9)[i] else None)
        if not known(v): return NotImplemented
        v = v.args[1]
        if p == "year": y = v
        elif p == "month": mo = v
        elif p == "month0": mo = v + 1
        elif p == "day": d = v
        elif p == "day0": d = v + 1
        else: return NotImplemented
        return opt(make(days_of(y, mo, d), c) if 1 <= mo <= 12 and -MAXY <= y <= MAXY and 1 <= d <= length(y, mo) else None)
    return NotImplemented

def is_td(x): return x.op == "agg" and x.args[0] == TD


MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]

def gregorian(m, owner, args):
    """Months of the gregorian library."""
    def num(x): return x.args[1] if x.op == "const" and x.args[0] == "int" else None
    if m == "new" and len(args) == 1 and num(args[0]) is not None and "Month" in owner and "Year" not in owner:
        n = num(args[0])
        return agg("std::result::Result", "Ok", (agg("gregorian::Month", MONTHS[n - 1], ()),)) if 1 <= n <= 12 else agg("std::result::Result", "Err", (call("InvalidMonthNumber", args[0]),))
    if m == "to_number" and args[0].op == "agg" and args[0].args[1] in MONTHS: return const("int", MONTHS.index(args[0].args[1]) + 1)
    ym = None
    if m == "with_year" and args[0].op == "agg" and args[0].args[1] in MONTHS and num(args[1]) is not None: ym = (args[1], args[0])
    if m == "new" and "YearMonth" in owner and len(args) == 2 and args[1].op == "agg" and args[1].args[1] in MONTHS and num(args[0]) is not None: ym = (args[0], args[1])
    if ym: return agg("gregorian::YearMonth", "YearMonth", ym)
    if m == "total_days" and args[0].op == "agg" and args[0].args[0] == "gregorian::YearMonth":
        y, mo = num(args[0].args[2][0]), MONTHS.index(args[0].args[2][1].args[1]) + 1
        import calendar
        return const("int", 31 if mo in (1, 3, 5, 7, 8, 10, 12) else 30 if mo != 2 else 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28)
    return None
