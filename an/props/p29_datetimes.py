"""Date and time patterns: which patterns are accepted, which values match them, and what is generated from them."""
from common import *
import text
from models import is_str_const

F = "time_utils::"
VALID, PARSE, CHRONO, GEN = F + "validate_datetime", F + "parse_pattern", F + "to_chrono_pattern", F + "generate_string"
DIG = "0123456789"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
# letter -> most letters in a row (None: any number)
MOST = {"G": 5, "y": None, "Y": None, "u": None, "M": 5, "L": 5, "d": 2, "D": None, "q": 2, "Q": 5, "w": 2, "W": 2, "F": 2, "E": 5, "e": 5, "c": 1, "a": 1, "h": 2, "H": 2, "k": 2, "K": 2,
        "m": 2, "s": 2, "S": None, "n": None, "A": None, "N": None, "x": 5, "X": 5, "Z": 5, "O": 4, "z": 4, "V": 2}
MONTHS = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"]
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]

def digits(n, tag="d"): return [text.achar(DIG, "%s%d" % (tag, i)) for i in range(n)]
def txt(*xs):
    """A text of constants and character classes."""
    cs = []
    for x in xs: cs += list(x) if isinstance(x, list) else [const("char", ch) for ch in x] if isinstance(x, str) else [x]
    return text.of_chars(cs)

def cases(s): return [s.lower(), s.upper(), s.capitalize(), s[0].lower() + s[1:].upper()]
def dim(m, y): return 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28

class Dates:
    def __init__(self, ctx):
        self.ctx, self.R = ctx, Cases(ctx)
    def outcome(self, f, *args):
        y = self.R.run(f, *args)
        if y is None or y.op == "undef": return "fails (panics)"
        if y.op == "agg" and y.args[1] in ("Ok", "Err"): return y.args[1]
        return None
    def judge(self, key, f, want, what, *args):
        got = self.outcome(f, *args)
        where = self.ctx.where(f)
        if got is None: return self.ctx.ob(key, None, "not resolved", where)
        self.ctx.ob(key, got == want, "%s is %s, expected to be %s" % (what, {"Ok": "accepted", "Err": "refused"}.get(got, got), {"Ok": "accepted", "Err": "refused"}[want]), where)
    def value(self, pat, v, good, note=""):
        v = v if isinstance(v, T) else cstr(v)
        p = pat if isinstance(pat, T) else cstr(pat)
        d = "%s for %s%s" % (show(v, 5), show(p, 5), note)
        self.judge("value " + d, VALID, "Ok" if good else "Err", "the value " + d, v, p)
    def values(self, pat, good=(), bad=()):
        for v in good: self.value(pat, v, True)
        for v in bad: self.value(pat, v, False)

@prop("P29", "Date and time patterns accept exactly the values they describe", floor=2500)
def p29(ctx):
    ctx.rule("The functions that read a date/time pattern, check a value against it and turn it into a format string are interpreted on every pattern letter at every count (up to a bound), with values whose "
             "characters are known or members of a class (any digit, any punctuation character); the outcome must be the one the documented table of symbols gives, and the format string one whose output the pattern itself accepts.")
    for f in (VALID, PARSE, CHRONO, GEN): ctx.need(f)
    D = Dates(ctx)
    def part(name, f):
        def go():
            with ctx.part(name): f(ctx, D)
        return go
    jobs = [("patterns", patterns), ("dates in numbers", numbers), ("times in numbers", times), ("days and weeks", weeks), ("years and fractions", years), ("names", names)]
    jobs += [("days of the month", lambda ctx, D, ms=ms: days(ctx, D, ms)) for ms in (range(1, 3), range(3, 5), range(5, 9), range(9, 13))]
    jobs += [("offsets", offsets), ("zones", zones), ("texts", texts), ("generated", generated)]
    ctx.spread([part(n, f) for n, f in jobs])

def patterns(ctx, D):
    for ch in LETTERS:
        for n in (1, 2, 3, 4, 5, 6, 9, 12):
            want = "Ok" if ch in MOST and (MOST[ch] is None or n <= MOST[ch]) else "Err"
            D.judge("pattern %s" % (ch * n), PARSE, want, "the pattern %s" % (ch * n), cstr(ch * n))
            # wherever it stands
            D.judge("pattern yyyy-%s" % (ch * n), PARSE, want if ch not in "y" else "Ok", "the pattern yyyy-%s" % (ch * n), cstr("yyyy-" + ch * n))
            D.judge("pattern %s'x' mm" % (ch * n), PARSE, want, "the pattern %s'x' mm" % (ch * n), cstr(ch * n + "'x' mm"))
    for bad in ("", "{", "}", "[yyyy]", "yyyy[-MM]", "'", "'abc", "yyyy'", "HH 'h", "b", "yyyy-b"): D.judge("pattern %s" % bad, PARSE, "Err", "the pattern %r" % bad, cstr(bad))
    punct = text.achar("-/.,:; _+*()@!", "p")
    for xs in ((punct,), ("yyyy", punct, "MM"), (punct, "dd"), ("HH", punct), ("HH", punct, "mm", punct, "ss")):
        D.judge("pattern with any punctuation %s" % show(txt(*xs), 3), PARSE, "Ok", "a pattern with punctuation", txt(*xs))

def span(D, pat, lo, hi):
    for k in range(100):
        for f in ["%d" % k] + (["%02d" % k] if k < 10 else []): D.value(pat, f, lo <= k <= hi)
    D.values(pat, bad=["", "x", "-1", " 1", "1x", "111"])
    D.value(pat, txt(text.achar(LETTERS + ":- ", "c")), False, " (any letter)")
    D.value(pat, txt("%d" % lo if lo else "1", text.achar(LETTERS + ":- ", "c")), False, " (any letter after a digit)")
    D.value(pat, txt("%02d" % hi if hi > 9 else "%d%d" % (hi, hi), digits(1)), False, " (any further digit)")

def numbers(ctx, D):
    for p in ("M", "MM", "L", "LL"): span(D, p, 1, 12)
    for p in ("d", "dd"): span(D, p, 1, 31)
    for p in ("q", "qq", "Q", "QQ"): span(D, p, 1, 4)

def times(ctx, D):
    for p in ("H", "HH"): span(D, p, 0, 23)
    for p in ("k", "kk"): span(D, p, 1, 24)
    for p in ("h", "hh"): span(D, p, 1, 12)
    for p in ("K", "KK"): span(D, p, 0, 11)
    for p in ("m", "mm"): span(D, p, 0, 59)
    for p in ("s", "ss"): span(D, p, 0, 60)

def weeks(ctx, D):
    # the weeks of a year (52 or 53 are the most a year has; the first and last values are what matters)
    for p in ("w", "ww"):
        D.values(p, ["%d" % k for k in range(1, 54)] + ["%02d" % k for k in range(1, 10)], ["0", "00", "60", "99", "100", "x", ""])
    for p in ("W", "WW"): D.values(p, ["1", "2", "3", "4", "5"], ["0", "7", "10", "x", ""])
    for p in ("F", "FF"): D.values(p, ["1", "2", "3", "4"], ["7", "10", "x", ""])
    for p in ("e", "c"): D.values(p, ["1", "2", "3", "4", "5", "6", "7"], ["0", "8", "9", "", "x", "11"])
    D.values("ee", ["1", "7", "01", "02", "07"], ["0", "00", "08", "8", "9", "10", "32", "001"])
    # the days of a year
    for p in ("D", "DD", "DDD"):
        for k in (1, 2, 9, 10, 31, 99, 100, 101, 200, 255, 256, 299, 300, 354, 355, 356):
            for f in {"%d" % k, "%02d" % k, "%03d" % k}: D.value(p, f, True)
        D.values(p, bad=["0", "00", "000", "367", "368", "400", "999", "1000", "x", ""])
    late = [k for k in range(357, 367) for p in ("D", "DD", "DDD") if D.outcome(VALID, cstr(str(k)), cstr(p)) not in ("Ok", None)]
    ctx.ob("the last days of the year" + (" (%d of 30 refused)" % len(late) if late else ""), not late, "the days %s of the year are refused, although a leap year has 366 days" % sorted(set(late)), ctx.where(VALID))

def years(ctx, D):
    # any digits, up to the count
    for ch in "yYu":
        for n in (2, 4, 5, 6, 9):
            for k in range(1, n + 1): D.value(ch * n, txt(digits(k)), True, " (any %d digits)" % k)
            D.value(ch * n, txt(digits(n + 1)), False, " (any %d digits)" % (n + 1))
            D.values(ch * n, bad=["", "x", "-" + "1" * n])
    for n in (1, 2, 3, 4, 6, 9, 10, 19, 20, 25):
        for k in sorted({1, n // 2 or 1, n}): D.value("S" * n, txt(digits(k)), True, " (any %d digits)" % k)
        D.value("S" * n, "9" * n, True); D.value("S" * n, "0" * n, True)
        D.value("S" * n, txt(digits(n + 1)), False, " (any %d digits)" % (n + 1))
        D.values("S" * n, bad=["", "x"])
    for ch in "nAN":
        for k in (1, 3, 9, 12, 22): D.value(ch, txt(digits(k)), True, " (any %d digits)" % k)
        D.values(ch, bad=["", "x", "-1"])

def names(ctx, D):
    for i, m in enumerate(MONTHS):
        for c in cases(m[:3]): D.value("MMM", c, True)
        for c in cases(m):
            for p in ("MMMM", "MMMMM"): D.value(p, c, True)
        if len(m) > 3:
            D.value("MMM", m, False); D.value("MMMM", m[:3], False); D.value("MMMM", m[:-1], False); D.value("MMMMM", m[:3], False)
        D.value("MM", m[:3], False); D.value("M", m, False); D.value("MMMM", m + "x", False)
        D.value("MMM", "%d" % (i + 1), False)
    for i, d in enumerate(DAYS):
        for p in ("E", "EE", "EEE", "eee"):
            for c in cases(d[:3]): D.value(p, c, True)
            D.value(p, d, False); D.value(p, str(i + 1), False)
        for p in ("EEEE", "EEEEE", "eeee", "eeeee"):
            for c in cases(d): D.value(p, c, True)
            D.value(p, d[:3], False); D.value(p, d[:-1], False)
        D.value("e", d[:3], False); D.value("ee", d[:3], False)
    for p in ("MMM", "MMMM", "E", "EEEE", "eee", "G", "a"): D.values(p, bad=["", "xyz", "foo", "j", "m", "s", "p", "a", "b"])
    for p, vs in (("MMM", ("Sept", "Jann", "Juli", "Mayy", "Janu")), ("MMMM", ("Sept", "Januar", "Juney")), ("EEE", ("Tues", "Thur", "Thurs", "Weds", "Satu")), ("EEEE", ("Tues", "Wednes", "Sundays")), ("eee", ("Tues", "Thurs"))): D.values(p, bad=vs)
    for n in range(1, 6):
        for v in ("AD", "ad", "Ad", "BC", "bc", "Bc"): D.value("G" * n, v, True)
        D.values("G" * n, bad=["CE", "ADx", "A", "1"])
    for v in ("AM", "am", "Am", "PM", "pm", "Pm"): D.value("a", v, True)
    D.values("a", bad=["AMx", "XM", "1", "MA"])
    for k in range(1, 5):
        for v in ("Q%d" % k, "q%d" % k): D.value("QQQ", v, True)
        o = {1: "1st", 2: "2nd", 3: "3rd", 4: "4th"}[k]
        for p in ("QQQQ", "QQQQQ"):
            for v in (o + " quarter", o.upper() + " QUARTER", o + " Quarter"): D.value(p, v, True)
            D.values(p, bad=["Q%d" % k, str(k), o, o + "quarter"])
        D.values("QQQ", bad=[str(k), o + " quarter"])
    D.values("QQQ", bad=["Q0", "Q5", "Q", ""]); D.values("QQQQ", bad=["5th quarter", "0th quarter", "1nd quarter", "2st quarter", ""])

def days(ctx, D, months):
    years = (1, 4, 100, 400, 1900, 1999, 2000, 2001, 2004, 2100, 2400, 9996, 9999)
    for m in months:
        for d in (28, 29, 30, 31):
            for y in years if m == 2 and d > 28 or ctx.tier == "thorough" else (2000, 2001): D.value("yyyy-MM-dd", "%04d-%02d-%02d" % (y, m, d), d <= dim(m, y))
            for p, v in (("MMM dd, yyyy", "%s %d, %%d" % (MONTHS[m - 1][:3], d)), ("dd MMMM yyyy", "%02d %s %%d" % (d, MONTHS[m - 1].upper())), ("d/M/uuuu", "%d/%d/%%d" % (d, m)), ("yyyy'.'LL'.'dd", None), ("dd yyyy MM", "%02d %%d %02d" % (d, m))):
                for y in (2000, 2001): D.value(p, v % y if v else "%d.%02d.%02d" % (y, m, d), d <= dim(m, y))
            # no year: a year that is not a leap year
            for p, v in (("MM-dd", "%02d-%02d" % (m, d)), ("dd MMM", "%d %s" % (d, MONTHS[m - 1][:3].capitalize())), ("dd LL", "%02d %02d" % (d, m)), ("MMMM d", "%s %d" % (MONTHS[m - 1], d))): D.value(p, v, d <= dim(m, 2001))
            # longer years
            for p, y in (("yyyyy", "02000"), ("yyyyy", "02001"), ("yyyyy", "12000"), ("yyyyy", "11900"), ("yyyyy", "99999"), ("yyyyyy", "123456"), ("yyyyyyyyyyyy", "200000000004"), ("yyyyyyyyyyyy", "200000000100")):
                if m in (1, 2, 4): D.value(p + "-MM-dd", "%s-%02d-%02d" % (y, m, d), d <= dim(m, int(y)))
        D.values("yyyy-MM-dd", ["2001-%02d-01" % m, "2001-%d-1" % m], ["2001-%02d-00" % m, "2001-%02d-32" % m])
    if 1 not in months: return
    # no month: every day up to 31
    for p, f in (("yyyy dd", "2001 %02d"), ("dd", "%02d"), ("dd HH", "%02d 00")):
        for d in (1, 28, 29, 30, 31): D.value(p, f % d, True)
        D.values(p, bad=[f % 0, f % 32])
    D.values("yyyy-MM-dd", ["2001-01-02"], ["2001-13-02", "2001-00-02", "2001-01", "2001-01-", "2001-01-02 ", " 2001-01-02", "2001/01/02", "2001-01-02x", "20010102", "-2001-01-02", "2001-01-02-03"])
    D.values("yyyyMMdd", ["20010102", "20000229"], ["20010229", "20011301", "2001010", "200101022"])

def offsets(ctx, D):
    sep = {"hm": "%s%02d%02d", "h:m": "%s%02d:%02d", "hms": "%s%02d%02d%02d", "h:m:s": "%s%02d:%02d:%02d", "h": "%s%02d"}
    forms = {("x", 1): ["h", "hm"], ("x", 2): ["hm"], ("x", 3): ["h:m"], ("x", 4): ["hm", "hms"], ("x", 5): ["h:m", "h:m:s"], ("Z", 1): ["hm"], ("Z", 2): ["hm"], ("Z", 3): ["hm"], ("Z", 5): ["h:m"]}
    forms.update({("X", n): forms["x", n] for n in range(1, 6)})
    def write(f, s, h, m, x=0): return sep[f] % ((s, h, m, x)[:1 + sep[f].count("d")])
    for (ch, n), ok_ in sorted(forms.items()):
        p = ch * n
        for f in sep:
            good = f in ok_
            for s in "+-":
                if not good: D.value(p, write(f, s, 8, 30, 15), False); continue
                for h in range(0, 24) if f != "h" or True else (): D.value(p, write(f, s, h, 30), h <= 18)
                if "m" in f:
                    for m in (0, 1, 15, 30, 45, 59, 60, 61, 99): D.value(p, write(f, s, 10, m), m <= 59)
                if "s" in f:
                    for x in (0, 1, 30, 59, 61, 99): D.value(p, write(f, s, 10, 30, x), x <= 59)
            if good:
                g = write(f, "+", 10, 30, 15)
                D.values(p, bad=[g[1:], "+" + g, "-" + g, "+-" + g[1:], " " + g, g + "x", "GMT" + g])
        D.value(p, "Z", ch == "X"); D.values(p, bad=["", "z", "ZZ", "+", "+x", "UTC", "z+10"])
        # in a longer pattern
        g = write(ok_[-1], "-", 7, 0)
        D.value("yyyy-MM-dd'T'HH:mm:ss.SSS" + p, "2001-07-04T12:08:56.235" + g, True)
        D.value("HH:mm:ss" + p, "12:08:56" + g, True)
        D.value("HH:mm:ss" + p + " yyyy", "12:08:56" + g + " 2001", True)
    for z in ("GMT", "UTC"):
        D.values("ZZZZ", [z] + ["%s%s%02d:%02d" % (z, s, h, m) for s in "+-" for h in (0, 1, 10, 11, 12, 13, 14, 18) for m in (0, 30, 59)],
                 [z + v for v in ("+19:00", "+10", "+1000", "+10:60", "x", "++10:00", "+-10:00", "10:00")] + [z[:2], z.lower(), "+10:00", ""])
        D.values("OOOO", ["%s%s%02d:%02d" % (z, s, h, m) for s in "+-" for h in (0, 1, 8, 11, 12, 13, 14, 18) for m in (0, 30, 59)],
                 [z + v for v in ("+19:00", "+08", "+8", "+0800", "+08:60", "x", "++08:00", "-+08:00", "08:00", ":00")] + ["+08:00", ""])
        for n in (1, 2, 3):
            D.values("O" * n, ["%s%s%s" % (z, s, v) for s in "+-" for v in ("0", "7", "08", "10", "12", "13", "14", "18", "9:30", "09:30", "12:45", "18:00")],
                     [z + v for v in ("+19", "+24", "+8:60", "+8:", "++8", "+-8", "8", "+x")] + ["+8", "x+8", ""])

def zones(ctx, D):
    ids = ["Europe/Warsaw", "Europe/London", "America/New_York", "America/Los_Angeles", "America/Argentina/Buenos_Aires", "America/Port-au-Prince", "Australia/Melbourne", "Pacific/Auckland", "Africa/Addis_Ababa", "Asia/Ho_Chi_Minh", "America/Indiana/Tell_City", "Etc/GMT+8", "Etc/GMT-14"]
    for p in ("V", "VV"):
        D.values(p, ids, ["Europe/Nowhere", "Atlantis/Paris", "Europe/", "/London", "europe/london", "Europe London", "Europe/London/x", "Europe/Londonx", "Xurope/London", "", "1", "Europe", "Los_Angeles"])
        D.values("yyyy-MM-dd'T'HH:mmXXX'['" + p + "']'", ["2020-01-01T10:00+01:00[%s]" % z for z in ids], ["2020-01-01T10:00+01:00[Nowhere/Else]", "2020-01-01T10:00+01:00[]", "2020-01-01T10:00+01:00[Europe/Warsaw"])
        D.values(p + " HH", [z + " 10" for z in ids], [z + "10" for z in ids if not z.startswith("Etc")][:3])
    for p in ("z", "zz", "zzz"):
        D.values(p, ["PDT", "PST", "AEST", "AEDT", "GMT", "CET", "CEST", "EST", "EDT", "BST"], ["XYZ", "ABCD", "pdt", "PDTX", "P", "PD", "", "123", "Europe/London"])
        D.values("HH:mm " + p, ["12:08 PDT", "12:08 AEST"], ["12:08 XXX", "12:08"])

def texts(ctx, D):
    word = [text.achar("abcXYZ 019-:", "w%d" % i) for i in range(4)]
    for q, v in (("''", "'"), ("'T'", "T"), ("'at'", "at"), ("'yyyy'", "yyyy"), ("'a''b'", "a'b"), ("'o''clock'", "o'clock"), ("'100%'", "100%"), ("'[]{}#'", "[]{}#"), ("''''", "'"), ("' '", " "), ("'é'", "é")):
        D.values(q, [v], [v + "x", "", "!", v * 2, q if q != v else "?"])
        D.values("HH" + q + "mm", ["10" + v + "20"], ["1020", "10" + v, v + "20", "10!20"])
        D.values("yyyy" + q, ["2001" + v], ["2001"])
    # any quoted text stands for itself
    for n in range(1, 5):
        D.value(txt("'", word[:n], "'"), txt(word[:n]), True, " (any text)")
        D.value(txt("'", word[:n], "'HH"), txt(word[:n], "12"), True, " (any text)")
        D.value(txt("yyyy'", word[:n], "'"), txt(digits(4), word[:n]), True, " (any text)")
        D.value(txt("'", word[:n], "'"), txt(word[:n - 1]), False, " (any text)")
        D.value(txt("'", word[:n], "'"), txt(word[:n], "!"), False, " (any text)")
    for p_, v, w in (("'a--b' yyyy", "a--b 2001", "a-b 2001"), ("yyyy'::'MM", "2001::02", "2001:02"), ("'x..'dd", "x..03", "x.03"), ("'  'HH", "  12", " 12"), ("'a''''b'", "a''b", "a'b"), ("ML", "1212", "12"), ("yyyyYYYY", "20012001", "2001"), ("dd'aa'", "01aa", "01a")):
        D.value(p_, v, True); D.value(p_, w, False)
    p = text.achar("/.,;_*()@!", "p")
    D.value(txt("MM", p, "dd"), txt("01", p, "02"), True, " (any punctuation)")
    D.value(txt("MM", p, "dd"), txt("01-02"), False, " (any punctuation)")
    D.value(txt(p, p), txt(p, p), True, " (any punctuation)")
    for p_, v in (("yyyy-MM-dd HH:mm:ss", "2001-01-02 12:33:45"), ("EEE, d MMM yyyy HH:mm:ss Z", "Wed, 4 Jul 2001 12:08:56 -0700"), ("yyyy.MM.dd G 'at' HH:mm:ss z", "2001.07.04 AD at 12:08:56 PDT"), ("EEE, MMM d, ''yy", "Wed, Jul 4, '01"),
                 ("hh 'o''clock' a", "12 o'clock PM"), ("K:mm a, z", "0:08 PM, AEST"), ("yyMMddHHmmssZ", "010704120856-0700"), ("YYYY-'W'ww-u", "2001-W27-3"), ("QQQ yyyy", "Q3 2001"), ("ww yyyy", "27 2001"), ("h:mm a", "12:08 PM"), ("H:m:s.SSSSSSSSS", "1:2:3.123456789")):
        D.value(p_, v, True)
        for i in range(0, len(v), 1 if ctx.tier == "thorough" else 3):
            D.value(p_, v[:i] + "!" + v[i + 1:], False)
        D.value(p_, v + "!", False); D.value(p_, "!" + v, False); D.value(p_, "", False)

def generated(ctx, D):
    where = ctx.where(CHRONO)
    def fmt(pat, want, key=None):
        toks = D.R.run(PARSE, cstr(pat))
        key = key or "format of %s" % pat
        if toks is None or toks.op != "agg" or toks.args[1] != "Ok": return ctx.ob(key, None, "the pattern is not resolved", where)
        got = D.R.run(CHRONO, toks.args[2][0])
        if got is None or got.op == "undef": return ctx.ob(key, False, "no format string for %s" % pat, where)
        if not is_str_const(got): return ctx.ob(key, None, "not resolved: " + show(got, 5)[:200], where)
        ctx.ob(key, got.args[1] in want, "the format string of the pattern %s is %s, whose values the pattern does not stand for (expected %s)" % (pat, got.args[1], " or ".join(want)), where)
        g = D.R.run(GEN, cstr(pat))
        k2 = key.replace("format of", "generated from")
        if g is None or g.op == "undef": return ctx.ob(k2, False, "generating a value panics", ctx.where(GEN))
        fs = find_all(g, lambda x: x.op == "call" and x.args[0].split("::")[-1] == "format")
        lits = {x.args[1][1].args[1] for x in fs if len(x.args[1]) == 2 and is_str_const(x.args[1][1])}
        if g.op == "agg" and g.args[1] == "Err": return ctx.ob(k2, False, "no value is generated from the pattern %s" % pat, ctx.where(GEN))
        ctx.ob(k2, None if len(lits) != 1 else lits <= set(want), "values of the pattern %s are generated with %s" % (pat, sorted(lits)), ctx.where(GEN))
    TABLE = {"yy": ["%y"], "yyyy": ["%Y"], "yyy": ["%Y"], "uuu": ["%Y"], "yyyyy": ["%Y"], "uuuu": ["%Y"], "YYYY": ["%Y", "%G"], "M": ["%m", "%-m"], "MM": ["%m"], "MMM": ["%b", "%h"], "MMMM": ["%B"], "MMMMM": ["%B"], "L": ["%m", "%-m"], "LL": ["%m"], "d": ["%d", "%-d"], "dd": ["%d"],
             "E": ["%a"], "EE": ["%a"], "EEE": ["%a"], "EEEE": ["%A"], "EEEEE": ["%A"], "e": ["%u"], "ee": ["%u", "0%u"], "eee": ["%a"], "eeee": ["%A"], "eeeee": ["%A"], "c": ["%u"],
             "H": ["%H", "%-H"], "HH": ["%H"], "h": ["%I", "%-I"], "hh": ["%I"], "m": ["%M", "%-M"], "mm": ["%M"], "s": ["%S", "%-S"], "ss": ["%S"], "a": ["%p", "%P"], "G": ["AD"], "GGG": ["AD"],
             "SSS": ["%3f"], "SSSS": ["%3f"], "SSSSS": ["%3f"], "SSSSSS": ["%6f", "%3f"], "SSSSSSS": ["%6f", "%3f"], "SSSSSSSSS": ["%9f", "%6f", "%3f", "%f"], "SSSSSSSSSSSS": ["%9f", "%6f", "%3f", "%f"], "n": ["%f", "%9f"],
             "Z": ["%z"], "ZZ": ["%z"], "ZZZ": ["%z"], "ZZZZ": ["GMT%:z", "UTC%:z"], "ZZZZZ": ["%:z"], "x": ["%z"], "xx": ["%z"], "xxx": ["%:z"], "xxxx": ["%z"], "xxxxx": ["%:z", "%::z"], "X": ["%z"], "XX": ["%z"], "XXX": ["%:z"], "XXXX": ["%z"], "XXXXX": ["%:z", "%::z"],
             "D": ["%j", "%-j"], "DDD": ["%j"], "-": ["-"], "'%'": ["%%"], "'100%s'": ["100%%s"], "''": ["'"], "'a''b'": ["a'b"], "'yyyy'": ["yyyy"], "'%Y'": ["%%Y"]}
    for p, w in TABLE.items():
        fmt(p, w)
        fmt("yyyy " + p if p[0] != "y" else p + " yyyy", ["%Y " + x for x in w] if p[0] != "y" else [x + " %Y" for x in w])
        fmt(p + "/mm", [x + "/%M" for x in w]) if p != "m" and p != "-" else None
    for n in (1, 2): # never a panic
        key = "generated from %s" % ("S" * n)
        g = D.R.run(GEN, cstr("S" * n))
        fs = find_all(g, lambda x: x.op == "call" and x.args[0].split("::")[-1] == "format") if g is not None else []
        bad = [x for x in fs if is_str_const(x.args[1][1]) and x.args[1][1].args[1] not in ("%3f", "%6f", "%9f", "%f", "%.3f", "%.6f", "%.9f")]
        ctx.ob(key, None if g is None or not fs else not bad, "formatting with %s panics" % (bad and bad[0].args[1][1].args[1]), ctx.where(GEN))
    for bad in ("", "b", "yyyy-b", "MMMMMM", "'x", "{", "HHH"): D.judge("generated from the invalid %s" % bad, GEN, "Err", "generating from %r" % bad, cstr(bad))
