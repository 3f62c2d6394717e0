"""C18: a date renders as the UTC calendar day of its timestamp."""
import itertools
import os
import time

from mc import adf, gen, lib, ref, words
from mc.adf import doc, embed, mk, para, text
from mc.common import Bad, Family
from mc.forks import in_child
from mc.lib import api, md, parse

ID = "C18"
EXHAUSTIVE = True
ASSUMPTIONS = ["time zones are given as POSIX TZ rules (and as zone names where the machine has them)",
               "the timestamp is a whole number of milliseconds"]

DAY = 86400000
FIRST = -62135596800000          # 0001-01-01
LAST = 253402300799999           # 9999-12-31 23:59:59.999
CHUNK = 64


def want(ms):
    return ref.civil(ms)


def check(ms, ctx, where=""):
    w = want(ms)
    for stamp in (str(ms), ms):
        got = md(api.NodeDate(attrs=api.NodeDateAttrs(timestamp=stamp)), ctx)
        if got != w:
            raise Bad("timestamp %r%s renders as %r instead of %r" % (stamp, where, got, w))


def around(day):
    """Milliseconds around the start of a day, inside the range."""
    base = day * DAY
    for off in (-1, 0, 1, 999, 1000, DAY // 2, DAY - 1000, DAY - 2):
        if FIRST <= base + off <= LAST:
            yield base + off


def days_of_year(y):
    """Days (since 1970) of the year's ends, leap day and month ends."""
    def civil_day(y, m, d):
        y -= m <= 2
        era = y // 400
        yoe = y - era * 400
        doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
        return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468
    out = set()
    for m, d in ((1, 1), (2, 28), (3, 1), (12, 31)):
        out.add(civil_day(y, m, d))
    out.add(civil_day(y, 3, 1) - 1)
    return out


def year_cases(tier):
    for y in range(1, 10000):
        yield [y]


def run_year(case, ctx):
    y, = case
    for day in sorted(days_of_year(y)):
        for ms in around(day):
            check(ms, ctx)
            ctx.extra_states += 1


# ---- every single day of a range of years
def day_cases(tier):
    lo, hi = (-25567 - 366, 62091) if tier == "quick" else (FIRST // DAY, LAST // DAY + 1)
    for d in range(lo, hi, CHUNK):
        yield [d, min(hi, d + CHUNK)]


def run_day(case, ctx):
    lo, hi = case
    for d in range(lo, hi):
        for ms in (d * DAY - 1, d * DAY, d * DAY + 1):
            if FIRST <= ms <= LAST:
                check(ms, ctx)
        ctx.extra_states += 1


# ---- every second and millisecond pattern around a few midnights
def fine_cases(tier):
    for d in (-719162, -141428, -36525, -1, 0, 1, 10957, 11016, 18321, 19782, 2932895):
        for s in range(0, 86400, 60 if tier == "quick" else 7):
            yield [d, s]
    for d in (-719161, -1, 0, 1, 19782, 2932896):
        for ms in range(-1500, 1501, 1 if tier == "thorough" else 25):
            yield [d, 0, ms]


def run_fine(case, ctx):
    if len(case) == 2:
        ms = case[0] * DAY + case[1] * 1000
    else:
        ms = case[0] * DAY + case[2]
    if FIRST <= ms <= LAST:
        check(ms, ctx)
        ctx.outcome(want(ms))


# ---- huge precision: every digit position must count
def digit_cases(tier):
    for k in range(0, 48):
        for off in (-1, 0, 1):
            yield [2 ** k + off]
            yield [-(2 ** k) + off]
    for k in range(0, 15):
        for off in (-1, 0, 1):
            yield [10 ** k + off]
            yield [-(10 ** k) + off]
    for ms in (FIRST, FIRST + 1, LAST, LAST - 1):
        yield [ms]


def run_digit(case, ctx):
    ms, = case
    if FIRST <= ms <= LAST:
        check(ms, ctx)
        for s in ("+%d" % ms if ms >= 0 else "%d" % ms, "%015d" % ms):
            got = md(parse(mk("date", timestamp=s), ctx), ctx)
            if got != want(ms):
                raise Bad("timestamp %r renders as %r instead of %r" % (s, got, want(ms)))


# ---- time zones
ZONES = ["UTC0", "EST5", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY12", "IST-5:30", "NPT-5:45", "LHS-10:30LHD-11,M10.1.0,M4.1.0", "CET-1CEST,M3.5.0,M10.5.0/3",
         "NST3:30NDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "AAA-24:59:59", "BBB24:59:59", "CCC0:00:01", ":America/New_York", ":Asia/Tokyo", ":Pacific/Kiritimati", ":right/UTC", "garbage", ""]


def zone_cases(tier):
    for z in range(len(ZONES)):
        for part in range(4):
            yield [z, part]


def run_zone(case, ctx):
    z, part = case
    steps = [0]

    def go():
        import types
        os.environ["TZ"] = ZONES[z]
        time.tzset()
        c = types.SimpleNamespace(step=lambda n=1: steps.__setitem__(0, steps[0] + n))
        days = {}
        for y in range(1, 10000, 1 if ctx.tier == "thorough" else 13):
            for d in days_of_year(y):
                days[d] = 1
        for d in range(-40, 60):
            days[d] = 1
        for d in range(19700, 20100):    # two years with all switches to summer time
            days[d] = 1
        for d in list(days)[part::4]:
            for off in (-3600001, -1, 0, 1, 3600000 - 1, 7200000, 9000000):
                ms = d * DAY + off
                if FIRST <= ms <= LAST:
                    check(ms, c, " in time zone %s" % ZONES[z])
        # changing the zone afterwards does not matter
        os.environ["TZ"] = ZONES[(z + 3) % len(ZONES)]
        time.tzset()
        for d in (0, 19000, -1):
            check(d * DAY, c, " after switching the time zone")
        return steps[0], len(days)

    n, k = in_child(go, 300, "the time zone run")
    ctx.step(n)
    ctx.extra_states += k
    ctx.outcome([z])


# ---- in documents
def doc_cases(tier):
    for p in gen.all_paths(5 if tier == "quick" else 6):
        if p[-1] == "date":
            for ms in (0, -1, 951782400000 - 1, 951782400000, 1709251200000 - 1):
                yield [list(p), ms]


def run_doc(case, ctx):
    p, ms = case
    node = mk("date", timestamp=str(ms))
    if ms % 2:
        node["attrs"]["localId"] = "x"
    for t in reversed(p[:-1]):
        node = doc(node) if t == "doc" else mk(t, node)
    tree = parse(node, ctx)
    got = md(tree, ctx)
    if "caption" not in p and (got.count(want(ms)) != 1):
        raise Bad("the date %s does not appear at %s: %r" % (want(ms), "/".join(p), got))
    lib.check_markdown(node, ctx)


# ---- instants near the constants of the code
def const_cases(tier):
    for n in words.near(-(10 ** 15), 10 ** 15):
        yield [n]


def run_const(case, ctx):
    n, = case
    for unit in (1, 60, 1000, 60000, 3600000, 86400, DAY, 7 * DAY, 365 * DAY):
        for sign in (1, -1):
            for base in (0, 19000 * DAY, FIRST, LAST + 1):
                for off in (-1, 0, 1):
                    ms = base + sign * n * unit + off
                    if FIRST <= ms <= LAST:
                        check(ms, ctx)
                        ctx.extra_states += 1


def families():
    return [
        Family("years", year_cases, run_year, "every year 1 to 9999: its ends and its leap day, and instants around them"),
        Family("days", day_cases, run_day, "every day of 1899 to 2139 (thorough: of all years), midnight and the milliseconds around it"),
        Family("instants", fine_cases, run_fine, "instants over whole days"),
        Family("magnitudes", digit_cases, run_digit, "powers of two and ten, ends of the range"),
        Family("time zones", zone_cases, run_zone, "day boundaries of many years under many time zones, each in a process of its own"),
        Family("places", doc_cases, run_doc, "dates at every place of a document"),
        Family("constants of the code", const_cases, run_const, "instants at and next to every number that occurs in the library, in several units, from several starts"),
    ]
