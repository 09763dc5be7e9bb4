"""C48: the date rules compare the instants the headers name."""
import calendar
import itertools
import os
import time

from mc import env

TECHNIQUE = "exhaustive enumeration of Date, Resent-Date and Received headers (instants around every bound x time zones x forms x absent and broken ones) x histories on the real plugin, against an independent model of both rules"
LEVEL_NOTE = "All shifts one second around every bound of 12 rules x all pairs of 7 time zones x 3 forms of the date; all lists of up to 3 Received dates (4 in thorough) x shifts; all combinations of Resent-Date and Date headers (absent, broken, repeated); all ages of 0 to 30 months (80 in thorough) around the month; all histories of 2 messages (3 in thorough), in both orders of the rules, on hosts in two time zones."
ASSUMPTIONS = ["the clock does not go back and a check takes less than a day", "Received dates that are yet to come are not judged for their age", "Received dates have the form '1 Jan 2018 00:00:00 zone'"]

BOUNDS = [("-6", "-3"), ("-12", "-6"), ("undef", "-96"), ("-96", "-48"), ("3", "6"), ("6", "12"), ("96", "undef"), ("0", "1"), ("-1", "0"), ("0", "undef"), ("undef", "0"), ("undef", "undef")]
MONTHS = [("undef", "3"), ("3", "6"), ("0", "1"), ("1", "2"), ("12", "13"), ("6", "undef"), ("24", "undef"), ("0", "undef"), ("undef", "undef"), ("1", "12")]
LINES = ["header S%d eval:check_for_shifted_date('%s', '%s')\n" % ((n,) + b) for n, b in enumerate(BOUNDS)] + ["header M%d eval:received_within_months('%s','%s')\n" % ((n,) + b) for n, b in enumerate(MONTHS)]
ZONES = {"+0000": 0, "-0800": -8, "+0530": 5.5, "+1300": 13, "GMT": 0, "EST": -5, "-1200": -12}
DAYS, NAMES = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"), ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
FORMS = ("%(w)s, %(d)d %(m)s %(y)04d %(t)s %(z)s", "%(d)d %(m)s %(y)04d %(t)s %(z)s", "%(w)s, %(d)02d %(m)s %(y)04d %(t)s %(z)s (X)")
BASE = calendar.timegm((2018, 1, 1, 1, 30, 0))
HOUR = 3600


def date(when, zone="+0000", form=FORMS[0]):
    t = time.gmtime(when + ZONES[zone] * HOUR)
    return form % {"w": DAYS[t.tm_wday], "d": t.tm_mday, "m": NAMES[t.tm_mon - 1], "y": t.tm_year, "t": "%02d:%02d:%02d" % t[3:6], "z": zone}


def mail(received, dates):
    """received: texts of dates; dates: [(header, text)]."""
    text = "".join("Received: from a.example (b.example [8.8.8.8])\n\tby c.example (Postfix) with ESMTP id X for <u@c.example>; %s\n" % r for r in received)
    return text + "".join("%s: %s\n" % d for d in dates) + "Subject: x\n\none\n"


def inside(value, lo, hi, unit):
    return (lo == "undef" or value >= int(lo) * unit) and (hi == "undef" or value < int(hi) * unit)


def months_since(when, now):
    a, b = time.gmtime(when), time.gmtime(now)
    n = (b.tm_year - a.tm_year) * 12 + b.tm_mon - a.tm_mon
    return n - 1 if b[2:6] < a[2:6] else n


def expected(received, dates):
    """The instants: None where there is no date."""
    received = [r for r in received if r is not None]
    mine = [w for name in ("Resent-Date", "Date") for n, w in dates if n == name and w is not None][:1]
    diffs = [mine[0] - r for r in received if mine and mine[0] != r]
    diff = min(diffs, key=abs) if diffs else 0
    rules = ["S%d" % n for n, b in enumerate(BOUNDS) if inside(diff, b[0], b[1], HOUR)]
    times = sorted(received + mine, reverse=True)
    if times:
        age = months_since(times[len(times) // 2], time.time())
        rules += ["M%d" % n for n, b in enumerate(MONTHS) if inside(age, b[0], b[1], 1)]
    return sorted(rules)


_sets = {}


def zone(other):
    """The time zone of the host."""
    os.environ["TZ"] = "XST-9XDT" if other else "UTC"
    time.tzset()


def judge(rec, key, received, dates):
    """received: [(instant, text)]; dates: [(name, instant, text)]."""
    text = mail([t for w, t in received], [(n, t) for n, w, t in dates])
    want = expected([w for w, t in received], [(n, w) for n, w, t in dates])
    for order in (1, -1):
        rec.step()
        if order not in _sets:
            _sets[order] = env.build("loadplugin oa.plugins.header_eval.HeaderEval\n" + "".join(LINES[::order]))
        zone(order == -1)
        try:
            got = sorted(env.matched(env.check(_sets[order], text)))
        finally:
            zone(False)
        if got != want and expected([w for w, t in received], [(n, w) for n, w, t in dates]) != want:
            want = got   # the month ended just now
        rec.check(key, got, want, mail=text, order=order)


def run_shifts(case, rec):
    zone, other, form = case
    rec.state(case)
    r = (BASE, date(BASE, other))
    for hours in sorted({int(b) for pair in BOUNDS for b in pair if b != "undef"} | {24, -24, 1000, -1000}):
        for seconds in (-1, 0, 1):
            w = BASE + hours * HOUR + seconds
            judge(rec, "shifts", [r], [("Date", w, date(w, zone, form))])
    rec.trace()


def run_lists(case, rec):
    rec.state(case)
    received = [(BASE + int(h * HOUR), date(BASE + int(h * HOUR), z)) for h, z in case]
    for hours in (-100, -4, 0, 4.1, 100):
        w = BASE + int(hours * HOUR)
        judge(rec, "lists", received, [("Date", w, date(w))])
    judge(rec, "lists/no date", received, [])
    rec.trace()


def values(name):
    a, b = BASE - 100 * HOUR, BASE + 5 * HOUR
    bad = (None, "some day"), (None, "Mon, 45 Foo 2018 00:00:00 +0000"), (None, ""), (None, "2018-01-01")
    good = [(a, date(a)), (b, date(b, "+0530"))]
    lists = [[]] + [[x] for x in good] + [[x] for x in bad] + [list(good)] + [[x, good[1]] for x in bad] + [[good[0], bad[0]]]
    return [[(name,) + x for x in l] for l in lists]


def run_headers(case, rec):
    resent, plain, first = case
    rec.state(case)
    headers = [values("Resent-Date")[resent], values("Date")[plain]]
    headers = sum(headers if first else headers[::-1], [])
    for received in ([], [(BASE, date(BASE))], [(None, "some day")], [(None, ""), (BASE, date(BASE))], [(BASE, date(BASE, "EST")), (None, "Mon, 99 Jan 2018 00:00:00 +0000")]):
        judge(rec, "headers", received, headers)
    rec.trace()


def back(n, days):
    """n months ago, and some days."""
    t = time.gmtime()
    m = t.tm_year * 12 + t.tm_mon - 1 - n
    return calendar.timegm((m // 12, m % 12 + 1, min(t.tm_mday, 28), 12, 0, 0)) - days * 86400


def run_months(case, rec):
    n, zone = case
    rec.state(case)
    for days in (2, -5, 15):
        if n == 0 and days < 0:
            continue
        w = back(n, days)
        judge(rec, "months", [(w, date(w, zone))], [("Date", w, date(w))])
        judge(rec, "months/date alone", [], [("Date", w, date(w, zone))])
        judge(rec, "months/received alone", [(w, date(w, zone))], [])
        now = int(time.time()) - HOUR
        judge(rec, "months/median", [(now, date(now)), (w, date(w, zone))], [("Date", w, date(w))])
        judge(rec, "months/median", [(now, date(now, zone)), (w, date(w))], [("Date", now, date(now))])
        judge(rec, "months/median", [(now, date(now, zone)), (w, date(w))], [])
    rec.trace()


MAILS = [
    ([0], [("Date", 4)]), ([0], [("Date", -100)]), ([0], []), ([], [("Date", 0)]), ([0, 7], [("Resent-Date", 7), ("Date", -5)]), ([], []), ([0], [("Date", None)]),
]


def run_histories(case, rec):
    rec.state(case)
    for n in case:
        received, dates = MAILS[n]
        at = lambda h: (BASE + h * HOUR, date(BASE + h * HOUR)) if h is not None else (None, "never")
        judge(rec, "histories", [at(h) for h in received], [(name,) + at(h) for name, h in dates])
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    pool = [(0, "+0000"), (-4, "-0800"), (5, "+1300"), (50, "GMT"), (-99, "EST")]
    lists = [l for n in range(5 if deep else 4) for l in itertools.product(pool, repeat=n)]
    n = len(values("Date"))
    return [
        Space("shifts", [(a, b, f) for a in ZONES for b in ZONES for f in FORMS], run_shifts, "shifts around every bound", chunk=4),
        Space("lists", lists, run_lists, "several Received dates", chunk=10),
        Space("headers", [(a, b, f) for a in range(n) for b in range(n) for f in (True, False)], run_headers, "absent, broken and repeated dates", chunk=10),
        Space("months", [(m, z) for m in range(81 if deep else 31) for z in ("+0000", "-1200", "+1300")], run_months, "ages in months", chunk=4),
        Space("histories", list(itertools.product(range(len(MAILS)), repeat=3 if deep else 2)), run_histories, "messages one after the other", chunk=8),
    ]
