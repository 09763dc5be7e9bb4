"""C51: the body rules compare and count the words and lines of the message."""
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of pairs of alternatives (texts of words x markup x nesting), of texts of lines and spaces, and of words against every bound of the rules, and histories, on the real plugin, against an independent model of each rule"
LEVEL_NOTE = "All pairs of a text of up to 3 words of 5 and one of up to 2 (4 and 3 in thorough) as plain and HTML alternatives; all texts of up to 7 pieces of letters, spaces and line ends (9 in thorough) as plain text or HTML; all lists of up to 2 words of the stock market and others (3 in thorough); all histories of 2 messages (3)."
ASSUMPTIONS = ["how HTML is turned into text is C19", "words of the stock market stand alone"]

DIFF = [(0, 0), (1, 50), (50, 99.9), (99, 100), (30, 70), (0, 100)]
COUNT = [(1, 1), (0.4, 2), (1.9, 1), (0, 3), (0, 0)]
BLANK = [(0, 0, None), (0.1, 50, None), (50, 100, 3), (20, 40, 4), (0, 100, 0), (0, 100, 2)]
TVD = [(0, 10), (10, 40), (40, 100), (100, 500), (0, 0)]
STOCK = (1, 2, 3, 5)
CONF = "loadplugin oa.plugins.body_eval.BodyEval\n"
for kind, q in (("body", "'%s'"), ("rawbody", "%s")):
    x = "" if kind == "body" else "X"
    args = lambda values: ", ".join(q % v for v in values if v is not None)
    for n, v in enumerate(DIFF):
        CONF += "%s D%s%d eval:multipart_alternative_difference(%s)\n" % (kind, x, n, args(v))
    for n, v in enumerate(COUNT):
        CONF += "%s C%s%d eval:multipart_alternative_difference_count(%s)\n" % (kind, x, n, args(v))
    for n, v in enumerate(BLANK):
        CONF += "%s L%s%d eval:check_blank_line_ratio(%s)\n" % (kind, x, n, args(v))
    for n, v in enumerate(TVD):
        CONF += "%s V%s%d eval:tvd_vertical_words(%s)\n" % (kind, x, n, args(v))
    for n, v in enumerate(STOCK):
        CONF += "%s W%s%d eval:check_stock_info(%s)\n" % (kind, x, n, args([v]))


def alternatives(parts, box="alternative"):
    text = "Subject: x\nMIME-Version: 1.0\nContent-Type: multipart/%s; boundary=b\n\n" % box
    for kind, body in parts:
        text += "--b\nContent-Type: %s\n\n%s\n" % (kind, body)
    return text + "--b--\n"


def words(text):
    found = {}
    for w in text.split():
        w = "".join(c for c in w if c.isalnum() or c == "_").lower()
        if w:
            found[w] = found.get(w, 0) + 1
    return found


def expected(plain, html, text, raw, stock):
    """plain, html: the words of the alternatives."""
    rules = set()
    both = lambda name, n: rules.update({"%s%d" % (name, n), "%sX%d" % (name, n)})
    missing = [w for w in html if plain.get(w, 0) < html[w]]
    diff = 100.0 * len(missing) / len(html) if html else 0
    for n, (a, b) in enumerate(DIFF):
        if a <= diff <= b:
            both("D", n)
    for n, (a, b) in enumerate(COUNT):
        if html and len(html) >= b and len(plain) / len(html) > a:
            both("C", n)
    lines, blank = raw.count("\n"), sum(1 for i in range(len(raw) - 1) if raw[i:i + 2] == "\n\n")
    for n, (a, b, c) in enumerate(BLANK):
        if lines >= max(c or 1, 1) and a <= 100.0 * blank / lines <= b:
            both("L", n)
    for x, t in (("", text), ("X", raw)):
        spaces = sum(1 for c in t if c in " \t\r\n\v\f")
        if len(t) > spaces:
            rules |= {"V%s%d" % (x, n) for n, (a, b) in enumerate(TVD) if a <= 100.0 * spaces / (len(t) - spaces) <= b}
    for n, v in enumerate(STOCK):
        if stock >= v:
            both("W", n)
    return rules


_set = []


def judge(rec, key, mail, plain, html, text, raw, stock=0):
    rec.step()
    if not _set:
        _set.append(env.build(CONF))
    got = env.matched(env.check(_set[0], mail))
    rec.check(key, sorted(got), sorted(expected(plain, html, text, raw, stock)), mail=mail)


TOKENS = ("one", "two", "One,", "three", "--")


def bag(*texts):
    found = {}
    for t in texts:
        for w, n in words(t).items():
            found[w] = found.get(w, 0) + n
    return found


def run_pairs(case, rec):
    case, size = case
    rec.state((case, size))
    a = " ".join(case)
    for other in lists(size):
        b = " ".join(other)
        parts = [("text/plain", a), ("text/html", b)]
        text, raw = " ".join(["x", a, b]), "\n".join([a, b])
        judge(rec, "pairs", alternatives(parts), bag(a), bag(b), text, raw)
        if len(case) + len(other) < 4:
            judge(rec, "pairs/back", alternatives(parts[::-1]), bag(a), bag(b), " ".join(["x", b, a]), "\n".join([b, a]))
            judge(rec, "pairs/mixed", alternatives(parts, "mixed"), {}, {}, text, raw)
            judge(rec, "pairs/more", alternatives(parts + [("text/plain", "two four")]), bag(a, "two four"), bag(b), text + " two four", raw + "\ntwo four")
            judge(rec, "pairs/other", alternatives(parts + [("text/calendar", "two four")]), bag(a), bag(b), text + " two four", raw + "\ntwo four")
            inner = alternatives(parts).split("\n", 2)[2].replace("boundary=b", "boundary=i").replace("--b", "--i")
            mail = "Subject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=b\n\n--b\nContent-Type: text/plain\n\nfive one\n--b\n%s--b--\n" % inner
            judge(rec, "pairs/nested", mail, bag(a), bag(b), " ".join(["x", "five one", a, b]), "\n".join(["five one", a, b]))
    rec.trace()


def lists(size):
    return [l for k in range(1, size + 1) for l in itertools.product(TOKENS, repeat=k)]


PIECES = ("a", " ", "\n", "bcd")


def run_lines(case, rec):
    rec.state(case)
    body = "".join(case)
    judge(rec, "lines", "Subject: x\n\n" + body, {}, {}, "x " + body.replace("\n", " "), body)
    rec.trace()


MARKET = ["company", "companyname", "stock", "symbol", "target", "ticker", "openingprice", "currentprice", "projected", "position", "expectations", "weekhigh", "weekshigh", "marketperformance", "yeartarget", "weekestimate", "pricetarget", "sector", "recommendation", "rating", "STOCK", "Company"]
OTHERS = ["dog", "house", "comp", "tick", "high", "price", "sell"]


def run_words(case, rec):
    rec.state(case)
    for glue in (" ", "\n", ", "):
        body = glue.join(case)
        judge(rec, "words", "Subject: x\n\n" + body, {}, {}, "x " + body.replace("\n", " "), body, sum(1 for w in case if w in MARKET))
    rec.trace()


MAILS = [("Subject: x\n\none", {}, {}, "x one", "one"), (alternatives([("text/plain", "one two"), ("text/html", "one three")]), bag("one two"), bag("one three"), "x one two one three", "one two\none three"),
         (alternatives([("text/html", "five")]), {}, bag("five"), "x five", "five"), ("Subject: x\n\na\n\n\nb", {}, {}, "x a   b", "a\n\n\nb")]


def run_histories(case, rec):
    rec.state(case)
    for n in case:
        judge(rec, "histories", *MAILS[n])
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    pairs = [(l, 3 if deep else 2) for l in lists(4 if deep else 3)]
    lines = [l for k in range(1, 9 if deep else 8) for l in itertools.product(PIECES, repeat=k) if l[0] in ("a", "bcd") and (k < 6 or l[-1] in "abcd")]
    vocabulary = MARKET + OTHERS
    return [
        Space("pairs", pairs, run_pairs, "plain and HTML alternatives", chunk=2),
        Space("lines", lines, run_lines, "lines and spaces", chunk=100),
        Space("words", [l for k in (1, 2, 3) for l in itertools.product(vocabulary, repeat=k) if k < 3 or deep and l[0] in vocabulary[::4]] + [tuple(MARKET[:k]) for k in range(1, 9)], run_words, "words of the stock market", chunk=40),
        Space("histories", list(itertools.product(range(4), repeat=3 if deep else 2)), run_histories, "messages one after the other", chunk=4),
    ]
