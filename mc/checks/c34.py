"""C34: short circuiting stops exactly where configured."""
import itertools

from mc import env, probe

TECHNIQUE = "exhaustive enumeration of short-circuit modes, priorities and match results on the real engine, against a stopping model"
LEVEL_NOTE = "All mode assignments over 3 rules x all match results x priorities, and all pairs of lines for one rule."
ASSUMPTIONS = ["a meta rule over short-circuited rules is evaluated after them"]

MODES = (None, "on", "off", "spam", "ham", "bogus")
SCORES = (1.5, -2.0, 4.0, 0.5)
CONF = """loadplugin oa.plugins.short_circuit.ShortCircuit
loadplugin mc.probe.Probe
report [_SC_] [_SCRULE_] [_SCTYPE_] _SCORE_ _TESTS_
report _REPORT_
"""


def model(n, modes, prios, hits, extra):
    order = sorted(range(n), key=lambda i: -prios[i])
    run_, matched, score, sc = [], [], 0.0, None
    for i in order:
        run_.append(i)
        if hits >> i & 1:
            matched.append("R%d" % i)
            score += SCORES[i]
            if modes[i] in ("on", "spam", "ham"):
                score += {"on": 0, "spam": extra[0], "ham": extra[1]}[modes[i]]
                sc = ("R%d" % i, modes[i])
                break
    return run_, matched, score, sc


def run(case, rec):
    modes, prios, extra, kind, lines_mode = case
    n = len(modes)
    lines = [CONF]
    for i in range(n):
        if kind == "eval":
            lines.append("body R%d eval:probe('k%d')" % (i, i))
        elif kind == "text":
            lines.append("body R%d eval:probe('k%d')" % (i, i))
        else:
            lines.append("body R%d /word%d/" % (i, i))
        lines.append("describe R%d plain %d" % (i, i))
        lines.append("score R%d %s" % (i, SCORES[i]))
        if prios[i]:
            lines.append("priority R%d %d" % (i, prios[i]))
    if extra != (100.0, -100.0):
        lines.append("shortcircuit_spam_score %s\nshortcircuit_ham_score %s" % extra)
    eff = []
    for i in range(n):
        eff.append(modes[i])
        if modes[i] is not None:
            if lines_mode is not None:
                lines.insert(1, "shortcircuit R%d %s" % (i, lines_mode))
            lines.append("shortcircuit R%d %s" % (i, modes[i]))
    lines.append("shortcircuit MISSING on\nshortcircuit R0\n")
    lines.append("body OTHERKIND /never/")
    rs = env.build("\n".join(lines) + "\n")
    ctx = dict(conf="\n".join(lines))
    # every message with the same ruleset, in two orders: one never affects another
    for hits in list(range(2 ** n)) + list(range(2 ** n))[::-1]:
        probe.reset(**{"k%d" % i: (("txt%d" % i) if kind == "text" else True) if hits >> i & 1 else False
                       for i in range(n)})
        text = "Subject: s\n\n%s\n" % " ".join("word%d" % i for i in range(n) if hits >> i & 1)
        ran, matched, score, sc = model(n, eff, prios, hits, extra)
        msg = env.check(rs, text)
        rec.step()
        rec.trace()
        got = [x for x, r in msg.rules_checked.items() if r]
        rec.check("matched", got, matched, hits=hits, **ctx)
        rec.check("score", msg.score, score, hits=hits, **ctx)
        seen = [x for x in msg.rules_checked if x != "OTHERKIND"]
        rec.check("evaluated", seen, ["R%d" % i for i in ran], hits=hits, **ctx)
        if kind != "body":
            rec.check("calls", [int(k[1:]) for e, k in probe.EVENTS if e == "eval"], ran, hits=hits, **ctx)
        rep = rs.get_report(msg)
        want = "[%s] [%s] [%s] %.1f %s" % (
            ("%s (%s)" % sc) if sc else "no", sc[0] if sc else "none", sc[1] if sc else "off",
            score, ",".join(matched) or "none")
        rec.check("report", rep.splitlines()[0], want, hits=hits, **ctx)
        for i in range(n):
            line = [x for x in rep.splitlines()[1:] if " R%d " % i in x]
            rec.check("listed", len(line), int("R%d" % i in matched), **ctx)
            if line:
                rec.check("description", line[0].endswith(
                    ("txt%d" if kind == "text" else "plain %d") % i), True, **ctx)
        rec.check("hooks", [e[1] for e in probe.EVENTS if e[0] == "probe"],
                  ["check_start", "parsed_metadata", "check_end", "auto_learn"], **ctx)
        rec.state((case, hits, score))
    rec.sample("%r" % (case,))


def run_meta(case, rec):
    """A short-circuited rule that is only evaluated by a meta rule."""
    form, mode, expr, prios, kind = case
    name = {"dunder": "__S", "zero": "S", "net": "S"}[form]
    lines = [CONF, "body A /worda/", "score A 1.5", "body B eval:probe('b')", "score B 4",
             ("body %s eval:probe('s')" if kind == "eval" else "body %s /words/") % name,
             "meta M " + expr.replace("S", name), "score M 16"]
    if form == "zero":
        lines.append("score S 0")
    elif form == "net":
        lines.append("use_network 0\ntflags S net")
    for n, p in zip("ABM", prios):
        lines.append("priority %s %d" % (n, p))
    lines.append("shortcircuit %s %s" % (name, mode))
    rs = env.build("\n".join(lines) + "\n")
    order = sorted("ABM", key=lambda n: -prios["ABM".index(n)])
    for hits in list(range(8)) + list(range(8))[::-1]:
        a, b, s = hits & 1, hits >> 1 & 1, hits >> 2 & 1
        probe.reset(b=b, s=s)
        msg = env.check(rs, "Subject: x\n\n%s %s\n" % ("worda" * a, "words" * s))
        want, score = [], 0.0
        val = {"A": a, "B": b, "M": {"S": s, "!S": 1 - s, "S && A": s and a, "S || A": s or a}[expr]}
        for n in order:
            if n == "M" and s and mode != "off":
                score += {"on": 0, "spam": 100, "ham": -100}[mode]
                break
            if val[n]:
                want.append(n)
                score += {"A": 1.5, "B": 4, "M": 16}[n]
        rec.step()
        rec.trace()
        rec.check("meta/matched", [n for n, r in msg.rules_checked.items() if r and n in "ABM"], want, case=case, hits=hits)
        rec.check("meta/score", msg.score, score, case=case, hits=hits)
        rec.state((case, hits, score))


def spaces(tier):
    from mc.core import Space
    D = (100.0, -100.0)
    base = [(m, p, e, k, None) for m in itertools.product(MODES, repeat=3)
            for p, e, k in (((0, 0, 0), D, "eval"), ((0, 5, 0), (7.5, -3.5), "body"),
                            ((-1, 0, 3), D, "text"))]
    amounts = [(m, p, e, k, None) for m in itertools.product(MODES[:5], repeat=2) for p in ((0, 0), (0, 5))
               for e in itertools.product((0.0, 0.5, 1.5, 5.0, -1.0, -4.0), repeat=2) for k in ("eval", "body")]
    lines = [(m, (0, 0), D, "eval", first) for m in itertools.product(MODES[:5], repeat=2)
             for first in MODES[1:]]
    meta = [(f, m, e, p, k) for f in ("dunder", "zero", "net") for m in ("on", "off", "spam", "ham")
            for e in ("S", "!S", "S && A", "S || A") for p in itertools.permutations((0, 3, -3)) for k in ("eval", "body")]
    out = [Space("meta", meta, run_meta, "short-circuited rules evaluated by a meta rule only"),
           Space("modes", base, run, "6 modes over 3 rules x all match sets x priorities and scores"),
           Space("amounts", amounts, run, "2 rules x all pairs of scores for spam and ham"),
           Space("lines", lines, run, "two lines for the same rule: the last wins")]
    if tier == "thorough":
        out.append(Space("modes4", [(m, p, D, k, None) for m in itertools.product(MODES[:5], repeat=4)
                                    for p in itertools.product((0, 2), repeat=4)
                                    for k in ("eval", "body")], run, "4 rules"))
    return out
