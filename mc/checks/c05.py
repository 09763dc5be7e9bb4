"""C05: rules run once each, by priority then definition order."""
import itertools

from mc import env, probe

TECHNIQUE = "exhaustive enumeration of priorities, definition orders and rule faults on the real engine, against an ordering model"
LEVEL_NOTE = "All priority assignments over 4 rules, all result/fault assignments over 3, both seen through recorded evaluations."
ASSUMPTIONS = []

PRIO = (None, "5", "-1", "0", "abc", "10", "-100")
RESULTS = {"true": True, "false": False, "none": None, "two": 2, "zero": 0, "text": "some text",
           "raise": ValueError("boom"), "raise2": KeyError("k"), "assert": AssertionError()}
# not in the order of definition, whatever they are compared by
NAMES = (("RM", "RA", "RZ", "RB"), ("RB", "RM", "RA", "RZ"), ("rz", "RA", "RB", "R"))
KINDS = ("body", "header", "full", "uri", "rawbody", "proberule", "eval")


def pval(p):
    try:
        return int(p)
    except (TypeError, ValueError):
        return 0


def run(case, rec):
    kinds, prios, results, where = case
    n = len(prios)
    names = NAMES[n % 3]
    lines = ["loadplugin mc.probe.Probe", "report _REPORT_"]
    early, late = [], []
    for i in range(n):
        if kinds[i] == "proberule":
            d = "proberule %s k%d" % (names[i], i)
        elif kinds[i] == "eval":
            d = "eval %s probe('k%d')" % (names[i], i)
        else:
            d = "%s %s eval:probe('k%d')" % (kinds[i], names[i], i)
        late.append(d)
        late.append("describe %s plain %d" % (names[i], i))
        late.append("score %s %s" % (names[i], (1, 2, -4, 8)[i]))
        if prios[i] is not None:
            if where == "end":
                early.append("priority %s %s" % (names[i], prios[i]))
            else:
                late.append("priority %s %s" % (names[i], prios[i]))
    lines += late + early
    probe.reset(**{"k%d" % i: RESULTS[results[i]] for i in range(n)})
    rs = env.build("\n".join(lines) + "\n")
    ctx = dict(conf="\n".join(lines), results=results)
    order = sorted(range(n), key=lambda i: -pval(prios[i]))
    rec.trace()
    for again in (1, 2):
        del probe.EVENTS[:]
        msg = env.check(rs, "Subject: s\n\nbody http://x.com\n")
        rec.step(n)
        calls = [int(k[1:]) for e, k in probe.EVENTS if e == "eval"]
        rec.check("order", calls, order, **ctx)
        hit = [i for i in order if results[i] in ("true", "two", "text")]
        rec.check("matched", [x for x, r in msg.rules_checked.items() if r],
                  [names[i] for i in hit], **ctx)
        rec.check("score", msg.score, sum((1, 2, -4, 8)[i] for i in hit), **ctx)
        rep = rs.get_report(msg)
        for i in range(n):
            line = [x for x in rep.splitlines() if " %s " % names[i] in x]
            rec.check("reported", len(line), int(i in hit), **ctx)
            if line:
                text = "some text" if results[i] == "text" else "plain %d" % i
                rec.check("description", line[0].endswith(text), True, line=line, **ctx)
        hooks = [e for e in probe.EVENTS if e[0] == "probe"]
        rec.check("hooks", [e[1] for e in hooks],
                  ["check_start", "parsed_metadata", "check_end", "auto_learn"], **ctx)
    rec.state((calls, hit))
    rec.sample("%r -> calls %r matched %r" % (case, calls, hit))


def spaces(tier):
    from mc.core import Space
    ok = ("true",) * 4
    prio = [(("eval",) * 4, p, ok, w) for p in itertools.product(PRIO, repeat=4) for w in ("here", "end")]
    res = [(k, p, r, "here")
           for r in itertools.product(sorted(RESULTS), repeat=3)
           for k in (("body",) * 3, ("proberule", "eval", "full"), ("header", "proberule", "proberule"))
           for p in ((None,) * 3, ("-1", None, "7"))]
    kinds = [(k, p, r, "here") for k in itertools.product(KINDS, repeat=3)
             for p in ((None,) * 3, ("-1", None, "7")) for r in (("true",) * 3, ("raise", "text", "false"))]
    out = [Space("priorities", prio, run, "7 priority forms over 4 rules"),
           Space("results", res, run, "9 results and faults over 3 rules"),
           Space("kinds", kinds, run, "7 rule kinds over 3 rules")]
    if tier == "thorough":
        out.append(Space("both", [(("body", "proberule", "eval", "header"), p, r, "end")
                                  for p in itertools.product((None, "3", "-3"), repeat=4)
                                  for r in itertools.product(("true", "raise", "text", "false"), repeat=4)],
                         run, "priorities x results over 4 rules"))
    return out
