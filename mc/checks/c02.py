"""C02: effective score of a rule, and the set of checked rules."""
import itertools

from mc import env, probe

TECHNIQUE = "exhaustive enumeration of score/tflags/option configurations on the real parser and daemon, against a scoring model"
LEVEL_NOTE = "Exhaustive over the listed score forms, tflags, name forms, rule kinds and all option values."
ASSUMPTIONS = []

SCORES = (None, "0", "2", "-3", "0.0", "1 2 3 4", "0 0 0 0", "0 2 3 4",
          "1 2 3 0", "0 1.5 0 2.5", "-1 0 0 0", "0.001", "-0.0001", "0 0.01 -0.01 0",
          "+2", ".5", "1e-3", "00.50", "-0", "1000000", "1 2", "1 2 3", "1 2 3 4 5")
FLAGS = ("net", "nice", "learn", "userconf", "noautolearn")
OPTS = ("use_bayes", "use_network", "autolearn", "user_config")
KINDS = ("body", "rawbody", "header", "mimeheader", "uri", "full", "meta", "eval")


def model(name, score, flags, opts):
    """The effective score, None when the rule does not exist."""
    vals = [float(x) for x in score.split()] if score is not None else None
    if name.startswith("__"):
        return 0.0
    if vals is None:
        vals = [-1.0] if "nice" in flags else [1.0]
    if len(vals) not in (1, 4):
        return None
    if ("net" in flags and not opts["use_network"]) or \
            ("learn" in flags and not opts["use_bayes"]) or \
            ("userconf" in flags and not opts["user_config"]) or \
            ("noautolearn" in flags and opts["autolearn"]):
        return 0.0
    if len(vals) == 1:
        return vals[0]
    return vals[2 * opts["use_bayes"] + opts["use_network"]]


def definition(kind, n):
    return {"body": "body %s /hit/", "rawbody": "rawbody %s /hit/",
            "header": "header %s Subject =~ /hit/",
            "mimeheader": "mimeheader %s Content-Type =~ /plain/",
            "uri": "uri %s /hit/", "full": "full %s /hit/",
            "meta": "body __m /hit/\nmeta %s __m",
            "eval": "body %s eval:probe('k')"}[kind] % n


MSG = ("Subject: hit\nContent-Type: text/plain\nFrom: a@b.com\n\nhit http://hit.com/\n")


def run(case, rec):
    kind, name, score, flags, optbits, unset = case
    opts = dict(zip(OPTS, optbits))
    lines = ["loadplugin mc.probe.Probe", "required_score 50"]
    for o, v in opts.items():
        if o not in unset:
            lines.append("%s %d" % (o, v))
    lines.append(definition(kind, name))
    if score is not None:
        lines.append("score %s %s" % (name, score))
    if flags:
        lines.append("tflags %s %s" % (name, " ".join(flags)))
    # bystanders must not notice
    lines.append("body OTHER /hit/\nscore OTHER 0.5\nmeta USES %s && OTHER\nscore USES 8\n" % name)
    probe.reset(k=True)
    rs = env.build("\n".join(lines) + "\n")
    eff = model(name, score, flags, opts)
    want = {"OTHER": 0.5}
    if eff is not None:
        want["USES"] = 8.0
        if eff != 0:
            want[name] = eff
    r = env.ask(rs, "SYMBOLS", MSG)
    got = sorted(x for x in r.text.strip().split(",") if x)
    ctx = dict(conf="\n".join(lines))
    rec.step()
    rec.trace()
    rec.state((got, r.score))
    rec.check("rules", got, sorted(want), **ctx)
    msg = env.check(rs, MSG)
    rec.check("score", abs(msg.score - sum(want.values())) < 1e-9, True, score=msg.score, want_score=sum(want.values()), **ctx)
    rec.check("stated-score", r.score, float("%.1f" % msg.score), **ctx)
    if kind == "eval":
        rec.check("not-evaluated", ("eval", "k") in probe.EVENTS, eff is not None, **ctx)
    rec.sample("%r -> %r" % (case, want))


def spaces(tier):
    from mc.core import Space
    flagsets = [()] + [(f,) for f in FLAGS] + list(itertools.combinations(FLAGS, 2))
    cases = [("body", n, s, f, bits, ())
             for n in ("RULE", "__RULE", "_RULE") for s in SCORES
             for f in flagsets for bits in itertools.product((0, 1), repeat=4)]
    kinds = [(k, n, s, f, bits, ())
             for k in KINDS for n in ("RULE", "__RULE")
             for s in (None, "2", "0", "0 2 3 4", "1 2")
             for f in [()] + [(f,) for f in FLAGS]
             for bits in ((1, 1, 0, 1), (0, 0, 1, 0), (1, 0, 0, 1), (0, 1, 0, 1))]
    # options left at their defaults: bayes, network and user_config on
    dflt = [(k, "RULE", s, f, (1, 1, 0, 1), OPTS)
            for k in KINDS for s in SCORES for f in flagsets]
    out = [Space("scores", cases, run, "score forms x flag pairs x 3 name forms x all 16 option values"),
           Space("kinds", kinds, run, "8 rule kinds"),
           Space("defaults", dflt, run, "options not configured")]
    if tier == "thorough":
        allflags = [c for n in range(6) for c in itertools.combinations(FLAGS, n)]
        out.append(Space("all", [(k, n, s, f, b, ()) for k in ("header", "eval", "meta")
                                 for n in ("RULE", "__RULE") for s in SCORES for f in allflags
                                 for b in itertools.product((0, 1), repeat=4)], run,
                         "all flag sets for three kinds"))
    return out
