"""C33: autolearning learns exactly the clear cases."""
import itertools
import os

from mc import bayes, env

TECHNIQUE = "exhaustive enumeration of sets of matching rules (types, flags and scores on both sides of every bound) and configurations on the real engine with a real Bayes database, against a model of the decision"
LEVEL_NOTE = "All sets of up to 3 (4 in thorough) of 27 rules under 6 configurations (one with the rules in the other order); Bayes verdicts and learning on error; all pairs of messages one after the other."
ASSUMPTIONS = ["what was learned is read from the Bayes database", "rules of other kinds than header, body, uri and meta are counted in neither header nor body points or not tested"]

# name, kind, flags, score
POOL = [
    ("H3", "header", "", 3), ("H2", "header", "", 2.75), ("H6", "header", "", 6), ("H9", "header", "", 9), ("HM", "header", "", -1),
    ("B3", "body", "", 3), ("B2", "body", "", 2.75), ("B6", "body", "", 6), ("B9", "body", "", 9), ("BM", "body", "nice", -3),
    ("U3", "uri", "", 3), ("M3", "meta", "", 3), ("M6N", "meta", "net", 6), ("B6N", "body", "net", 6), ("H6N", "header", "net", 6),
    ("LM1", "header", "learn", -1), ("LM2", "header", "nice learn", -1.25), ("L1", "header", "learn", 1), ("L2", "body", "learn", 1.25), ("LB6", "body", "learn", 6),
    ("XB", "body", "noautolearn", 12), ("XH", "header", "userconf noautolearn", 12), ("XU", "uri", "userconf", -12),
    ("FB", "body", "autolearn_force", 9), ("FH", "header", "autolearn_force", 0.25), ("FX", "body", "noautolearn autolearn_force", 3), ("LL", "meta", "learn", 3),
]
VERDICTS = [("BAYES_99", "body", "learn", 1), ("BAYES_00", "body", "nice learn", -1)]
CONFIGS = {
    "default": (0.1, 12.0, False, 5.0, ""),
    "lower": (1.0, 6.0, False, 5.0, "bayes_auto_learn_threshold_nonspam 1.0\nbayes_auto_learn_threshold_spam 6.0\n"),
    "reversed": (1.0, 6.0, False, 5.0, "bayes_auto_learn_threshold_nonspam 1.0\nbayes_auto_learn_threshold_spam 6.0\n"),  # the rules, too
    "strict": (-1.0, 12.0, False, 15.0, "bayes_auto_learn_threshold_nonspam -1.0\nrequired_score 15\n"),
    "loose": (3.0, 6.0, False, 0.25, "bayes_auto_learn_threshold_nonspam 3\nbayes_auto_learn_threshold_spam 6\nrequired_score 0.25\n"),
    "error": (1.0, 6.0, True, 5.0, "bayes_auto_learn_threshold_nonspam 1.0\nbayes_auto_learn_threshold_spam 6.0\nbayes_auto_learn_on_error 1\n"),
}
_worlds = {}


def rules(pool):
    out = ""
    for name, kind, flags, score in pool:
        if kind == "header":
            out += "header %s X-Rules =~ /\\b%s\\b/\n" % (name, name)
        elif kind == "body":
            out += "body %s /\\b%s\\b/\n" % (name, name)
        elif kind == "uri":
            out += "uri %s /%s\\.example/\n" % (name, name)
        else:
            out += "header __%s X-Rules =~ /\\b%s\\b/\nmeta %s __%s\n" % (name, name, name, name)
        out += "score %s %s\n" % (name, score)
        if flags:
            out += "tflags %s %s\n" % (name, flags)
    return out


def world(config):
    key = (os.getpid(), config)
    if key not in _worlds:
        _worlds.clear()
        bayes.backend("sqlalchemy")
        db = bayes.DB("bayes33.db")
        rs = env.build("loadplugin oa.plugins.bayes.BayesPlugin\nuse_bayes 1\nloadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold\n" + db.sql("sqlalchemy", "bayes") + rules((POOL + VERDICTS)[::-1 if config == "reversed" else 1]) + CONFIGS[config][4])
        _worlds[key] = (db, rs)
    db, rs = _worlds[key]
    db.load(db.empty)
    return db, rs


def mail(n, matching):
    names = [(x[0], x[1]) for x in POOL + VERDICTS if x[0] in matching]
    return "Message-ID: <%d@x.example>\nX-Rules: %s\nSubject: x\n\ntext %s\n" % (n, " ".join(a for a, k in names if k in ("header", "meta")), " ".join("http://%s.example/" % a if k == "uri" else a for a, k in names if k not in ("header", "meta")))


def decision(config, matching):
    """What is learned: "s", "h" or nothing."""
    ham, spam, on_error, required, _ = CONFIGS[config]
    points = header = body = learned = total = 0
    force = False
    for name, kind, flags, score in POOL + VERDICTS:
        if name not in matching:
            continue
        total += score
        flags = flags.split()
        if "noautolearn" in flags or "userconf" in flags:
            continue
        local = kind == "meta" and "net" not in flags
        if kind == "header" or local:
            header += score
        if kind in ("body", "uri") or local:
            body += score
        if "learn" in flags:
            learned += score
            continue
        force = force or "autolearn_force" in flags
        points += score
    least = -99 if force else 3
    if points >= spam:
        if header < least or body < least or learned < -1 or total <= required:
            return None
        return None if on_error and "BAYES_99" in matching else "s"
    if points < ham:
        if learned > 1 or total >= required:
            return None
        return None if on_error and "BAYES_00" in matching else "h"
    return None


def run_sets(case, rec):
    config, batch = case
    db, rs = world(config)
    known = [x[0] for x in POOL + VERDICTS]
    for matching in batch:
        db.load(db.empty)
        rec.step()
        rec.state((config, matching))
        msg = env.check(rs, mail(1, matching))
        hits = sorted(set(env.matched(msg)) & set(known))
        if hits != sorted(matching):
            rec.fail("rules", "the matching rules are %r" % hits, matching=matching)
            continue
        want = decision(config, matching)
        got = [flag for _, flag in db.query("SELECT msgid, flag FROM bayes_seen")]
        rec.check("learned", got, [want] if want else [], config=config, matching=matching)
        rec.count("learned as %s" % {"s": "spam", "h": "ham", None: "nothing"}[want])
    rec.trace()


PAIRS = [(), ("H3", "B9"), ("H3", "B9", "XB"), ("H2", "B9"), ("HM",), ("FB", "H3"), ("LM2", "H6", "B6"), ("H6", "B6", "BAYES_99"), ("BM", "BAYES_00"), ("L2",), ("B3",), ("XU", "H6", "B6"), ("M6N", "M3", "B3")]


def run_sequences(case, rec):
    config, sequence = case
    db, rs = world(config)
    want = {}
    rec.state(case)
    for n, matching in enumerate(sequence):
        rec.step()
        env.check(rs, mail(n, matching))
        d = decision(config, matching)
        if d:
            want["%d@x.example" % n] = d
        rec.check("sequences", dict(db.query("SELECT msgid, flag FROM bayes_seen")), want, config=config, sequence=sequence[:n + 1])
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    names = [x[0] for x in POOL]
    sets = [s for k in range(5 if deep else 4) for s in itertools.combinations(names, k)]
    some = [s for k in range(4 if deep else 3) for s in itertools.combinations(names, k)]
    cases = [(c, sets[i:i + 60]) for c in CONFIGS for i in range(0, len(sets), 60)]
    verdicts = [s + (v,) for v in ("BAYES_99", "BAYES_00") for s in some] + [s + ("BAYES_99", "BAYES_00") for s in some if len(s) < 2]
    return [
        Space("sets", cases, run_sets, "every set of matching rules", chunk=2),
        Space("verdicts", [(c, verdicts[i:i + 60]) for c in ("error", "lower", "default") for i in range(0, len(verdicts), 60)], run_sets, "with a verdict of Bayes", chunk=2),
        Space("sequences", [(c, q) for c in CONFIGS for q in itertools.product(PAIRS, repeat=3 if deep else 2)], run_sequences, "messages one after the other", chunk=30),
    ]
