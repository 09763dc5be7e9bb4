"""C01: one score, one verdict, in every reply."""
import email
import itertools

from mc import env, probe

TECHNIQUE = "explicit-state enumeration of rule/threshold/message spaces on the real daemon, against a score model"
LEVEL_NOTE = ("Exhaustive over the stated scores, matched subsets, thresholds and all "
              "commands; scores are multiples of 0.5 so float sums are exact.")
ASSUMPTIONS = ["rules are body/header/meta/uri/full/eval rules whose match is decided by one word each",
               "scores are multiples of 0.5"]

SCORES = (None, "0.5", "-1", "2.5", "0.5 1 1.5 2")
VALUE = {None: 1.0, "0.5": .5, "-1": -1.0, "2.5": 2.5, "0.5 1 1.5 2": 2.0}
KINDS = ("body", "header", "uri", "full", "evaltrue", "evalnum", "evaltext", "meta")
COMMANDS = ("CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS")

TEMPLATE = """loadplugin mc.probe.Probe
report S=_SCORE_ R=_REQD_ Y=_YESNO_ C=_YESNOCAPS_ T=_TESTS_
add_header all All S=_SCORE_ R=_REQD_ Y=_YESNO_ T=_TESTS_
add_header spam IsSpam yes
add_header ham IsHam yes
"""


def rule_lines(i, kind, score):
    n, w = "R%d" % i, "word%d" % i
    line = {"body": "body %s /%s/" % (n, w),
            "header": "header %s X-Words =~ /%s/" % (n, w),
            "uri": "uri %s /%s/" % (n, w),
            "full": "full %s /%s/" % (n, w),
            "evaltrue": "header %s eval:probe('%s')" % (n, w),
            "evalnum": "header %s eval:probe('%s')" % (n, w),
            "evaltext": "body %s eval:probe('%s')" % (n, w),
            "meta": "body __%s /%s/\nmeta %s __%s" % (n, w, n, n)}[kind]
    if score is not None:
        line += "\nscore %s %s" % (n, score)
    return line + "\n"


def msg_text(kinds, mask):
    words = ["word%d" % i for i in range(len(kinds)) if mask >> i & 1]
    return ("From: a@example.com\nSubject: hello\nX-Words: %s\n\nbody text %s\n%s\n"
            % (" ".join(words), " ".join(words),
               " ".join("http://x.com/" + w for w in words)))


def run(case, rec):
    kinds, scores, mask, delta, safe = case
    conf = TEMPLATE + "".join(rule_lines(i, k, s)
                              for i, (k, s) in enumerate(zip(kinds, scores)))
    probe.reset()
    total = 0.0
    hit = []
    for i, (k, s) in enumerate(zip(kinds, scores)):
        on = bool(mask >> i & 1)
        probe.RESULTS["word%d" % i] = {"evalnum": 3, "evaltext": "why"}.get(k, True) if on else \
            {"evalnum": 0}.get(k, False)
        if on:
            total += VALUE[s]
            hit.append("R%d" % i)
    # the threshold is placed at and around the model's score
    required = 5.0 if delta is None else total + delta
    if delta is not None:
        conf += "required_score %s\n" % required
    if safe is not None:
        conf += "report_safe %d\n" % safe
    spam = total >= required
    rs = env.build(conf)
    text = msg_text(kinds, mask)
    line = "S=%.1f R=%.1f Y=%s T=%s" % (total, required, "Yes" if spam else "No",
                                        ",".join(hit) or "none")
    rep = "S=%.1f R=%.1f Y=%s C=%s T=%s" % (
        total, required, "Yes" if spam else "No", "YES" if spam else "NO",
        ",".join(hit) or "none")
    for cmd in COMMANDS:
        r = env.ask(rs, cmd, text)
        rec.step()
        rec.trace()
        rec.state((cmd, r.data))
        if r.error:
            rec.fail("form:%s" % cmd, r.error)
            continue
        ctx = dict(cmd=cmd, conf=conf)
        rec.check("verdict:%s" % cmd, r.spam, spam, **ctx)
        rec.check("score:%s" % cmd, r.score, total, **ctx)
        rec.check("required:%s" % cmd, r.required, required, **ctx)
        if cmd == "CHECK":
            rec.check("body:CHECK", r.text, "", **ctx)
        elif cmd == "SYMBOLS":
            rec.check("symbols", sorted(x for x in r.text.strip().split(",") if x),
                      sorted(hit), **ctx)
        elif cmd == "REPORT":
            rec.check("report", r.text.strip(), rep, **ctx)
        elif cmd == "REPORT_IFSPAM":
            rec.check("report_ifspam", r.text.strip(), rep if spam else "", **ctx)
        else:
            new = email.message_from_string(r.text)
            rec.check("header-all:%s" % cmd, new.get_all("X-Spam-All"), [line], **ctx)
            rec.check("header-spam:%s" % cmd, new.get_all("X-Spam-IsSpam"),
                      ["yes"] if spam else None, **ctx)
            rec.check("header-ham:%s" % cmd, new.get_all("X-Spam-IsHam"),
                      None if spam else ["yes"], **ctx)
            if cmd == "PROCESS":
                wrapped = spam and safe != 0
                rec.check("wrapped", new.is_multipart(), wrapped, **ctx)
                if wrapped and new.is_multipart():
                    first = new.get_payload()[0].get_payload()
                    rec.check("wrapped-report", rep in first, True, **ctx)
                elif not wrapped:
                    rec.check("unwrapped", new.get_payload(),
                              text.split("\n\n", 1)[1], **ctx)
    rec.sample("%r -> %s %.1f/%.1f" % (case, spam, total, required))


NEAR = ("1.96", "0.04", "1.949", "0.051", "2.04", "-0.04", "4.999", "0.001", "-1.96", "99.95")


def run_near(case, rec):
    """Scores that are near the threshold, but are written alike."""
    scores, required, safe = case
    conf = TEMPLATE + "report_safe %d\nrequired_score %s\n" % (safe, required)
    total = 0
    for i, s in enumerate(scores):
        conf += "body R%d /one/\nscore R%d %s\n" % (i, i, s)
        total += float(s)
    spam = total >= float(required)
    rs = env.build(conf)
    text = "Subject: x\n\none two\n"
    want = "Yes" if spam else "No"
    for cmd in COMMANDS:
        rec.step()
        r = env.ask(rs, cmd, text)
        rec.state((case, cmd))
        ctx = dict(cmd=cmd, scores=scores, required_score=required)
        if r.error:
            rec.fail("near/form:%s" % cmd, r.error, **ctx)
            continue
        rec.check("near/verdict:%s" % cmd, r.spam, spam, **ctx)
        if abs(r.score - total) > .0501:
            rec.fail("near/score:%s" % cmd, "says %s, not %s" % (r.score, total), **ctx)
        if cmd in ("REPORT", "REPORT_IFSPAM") and (cmd == "REPORT" or spam):
            rec.check("near/report:%s" % cmd, "Y=%s C=%s" % (want, want.upper()) in r.text, True, **ctx)
        elif cmd == "REPORT_IFSPAM":
            rec.check("near/ifspam", r.text.strip(), "", **ctx)
        elif cmd in ("PROCESS", "HEADERS"):
            new = email.message_from_string(r.text)
            rec.check("near/headers:%s" % cmd, [new.get("X-Spam-IsSpam"), new.get("X-Spam-IsHam")], ["yes", None] if spam else [None, "yes"], **ctx)
            rec.check("near/yesno:%s" % cmd, "Y=%s" % want in new.get("X-Spam-All", ""), True, **ctx)
            if cmd == "PROCESS":
                rec.check("near/wrapped", new.is_multipart(), spam and safe != 0, **ctx)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deltas = (None, 0.0, 0.5, -0.5)
    cases = []
    for scores in itertools.product(SCORES, repeat=3):
        for mask in range(8):
            for d in deltas:
                cases.append((("body", "header", "meta"), scores, mask, d, None))
    kinds = []
    for ks in itertools.product(KINDS, repeat=2):
        for mask in range(4):
            for d in (0.0, 0.5):
                for safe in (0, 1, 2):
                    kinds.append((ks, ("2.5", "-1"), mask, d, safe))
    out = [Space("scores", cases, run, "3 rules x 5 score forms x matched subsets x thresholds around the sum x 6 commands"),
           Space("kinds", kinds, run, "all pairs of 8 rule kinds x subsets x thresholds x report_safe x 6 commands")]
    near = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for scores in itertools.product(NEAR, repeat=n):
            total = sum(map(float, scores))
            for required in dict.fromkeys(["%r" % sum(map(float, scores)), "%.1f" % total, "%.0f" % total, "%.4f" % (total + .0004), "%.4f" % (total - .0004)]):
                near.append((scores, required, len(near) % 3))
    out.append(Space("near", near, run_near, "scores just below, at and above the threshold x 6 commands"))
    if tier == "thorough":
        more = [(("body", "header", "meta", "evalnum"), s, m, d, None)
                for s in itertools.product(SCORES, repeat=4)
                for m in range(16) for d in deltas]
        out.append(Space("scores4", more, run, "the same with 4 rules"))
    return out
