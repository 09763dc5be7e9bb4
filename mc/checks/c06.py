"""C06: a rule definition is the last value of each of its lines."""
import itertools

from mc import env, probe

TECHNIQUE = "exhaustive enumeration of line permutations, file splits and layouts on the real parser, against a last-line-wins model"
LEVEL_NOTE = "All orderings of up to 4 (thorough 5) lines out of a pool of 11 for two rules, every split into files and includes, all layouts."
ASSUMPTIONS = ["rule lines contain no further # characters"]

# (rule, field, value in the file, meaning)
POOL = (
    ("A", "def", "body A /wa/", "wa"),
    ("A", "def", "header A X-H =~ /ha/", "ha"),
    ("A", "score", "score A 2", 2.0),
    ("A", "score", "score A 3.5", 3.5),
    ("A", "describe", "describe A first text", "first text"),
    ("A", "describe", "describe A other", "other"),
    ("A", "priority", "priority A 5", 5),
    ("A", "tflags", "tflags A nice", "nice"),
    ("B", "def", "body B /wb/", "wb"),
    ("B", "score", "score B -4", -4.0),
    ("B", "priority", "priority B 1", 1),
    ("B", "def", "full B eval:probe('kb')", "kb"),
    ("B", "describe", "describe B eval:probe('x')", "eval:probe('x')"),
)


def model(seq):
    rules = {}
    for i in seq:
        name, field, _, val = POOL[i]
        rules.setdefault(name, {})[field] = val
    order = [n for n in rules if "def" in rules[n]]
    out = []
    for n in order:
        r = rules[n]
        out.append((n, r["def"], r.get("score", -1.0 if r.get("tflags") == "nice" else 1.0),
                    r.get("describe", "No description available."), r.get("priority", 0)))
    return sorted(out, key=lambda r: -r[4])


HEAD = "loadplugin mc.probe.Probe\nreport _REPORT_\n"


def layout(lines, style):
    nl = "\n"
    if style == "crlf":
        nl = "\r\n"
    out = []
    for i, l in enumerate(lines):
        if style == "indent":
            l = " \t " + l + " \t"
        elif style == "tabs":
            l = "\t".join(l.split(" ", 2))
        elif style == "wide":
            l = "   ".join(l.split(" ", 2))
        elif style == "comment":
            l = l + " # a comment"
        elif style == "comment2":
            l = l + "#" * (i + 1) + "directly"
        elif style == "comment3":
            l = l + "\t#"
        elif style == "noise":
            l = "\n# score A 9\n   \n \t# body C /wc/\n" + l + "\n#"
        out.append(l)
    text = nl.join(out)
    return text if style == "noeol" else text + nl


def build(lines, split, style):
    kind, at = split
    if kind == "one":
        return env.build(HEAD + layout(lines, style))
    if kind == "files":
        return env.build(HEAD + layout(lines[:at], style), layout(lines[at:], style))
    if kind == "include":
        env.write("inc.cf", layout(lines[at:at + 2], style))
        return env.build(HEAD + layout(lines[:at], "crlf" if style == "crlf" else "plain") +
                         "include inc.cf\n" + layout(lines[at + 2:], style))
    raise ValueError(kind)


def run(case, rec):
    seq, split, style = case
    lines = [POOL[i][2] for i in seq]
    rs = build(lines, split, style)
    want = model(seq)
    probe.reset(kb=True)
    ctx = dict(lines=lines)
    rec.step(len(seq))
    rec.trace()
    for on in ("wa", "ha", "wb", "kb", "all"):
        probe.RESULTS["kb"] = on in ("kb", "all")
        msg = env.check(rs, "Subject: s\nX-H: %s\n\n%s\n" % (
            "ha" if on in ("ha", "all") else "-",
            "wa wb" if on == "all" else on))
        hits = [r for r in want if on in ("all", r[1])]
        rec.check("matched", [x for x, r in msg.rules_checked.items() if r], [r[0] for r in hits], on=on, **ctx)
        rec.check("evaluated", list(msg.rules_checked), [r[0] for r in want], on=on, **ctx)
        rec.check("score", msg.score, sum(r[2] for r in hits), on=on, **ctx)
        rep = [x.strip() for x in rs.get_report(msg).splitlines() if x.strip()]
        rec.check("report-lines", len(rep), len(hits), on=on, **ctx)
        for line, r in zip(rep, hits):
            rec.check("description", line.endswith(r[3]) and " %s " % r[0] in line and
                      line.startswith("* %s " % r[2]), True, line=line, rule=r, **ctx)
    rec.state(tuple(want))
    rec.sample("%s -> %s" % (" | ".join(lines), want))


def spaces(tier):
    from mc.core import Space
    n = range(len(POOL))
    depth = 4 if tier == "thorough" else 3
    perms = [(p, ("one", 0), "plain") for k in range(1, depth + 1)
             for p in itertools.permutations(n, k)]
    full = [(p, ("one", 0), "plain") for p in itertools.permutations((0, 2, 4, 8, 9), 5)]
    full += [(p, ("one", 0), "plain") for p in itertools.permutations((0, 1, 3, 11, 12, 8), 6)]
    layouts = []
    for p in itertools.permutations(n, 3):
        if not any(POOL[i][1] == "def" for i in p):
            continue
        for style in ("crlf", "indent", "tabs", "wide", "comment", "comment2", "comment3", "noise", "noeol"):
            layouts.append((p, ("one", 0), style))
        for at in (0, 1, 2):
            layouts.append((p, ("files", at), "plain"))
            layouts.append((p, ("include", at), "plain"))
    return [Space("orders", perms, run, "all orders of up to %d of 13 lines" % depth),
            Space("orders-full", full, run, "all orders of 5-6 chosen lines"),
            Space("layouts", layouts, run, "line ends, indentation, comments, files and includes")]
