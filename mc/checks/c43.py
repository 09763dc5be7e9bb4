"""C43: rules do not influence one another."""
from mc import env, pristine, universe

TECHNIQUE = "exhaustive enumeration of (rule, message) over a catalogue with every plugin, each rule evaluated alone, first and last on the real engine and compared with its result among all rules"
LEVEL_NOTE = "Every rule of a catalogue of all plugins x every message x {alone, first, last}; thorough: every ordered pair of rules."
ASSUMPTIONS = ["the network answers the same question the same way all the time"]

BASE = {}
RULES = [r for r in universe.RULES if not r.startswith("body SCRULE")]
OPTIONS = universe.OPTIONS.replace("shortcircuit SCRULE spam\n", "")
NEEDS = {"RBL_SUB": ("RBL_A",), "M_1": ("B_ONE", "H_SUBJ"), "M_2": ("B_ONE", "U_ANY", "H_EX")}


def ruleset(rules, extra=""):
    return env.build(universe.config(options=OPTIONS, rules=rules) + extra)


def observe(rs, text):
    msg = env.check(rs, text)
    return dict((n, (bool(r), (msg.rules_descriptions.get(n) or "")[:200] if r else None)) for n, r in msg.rules_checked.items())


def together(name):
    universe.world()
    return observe(ruleset(RULES), universe.messages()[name])


def name_of(rule):
    return rule.split()[1]


def compare(rec, rs, rule, how):
    n = name_of(rule)
    for m, text in sorted(universe.messages().items()):
        got = observe(rs, text).get(n)
        want = BASE[m].get(n)
        rec.step()
        rec.state((n, m, got))
        if got is None or want is None or got[0] != want[0]:
            rec.fail("%s/%s" % (how, n), "%s on %s: %r, among all rules %r" % (n, m, got, want))
            return
        if got[1] != want[1] and "No description" not in (got[1] or "") + (want[1] or "") and "text of" not in (got[1] or "") + (want[1] or ""):
            rec.fail("%s/%s/description" % (how, n), "%s on %s: %r, among all rules %r" % (n, m, got, want))
            return
    rec.trace()


def closure(rule):
    needs = NEEDS.get(name_of(rule), ())
    return [r for r in RULES if name_of(r) in needs] + [rule]


def run(i, rec):
    universe.world()
    rule = RULES[i]
    compare(rec, ruleset(closure(rule)), rule, "alone")
    rest = [r for r in RULES if r != rule]
    if not NEEDS.get(name_of(rule)):
        compare(rec, ruleset([rule] + rest, "priority %s 1000\n" % name_of(rule)), rule, "first")
    compare(rec, ruleset(rest + [rule], "priority %s -1000\n" % name_of(rule)), rule, "last")


def pair(i, rec):
    universe.world()
    for j, other in enumerate(RULES):
        if i == j or name_of(RULES[i]) in NEEDS:
            continue
        compare(rec, ruleset(closure(other) + [RULES[i]], "priority %s 1000\n" % name_of(other)), RULES[i], "after %s" % name_of(other))


def spaces(tier):
    from mc.core import Space
    BASE.update(pristine.run(together, sorted(universe.messages())))
    out = [Space("rules", list(range(len(RULES))), run, "each rule alone, first and last", chunk=1, timeout=120)]
    if tier == "thorough":
        out.append(Space("pairs", list(range(len(RULES))), pair, "each rule after each other rule", chunk=1, timeout=600))
    return out
