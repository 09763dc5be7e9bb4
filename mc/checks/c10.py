"""C10: rulesets loaded in one process are independent."""
import itertools

from mc import env, pristine, universe

TECHNIQUE = "exhaustive exploration of load/check histories over all ordered pairs (thorough: triples) of a pool of configurations on the real code, each result compared with the one of a fresh process"
LEVEL_NOTE = "All ordered pairs (thorough: triples) of 14 configurations that set every option of every plugin differently, loaded, used, used alternately, and loaded again."
ASSUMPTIONS = ["the network answers the same question the same way all the time"]

OTHER = """trusted_networks 45.0.0.0/8 !45.9.2.2
internal_networks 45.9.0.0/16
msa_networks 45.9.2.9
dns_available no
required_score 12
report other _SCORE_ _REQD_ _TESTS_
add_header all Other _TESTSSCORES_
add_header spam Sum x
remove_header all Level
rewrite_header Subject [OTHER]
report_safe 0
whitelist_from_spf *@fail.example
whitelist_from_dkim *@other.example
freemail_domains plain.example *.example
freemail_whitelist x1@freemail.example
ok_languages de
ok_locales ru
whitelist_from *@bad.example
blacklist_from *@good.example
whitelist_to *@c.example
whitelist_from_rcvd *@plain.example else.example
enlist_uri_host (BL) good-uri.example
enlist_uri_host (WL) bad-uri.example
delist_uri_host (BL) bad-uri.example
whitelist_subject hello
blacklist_subject signed
replace_tag A [xyz]
replace_pre Q x?
replace_rules TAGGED
shortcircuit B_ONE ham
shortcircuit_ham_score -7
textcat_acceptable_prob 0.99
use_razor2 0
freemail_add_describe_email 0
util_rb_tld example
dns_query_restriction deny example
envelope_sender_header From
always_trust_envelope_sender 1
skip_rbl_checks 1
adsp_override dk.example
"""
BASIC = """header H_SUBJ Subject =~ /spam|hello/i
body B_ONE /one/
full F_ALL /multipart/
score B_ONE 3
header RELAYS X-Spam-Relays-Untrusted =~ /./
meta M_1 B_ONE && !H_SUBJ
"""
STYLE = """required_score 1
report_safe 2
report_contact me@local.example
report_hostname other.host
clear_report_template
report styled _YESNO_ _SCORE_ _CONTACTADDRESS_ _HOSTNAME_ _VERSION_
unsafe_report unsafe
clear_headers
add_header all Checker here _VERSION_
add_header ham Ham yes
rewrite_header From [S]
trusted_networks 77.0.0.0/8
lang en describe B_ONE english
describe B_ONE plain
tflags B_ONE nice
priority B_ONE 5
test_mode x
"""
BROKEN = """loadplugin oa.plugins.none.None
loadplugin
header
body B_ONE /(/
score
include nowhere.cf
if (
body B_TWO /two/
endif
dns_server 1.2.3.4:53
dns_server [::1]:54
use_bayes x
required_score z
score B_ONE 4
"""
LOCAL = '''
import oa.plugins.base
class Local(oa.plugins.base.BasePlugin):
    eval_rules = ("local_rule",)
    options = {"local_list": ("append_split", []), "local_map": ("dict", {})}
    seen = []
    def local_rule(self, msg, target=None):
        return %s
    def check_start(self, msg):
        msg.plugin_tags["LOCAL"] = "%s " + " ".join(self.get_global("local_list"))
'''
RULES2 = list(reversed(universe.RULES))
ONLY_EVAL = [r for r in universe.RULES if "eval:" in r]


def local(tag, result, options):
    path = env.write("plugins_%s/mclocal.py" % tag, LOCAL % (result, tag))
    return "loadplugin Local %s\n%s\nbody LOCAL eval:local_rule()\nadd_header all L _LOCAL_\nreport _LOCAL_\n" % (path, options)


POOL = {
    "full": lambda: universe.config(),
    "bare": lambda: universe.config(options="geodb @GEO@\n"),
    "other": lambda: universe.config(options=OTHER),
    "order": lambda: universe.config(rules=RULES2, plugins="\n".join(reversed(universe.PLUGINS.split("\n")))),
    "rescored": lambda: universe.config() + "".join("score %s 0.5\n" % r.split()[1] for r in universe.RULES[::2]),
    "basic": lambda: BASIC,
    "style": lambda: BASIC + STYLE,
    "dnsoff": lambda: universe.config(options=universe.OPTIONS.replace("dns_available yes", "dns_available no")),
    "denied": lambda: universe.config(options=universe.OPTIONS + "dns_query_restriction deny example\ndns_query_restriction allow bl.example\n"),
    "broken": lambda: BROKEN + BASIC.replace("body B_ONE /one/", ""),
    "local1": lambda: BASIC + local("a", "True", "local_list x y\n"),
    "local2": lambda: BASIC + local("b", "False", "local_list z\n"),
    "local3": lambda: BASIC + local("c", "None", ""),
    "nothing": lambda: "",
}
MESSAGES = ("plain", "spf-pass", "spf-fail", "dkim-good", "forged", "trusted", "free", "illegal", "html", "pdf", "rbl", "sc", "alt", "reply")
BASE = {}


SUBJECT = ("whitelist_subject", "blacklist_subject", "WS_W", "WS_B")


def load(name):
    """The lists of the whitelist_subject plugin (known finding) are explored
    on their own."""
    lines = POOL[name]().split("\n")
    return env.build("\n".join(line for line in lines if not any(w in line for w in SUBJECT)))


def subject(order):
    """In a process of its own: the rules matched after each load."""
    out = []
    for n in order:
        rs = env.build("loadplugin oa.plugins.whitelist_subject.WhiteListSubjectPlugin\nheader W eval:check_subject_in_whitelist()\nheader B eval:check_subject_in_blacklist()\n"
                       + ("whitelist_subject %s\nblacklist_subject x%s\n" % (n, n) if n else ""))
        out.append([sorted(env.matched(env.check(rs, "Subject: %s\n\ntext\n" % t))) for t in ("one", "xone", "two", "xtwo")])
    return out


def run_subject(order, rec):
    out = pristine.run(subject, [order], nproc=1)[order]
    rec.step(len(order))
    rec.trace()
    rec.state(order)
    want = [[["W"] if n and t == n else ["B"] if n and t == "x" + n else [] for t in ("one", "xone", "two", "xtwo")] for n in order]
    for i, n in enumerate(order):
        if out[i] != want[i]:
            later = "of-an-earlier-ruleset" if all(set(w) <= set(g) for w, g in zip(want[i], out[i])) and len(set(order[:i])) else "wrong"
            rec.fail("subject-lists/%s" % later, "subject rules matched: %r, expected %r" % (out[i], want[i]), order=order, ruleset=i)


def results(rs, names=MESSAGES):
    return dict((m, universe.fingerprint(rs, universe.messages()[m])) for m in names)


def alone(name):
    universe.world()
    return results(load(name))


def history(case):
    """In a process of its own: the differences from the results alone."""
    universe.world()
    live = []
    steps = 0

    def judge(pos, m, got, when):
        want = BASE[case[pos]][m]
        if got != want:
            return (case[pos], when, m, universe.delta(got, want))
    for i, name in enumerate(case):
        live.append(load(name))
        for m in MESSAGES:
            steps += 1
            bad = judge(i, m, universe.fingerprint(live[i], universe.messages()[m]), "after loading %r" % (case[:i],))
            if bad:
                return steps, bad
    for m in MESSAGES:
        for i, rs in enumerate(live):
            steps += 1
            bad = judge(i, m, universe.fingerprint(rs, universe.messages()[m]), "used alternately with %r" % (case,))
            if bad:
                return steps, bad
    rs = load(case[0])
    for m in MESSAGES:
        steps += 1
        bad = judge(0, m, universe.fingerprint(rs, universe.messages()[m]), "loaded again after %r" % (case,))
        if bad:
            return steps, bad
    return steps, None


def run(case, rec):
    out = pristine.run(history, [case], nproc=1)[case]
    if isinstance(out, Exception):
        rec.fail("exception/%s" % "+".join(case), str(out))
        return
    steps, bad = out
    rec.step(steps)
    rec.trace()
    rec.state(case)
    if bad:
        name, when, m, d = bad
        diff = ["raised"] if "raised" in d else sorted(set(d.get("matched", ([], []))[0]) ^ set(d.get("matched", ([], []))[1])) or sorted(d)
        rec.fail("%s/%s" % (name, ",".join(diff[:3])), "%s %s, message %s: %r" % (name, when, m, d), case=case)


def spaces(tier):
    from mc.core import Space
    BASE.update(pristine.run(alone, sorted(POOL)))
    names = sorted(POOL)
    out = [Space("pairs", list(itertools.product(names, names)), run, "every ordered pair of configurations", chunk=2, timeout=120)]
    out.append(Space("subject-lists", [o for k in (1, 2, 3) for o in itertools.product(("", "one", "two"), repeat=k)], run_subject, "every sequence of up to three rulesets with different subject lists"))
    if tier == "thorough":
        out.append(Space("triples", list(itertools.product(names, names, names)), run, "every ordered triple", chunk=4, timeout=120))
    return out
