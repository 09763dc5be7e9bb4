"""C07: a bad configuration line affects nothing but itself."""
import locale
import os

from mc import env, probe

TECHNIQUE = "exhaustive fault injection: every malformed line, truncation and one-character damage at every position of a configuration on the real parser, compared with the configuration without it"
LEVEL_NOTE = "Catalogue of about 130 malformed lines x every position of a 22 line configuration; every truncation, deletion and replacement of one character of its lines; pairs of malformed lines."
ASSUMPTIONS = ["a bad line which names a rule may take that rule with it, as the property says",
               "damages that leave a valid line of another meaning are only required not to affect other rules and options"]

BASE = r"""loadplugin mc.probe.Probe
report Content:
report _SUMMARY_
required_score 4.5
add_header all Val v=_SCORE_
trusted_networks 10.1.0.0/16
probe_int 3
probe_append one
probe_append two
body ALPHA /alpha/i
score ALPHA 2.5
describe ALPHA the alpha rule
header HETA X-H =~ /^eta/
priority HETA 3
tflags HETA nice
full EPSILON eval:probe('k1')
uri UPSILON m{example\.com}
meta MIXED ALPHA && !HETA
proberule POLDER k2
score POLDER 0.7
body ZZ /alpha/
score ZZ 0.25
ifplugin Probe
body INNER /iota/
else
body OUTER /iota/
endif
""".splitlines()

# Lines that are not valid, whatever else is configured.
BAD = r"""
body
body NEW
body NEW /(/
body NEW /[a/
body NEW /a{2,1}/
body NEW /*a/
body NEW /a
body NEW a/
body NEW abc
body NEW //
body NEW ?a?
body NEW /a(?P<x/
body NEW /\1/
body NEW m
rawbody NEW /(?<=a*)b/
rawbody NEW
uri NEW /)/
uri NEW x
full NEW /+/
full NEW eval:
full NEW eval:probe
full NEW eval:probe(
full NEW eval:probe)
full NEW eval:probe(x)
full NEW eval:probe('x
full NEW eval:probe('x',)y(
full NEW eval:probe('a' 'b', =)
full NEW eval:nosuch()
full NEW eval:nosuch('a', 1)
full NEW eval:__import__('os')
full NEW eval:1()
body NEW eval:probe(__import__('os').getpid())
header NEW X-H
header NEW X-H =~
header NEW X-H =~ x
header NEW X-H =~ /(/
header NEW X-H == /a/
header NEW X-H:bogus =~ /a/
header NEW =~
header NEW eval:nosuch('a')
header NEW exist:X-H
header NEW /a/
mimeheader NEW X-H
mimeheader NEW X-H =~ /(/
mimeheader NEW X-H:addr =~ /a/
mimeheader NEW exists:X-H
meta NEW
meta NEW ALPHA &&
meta NEW && ALPHA
meta NEW (ALPHA
meta NEW ALPHA)
meta NEW ALPHA HETA
meta NEW NOSUCH
meta NEW ALPHA || NOSUCH
meta NEW NEW
meta NEW ALPHA ? 1
meta NEW import os
meta NEW ALPHA; HETA
meta NEW lambda: 1
meta NEW "ALPHA"
meta NEW ()
meta NEW ALPHA.name
meta NEW ALPHA = 1
meta NEW __import__('os')
eval NEW nosuch()
eval NEW probe
eval NEW probe('a'
proberule
proberule NEW
score
score ZZ
score ZZ x
score ZZ 1 2
score ZZ 1 2 3
score ZZ 1 2 3 4 5
score ZZ 1,5
score ZZ 0x10
score ZZ --1
score NEW 5
score NEW x
describe
describe ZZ
describe NEW text
priority
priority ZZ
priority NEW 3
tflags
tflags ZZ
tflags NEW nice
lang
lang en
lang en_US
lang en score
lang en score ZZ
lang en describe NEW
lang xx describe ZZ autre
lang en bogus
lang en bogus line
lang en report
lang en required_score abc
lang en body NEW /(/
required_score
required_score x
required_score 4,5
required_score 1 2
report_safe x
report_safe 1.5
probe_int x
probe_int 1.5
probe_int 1 2
probe_int 0x1
probe_float x
probe_float 1,5
probe_float 1 2
probe_time x
probe_time 5y
probe_time -5
probe_time m
probe_time 1h30
always_trust_envelope_sender yes
default_dns_timeout x
default_dns_lifetime soon
dns_test_interval x
dns_server bogus
dns_query_restriction
dns_query_restriction allow
dns_query_restriction bogus example.com
trusted_networks x
trusted_networks 300.1.2.3
trusted_networks 10.2.3.4/77
trusted_networks fe80::1::2
trusted_networks /
trusted_networks !
add_header
add_header all
add_header all X
add_header bogus X value
remove_header
remove_header all
remove_header bogus X
include
include /nonexistent/file.cf
include nosuch.cf
include .
loadplugin
loadplugin nosuch
loadplugin nosuch.module.Plugin
loadplugin mc.probe.NoSuch
loadplugin mc.probe.EVENTS
loadplugin mc.probe.ProbeRule
loadplugin mc.nosuch.Probe2
loadplugin mc.badplugin.Bad
loadplugin Mail::SpamAssassin::Plugin::NoSuch
loadplugin .
loadplugin ..
loadplugin mc.
loadplugin .Probe2
loadplugin Extra /nonexistent/plugin.py
loadplugin Extra @BROKEN@
loadplugin Extra @RAISES@
loadplugin Extra @NOTPY@
unknown
unknown_option 5
unknown_option a b c
bodyx NEW /a/
BODY NEW /a/
Score ZZ 9
/alpha/
:
=
'
%s %d %(x)s
{0} {}
\
_SUMMARY_
endif_
"""
BAD = [l for l in BAD.splitlines() if l]
BAD.remove("endif_")
BAD_BYTES = [b"\xff\xfe", b"\x00", b"body NEW /\x00(/", b"caf\xc3\xa9 5",
             b"\xe9t\xe9 NEW /x/", b"required_score \xc2\xb2",
             b"probe_int \xb2", b"score ZZ \xb9", b"\xef\xbb\xbfunknown 1",
             b"loadplugin \xe9.Plugin", b"loadplugin a\x00b.C",
             b"include a\x00b", b"x" * 5000, b"body NEW /" + b"(" * 200 + b"/",
             b"meta NEW " + b"(" * 500 + b"ALPHA" + b")" * 499]
# these silence whole files or valid conditionals on purpose: not bad lines
PARANOID = [l for l in BAD if l.split()[0] in ("body", "rawbody", "uri", "full", "header", "mimeheader", "meta") and len(l.split()) > 2] + \
    ["score ZZ x", "score ZZ 1 2", "body", "score ZZ", "body NEW", "describe ZZ", "priority ZZ", "tflags"]

MSGS = ("Subject: s\nX-H: eta\nReceived: from a (a [10.1.2.3]) by b.c (Postfix) with SMTP id X; Mon, 1 Jan 2018 00:00:00 +0000\n\nthe Alpha word iota http://example.com/x\n",
        "Subject: t\nX-H: none\n\nalpha\n")
OPTIONS = ("probe_int", "probe_float", "probe_bool", "probe_str", "probe_list",
           "probe_append", "probe_append2", "probe_split", "probe_time")


def locals_(text):
    return text.replace("@BROKEN@", env.scratch("broken.py")) \
        .replace("@RAISES@", env.scratch("raises.py")).replace("@NOTPY@", env.scratch("data.bin"))


def files():
    env.write("broken.py", "def (:\n")
    env.write("raises.py", "import nosuchmodule\nclass Extra(object): pass\n")
    env.write("data.bin", b"\x00\xff\x00\n")


def to_bytes(lines):
    return b"\n".join(l if isinstance(l, bytes) else locals_(l).encode("utf8") for l in lines) + b"\n"


def look(lines, paranoid=False):
    """Everything observable of a configuration, part by part."""
    files()
    rs = env.build(to_bytes(lines), paranoid=paranoid)
    out = {"opts": {}, "rules": {}, "order": None, "score": [], "replies": []}
    p = rs.ctxt.plugins.get("Probe")
    for o in OPTIONS:
        out["opts"][o] = p and repr(p[o])
    out["opts"]["required"] = rs.conf["required_score"]
    probe.reset(k1=True, k2=True)
    for text in MSGS:
        msg = env.check(rs, text)
        for n, r in msg.rules_checked.items():
            rule = rs.get_rule(n)
            out["rules"].setdefault(n, []).append((bool(r), rule.score, rule.description, rule.priority))
        out["order"] = list(msg.rules_checked)
        out["score"].append(msg.score)
        out["replies"].append((rs.get_report(msg), [
            (t["ip"]) for t in msg.trusted_relays]))
        out["replies"].append(env.canon(env.ask(rs, "PROCESS", text).data))
    return out


_base = {}


def base(drop=()):
    key = frozenset(drop)
    if key not in _base:
        _base[key] = look([l for i, l in enumerate(BASE) if i not in key])
    return _base[key]


def without(rule):
    return [i for i, l in enumerate(BASE) if l.split()[1:2] == [rule]]


def about_zz(bad):
    line = BAD_BYTES[bad].decode("latin-1") if isinstance(bad, int) else bad
    return line.split()[1:2] == ["ZZ"]


def run_bad(case, rec):
    lines = list(BASE)
    for pos, bad in sorted(case, key=lambda c: c[0], reverse=True):
        lines.insert(pos, BAD_BYTES[bad] if isinstance(bad, int) else bad)
    got = look(lines)
    rec.step(len(lines))
    rec.trace()
    want = [base()]
    if any(about_zz(b) for _p, b in case):
        want.append(base(without("ZZ")))
        # the first mention of the rule decides about its place
        lines = list(BASE)
        for pos, bad in sorted(case, key=lambda c: c[0], reverse=True):
            if about_zz(bad):
                lines.insert(pos, "priority ZZ 0")
        want.append(look(lines))
    for key in ("opts", "rules", "order", "score", "replies"):
        rec.check("bad/" + key, any(got[key] == w[key] for w in want), True,
                  case=case, seen=got[key], allowed=[w[key] for w in want])
    rec.state(case)
    rec.sample("%r inserted: same behaviour" % (case,))


def run_paranoid(case, rec):
    pos, bad = case
    import oa.errors
    lines = list(BASE)
    if "ZZ" in bad:
        pos = len(lines)
    lines.insert(pos, bad)
    rec.step(len(lines))
    try:
        look(lines, paranoid=True)
    except oa.errors.PADError as e:
        rec.state((bad, type(e).__name__))
        return
    rec.fail("paranoid-accepted", bad)


# the lines damaged, and what each may change
DAMAGED = {3: "required", 6: "probe_int", 7: "probe_append", 9: "ALPHA", 10: "ALPHA", 11: "ALPHA",
           12: "HETA", 13: "HETA", 14: "HETA", 15: "EPSILON", 16: "UPSILON",
           17: "MIXED", 18: "POLDER", 19: "POLDER"}


def run_damage(case, rec):
    i, kind, at, ch = case
    line = BASE[i].encode()
    if kind == "cut":
        new = line[:at]
    elif kind == "del":
        new = line[:at] + line[at + 1:]
    elif kind == "put":
        new = line[:at] + ch.encode("latin-1") + line[at + 1:]
    else:
        new = line[:at] + ch.encode("latin-1") + line[at:]
    lines = list(BASE)
    lines[i] = new
    got = look(lines)
    want = base()
    owner = DAMAGED[i]
    rec.step(len(lines))
    rec.trace()
    names = set(want["rules"]) - {owner, "MIXED"}
    if owner != "MIXED" and owner in ("ALPHA", "HETA"):
        pass
    for n in names:
        rec.check("damage/rule", got["rules"].get(n), want["rules"][n], case=case, line=new, rule=n)
    for o, v in want["opts"].items():
        if o != owner:
            rec.check("damage/option", got["opts"][o], v, case=case, line=new, option=o)
    order = [n for n in got["order"] if n in names]
    rec.check("damage/order", order, [n for n in want["order"] if n in names], case=case, line=new)
    rec.state(case)


def run_locale(case, rec):
    """A lang line has effect exactly for the locale of the process."""
    loc, prefix, rest = case
    saved = dict(os.environ)
    try:
        for k in list(os.environ):
            if k.startswith("LC_") or k in ("LANG", "LANGUAGE"):
                del os.environ[k]
        if loc is not None:
            os.environ["LANG"] = loc
        got = look(BASE + ["lang %s %s" % (prefix, rest)])
        try:
            locale.setlocale(locale.LC_ALL, "")
            name = locale.getlocale(locale.LC_MESSAGES)[0]
        except (locale.Error, ValueError):
            name = None
        applies = name is not None and name.startswith(prefix)
        want = look(BASE + ([rest] if applies else []))
    finally:
        os.environ.clear()
        os.environ.update(saved)
        locale.setlocale(locale.LC_ALL, "")
    rec.step(len(BASE) + 1)
    rec.trace()
    rec.check("lang", got, want, case=case)
    rec.state((case, applies))


def spaces(tier):
    from mc.core import Space
    thorough = tier == "thorough"
    bad = list(BAD) + list(range(len(BAD_BYTES)))
    at = range(len(BASE) + 1)
    if not thorough:
        at = (0, 1, 3, 9, 10, 12, 17, 20, 22, 23, 24, 25, 26, 27)
    one = [((p, b),) for p in at for b in bad]
    n = len(BASE)
    sel = bad if thorough else bad[::3]
    two = [((4, a), (4, b)) for a in sel for b in sel] if thorough else \
        [((4, a), (n, b)) for a in sel[::2] for b in sel]
    # nothing is left of a rejected rule, even where another rule asks for it
    ref = []
    for b in BAD:
        if b.split()[1:2] == ["NEW"]:
            for name in ("NEW", "__NEW"):
                for extra in (None, "score NEW 0", "tflags NEW learn"):
                    c = [(9, b.replace("NEW", name)), (n, "meta REF %s || !%s" % (name, name))]
                    if extra:
                        c.append((n, extra.replace("NEW", name)))
                    ref.append(tuple(c))
    dam = []
    chars = "/(\\# \xff\x00:'9x" if thorough else "/(# \xff\x00"
    for i in DAMAGED:
        L = len(BASE[i])
        for a in range(L):
            dam.append((i, "cut", a, ""))
            dam.append((i, "del", a, ""))
            for c in chars:
                dam.append((i, "put", a, c))
                if thorough:
                    dam.append((i, "ins", a, c))
    loc = [(l, p, r) for l in ("en_US.UTF-8", "en_GB.UTF-8", "C", "C.UTF-8", "POSIX", None, "xx_YY.UTF-8", "de_DE.UTF-8", "", "bogus")
           for p in ("en", "en_US", "en_GB", "de", "C", "xx", "e", "US")
           for r in ("describe ALPHA translated", "score ALPHA 3", "report Inhalt: x", "required_score 1",
                     "body LNEW /alpha/", "tflags ALPHA nice", "probe_int 9", "probe_append tri", "priority ALPHA 9",
                     "bogus line", "proberule LPR k1", "include nosuch")]
    return [Space("one-line", one, run_bad, "one malformed line at every position"),
            Space("two-lines", two, run_bad, "pairs of malformed lines"),
            Space("referenced", ref, run_bad, "rejected rules referenced by meta rules"),
            Space("damage", dam, run_damage, "truncations and one-character damages"),
            Space("paranoid", [(p, b) for b in PARANOID for p in (1, n)], run_paranoid,
                  "invalid rules and missing arguments in paranoid mode"),
            Space("lang", loc, run_locale, "lang lines under available, missing and unset locales")]
