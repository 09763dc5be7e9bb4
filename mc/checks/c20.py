"""C20: a Perl regular expression keeps its meaning."""
import itertools
import re
import subprocess

from mc import env

TECHNIQUE = "exhaustive enumeration of patterns (all sequences of constructs up to a length x delimiters x flags) x subject strings on the real code, compared with what perl itself answers for the same text of the rule"
LEVEL_NOTE = "All sequences of up to 3 constructs out of 43 without flags and with i, up to 2 with all 16 sets of flags (thorough: 3 with all of them and 4 out of 16) on 27 strings; all delimiters with what needs care in them; all strings of up to 4 (5) metacharacters are rejected when loaded or can be matched."
ASSUMPTIONS = ["perl is the reference; what it rejects isn't looked at", "independent groups (?>...) are documented as plain groups, so only patterns for which that's the same are compared",
               "a variable of perl ($ and @ inside of the pattern) is not used", "a reference to a later group, a count of nothing and \\B in an empty text mean something else in every pattern of Python and are left out", "possessive quantifiers and repeated assertions may be rejected, as Python has none"]

PERL = r'''
use feature 'unicode_strings'; no warnings;
binmode STDOUT, ":utf8";
my @subjects = map { my $s = pack("H*", $_); utf8::decode($s); $s } split /,/, scalar(<STDIN>) =~ s/\n//r, -1;
while (my $line = <STDIN>) {
  chomp $line;
  my $src = pack("H*", $line); utf8::decode($src);
  my $f = eval "sub { no warnings; my \$t = shift; \$t =~ /(?:)/; return (\$t =~ $src) ? 1 : 0; }";
  if (!$f) { print "E\n"; next; }
  my $out = "";
  for my $s (@subjects) { my $r = eval { $f->($s) }; $out .= defined($r) ? $r : "E"; }
  print "$out\n";
}
'''
SUBJECTS = [u"", u"a", u"b", u"ab", u"ba", u"aa", u"A", u"AB", u"a b", u" ", u"a\nb", u"\n", u"a1b", u".", u"\\", u"\\b", u"(", u"(i:", u"(?", u"/", u"\xe9", u"x\xc9", u"1", u"abab", u"aab\n", u"i:A", u"<b>a</b>", u"{a}", u"a,b;c!d%e~f'g", u"bBaA", u"aaa", u"[", u"]", u"?", u":b"]


def perl(patterns, subjects):
    data = ",".join(s.encode("utf-8").hex() for s in subjects) + "\n" + "".join(p.encode("utf-8").hex() + "\n" for p in patterns)
    p = subprocess.run(["perl", "-e", PERL], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100)
    out = p.stdout.decode().split("\n")[:-1]
    if len(out) != len(patterns):
        raise RuntimeError("perl answered %d of %d patterns" % (len(out), len(patterns)))
    return out


def load(src, op):
    """What the real code makes of it: a pattern, or None if it's rejected."""
    import oa.errors
    import oa.regex
    try:
        return oa.regex.perl2re(src, op)
    except oa.errors.InvalidRegex:
        return None


# Quantifiers that only perl has: possessive, or on an assertion.
ONLY_PERL = re.compile(r"[*+?}]\s*\+|(\\[bB]|\^|\$|\(\?<?[=!][^()]*\)|\|)\s*([*+{]|\?)|\$\)|^.\s*[*+?{]|\(\?\+|\\[bB]\?\s*[*+?{]")


def forward(src):
    """Reference to a group that's not complete yet, or a count of nothing."""
    return "\\1" in src and ("(a)" not in src or src.index("\\1") < src.index("(a)")) or bool(re.search(r"(^m?.|[(|:!=])\s*\{2", src))


def compare(rec, key, patterns, subjects=SUBJECTS):
    """patterns: texts of a rule, with the delimiters and flags."""
    for src, want in zip(patterns, perl(patterns, subjects)):
        rec.step()
        if want == "E" or "E" in want or forward(src):
            rec.count("patterns perl rejects")
            continue
        rec.state(src)
        pos, neg = load(src, "=~"), load(src, "!~")
        if pos is None or neg is None:
            if ONLY_PERL.search(src.replace("(?#c)", "")):
                rec.count("patterns only perl has")
            else:
                rec.fail("%s/rejected" % key, "%s is rejected, perl has no problem with it" % src, pattern=src)
            continue
        got = "".join("1" if pos.match(s) else "0" for s in subjects)
        inv = "".join("0" if neg.match(s) else "1" for s in subjects)
        rec.count("answers", 2 * len(subjects))
        if "^" in src:
            # only in Python a line starts after the last line break
            got, inv, want = ["".join("-" if t.endswith("\n") else c for c, t in zip(a, subjects)) for a in (got, inv, want)]
        if "\\B" in src:
            # only perl says that the empty text has a place that's no boundary
            got, inv, want = [a[:j] + "-" + a[j + 1:] for a in (got, inv, want) for j in [subjects.index("") if "" in subjects else len(a)]]
        for what, ans in (("=~", got), ("!~", inv)):
            if ans != want:
                i = [a != b for a, b in zip(ans, want)].index(True)
                rec.fail("%s/%s" % (key, what), "%s: perl says %r %s, this says it %s" % (src, subjects[i], "matches" if want[i] == "1" else "does not match", "matches" if ans[i] == "1" else "does not match"), pattern=src, subject=subjects[i])
                break


TOKENS = ["a", "b", ".", "\\s", "\\d", "\\w", "\\b", "\\B", "\\b?", "\\B?", "^", "[ab]", "[^a]", "[(?i:b]", "[]a]", "[\\]b]", "\\.", "\\\\", "\\(", "\\(?", "\\[", "(a)", "(?:a|b)", "(?i:a)", "(?-i:A)", "(?^:A)", "(?^i:a)", "(?s-i:a.)", "(?m:^b)", "(?x: a b )", "(?i:a(?-i:b))",
          "(?=b)", "(?!b)", "(?<=a)", "(?<!a)", "\\1", "|", "*", "+", "?", "{2}", "\\x61", " ", "(?>a)", "(?#c)", "\\?", ":", "b?", "\\n", "(?i:b|\xe9)", "A", "(?u:a)", "(?a:b)"]
SMALL = ["a", "\\b?", "\\\\", "(?i:a)", "[(?i:b]", "(a)", "\\1", "|", "?", "(?=b)", "^", "b", "\\(?", ".", " ", "(?-i:A)"]
FLAGS = ["".join(f for i, f in enumerate("ismx") if n & (1 << i)) for n in range(16)]
# Perl takes these as the same flag once (but not two x, which mean more)
REPEATED = ["ii", "ss", "mm", "imi", "sms", "isi", "smism"]


def run_patterns(case, rec):
    """All the sequences that start with these tokens."""
    start, pool, more, flags = case
    todo = []
    for rest in itertools.product(pool, repeat=more):
        seq = start + rest
        src = "".join(seq)
        # an independent group that something of the same may follow
        if "(?>" in src and not src.endswith("(?>a)") and more + len(start) > 1 and any(t in ("*", "+", "?", "{2}", "|") for t in seq):
            continue
        if re.search(r"\(\?#c\)\s*[*+?{]", src):
            continue
        for end in ("", "$"):
            if end and len(seq) > 2:
                continue
            for f in flags:
                todo.append("/%s%s/%s" % (src, end, f))
    for i in range(0, len(todo), 2000):
        compare(rec, "pattern", todo[i:i + 2000])


def pattern_cases(tier):
    for t in TOKENS:
        yield (t,), TOKENS, 0, FLAGS + REPEATED
        yield (t,), TOKENS, 1, FLAGS
        for t2 in TOKENS:
            yield (t, t2), TOKENS, 1, ["", "i"] if tier == "quick" else FLAGS
    if tier == "thorough":
        for t in itertools.product(SMALL, repeat=2):
            yield t, SMALL, 2, ["", "i", "x", "ms"]


# ---- delimiters -----------------------------------------------------------
PAIRS = ["//", "{}", "%%", "<>", "''", "~~", ",,", "!!", ";;"]


def run_delims(case, rec):
    pair, n = case
    a, b = pair
    # plain characters; the delimiters escaped; balanced pairs of them
    toks = ["a", "b", "\\" + a, "\\" + b, ".", "?", "(a)", " ", "<b>", "{a}", "{2}", "</b>", "%", "~", ",", "!", ";", "'", "/", "(?i:B)", "\\b?", "\\" + a + "b", a + b, "g", "s", "m"]
    if a != "{":
        toks = [t for t in toks if t != "{a}"]
    toks = list(dict.fromkeys(toks))
    todo = []
    for seq in itertools.product(toks, repeat=n):
        body = "".join(seq)
        rest = body.replace("\\" + a, "").replace("\\" + b, "")
        if a == b and a in rest:
            continue
        if a != b:
            depth, ok = 0, True
            for c in rest:
                depth += (c == a) - (c == b)
                ok = ok and depth >= 0
            if depth or not ok:
                continue
        if not body:
            continue
        for pre in ("m", "") if a == "/" else ("m",):
            for f in ("", "i") if n > 1 else FLAGS:
                todo.append("%s%s%s%s%s" % (pre, a, body, b, f))
    for i in range(0, len(todo), 2000):
        compare(rec, "delimiter", todo[i:i + 2000])


# ---- rules ----------------------------------------------------------------
TEXTS = ["a", "b", "ab", "ba", "A b", "a1b", ".", "\\b", "(i:", "x/", "<b>a</b>", "{a}", "abab", "i:A", "a\nb", "bBaA"]


def run_rules(case, rec):
    """The same, through the rules of a configuration."""
    first, flags = case
    todo = []
    for seq in itertools.chain([(first,)], itertools.product([first], [t for t in TOKENS if t not in ("#", "(?#c)", u"(?i:b|\xe9)")])):
        if "(?>" in seq[0] and len(seq) > 1 or "(?>a)" in seq[1:] and len(seq) > 1:
            continue
        src = "".join(seq)
        if src.strip() == src:
            todo.append("/%s/%s" % (src, flags))
            todo.append("m{%s}%s" % (src, flags))
            todo.append("m!%s!%s" % (src, flags))
    texts = [t for t in TEXTS if t.strip() == t]
    answers = perl(todo, texts)
    # the value of a header has no line break here
    rules, want = [], {}
    for src, ans in zip(todo, answers):
        if "E" in ans or ONLY_PERL.search(src) or forward(src):
            continue
        n = len(rules)
        rules.append("rawbody R%d %s" % (n, src))
        rules.append("header S%d X-Sub =~ %s" % (n, src))
        rules.append("header T%d X-Sub !~ %s" % (n, src))
        want[n] = ans
    if not rules:
        return
    rs = env.build("\n".join(rules) + "\n")
    for i, text in enumerate(texts):
        got = set(env.matched(env.check(rs, "X-Sub: %s\nContent-Type: text/plain\n\n%s" % (text.replace("\n", "_"), text))))
        rec.step()
        rec.state((first, flags, text))
        for n, ans in want.items():
            exp = ans[i] == "1"
            if ("R%d" % n in got) != exp:
                rec.fail("rule/body", "%s %s the text %r, unlike perl" % (rules[n], "matches" if not exp else "does not match", text))
            if "\n" not in text:
                for kind, e in (("S", exp), ("T", not exp)):
                    if ("%s%d" % (kind, n) in got) != e:
                        rec.fail("rule/header-%s" % kind, "%s %s the value %r, unlike perl" % (rules[n + (kind == "T") + 1], "matches" if not e else "does not match", text))
            rec.count("answers of rules")


# ---- rejected -------------------------------------------------------------
META = ["(", ")", "[", "]", "{", "}", "*", "+", "?", "|", "\\", "^", "$", "a", "-", "2", ",", "<", "=", "!", ":", ">", "P", "i", "/", "#", "x", "N", "\xe9"]
HUGE = ["a{99999999999}", "a{1,99999999999}", "(" * 3000 + ")" * 3000, "(a|" * 800 + ")" * 800, "(?:a{9999}){99}", "[" * 1000, "a" * 5000, "(?" * 500, "((((a*)*)*)*)*b", "(?P<%s>a)" % ("x" * 500), "\\" * 999, "\\N{LATIN SMALL LETTER A}", "\\x{e9}", "[[:alpha:]]", "\\Qa.b\\E", "\\z", "\\h", "(?<n>a)\\k<n>", "(?|a|b)", "a++", "\\K", "\\p{L}",
        "(?i)a", "a(?i)b", "(?L)a", "(?au)a", "(?u)a", "(?x)a b # c", "\x00", "[\x00-\x01]", "(?P<\xe9>a)", "(?P=x)", "(?(1)a|b)", "(a)(?(1)a|b)", "\\777", "\\400", "\\0", "\\8", "{", "}", "{,}", "{2}", "a{2}{3}", "(?P>a)", "(?&a)", "(?R)", "(?{die})", "(??{die})", "(*FAIL)"]


def run_total(case, rec):
    start, n = case
    import oa.errors
    for rest in itertools.product(META, repeat=n):
        src = start + "".join(rest)
        for whole in ("/%s/" % src,):
            rec.step()
            try:
                p = load(whole, "=~")
                if p is None:
                    rec.count("rejected")
                    continue
                rec.count("accepted")
                for s in (u"", u"a", u"a2-,", u"(a)[", u"\xe9\n"):
                    p.match(s)
            except Exception as e:
                rec.fail("total/%s" % type(e).__name__, "%r for the pattern %s" % (e, whole[:80]), pattern=whole)
    rec.state(case)


def run_huge(case, rec):
    src, wrap = case
    whole = wrap.replace("@", src)
    rec.step()
    rec.state(case)
    try:
        p = load(whole, "=~")
        if p is not None:
            for s in (u"", u"a", u"ab", u"\xe9\n"):
                p.match(s)
    except Exception as e:
        rec.fail("huge/%s" % type(e).__name__, "%r for the pattern %s" % (e, whole[:80]), pattern=whole[:200])
    # and it doesn't keep the other rules from being loaded
    if "\n" in whole or "\x00" in whole:
        return
    try:
        rs = env.build(u"body BEFORE /a/\nbody BAD %s\nbody AFTER /a/\n" % (whole.encode("utf-8").decode("latin-1")))
        got = env.matched(env.check(rs, "Subject: x\n\na\n"))
        if not set(["BEFORE", "AFTER"]) <= set(got):
            rec.fail("huge/others", "with the pattern %s only %r match" % (whole[:80], got))
    except Exception as e:
        rec.fail("huge/load-%s" % type(e).__name__, "%r for the configuration with the pattern %s" % (e, whole[:80]))


def spaces(tier):
    from mc.core import Space
    n = 3 if tier == "quick" else 4
    return [
        Space("patterns", pattern_cases(tier), run_patterns, "sequences of constructs", chunk=4, timeout=300),
        Space("delimiters", [(p, k) for p in PAIRS for k in range(1, 4 if tier == "quick" else 5)], run_delims, "delimiters", chunk=1, timeout=600),
        Space("rules", itertools.product([t for t in TOKENS if "#" not in t], ["", "i", "s", "m", "x"]), run_rules, "through rules", chunk=2, timeout=120),
        Space("total", ((s, n) for s in META), run_total, "strings of metacharacters", chunk=1, timeout=600),
        Space("total-shorter", (("", k) for k in range(n)), run_total, "shorter strings", chunk=1, timeout=600),
        Space("huge", itertools.product(HUGE, ["/@/", "m{@}i", "/@", "@/", "@", "m@", "/@/q", "/a/@"]), run_huge, "odd patterns", chunk=2, timeout=60),
    ]
