"""C36: tag replacement only rewrites the listed rules."""
import itertools
import os
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of patterns made of tags, meta tags and literals; each rule is compared on every text of a bounded language with a rule that has the documented expansion as its pattern, on the real parser and engine"
LEVEL_NOTE = "All patterns of up to 4 (5 in thorough) of 7 tokens, with each of 8 sets of meta tags, listed and not listed, on all texts of up to 4 of 5 characters; four pairs of start and end strings; all rule types; every order and placement of the definitions, also in user preferences."
ASSUMPTIONS = ["one meta tag of each kind in a rule: what several of one kind mean is not documented", "replace_post comes after each tag, replace_inter between adjacent ones, as SpamAssassin and the tests have it (the descriptions in docs are exchanged)"]

PLUGIN = "loadplugin oa.plugins.replace_tags.ReplaceTags\n"
TAGS = {"A": "[ab]", "B": "c", "AB": "(?:aa|b)"}
METAS = {"pre": ("P", "(?:"), "post": ("Q", ")+"), "inter": ("I", "-?")}
LITERALS = ["a", "Z", "-"]
MARKS = [("<", ">"), ("{{", "}}"), ("%", "%"), ("[[", ">"), ("(?#", ")")]
KINDS = [(), ("pre", "post"), ("inter",), ("pre", "post", "inter"), ("unknown",), ("post2",), ("pre2", "inter"), ("inter2",)]
EXTRA = {"post2": ("post", "T", "{2}"), "pre2": ("pre", "U", "-?"), "inter2": ("inter", "J", "b")}
TEXTS = ["".join(t) for n in range(5) for t in itertools.product("abc-Z", repeat=n)]


def definitions(marks, words=""):
    out = "" if marks == ("<", ">") else "replace_start %s\nreplace_end %s\n" % marks
    out += "".join("replace_tag %s %s\n" % t for t in sorted(TAGS.items()))
    out += "".join("replace_%s %s %s\n" % ((k,) + v) for k, v in sorted(METAS.items()))
    return out + "".join("replace_%s %s %s\n" % v for v in EXTRA.values())


def written(tokens, kinds, marks):
    """The pattern as in the configuration."""
    start, end = marks
    out = ""
    for k in kinds:
        if k in METAS:
            out += "%s%s %s%s" % (start, k, METAS[k][0], end)
        elif k in EXTRA:
            out += "%s%s %s%s" % (start, EXTRA[k][0], EXTRA[k][1], end)
    return out + "".join("%s%s%s" % (start, t[1:], end) if t[0] == "@" else t for t in tokens)


def expanded(tokens, kinds):
    """What it stands for."""
    meta = {"pre": "", "post": "", "inter": ""}
    for k in kinds:
        if k in METAS:
            meta[k] = METAS[k][1]
        elif k in EXTRA:
            meta[EXTRA[k][0]] = EXTRA[k][2]
    out = ""
    for i, t in enumerate(tokens):
        if t[0] != "@":
            out += t
            continue
        out += meta["pre"] + TAGS[t[1:]] + meta["post"]
        if i + 1 < len(tokens) and tokens[i + 1][0] == "@":
            out += meta["inter"]
    return out


def spaces(tier):
    deep = tier == "thorough"
    from mc.core import Space
    tokens = ["@A", "@B", "@AB"] + LITERALS
    words = [w for n in range(1, 6 if deep else 5) for w in itertools.product(tokens, repeat=n) if any(t[0] == "@" for t in w)]
    size = 60

    def language():
        for kinds in KINDS:
            for i in range(0, len(words), size):
                yield (kinds, words[i:i + size])

    def texts(rs, rec, names, want, label):
        """Every text, in one header of one message each."""
        for text in TEXTS:
            hits = set(env.matched(env.check(rs, "Subject: s\nX-T: =%s=\n\nb\n" % text)))
            for name in names:
                rec.state((name, text))
                match = bool(want[name].search("=%s=" % text))
                if match != (name in hits):
                    rec.fail(label, "%s %s the text %r" % (name, "does not match" if match else "matches", text), pattern=want[name].pattern)
                    return

    def run(case, rec):
        kinds, part = case
        marks = MARKS[0]
        conf, want, listed = PLUGIN + definitions(marks), {}, []
        for i, w in enumerate(part):
            name = "R%d" % i
            pattern = "=" + expanded(w, kinds) + "="
            try:
                want[name] = re.compile(pattern)
            except re.error:
                continue
            conf += "header %s X-T =~ /=%s=/\n" % (name, written(w, kinds, marks))
            listed.append(name)
        conf += "".join("replace_rules %s\n" % " ".join(listed[i:i + 7]) for i in range(0, len(listed), 7))
        rec.step()
        texts(env.build(conf), rec, list(want), want, "language/%s" % "+".join(kinds or ("plain",)))
        rec.trace()

    SHORT = [("@A",), ("@A", "@B"), ("a", "@AB"), ("@A", "-", "@A"), ("@B", "@B", "@A"), ("Z", "@AB", "@B", "Z")]

    def marks_cases():
        for marks in MARKS[:4]:
            for kinds in KINDS:
                yield (marks, kinds)

    def run_marks(case, rec):
        marks, kinds = case
        conf, want = PLUGIN + definitions(marks), {}
        for i, w in enumerate(SHORT):
            conf += "header R%d X-T =~ /=%s=/\nheader N%d X-T =~ /=%s=/\n" % (i, written(w, kinds, marks), i, re.escape(written(w, (), marks)).replace("/", "\\/"))
            want["R%d" % i] = re.compile("=" + expanded(w, kinds) + "=")
        conf += "replace_rules " + " ".join("R%d" % i for i in range(len(SHORT))) + "\n"
        rs = env.build(conf)
        texts(rs, rec, list(want), want, "marks/%s%s" % marks)
        # Rules that are not listed have the text of the tags itself.
        for i, w in enumerate(SHORT):
            for j, v in enumerate(SHORT):
                rec.step()
                hits = env.matched(env.check(rs, "Subject: s\nX-T: =%s=\n\nb\n" % written(v, (), marks)))
                rec.check("unlisted/%s%s" % marks, "N%d" % i in hits, i == j, rule=written(w, (), marks), text=written(v, (), marks))
        rec.trace()

    TYPES = {"header": ("header %s X-T =~ /%s/\n", "X-T: %s\nSubject: s\n\nb\n"), "body": ("body %s /%s/\n", "Subject: s\n\n%s\n"), "rawbody": ("rawbody %s /%s/\n", "Subject: s\n\n%s\n"),
             "full": ("full %s /%s/\n", "Subject: s\n\n%s\n"), "uri": ("uri %s /http:\\/\\/%s/\n", "Subject: s\n\nhttp://%s.example/\n"), "raw": ("header %s X-T:raw =~ /%s/\n", "X-T: %s\nSubject: s\n\nb\n"),
             "mime": ("mimeheader %s X-T =~ /%s/\n", "Subject: s\nMime-Version: 1.0\nContent-Type: multipart/mixed; boundary=bb\n\n--bb\nContent-Type: text/plain\nX-T: %s\n\nb\n--bb--\n"),
             "not": ("header %s X-T !~ /%s/\n", "X-T: %s\nSubject: s\n\nb\n")}

    # The lines of the configuration, in an order that may be anything.
    ORDERS = list(itertools.permutations(("tags", "rules", "list", "other")))

    def order_cases():
        for kind in TYPES:
            for order in ORDERS:
                for split in range(5):
                    yield (kind, order, split)

    def run_order(case, rec):
        kind, order, split = case
        rule, message = TYPES[kind]
        parts = {"tags": "replace_tag A [ab]4\nreplace_tag B zz\nreplace_tag A [ab]5\nreplace_tag C\nreplace_pre P (?:\nreplace_post P ){2}\nreplace_inter P -\n",
                 "rules": rule % ("L1", "x<A>y") + rule % ("L2", "<pre P><post P><inter P>x<A><A>y") + rule % ("N1", "x<A>y") + rule % ("L3", "x<Nope>y") + rule % ("L4", "x<C>y") + rule % ("L5", "x<a>y"),
                 "list": "replace_rules L1 L2\nreplace_rules L3 Missing L4\nreplace_rules L5 L1\nreplace_rules Only\n",
                 "other": "describe Only nothing\nscore Only 3\nmeta M1 L1 && !L2\nreplace_rules M1\nbody E1 eval:nothing_like_it()\nreplace_rules E1\nscore L1 2\n"}
        if kind == "uri":
            parts["rules"] = parts["rules"].replace("<Nope>", "<Nope>")
        texts = [parts[o] for o in order]
        rec.step()
        site, prefs = PLUGIN + "".join(texts[:split]), "".join(texts[split:])
        rs = env.build(*([site] + ([prefs] if prefs else [])))
        for value, want in (("xa5y", ["L1"]), ("xb5y", ["L1"]), ("xa4y", []), ("xa5b5-b5a5y", ["L2"]), ("xa5b5b5a5y", []), ("x<A>y", ["N1"]), ("x<Nope>y", ["L3"]), ("x<C>y", ["L4"]), ("x<a>y", ["L5"]), ("xzzy", []), ("nothing", [])):
            rec.step()
            if kind == "uri" and "<" in value:
                # Ends the link.
                continue
            got = env.matched(env.check(rs, message % value))
            if kind == "not":
                want = [n for n in ("L1", "L2", "N1", "L3", "L4", "L5") if n not in want]
            want = set(want) | ({"M1"} if "L1" in want and "L2" not in want else set())
            rec.check("order/%s" % kind, sorted(n for n in got if n != "Only"), sorted(want), value=value, order=order, split=split)
        rec.trace()

    def user_cases():
        for first in range(2 ** 4):
            for history in ((0,), (1,), (0, 1), (1, 0), (1, 1, 0)):
                yield (first, history)

    def run_user(case, rec):
        """The user's lines come after those of the site."""
        from mc import site
        bits, history = case
        lines = ["replace_tag A [ab]4\n", "header L1 X-T =~ /x<A>y/\n", "replace_rules L1\n", "header L2 X-T =~ /u<A>v/\nreplace_rules L2\n"]
        conf = PLUGIN + "allow_user_rules 1\nreport _TESTS_\n" + "".join(l for i, l in enumerate(lines) if bits >> i & 1)
        prefs = "".join(l for i, l in enumerate(lines) if not bits >> i & 1) + "replace_tag B q\nscore L1 2\n"
        with site.Homes().installed():
            site.put_prefs("/home/u1/.spamassassin/user_prefs", prefs)
            server = site.make_server(conf)
            try:
                plain, user = env.build(conf), env.build(conf, prefs)
                for n, who in enumerate(history):
                    rs = server.get_user_ruleset("u1" if who else None)
                    for value in ("xa4y", "ub4v", "x<A>y", "u<A>v", "xx"):
                        rec.step()
                        text = "X-T: %s\nSubject: s\n\nb\n" % value
                        rec.check("user/%s" % ("prefs" if who else "site"), sorted(env.matched(env.check(rs, text))), sorted(env.matched(env.check(user if who else plain, text))), value=value, n=n)
            finally:
                server.server_close()
        rec.trace()

    return [Space("language", language(), run, "every pattern over tags, meta tags and literals, on every text", chunk=1, timeout=600),
            Space("marks", marks_cases(), run_marks, "start and end strings", chunk=1, timeout=600),
            Space("order", order_cases(), run_order, "rule types x orders of the lines x the file they are in", chunk=8),
            Space("user", user_cases(), run_user, "what the site and what the user defines x requests", chunk=4)]
