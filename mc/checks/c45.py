"""C45: Bayes classifies by the tokens it has learned."""
import itertools
import os

from mc import bayes, env

TECHNIQUE = "exhaustive enumeration of learned corpora, stored counts and numbers of significant tokens on the real engine with a real database, against a reference implementation of the chi-squared combination; all switches and ignore lists against a model"
LEVEL_NOTE = "All ways to learn 4 messages (5 in thorough) x 8 messages, both stores; grids of stored counts for 1 and 2 words (3 in thorough); 140 to 400 tokens of every mixture of 5 strengths; all switches, minimum numbers and address patterns."
ASSUMPTIONS = ["the MySQL store runs on a stand-in for pymysql over SQLite", "the tokens of a message are those its learning adds to an empty database", "scores within 1e-9 of the edge of a band, and ties between different tokens at the 150th place, are skipped"]

HEAD = "Received: from a.example (a.example [45.1.2.3]) by mx.example with SMTP id 1; Mon, 1 Jan 2018 00:00:00 +0000\n"
CORPUS = {
    "pills": HEAD + "Message-ID: <1@x.example>\nSubject: cheap offers\nFrom: a@b.example\n\nviagra pills cheap http://pills.example/buy\n",
    "pills2": "Message-ID: <2@x.example>\nSubject: offers\nFrom: a@b.example\n\nviagra pills tablets 100% free\n",
    "meeting": HEAD + "Message-ID: <3@x.example>\nSubject: meeting notes\nFrom: c@d.example\n\nmeeting tomorrow viagra\n",
    "notes": "Message-ID: <4@x.example>\nSubject: notes\nFrom: e@d.example\n\nmeeting minutes attached agenda\n",
    "empty": "Message-ID: <5@x.example>\n\n",
}
ASKED = dict(CORPUS)
ASKED.update({
    "mixed": "Message-ID: <6@x.example>\nSubject: offers\n\nviagra meeting pills agenda\n",
    "new": "Subject: unseen\n\nnothing known here\n",
    "one": "X-Other: 1\n\nviagra\n",
})
_worlds, _base = {}, {}


ANY = "body ANY eval:check_bayes('0.00', '1.00')\nscore ANY 0.1\n"


def world(store, config="", minimum=1, rules=bayes.RULES):
    key = (os.getpid(), store, config, minimum, rules)
    if key not in _worlds:
        _worlds.clear()
        _worlds[key] = bayes.World(store, config, minimum, "45", rules)
    w = _worlds[key]
    bayes.backend(store)
    w.db.load(w.db.empty)
    return w


def classify(w, msg):
    """(the score or None, the rules that match)"""
    w.rs.match(msg)
    tag = msg.plugin_tags.get("BAYES")
    return None if tag in (None, "") else float(tag), sorted(n for n in env.matched(msg) if n.startswith("BAYES_"))


def judge(rec, key, w, msg, want, **info):
    got, hits = classify(w, msg)
    if (got is None) != (want is None) or (want is not None and abs(got - want) > 1e-6):
        rec.fail(key, "the score is %r, not %r" % (got, want), **info)
        return
    if want is not None and any(abs(want - float(e)) < 1e-9 for _, a, b in bayes.BANDS for e in (a, b) if float(e) not in (0, 1)):
        rec.count("at the edge of a band")
        return
    rec.check(key + "-rules", hits, sorted(bayes.bands(want)), **info)


def run_learned(case, rec):
    store, classes = case
    w = world(store)
    names = list(CORPUS)
    tokens = {n: w.tokens(t) for n, t in ASKED.items()}
    for n, c in zip(names, classes):
        if c:
            w.do(c, w.message(CORPUS[n]))
    totals, _, learned = w.db.dump()
    for n, text in ASKED.items():
        rec.step()
        rec.state((case, n))
        judge(rec, store + "/learned", w, w.message(text), bayes.score(tokens[n], learned, totals), corpus=dict(zip(names, classes)), message=n)
    rec.trace()


TOTALS = [(1, 1), (1, 4), (4, 1), (10, 10), (1000, 10), (7, 5000)]
COUNTS = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (4, 0), (0, 4), (4, 1), (1, 4), (10, 3), (3, 10), (7, 0)]


def store_counts(w, totals, counts):
    """Puts counts into the database: {word: (spam, ham)}"""
    if "base" not in _base:
        other = bayes.World(name="45base")
        m = other.message(CORPUS["empty"])
        other.do("spam", m)
        other.do("forget", m)
        other.db.run("DELETE FROM bayes_token")
        _base["base"] = other.db.save()
        _base["id"] = other.db.query("SELECT id FROM bayes_vars")[0][0]
    w.db.load(_base["base"])
    sql = ["UPDATE bayes_vars SET spam_count = %d, ham_count = %d" % totals]
    learned = {}
    for word, (s, h) in counts.items():
        if s or h:
            learned[bayes.token(word)] = (s, h)
            sql.append("INSERT INTO bayes_token VALUES (%d, x'%s', %d, %d, 1500000000)" % (_base["id"], bayes.token(word).hex(), s, h))
    w.db.run(*sql)
    return learned


def run_counts(case, rec):
    hapaxes, totals, first, more = case
    w = world("sqlalchemy", "bayes_use_hapaxes %d\n" % hapaxes)
    fit = [c for c in COUNTS if c[0] <= totals[0] and c[1] <= totals[1]]
    for counts in itertools.product(fit, repeat=more):
        counts = (first,) + counts
        words = ["alpha", "bravo", "charlie", "delta"][:len(counts)]
        learned = store_counts(w, totals, dict(zip(words, counts)))
        rec.step()
        rec.state((case, counts))
        msg = w.message("Subject: x\n\n%s\n" % " ".join(words))
        judge(rec, "counts", w, msg, bayes.score([bayes.token(x) for x in words], learned, totals, hapaxes=bool(hapaxes)), hapaxes=hapaxes, totals=totals, counts=counts)
    rec.trace()


KINDS = [(30, 0), (0, 30), (3, 0), (0, 2), (30, 20)]


def run_many(case, rec):
    mixture = case
    w = world("sqlalchemy", rules=ANY)
    counts = {}
    for kind, n in zip(KINDS, mixture):
        for _ in range(n):
            counts["word%04d" % (7 * len(counts) % 2003)] = kind
    learned = store_counts(w, (40, 40), counts)
    probs = sorted((abs(bayes.probability(s, h, 40, 40) - 0.5), bayes.probability(s, h, 40, 40)) for s, h in learned.values())[::-1]
    rec.state(case)
    rec.step()
    rec.trace()
    n = bayes.SIGNIFICANT
    if len(probs) > n:
        tied = set(p for d, p in probs if abs(d - probs[n][0]) < 1e-12) if abs(probs[n][0] - probs[n - 1][0]) < 1e-12 else ()
        if len(tied) > 1:
            rec.count("ambiguous")
            return
    msg = w.message("Subject: x\n\n%s\n" % "\n".join(sorted(counts)))
    got = classify(w, msg)[0]
    want = bayes.score(list(learned), learned, (40, 40))
    if got is None or want is None or abs(got - want) > 1e-6:
        rec.check("many", got, want, mixture=mixture)


def run_switches(case, rec):
    options, totals, minimum = case
    config = "".join("%s %d\n" % o for o in options) + "bayes_min_spam_num %d\nbayes_min_ham_num %d\n" % minimum
    w = world("sqlalchemy", config)
    learned = store_counts(w, totals, {"alpha": (min(totals[0], 2), 0), "bravo": (0, min(totals[1], 1))})
    rec.state(case)
    rec.step()
    rec.trace()
    on = dict(options)
    want = None
    if all(on[k] for k in ("use_bayes", "use_learner", "use_bayes_rules")) and totals[0] >= minimum[0] and totals[1] >= minimum[1]:
        want = bayes.score([bayes.token("alpha"), bayes.token("bravo")], learned, totals, 0, bool(on["bayes_use_hapaxes"]))
    judge(rec, "switches", w, w.message("Subject: x\n\nalpha bravo\n"), want, options=options, totals=totals, minimum=minimum)


PATTERNS = ["joe@a.example", "*@a.example", "a.example", "*@*.a.example", "j?e@a.example", "JOE@A.EXAMPLE", "joe@a", "*.example", "oe@a.example", "joe@a.example, x@y.example", "x@y.example, *@b.example"]
ADDRESSES = ["joe@a.example", "Joe@A.example", "ann@a.example", "joe@sub.a.example", "joe@a.example.org", "moejoe@a.example", "joe@b.example", "joe@axexample", "j.e@a.example"]


def covered(option, address):
    import fnmatch
    for p in option.split(","):
        p = p.strip().lower()
        if "@" not in p:
            p = "*@" + p
        if fnmatch.fnmatchcase(address.lower(), p):
            return True
    return False


def run_ignored(case, rec):
    froms, tos = case
    config = "".join("bayes_ignore_%s %s\n" % (k, v) for k, v in (("from", froms), ("to", tos)) if v)
    w = world("sqlalchemy", config)
    learned = store_counts(w, (4, 4), {"alpha": (4, 0)})
    for sender, to in itertools.product(ADDRESSES, repeat=2):
        rec.step()
        rec.state((case, sender, to))
        msg = w.message("From: Joe Doe <%s>\nTo: other@z.example, Some One <%s>\nSubject: x\n\nalpha\n" % (sender, to))
        want = bayes.score([bayes.token("alpha")], learned, (4, 4))
        if froms and covered(froms, sender) or tos and (covered(tos, to) or covered(tos, "other@z.example")):
            want = None
        judge(rec, "ignored", w, msg, want, ignore_from=froms, ignore_to=tos, sender=sender, to=to)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    classes = [c if deep else c + (None,) for c in itertools.product((None, "spam", "ham"), repeat=5 if deep else 4)]
    if not deep:
        classes += [("spam", None, None, "ham", "spam"), ("spam", None, "ham", None, "ham")]
    names = ("use_bayes", "use_learner", "use_bayes_rules", "bayes_use_hapaxes")
    counts = [(h, t, c, 2 if deep else 1) for h in (1, 0) for t in TOTALS for c in COUNTS if c[0] <= t[0] and c[1] <= t[1]]
    counts += [(h, t, c, 0) for h, t, c, _ in counts]
    grid = (0, 1, 75, 149, 150, 151) if deep else (0, 1, 75, 150)
    many = [m for m in itertools.product(grid, repeat=5) if 140 <= sum(m) <= (400 if deep else 330)]
    return [
        Space("learned", [(s, c) for s in ("sqlalchemy", "mysql") for c in classes], run_learned, "every way to learn the corpus, every message asked", chunk=2),
        Space("counts", counts, run_counts, "stored counts of the words of a message", chunk=1),
        Space("many", many, run_many, "more tokens than are significant", chunk=4),
        Space("switches", [(tuple(zip(names, o)), t, m) for o in itertools.product((1, 0), repeat=4) for t in ((1, 1), (2, 2), (3, 2), (2, 3), (0, 2), (2, 0)) for m in ((1, 1), (2, 2), (3, 1), (0, 3), (0, 0))], run_switches, "switches and minimum numbers", chunk=5),
        Space("ignored", [(f, "") for f in PATTERNS] + [("", f) for f in PATTERNS] + list(itertools.product(PATTERNS[:4], repeat=2)), run_ignored, "senders and recipients not to be judged", chunk=1),
    ]
