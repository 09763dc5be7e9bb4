"""C30: the Bayes counts are exactly those of the learned messages."""
import itertools

from mc import bayes, env

TECHNIQUE = "explicit-state exploration to the fixpoint of the real plugin and its stores on a real database: every operation on every message in every reachable database, against a model of who is learned as what"
LEVEL_NOTE = "Sets of up to 4 messages (common and own words, no identifier, odd identifiers, no text, several parts), 4 operations, both stores, all reachable databases; learning and forgetting of every text of up to 2 fragments (3 in thorough) out of 31; all TELL histories up to length 3."
ASSUMPTIONS = ["the MySQL store runs on a stand-in for pymysql over SQLite", "messages with the same identifier are the same message", "the tokens of a message are those its learning adds to an empty database (which include its plain words)"]

HEAD = "Received: from a.example (a.example [45.1.2.3]) by mx.example with SMTP id 1; Mon, 1 Jan 2018 00:00:00 +0000\n"
MESSAGES = {
    "plain": HEAD + "Message-ID: <1@x.example>\nSubject: cheap offers\nFrom: a@b.example\n\nviagra pills cheap\n",
    "overlap": HEAD + "Message-ID: <2@x.example>\nSubject: meeting notes\nFrom: c@d.example\n\nviagra meeting tomorrow\n",
    "same-words": HEAD + "Message-ID: <3@x.example>\nSubject: cheap offers\nFrom: a@b.example\n\nviagra pills cheap\n",
    "no-id": "Date: Mon, 1 Jan 2018 00:00:00 +0000\nSubject: invoice\n\nviagra invoice attached\n",
    "odd-id": HEAD + u"Message-ID: <it's;--\u00e9 \"%s\" ?@x.example>\nSubject: x\n\npills overdue\n",
    "empty": "Message-ID: <5@x.example>\n\n",
    "bare": "viagra",
    "multipart": "Message-ID: <6@x.example>\nMIME-Version: 1.0\nContent-Type: multipart/alternative; boundary=BB\nSubject: news\n\n--BB\nContent-Type: text/plain\n\nweekly a@b.example news x.example\n--BB\nContent-Type: text/html\n\n<p>weekly news</p>\n--BB--\n",
    "bad-date": "Received: from q (q [45.1.2.4]) by mx; when it was time\nMessage-ID: <7@x.example>\nSubject: overdue\n\nmeeting x.example\n",
    "future": "Received: from q (q [45.1.2.4]) by mx; Mon, 1 Jan 2035 00:00:00 +0000\nMessage-ID: <8@x.example>\nSubject: tomorrow\n\nmeeting tomorrow\n",
}
IDS = {"plain": "1@x.example", "overlap": "2@x.example", "same-words": "3@x.example", "empty": "5@x.example", "multipart": "6@x.example", "bad-date": "7@x.example", "future": "8@x.example", "odd-id": u"it's;--\u00e9 \"%s\" ?@x.example"}
SETS = [("plain",), ("plain", "overlap"), ("plain", "same-words", "overlap"), ("plain", "no-id", "empty"), ("odd-id", "multipart", "plain"), ("bare", "no-id", "bad-date"), ("future", "bad-date", "overlap"),
        ("empty", "bare"), ("multipart", "bad-date", "plain")]
DEEP = [("plain", "overlap", "same-words", "no-id"), ("odd-id", "multipart", "bad-date", "future"), ("empty", "bare", "overlap", "plain"), ("no-id", "multipart", "future", "same-words"), ("plain", "overlap", "no-id", "bad-date", "empty")]
OPS = ("spam", "ham", "forget", "check")
_worlds = {}


def world(store, config="", minimum=0):
    import os
    key = (os.getpid(), store, config, minimum)
    if key not in _worlds:
        _worlds.clear()
        _worlds[key] = bayes.World(store, config, minimum)
    w = _worlds[key]
    bayes.backend(store)
    w.db.load(w.db.empty)
    return w


def ids(w, names):
    return {n: IDS.get(n) or w.message(MESSAGES[n]).msgid for n in names}


def run_states(case, rec):
    store, names = case
    w = world(store)
    tokens = {n: w.tokens(MESSAGES[n]) for n in names}
    idof = ids(w, names)
    if len(set(idof.values())) != len(names):
        rec.fail("%s/ids" % store, "different messages have the same identifier", identifiers=idof)
        return
    for n in names:
        words = [x for x in MESSAGES[n].split("\n\n", 1)[-1].split() if x.isalpha() and len(x) > 3] if n not in ("bare", "multipart") else []
        missing = [x for x in words if bayes.token(x) not in tokens[n]]
        if missing:
            rec.fail("%s/words" % store, "words of a message are not learned", message=n, words=missing)
    start = tuple((n, None) for n in names)
    seen = {start: w.db.empty}
    how = {start: ()}
    todo = [start]
    first = True
    while todo:
        state = todo.pop(0)
        rec.state((store, names, state))
        for op, name in itertools.product(OPS, names):
            w.db.load(seen[state])
            msgs = {n: w.message(MESSAGES[n]) for n in names}
            model = dict(state)
            if op != "check":
                model[name] = None if op == "forget" else op
            history = how[state] + ((op, name),)
            rec.step()
            try:
                w.do(op, msgs[name])
                got = w.db.dump()
            except Exception as e:
                rec.fail("%s/%s-fails" % (store, op), "%s fails: %r" % (op, e), history=history)
                continue
            bad = bayes.difference(got, bayes.expected(model, tokens, idof))
            if bad:
                rec.fail("%s/%s" % (store, op), "after %s: %s" % (" ".join("%s %s," % h for h in history), bad), history=history)
                continue
            new = tuple(sorted(model.items()))
            new = tuple((n, model[n]) for n in names)
            if new not in seen:
                seen[new] = w.db.save()
                how[new] = history
                todo.append(new)
            if first and op == "spam":
                first = False
                rec.sample(dict(store=store, history=history, dump=repr(got)[:300]))
    rec.trace()


FRAGMENTS = ["word", "Word", "it", "a@b.example", "joe@mail.example.com", "x.com", "www.example.com", "e.g.", "a.b.c.d", "...", "one...two", "so--what", "--", "'quoted'", "\"both\"", "f*ck", "$31,000,000", "supercalifragilistic", "very*long*with*stars*in",
             u"\u00e9t\u00e9", u"\u00e9\u00e8\u00ea\u00eb\u00e0\u00e2\u00ee\u00ef\u00f4\u00f9\u00fb\u00fc\u00e7\u00e9\u00e8\u00ea\u00eb", u"\u4e2d\u6587\u4e2d\u6587\u4e2d\u6587\u4e2d\u6587\u4e2d\u6587", u"\U0001f600", "\x00\x01", "\n\n", "\n", " \t ", "http://www.example.com/a.b?c=d", "@@@", "_a_.b", "sk:already"]
HEADERS = ["From: a@b.example", "From: \"A B\" <a.b@mail.example.com>, c@d.example", "To: joe", "Received: from a (b [45.1.2.3]) by c with ESMTP id ABCDEF0123; Mon, 1 Jan 2018 00:00:00 +0000", "Received: x", "Message-ID: <0123abcd4567$89abcdef$01234567@x.example>",
           "Message-ID: <20180101000000.ABCDEF012345@x.example>", "X-Mailer: Foo 1.0", "User-Agent: bar", "Content-Type: text/plain; charset=utf-8; boundary='a-b_c=d'", "Content-Type: text/plain; boundary=\"0f-=_.\"", "MIME-Version: 1.0", "DKIM-Signature: v=1; d=x.example", "References: <1@x> <2@y>",
           "X-Empty:", u"X-Odd: \u00e9\u00e8 =?utf-8?q?=C3=A9?=", "Subject: =?utf-8?q?=C3=A9t=C3=A9?= words", "X-Long: " + "a" * 300, "Date: x", "x-lower: a.b", "Reply-To: <>"]


def run_tokens(case, rec):
    store, kind, group = case
    w = world(store)
    for parts in group:
        if kind == "body":
            text = "Message-ID: <1@x.example>\n\n" + " ".join(parts) + "\n"
        else:
            text = "\n".join(parts) + "\n\nwords of text\n"
        key = "%s/text" % store
        rec.state((store, text))
        rec.step(3)
        w.db.load(w.db.empty)
        try:
            w.do("spam", w.message(text))
            one = w.db.dump()
            w.db.load(w.db.empty)
            w.do("ham", w.message(text))
            two = w.db.dump()
            w.do("forget", w.message(text))
            none = w.db.dump()
        except Exception as e:
            rec.fail(key + "-fails", "learning a message fails: %r" % e, message=text)
            continue
        rec.check(key, (one[0], list(one[1].values()), set(one[2].values()) - {(1, 0)}), ((1, 0), ["s"], set()), message=text, what="learned as spam")
        rec.check(key, (two[0], list(two[1].values()), set(two[2].values()) - {(0, 1)}), ((0, 1), ["h"], set()), message=text, what="learned as ham")
        rec.check(key, set(one[2]) == set(two[2]), True, message=text, what="the same tokens as spam and as ham")
        rec.check(key, none, ((0, 0), {}, {}), message=text, what="learned and forgotten")
        words = [p for p in parts if p in ("word", "word", "f*ck")] if kind == "body" else ["words", "text"]
        rec.check(key, [x for x in words if bayes.token(x) not in one[2]], [], message=text, what="words that are not learned")
    rec.trace()


def tell(kind):
    return ("spam", "Set", "local") if kind == "spam" else ("ham", "Set", "local")


def run_daemon(case, rec):
    store, history = case
    w = world(store)
    names = ("plain", "overlap")
    tokens = {n: w.tokens(MESSAGES[n]) for n in names}
    model = dict.fromkeys(names)
    rec.state((store, history))
    for op, name in history:
        rec.step()
        if op == "check":
            env.ask(w.rs, "CHECK", MESSAGES[name])
        else:
            env.ask(w.rs, "TELL", MESSAGES[name], **{"Message-class": op, "Set": "local"})
            model[name] = op
        bad = bayes.difference(w.db.dump(), bayes.expected(model, tokens, IDS))
        if bad:
            rec.fail("%s/daemon" % store, "after %s: %s" % (" ".join("%s %s," % h for h in history), bad), history=history)
            return
    rec.trace()


def run_off(case, rec):
    store, config, learns = case
    w = world(store, config)
    rec.state(case)
    for op in ("spam", "ham"):
        rec.step()
        w.do(op, w.message(MESSAGES["plain"]))
        rec.check("%s/off" % store, bool(w.db.dump()[1]), learns, config=config, operation=op)
    rec.trace()


def groups(items, size):
    items = list(items)
    return [tuple(items[i:i + size]) for i in range(0, len(items), size)]


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    stores = ("sqlalchemy", "mysql")
    steps = [(op, n) for op in ("spam", "ham", "check") for n in ("plain", "overlap")]
    bodies = [c for k in range(0, 4 if deep else 3) for c in itertools.product(FRAGMENTS, repeat=k)]
    heads = [c for k in range(0, 3) for c in itertools.product(HEADERS, repeat=k)]
    return [
        Space("states", [(s, n) for n in SETS + (DEEP if deep else []) for s in stores], run_states, "every reachable database of a set of messages, every operation in each", chunk=1),
        Space("texts", [("sqlalchemy", "body", g) for g in groups(bodies, 40)] + [("mysql", "body", g) for g in groups(bodies[:200], 40)] + [("sqlalchemy", "header", g) for g in groups(heads, 40)], run_tokens, "learning and forgetting of every text and every pair of headers", chunk=1),
        Space("daemon", [("sqlalchemy", h) for k in (1, 2, 3) for h in itertools.product(steps, repeat=k)], run_daemon, "every history of TELL and CHECK requests", chunk=20),
        Space("off", [(s, c, l) for s in stores for c, l in (("use_bayes 0\n", False), ("use_bayes 1\n", True), ("use_bayes 0\nuse_bayes 1\n", True))], run_off, "learning switched off", chunk=1),
    ]
