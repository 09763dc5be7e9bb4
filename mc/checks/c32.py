"""C32: the auto-whitelist keeps the true history of each sender."""
import ipaddress
import itertools
import threading

from mc import bayes, env

TECHNIQUE = "exhaustive enumeration of histories of checked messages on the real plugin, its stores and a real database, and of all interleavings of the database sessions of concurrent checks, against a model of the senders' histories"
LEVEL_NOTE = "All histories of up to 3 messages (4 in thorough) out of 14 over senders, networks, signers and scores, both stores; all factors and network sizes; all session interleavings of 2 and 3 concurrent checks."
ASSUMPTIONS = ["the MySQL store runs on a stand-in for pymysql over SQLite", "the AWL rule is the last to run, as it has to be", "a session of the database is a transaction of its own: checks interleave between sessions"]

IPS = {"a": "45.1.2.3", "a2": "45.1.99.9", "a3": "45.2.2.3", "b": "46.0.0.1", "six": "2a00:1450:4001:81d::1", "six2": "2a00:1450:4001:9::7", "six3": "2a00:1450:4002::1", "priv": "10.1.2.3"}


def mail(sender, net, signer, score):
    head = ""
    for n in (net or "").split():
        ip = IPS[n]
        head += "Received: from h.example (h.example [%s]) by mx.example (Postfix) with SMTP id 1; Mon, 1 Jan 2018 00:00:00 +0000\n" % ("IPv6:" + ip if ":" in ip else ip)
    if sender:
        head += "From: Some One <%s>\n" % sender
    if signer:
        head += "DKIM-Signature: v=1; a=rsa-sha256; d=%s; s=s; h=from; bh=x; b=y\n" % signer
    return head + "Message-ID: <1@x.example>\nSubject: x\n\n" + " ".join("score%s" % str(s).replace("-", "minus") for s in score) + "\n"


SCORES = (-3, 1, 4, 10)
RULES = "".join("body S%d /score%s\\b/\nscore S%d %s\n" % (i, str(s).replace("-", "minus"), i, s) for i, s in enumerate(SCORES))
PLUGIN = "loadplugin oa.plugins.awl.AutoWhiteListPlugin\nheader AWL eval:check_from_in_auto_whitelist()\npriority AWL -1000\n"
A, B = "a@x.example", "b@y.example"
POOL = [(A, "a", "", (4,)), (A, "a", "", (10, 1)), (A, "a2", "", (-3,)), (A, "b", "", (4,)), (A, "a", "x.example", (10,)), (B, "a", "", (1,)), (B, "a", "", ()), ("", "a", "", (4,)), (A, "", "", (10,)), (A, "priv", "", (-3,)), (A, "six", "", (1,)),
        (A, "a b", "", (10,)), (B, "six2 priv", "y.example", (4, -3)), ("it's@x.example", "a3", "", (10,))]
_worlds = {}


def world(store, config=""):
    import os
    import oa.plugins.awl
    import pymysql
    bayes.backend(store)
    oa.plugins.awl.pymysql = pymysql
    if "has" not in _worlds:
        _worlds["has"] = oa.plugins.awl.has_sqlalchemy
    oa.plugins.awl.has_sqlalchemy = _worlds["has"] and store != "mysql"
    key = (os.getpid(), store, config)
    if key not in _worlds:
        has = _worlds["has"]
        _worlds.clear()
        _worlds["has"] = has
        db = bayes.DB("awl.db")
        _worlds[key] = (db, ruleset(db, store, config))
    db, rs = _worlds[key]
    db.load(db.empty)
    return db, rs


def ruleset(db, store, config=""):
    return env.build(PLUGIN + db.sql(store, "user_awl") + RULES + config)


def rows(db):
    return {(u, e, i, s): (c, round(t, 6)) for u, e, i, s, c, t in db.query("SELECT username, email, ip, signedby, count, totscore FROM awl") if c}


def network(nets, four=16, six=48):
    """The network a message comes from, as it is stored."""
    for n in reversed((nets or "").split()):
        ip = ipaddress.ip_address(IPS[n])
        if not ip.is_private:
            net = ipaddress.ip_network("%s/%d" % (ip, four if ip.version == 4 else six), strict=False)
            out = str(net.network_address)
            if ip.version == 4:
                for _ in range(3):
                    if out.endswith(".0"):
                        out = out[:-2]
            return out
    return "none"


class Model(object):
    def __init__(self, user, factor=0.5, four=16, six=48):
        self.user, self.factor, self.four, self.six = user, factor, four, six
        self.hist = {}

    def check(self, m):
        """The score, the adjustment and mean (None if there is none)."""
        sender, nets, signer, scores = m
        pre = float(sum(scores))
        key = (self.user, sender, network(nets, self.four, self.six), signer)
        none = (self.user, sender, "none", signer)
        if key not in self.hist and none in self.hist:
            self.hist[key] = self.hist.pop(none)
        n, total = self.hist.get(key, (0, 0.0))
        self.hist[key] = (n + 1, round(total + pre, 6))
        if not n:
            return pre, None, None, None
        mean = total / n
        delta = self.factor * (mean - pre)
        return pre + delta, delta, mean, n


def play(rec, key, db, rs, model, history, **info):
    for i, m in enumerate(history):
        rec.step()
        want, delta, mean, n = model.check(m)
        msg = env.check(rs, mail(*m))
        got = msg.score
        info.update(history=history[:i + 1])
        if abs(got - want) > 1e-6:
            rec.fail(key, "the score is %r, not %r" % (got, want), **info)
            return
        tags = [msg.plugin_tags.get(t) for t in ("AWL", "AWLMEAN", "AWLCOUNT", "AWLPRESCORE")]
        wtags = [None] * 4 if delta is None else ["%2.1f" % x for x in (delta, mean, n, sum(m[3]))]
        rec.check(key + "-tags", tags, wtags, **info)
        if not rec.check(key + "-history", rows(db), model.hist, **info):
            return


def run_history(case, rec):
    store, history = case
    db, rs = world(store)
    rec.state(case)
    play(rec, store, db, rs, Model(rs.ctxt.username), history)
    rec.trace()


def run_config(case, rec):
    store, factor, four, six = case
    db, rs = world(store, "auto_whitelist_factor %s\nauto_whitelist_ipv4_mask_len %d\nauto_whitelist_ipv6_mask_len %d\n" % (factor, four, six))
    for nets in itertools.product(IPS, repeat=2):
        db.load(db.empty)
        rec.state((case, nets))
        play(rec, store + "/config", db, rs, Model(rs.ctxt.username, float(factor), four, six), [(A, n, "", (s,)) for n, s in zip(nets, (4, 10))], config=case)
    rec.trace()


def run_users(case, rec):
    store, order = case
    db, rs = world(store)
    models = {u: Model(u) for u in ("alice", "bob")}
    whole = {}
    rec.state(case)
    user = rs.ctxt.username
    try:
        for u, m in order:
            rec.step()
            rs.ctxt.username = u
            want = models[u].check(POOL[m])[0]
            got = env.check(rs, mail(*POOL[m])).score
            whole.update(models["alice"].hist)
            whole.update(models["bob"].hist)
            rec.check(store + "/users", round(got, 6), round(want, 6), order=order)
            rec.check(store + "/users", rows(db), whole, order=order)
    finally:
        rs.ctxt.username = user
    rec.trace()


# ------------------------------------------------------- concurrent checks
class Turns(object):
    """Runs threads one at a time, switching where one opens a session."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.points, self.choices = [], []
        self.cond = threading.Condition()
        self.live, self.current = [], None
        self.me = threading.local()

    def choose(self, ready):
        if len(ready) == 1:
            return ready[0]
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((len(ready), [0] * len(ready)))
        self.choices.append(c)
        return ready[c]

    def point(self):
        me = getattr(self.me, "n", None)
        if me is None:
            return
        with self.cond:
            ready = sorted(self.live, key=lambda n: (n != me, n))
            self.current = self.choose(ready)
            self.cond.notify_all()
            while self.current != me:
                self.cond.wait()

    def run(self, jobs):
        errors = []

        def body(n, job):
            self.me.n = n
            with self.cond:
                while self.current != n:
                    self.cond.wait()
            try:
                job()
            except BaseException as e:
                errors.append(e)
            with self.cond:
                self.live.remove(n)
                if self.live:
                    self.current = self.choose(sorted(self.live))
                self.cond.notify_all()
        self.live = list(range(len(jobs)))
        threads = [threading.Thread(target=body, args=(n, j), daemon=True) for n, j in enumerate(jobs)]
        for t in threads:
            t.start()
        with self.cond:
            self.current = self.choose(list(self.live))
            self.cond.notify_all()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]


def run_concurrent(case, rec):
    from mc.core import explore_choices
    store, before, msgs = case
    db, rs = world(store)
    sets = [rs] + [ruleset(db, store) for _ in msgs[1:]]
    for m in before:
        env.check(rs, mail(*m))
    base = db.save()
    wanted = []
    for order in itertools.permutations(msgs):
        model = Model(rs.ctxt.username)
        for m in list(before) + list(order):
            model.check(m)
        if model.hist not in wanted:
            wanted.append(model.hist)
    turns = [None]

    def hook(what):
        if what == "begin":
            turns[0].point()

    def run(prefix):
        db.load(base)
        turns[0] = t = Turns(prefix)
        t.run([lambda r=r, m=m: env.check(r, mail(*m)) for r, m in zip(sets, msgs)])
        rec.step(len(msgs))
        rec.state((case, tuple(t.choices)))
        return t.points, t.choices, rows(db)

    def result(choices, points, got):
        rec.trace()
        rec.check(store + "/concurrent", got, got if got in wanted else wanted[0], before=before, messages=msgs, schedule=choices)
    bayes.HOOK = hook
    try:
        runs, capped = explore_choices(run, 99, result)
        rec.count("schedules", runs)
    finally:
        bayes.HOOK = None


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    hist = [c for k in range(1, 5 if deep else 4) for c in itertools.product(POOL, repeat=k)]
    conc = [(s, before, m) for s in ("sqlalchemy", "mysql") for before in ((), (POOL[0],), (POOL[8],)) for m in list(itertools.product((POOL[0], POOL[1], POOL[3], POOL[5]), repeat=2)) + ([(POOL[0], POOL[1], POOL[2])] if deep or not before else [])]
    if not deep:
        conc = [c for c in conc if not (c[0] == "mysql" and c[1] == (POOL[8],))]
    return [
        Space("histories", [("sqlalchemy", h) for h in hist] + [("mysql", h) for h in hist if len(h) < (4 if deep else 3)], run_history, "every history of checked messages", chunk=40),
        Space("config", [(s, f, a, b) for s in ("sqlalchemy", "mysql") for f in ("0", "0.5", "1") for a in (8, 16, 24, 32) for b in (48, 64)], run_config, "factors and network sizes, all pairs of networks", chunk=1),
        Space("users", [(s, tuple(zip(u, m))) for s in ("sqlalchemy", "mysql") for u in itertools.product(("alice", "bob"), repeat=3) for m in itertools.product((0, 1, 5), repeat=3)], run_users, "histories of two users", chunk=10),
        Space("concurrent", conc, run_concurrent, "all interleavings of the database sessions of concurrent checks", chunk=1),
    ]
