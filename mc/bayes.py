"""Databases for the plugins that keep one: real SQLite files, reached by the
SQLAlchemy store or by the MySQL one (through a stand-in for pymysql), with a
hook at every operation on them, and a Bayes model."""
import hashlib
import math
import os
import sqlite3

from mc import env

HOOK = None     # called as HOOK(what) around every database operation
_ready = {}


def _hook(what):
    if HOOK is not None:
        HOOK(what)


class Cursor(object):
    """A pymysql cursor over SQLite."""

    def __init__(self, conn):
        self.conn = conn
        self.cur = conn.cursor()

    def execute(self, sql, args=None):
        _hook("before")
        if args is None:
            args = ()
        elif not isinstance(args, (tuple, list)):
            args = (args,)
        self.cur.execute(sql.replace("%s", "?"), [str(a) if type(a).__name__.startswith("IPv") else a for a in args])
        self.rows = self.cur.fetchall() if sql.lstrip().upper().startswith("SELECT") else []
        _hook("after")
        return len(self.rows) if self.rows else max(self.cur.rowcount, 0)

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows

    def close(self):
        self.cur.close()


class Connection(object):
    OPEN = []

    def __init__(self, path):
        self.conn = sqlite3.connect(path, timeout=0.1)
        Connection.OPEN.append(self)

    def cursor(self):
        return Cursor(self.conn)

    def commit(self):
        _hook("commit")
        self.conn.commit()
        _hook("committed")

    def rollback(self):
        self.conn.rollback()

    def close(self):
        self.conn.close()


def connect(host=None, port=3306, user=None, passwd=None, db=None, **kw):
    _hook("begin")
    return Connection(os.path.join(host, db))


def engine_events():
    if "events" in _ready:
        return
    _ready["events"] = True
    from sqlalchemy import event
    from sqlalchemy.engine import Engine
    event.listen(Engine, "begin", lambda *a: _hook("begin"))
    event.listen(Engine, "before_cursor_execute", lambda *a: _hook("before"))
    event.listen(Engine, "after_cursor_execute", lambda *a: _hook("after"))
    event.listen(Engine, "commit", lambda *a: _hook("commit"))


TABLES = [
    "CREATE TABLE bayes_seen (id INTEGER NOT NULL, msgid VARCHAR(200) NOT NULL, flag VARCHAR(1), PRIMARY KEY (id, msgid))",
    "CREATE TABLE bayes_token (id INTEGER NOT NULL, token BLOB NOT NULL, spam_count INTEGER, ham_count INTEGER, atime INTEGER, PRIMARY KEY (id, token))",
    "CREATE TABLE bayes_vars (id INTEGER NOT NULL, username VARCHAR(200), spam_count INTEGER, ham_count INTEGER, token_count INTEGER, last_expire INTEGER, last_atime_delta INTEGER,"
    " last_expire_reduce INTEGER, oldest_token_age INTEGER, newest_token_age INTEGER, PRIMARY KEY (id))",
    "CREATE TABLE awl (username VARCHAR(255) NOT NULL, email VARCHAR(200) NOT NULL, ip VARCHAR(40) NOT NULL, count INTEGER, totscore FLOAT, signedby VARCHAR(255) NOT NULL, PRIMARY KEY (username, email, signedby, ip))",
]


class DB(object):
    """One database file."""

    def __init__(self, name, tables=True):
        self.path = env.scratch(name)
        self.clear()
        if tables:
            self.run(*TABLES)
        self.empty = self.save()

    def run(self, *sqls):
        conn = sqlite3.connect(self.path)
        for sql in sqls:
            conn.execute(sql)
        conn.commit()
        conn.close()

    def files(self):
        return [self.path, self.path + "-journal"]

    def clear(self):
        for f in self.files():
            if os.path.exists(f):
                os.unlink(f)

    def save(self):
        out = []
        for f in self.files():
            try:
                with open(f, "rb") as fd:
                    out.append(fd.read())
            except IOError:
                out.append(None)
        return tuple(out)

    def load(self, state):
        self.clear()
        for f, data in zip(self.files(), state):
            if data is not None:
                with open(f, "wb") as fd:
                    fd.write(data)

    def query(self, sql):
        conn = sqlite3.connect(self.path, timeout=0.2)
        try:
            return conn.execute(sql).fetchall()
        finally:
            conn.close()

    def dump(self):
        """(total spam, total ham), {message: class}, {token: (spam, ham)}"""
        totals = self.query("SELECT coalesce(sum(spam_count), 0), coalesce(sum(ham_count), 0) FROM bayes_vars")
        seen = self.query("SELECT msgid, flag FROM bayes_seen")
        tokens = {}
        rows = self.query("SELECT token, spam_count, ham_count FROM bayes_token")
        for t, s, h in rows:
            old = tokens.get(bytes(t), (0, 0))
            if s or h:
                tokens[bytes(t)] = (old[0] + s, old[1] + h)
        if len(seen) != len(dict(seen)):
            seen = [("two entries of a message", repr(seen))]
        return tuple(totals[0]), dict(seen), tokens

    def sql(self, backend, prefix):
        """The configuration lines that name this database."""
        if backend == "mysql":
            dsn = "DBI:mysql:%s:%s" % (os.path.basename(self.path), os.path.dirname(self.path))
        else:
            dsn = "sqlite:///%s?timeout=0.1" % self.path
        out = "%s_dsn %s\n" % ("bayes_sql" if prefix == "bayes" else prefix, dsn)
        if backend == "mysql":
            out += "%s_sql_username u\n%s_sql_password p\n" % (prefix, prefix)
        return out


def backend(name):
    """Use a store from now on (in this process)."""
    import oa.plugins.base
    import oa.plugins.bayes
    if "create" not in _ready:
        _ready["create"] = oa.plugins.base.create_engine
        _ready["store"] = oa.plugins.bayes.Store
        import pymysql
        pymysql.connect = connect
        engine_events()
    if name == "mysql":
        import oa.db.bayes.mysql
        oa.plugins.base.create_engine = None
        oa.plugins.bayes.Store = oa.db.bayes.mysql.Store
    else:
        oa.plugins.base.create_engine = _ready["create"]
        oa.plugins.bayes.Store = _ready["store"]


BANDS = [("BAYES_00", "0.00", "0.01"), ("BAYES_05", "0.01", "0.05"), ("BAYES_20", "0.05", "0.20"), ("BAYES_40", "0.20", "0.40"), ("BAYES_50", "0.40", "0.60"), ("BAYES_60", "0.60", "0.80"),
         ("BAYES_80", "0.80", "0.95"), ("BAYES_95", "0.95", "0.99"), ("BAYES_99", "0.99", "1.00")]
PLUGIN = "loadplugin oa.plugins.bayes.BayesPlugin\nuse_bayes 1\n"
RULES = "".join("body %s eval:check_bayes('%s', '%s')\nscore %s 0.1\n" % (n, a, b, n) for n, a, b in BANDS)


class World(object):
    """A ruleset with its own Bayes database."""

    def __init__(self, store="sqlalchemy", config="", minimum=0, name="", rules=RULES):
        backend(store)
        self.db = DB("bayes%s.db" % name)
        self.rs = env.build(PLUGIN + self.db.sql(store, "bayes") + "bayes_min_spam_num %d\nbayes_min_ham_num %d\n" % (minimum, minimum) + rules + config)
        self.plugin = self.rs.ctxt.plugins["BayesPlugin"]

    def message(self, text):
        return env.message(self.rs, text)

    def do(self, op, msg):
        if op == "spam":
            self.rs.ctxt.hook_report(msg)
        elif op == "ham":
            self.rs.ctxt.hook_revoke(msg)
        elif op == "forget":
            self.plugin.forget_message(msg, msg.msgid)
        else:
            self.rs.match(msg)

    def tokens(self, text):
        """The tokens of a message: those of a database that has just it."""
        saved = self.db.save()
        self.db.load(self.db.empty)
        self.do("spam", self.message(text))
        out = self.db.dump()[2]
        self.db.load(saved)
        return frozenset(out)


def token(word):
    return hashlib.sha1(word.encode("utf8")).digest()[-5:]


def expected(classes, tokens, ids):
    """The dump of a database that has learned these: {message: class}."""
    count = {}
    total = [0, 0]
    for m, c in classes.items():
        if c is None:
            continue
        i = 0 if c == "spam" else 1
        total[i] += 1
        for t in tokens[m]:
            count.setdefault(t, [0, 0])[i] += 1
    return tuple(total), {ids[m]: c[0] for m, c in classes.items() if c}, {t: tuple(v) for t, v in count.items()}


def difference(got, want):
    """What is wrong about a dump, in short; None if nothing is."""
    if got[0] != want[0]:
        return "the totals of spam and ham messages are %r, not %r" % (got[0], want[0])
    if got[1] != want[1]:
        return "the learned messages are %r, not %r" % (got[1], want[1])
    if got[2] != want[2]:
        bad = sorted((t for t in set(got[2]) | set(want[2]) if got[2].get(t) != want[2].get(t)))
        return "%d of %d tokens are wrong, as %r with (spam, ham) %r, not %r" % (len(bad), len(set(got[2]) | set(want[2])), bad[0], got[2].get(bad[0], (0, 0)), want[2].get(bad[0], (0, 0)))
    return None


# --- classification -------------------------------------------------------

X, S = 0.538, 0.030
STRENGTH = 0.346
SIGNIFICANT = 150


def probability(s, h, ns, nh):
    p = (s / ns) / (s / ns + h / nh)
    n = s + h
    return (S * X + n * p) / (S + n)


def chi2q(x2, half):
    m = x2 / 2.0
    term = total = math.exp(-m)
    for i in range(1, half):
        term *= m / i
        total += term
    return min(total, 1.0)


def score(tokens, learned, totals, minimum=1, hapaxes=True):
    """The probability that a message with these tokens is spam, None if it
    cannot be told."""
    ns, nh = totals
    if ns < minimum or nh < minimum or not ns or not nh:
        return None
    probs = []
    for t in tokens:
        s, h = learned.get(t, (0, 0))
        if s + h >= (1 if hapaxes else 2):
            probs.append(probability(s, h, ns, nh))
    probs = sorted(probs, key=lambda p: -abs(p - 0.5))[:SIGNIFICANT]
    probs = [p for p in probs if abs(p - 0.5) >= STRENGTH]
    if not probs:
        return None
    n = float(ns + nh)
    ls = math.log(ns / n) + sum(math.log(1.0 - p) for p in probs)
    lh = math.log(nh / n) + sum(math.log(p) for p in probs)
    return (1.0 - chi2q(-2.0 * ls, len(probs)) - (1.0 - chi2q(-2.0 * lh, len(probs))) + 1.0) / 2.0


def bands(value):
    """The rules that match at a score."""
    if value is None:
        return []
    return [n for n, a, b in BANDS if (float(a) < value or float(a) == 0) and value <= float(b)]
