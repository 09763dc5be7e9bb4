R = r'''
def rcvd(*ips, **kw):
    out = ""
    for i, ip in enumerate(ips):
        out += "Received: from h%d.example (h%d.example [%s]) by in.example (Postfix) with SMTP id X%d%s; Mon, 1 Jan 2018 00:00:00 +0000\n" % (
            i, i, ip, i, " (envelope-from <%s>)" % kw["e%d" % i] if "e%d" % i in kw else "")
    return out


class Resolver(object):
    def __init__(self, rs, answers):
        self.asked, self.answers = [], answers
        rs.ctxt.dns._resolver = self

    def query(self, name, qtype="A"):
        import dns.resolver
        self.asked.append((str(name), qtype))
        res = self.answers.get((str(name).rstrip("."), qtype))
        if isinstance(res, Exception):
            raise res
        if res is None:
            raise dns.resolver.NXDOMAIN()
        return res


'''
PROC = '''
import socket
import oa.server, oa.protocol.check


class Server(object):
    class log(object):
        debug = info = warn = staticmethod(lambda *a, **k: None)
    allow_tell = True

    def __init__(self, ruleset):
        self.ruleset = ruleset

    def get_user_ruleset(self, user=None):
        return self.ruleset


def ask(rs, command, text, headers=""):
    body = text.encode("utf8")
    rfile = io.BytesIO(b"Content-length: %d\\r\\n" % len(body) + headers.encode() + b"\\r\\n" + body)
    wfile = io.BytesIO()
    oa.server.COMMANDS[command](rfile, wfile, Server(rs))
    return wfile.getvalue().decode("utf8")


'''
BAYES = '''
import tempfile, shutil, sqlite3, atexit
scratch = tempfile.mkdtemp()
atexit.register(shutil.rmtree, scratch)
from oa.db.bayes.sqlalchemy import Base


def store(extra="", rules=""):
    rs = build("loadplugin oa.plugins.bayes.BayesPlugin\\nbayes_sql_dsn sqlite:///%s/b.db\\nuse_bayes 1\\n%s" % (scratch, extra) + rules)
    import sqlalchemy
    engine = rs.ctxt.plugins["BayesPlugin"].get_engine()
    Base.metadata.create_all(engine)
    return rs


def rows(query):
    con = sqlite3.connect(scratch + "/b.db")
    try:
        return sorted(con.execute(query).fetchall())
    finally:
        con.close()


def learn(rs, text, spam):
    rs.ctxt.plugins["BayesPlugin"].learn_message(oa.message.Message(rs.ctxt, text), spam)


'''
BUGS = [
dict(id="b70", property="C13", file="oa/protocol/base.py",
     edits=[("        while content_length is None or content_length > 0:\n", "        while content_length is None or content_length > 1:\n")],
     needs="a message that is one byte longer than a whole number of chunks",
     breaks="the last byte of the message is not read",
     demo=PROC + '''
import oa.protocol.base
rs = build("rawbody A /zz\\\\nend/\\nscore A 2\\nreport R\\n")
size = oa.protocol.base.BaseProtocol.chunk_size
head, tail = "Subject: x\\n\\n", "zz\\nend"
text = head + "y" * (size + 1 - len(head) - len(tail)) + tail
expect(" ; 2" in ask(rs, "CHECK", text), True)
'''),
dict(id="b71", property="C15", file="oa/protocol/tell.py",
     edits=[('options.get("message-class", "spam").lower() == "spam"', 'options.get("message-class", "spam") == "spam"')],
     needs="a Message-class in upper case",
     breaks="a message told to be spam is learned as ham",
     demo=PROC + '''
rs = build("")
import oa.plugins.base
calls = []


class Told(oa.plugins.base.BasePlugin):
    def plugin_report(self, msg):
        calls.append("spam")

    def plugin_revoke(self, msg):
        calls.append("ham")


rs.ctxt.plugins["Told"] = Told(rs.ctxt)
ask(rs, "TELL", "Subject: x\\n\\none\\n", "Message-class: SPAM\\r\\nSet: local\\r\\n")
expect(calls, ["spam"])
'''),
dict(id="b72", property="C32", file="oa/plugins/awl.py",
     edits=[('                    AWL.signedby == signed_by,\n                    AWL.ip == "none").first()', '                    AWL.ip == "none").first()')],
     needs="a sender seen without an address with one signature, then with an address and another signature",
     breaks="the history of another signer is taken over",
     demo='''
import tempfile, shutil, sqlite3, atexit
scratch = tempfile.mkdtemp()
atexit.register(shutil.rmtree, scratch)
from oa.plugins.awl import AWL
rs = build("loadplugin oa.plugins.awl.AutoWhiteListPlugin\\nuser_awl_dsn sqlite:///%s/a.db\\nheader AWL eval:check_from_in_auto_whitelist()\\npriority AWL -5\\nbody A /one/\\nscore A 4\\nauto_whitelist_factor 1\\n" % scratch)
AWL.__table__.create(bind=rs.ctxt.plugins["AutoWhiteListPlugin"].get_engine())
check(rs, "From: joe@x.example\\nSubject: x\\n\\none\\n")
check(rs, "From: joe@x.example\\nDKIM-Signature: v=1; d=x.example\\nReceived: from h.example (h.example [45.1.2.3]) by in.example (Postfix) with SMTP id X1; Mon, 1 Jan 2018 00:00:00 +0000\\nSubject: x\\n\\none\\n")
con = sqlite3.connect(scratch + "/a.db")
got = sorted(con.execute("select email, signedby, ip, count from awl").fetchall())
expect(got, [("joe@x.example", "", "none", 1), ("joe@x.example", "x.example", "45.1", 1)])
'''),
dict(id="b73", property="C33", file="oa/plugins/auto_learn_threshold.py",
     edits=[('autolearn_forced = autolearn_forced or "autolearn_force" in tflags', 'autolearn_forced = "autolearn_force" in tflags')],
     needs="a matching rule with tflags autolearn_force, and a matching rule without it after that one",
     breaks="the forced autolearning depends on the order of the rules",
     demo=BAYES + '''
rs = store("loadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold\\n", "body A /one/\\nscore A 13\\ntflags A autolearn_force\\nheader B Subject =~ /x/\\nscore B 1\\n")
check(rs, "Message-Id: <1@x>\\nSubject: x\\n\\none\\n")
expect(rows("select flag from bayes_seen"), [("s",)])
'''),
dict(id="b74", property="C38", file="oa/plugins/razor2.py",
     edits=[("        return not proc.returncode\n", "        return proc.returncode != 1\n")],
     needs="a razor-check that fails",
     breaks="a failure of razor counts as a listing",
     demo='''
import tempfile, shutil, atexit, stat
scratch = tempfile.mkdtemp()
atexit.register(shutil.rmtree, scratch)
rs = build("loadplugin oa.plugins.razor2.Razor2Plugin\\nfull A eval:check_razor2()\\n")
for code, want in ((0, ["A"]), (1, []), (2, [])):
    with open(scratch + "/razor-check", "w") as f:
        f.write("#!/bin/sh\\ncat > /dev/null\\nexit %d\\n" % code)
    os.chmod(scratch + "/razor-check", 0o755)
    old = os.environ["PATH"]
    os.environ["PATH"] = scratch + ":" + old
    expect(hits(check(rs, "Subject: x\\n\\none\\n")), want)
    os.environ["PATH"] = old
'''),
dict(id="b75", property="C31", file="oa/plugins/bayes.py",
     edits=[("            self.store.nspam_nham_change(0, 1)\n", "            self.store.nspam_nham_change(0, 1)\n            self.store.cleanup()\n")],
     needs="a crash while a ham message is learned, between its count and its tokens",
     breaks="a half learned message is left in the database",
     demo=BAYES + '''
rs = store()
plugin = rs.ctxt.plugins["BayesPlugin"]
real = type(plugin.store).multi_tok_count_change


def fail(self, *args):
    raise RuntimeError("crash")


type(plugin.store).multi_tok_count_change = fail
try:
    learn(rs, "Message-Id: <1@x>\\nSubject: x\\n\\nsomething else\\n", False)
except RuntimeError:
    pass
type(plugin.store).multi_tok_count_change = real
expect([r for r in rows("select spam_count, ham_count from bayes_vars") if r != (0, 0)], [])
'''),
dict(id="b76", property="C30", file="oa/plugins/bayes.py",
     edits=[("        for token in set(tuple(tokens)):\n", "        for token in tokens:\n")],
     needs="a word that is on two lines of the message",
     breaks="one message counts twice for its repeated tokens",
     demo=BAYES + '''
rs = store()
learn(rs, "Message-Id: <1@x>\\nSubject: cheap offers\\nFrom: a@b.example\\n\\nviagra pills cheap\\n", True)
expect(rows("select distinct spam_count from bayes_token"), [(1,)])
'''),
dict(id="b77", property="C45", file="oa/plugins/bayes.py",
     edits=[("        if not self['bayes_use_hapaxes']:\n            threshold = 2\n\n        probabilities", "        if not self['bayes_use_hapaxes']:\n            threshold = 3\n\n        probabilities")],
     needs="bayes_use_hapaxes 0 and a token seen exactly twice",
     breaks="tokens that are no hapaxes are ignored",
     demo=BAYES + '''
rs = store("bayes_use_hapaxes 0\\nbayes_min_spam_num 1\\nbayes_min_ham_num 1\\n", "body B eval:check_bayes('0.5', '1')\\nscore B 1\\n")
for n in (1, 2):
    learn(rs, "Message-Id: <s%d@x>\\nSubject: x\\n\\nviagra\\n" % n, True)
    learn(rs, "Message-Id: <h%d@x>\\nSubject: y\\n\\nmeeting\\n" % n, False)
expect(hits(check(rs, "Message-Id: <t@x>\\nSubject: zzz\\n\\nviagra\\n")), ["B"])
'''),
dict(id="b79", property="C28", file="oa/plugins/dns_eval.py",
     edits=[('                tags.extend(part.split(",")[0].strip()\n                            for part in header.split(";"))', '                tags.append(header.split(";")[0].split(",")[0].strip())')],
     needs="an Accreditor header with several accreditors",
     breaks="only the first accreditor counts",
     demo=R + '''
rs = build("loadplugin oa.plugins.dns_eval.DNSEval\\nheader A eval:check_rbl_accreditor('z', 'bl.example', '127.0.0.2', 'two')\\n")
Resolver(rs, {("3.2.1.45.bl.example", "A"): ["127.0.0.2"]})
expect(hits(check(rs, rcvd("45.1.2.3") + "Accreditor: one, x; two, y\\nSubject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b82", property="C42", file="oa/config.py",
     edits=[('                sorted(get_files_with_extension(config_path, ".cf")))', '                sorted(get_files_with_extension(config_path, ".cf"), reverse=True))')],
     needs="two files of the configuration directory that set the same option",
     breaks="the wrong file wins",
     demo='''
import tempfile, shutil, atexit
import oa.config
scratch = tempfile.mkdtemp()
atexit.register(shutil.rmtree, scratch)
for d in ("conf", "site"):
    os.mkdir(scratch + "/" + d)
for name in ("10_a.cf", "20_b.cf", "30_c.cf"):
    open(scratch + "/conf/" + name, "w").close()
expect([os.path.basename(p) for p in oa.config.get_config_files(scratch + "/conf", scratch + "/site")], ["10_a.cf", "20_b.cf", "30_c.cf"])
'''),
dict(id="b86", property="C02", file="oa/rules/base.py",
     edits=[("        elif self.score == 0:\n", "        elif not any(self._scores):\n")],
     needs="a rule with four scores, of which the one for this mode is 0",
     breaks="a rule without a score in this mode is checked",
     demo='''
rs = build("use_bayes 1\\nuse_network 1\\nbody A /one/\\nscore A 1 1 1 0\\nbody B /one/\\nscore B 2\\n")
expect(hits(check(rs, "Subject: x\\n\\none\\n")), ["B"])
'''),
dict(id="b88", property="C44", file="oa/plugins/dkim.py",
     edits=[("            result = self._check_dkim_signed_by(msg, 1, 0, acceptable_domain)\n            if result:\n                return True\n", "            result = self._check_dkim_signed_by(msg, 1, 0, acceptable_domain)\n            return bool(result)\n")],
     needs="a rule that names several domains",
     breaks="only the first domain counts",
     demo='''
import dkim
rs = build("loadplugin oa.plugins.dkim.DKIMPlugin\\nfull A eval:check_dkim_valid('other.example', 'x.example')\\n")
plugin = rs.ctxt.plugins["DKIMPlugin"]


def verified(msg):
    plugin.dkim_checked_signature = plugin.dkim_valid = plugin.dkim_signed = plugin.is_valid = 1


plugin.check_dkim_signature = verified
expect(hits(check(rs, "From: a@x.example\\nDKIM-Signature: v=1; a=rsa-sha256; d=x.example; s=k; h=from; bh=x; b=x\\nSubject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b90", property="C39", file="oa/message.py",
     edits=[('(encoding, "ignore"))\n                except (LookupError, UnicodeError, AssertionError):\n', '(encoding, "ignore"))\n                except (UnicodeError, AssertionError):\n')],
     needs="an encoded word in an unknown charset",
     breaks="the message cannot be checked",
     demo='''
rs = build("header A Subject =~ /two/\\n")
expect(hits(check(rs, "Subject: =?nothing-like-it?q?one?= two\\n\\none\\n")), ["A"])
'''),
]
