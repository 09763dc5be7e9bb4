PROC = '''
import socket
import oa.server, oa.protocol.check


class Server(object):
    class log(object):
        debug = info = warn = staticmethod(lambda *a, **k: None)

    def __init__(self, ruleset):
        self.ruleset = ruleset

    def get_user_ruleset(self, user=None):
        return self.ruleset


def ask(rs, command, text):
    body = text.encode("utf8")
    rfile = io.BytesIO(b"Content-length: %d\\r\\n\\r\\n" % len(body) + body)
    wfile = io.BytesIO()
    oa.server.COMMANDS[command](rfile, wfile, Server(rs))
    return wfile.getvalue().decode("utf8")


'''
BUGS = [
dict(id="b01", property="C01", file="oa/protocol/check.py",
     edits=[('if msg.score < self.ruleset.conf["required_score"]:', 'if msg.score <= self.ruleset.conf["required_score"]:')],
     needs="a message whose score is exactly required_score, asked with REPORT_IFSPAM",
     breaks="the message is spam but its report is left out",
     demo=PROC + '''
rs = build("required_score 2\\nreport the report\\nbody A /one/\\nscore A 2\\n")
out = ask(rs, "REPORT_IFSPAM", "Subject: x\\n\\none\\n")
expect("True ; 2.0" in out and "the report" in out, True)
'''),
dict(id="b02", property="C02", file="oa/rules/base.py",
     edits=[("        elif self.score == 0:\n", "        elif -0.01 < self.score < 0.01:\n")],
     needs="a rule with a score just above 0, such as the 0.001 of informational rules",
     breaks="the rule is not checked at all",
     demo='''
rs = build("body A /one/\\nscore A 0.001\\nbody B /one/\\n")
expect(hits(check(rs, "Subject: x\\n\\none\\n")), ["A", "B"])
'''),
dict(id="b03", property="C03", file="oa/rules/meta.py",
     edits=[('_SUBRULE_P = Regex(r"([_a-zA-Z]\\w*)(?=\\W|$)")', '_SUBRULE_P = Regex(r"([_A-Z]\\w*)(?=\\W|$)")')],
     needs="a meta rule that references a rule whose name starts in lower case",
     breaks="the meta rule is rejected",
     demo='''
rs = build("body one /one/\\nbody TWO /two/\\nmeta M one && TWO\\n")
expect(hits(check(rs, "Subject: x\\n\\none two\\n")), ["M", "TWO", "one"])
'''),
dict(id="b05", property="C05", file="oa/rules/base.py",
     edits=[("        return other.priority < self.priority\n",
             "        if other.priority == self.priority:\n"
             "            # Look for ham first\n"
             "            return self.score < 0 < other.score\n"
             "        return other.priority < self.priority\n")],
     needs="a rule with a negative score defined after one of the same priority with a positive score",
     breaks="rules of the same priority don't run in the order of their definition",
     demo='''
rs = build("body ZA /one/\\nbody AZ /one/\\nscore AZ -2\\nbody MM /one/\\npriority MM 5\\n")
expect(list(check(rs, "Subject: x\\n\\none\\n").rules_checked), ["MM", "ZA", "AZ"])
'''),
dict(id="b06", property="C06", file="oa/rules/parser.py",
     edits=[('''_COMMENT_P = Regex(r"((?<=[^\\\\])#.*)")''', '''_COMMENT_P = Regex(r"((?<=\\s)#.*)")''')],
     needs="a comment that directly follows the value",
     breaks="the comment becomes part of the value",
     demo='''
rs = build("body A /one/\\nscore A 3# three\\n")
expect(check(rs, "Subject: x\\n\\none\\n").score, 3.0)
'''),
dict(id="b07", property="C07", file="oa/rules/parser.py",
     edits=[('''                with self._paranoid(oa.errors.InvalidRule,
                                    oa.errors.InvalidRegex):
                    try:''', '''                with self._paranoid(oa.errors.InvalidRule,
                                    oa.errors.InvalidRegex):
                    self.ruleset.not_checked.pop(name, None)
                    try:'''),
            ('''                    rule = rule_class.get_rule(name, data)
                    self.ruleset.add_rule(rule)
''', '''                    rule = rule_class.get_rule(name, data)
                    if rule.score:
                        self.ruleset.add_rule(rule)
                    else:
                        self.ruleset.not_checked[name] = rule
''')],
     needs="a rule with score 0 (or a __ rule) that calls an eval function and is used by a meta rule",
     breaks="rules with score 0 are not set up, so an undefined eval call is not rejected and a good one fails when used",
     demo='''
conf = "loadplugin oa.plugins.header_eval.HeaderEval\\nheader __A eval:check_for_missing_to_header()\\nmeta M __A\\n"
expect(hits(check(build(conf), "Subject: x\\n\\none\\n")), ["M"])
conf = "header __A eval:no_such_function()\\nmeta M !__A\\nmeta N 1\\n"
expect(hits(check(build(conf), "Subject: x\\n\\none\\n")), ["N"])
'''),
dict(id="b08", property="C08", file="oa/rules/parser.py",
     edits=[("        if not os.path.isabs(filename) and dirname is not None:\n",
             "        if not os.path.exists(filename) and dirname is not None:\n")],
     needs="a file with the name of the included one in the current directory of the process",
     breaks="the file of the current directory is included instead of the one next to the including file",
     demo='''
d = tempfile.mkdtemp()
e = tempfile.mkdtemp()
a, b, c = os.path.join(d, "a.cf"), os.path.join(d, "b.cf"), os.path.join(e, "b.cf")
for path, text in ((a, "include b.cf\\n"), (b, "body GOOD /one/\\n"), (c, "body EVIL /one/\\n")):
    with open(path, "w") as f:
        f.write(text)
p = oa.rules.parser.PADParser()
os.chdir(e)
p.parse_file(a)
got = sorted(p.results)
for path in (a, b, c):
    os.unlink(path)
os.rmdir(d)
os.chdir("/")
os.rmdir(e)
expect(got, ["GOOD"])
'''),
dict(id="b09", property="C09", file="oa/conf.py",
     edits=[("        if not isinstance(value, float) or value < 0:\n            return\n",
             "        if not isinstance(value, float) or value <= 0:\n            return\n")],
     needs="a time value of 0, which turns the interval off, after another value",
     breaks="a time value of 0 is ignored",
     demo='''
p = parser("loadplugin oa.plugins.bayes.BayesPlugin\\ndns_test_interval 5m\\n")
conf = p.ctxt.conf
conf.set_timevalue_option("x", "5m")
conf.set_timevalue_option("x", "0")
expect(conf["x"], 0.0)
'''),
dict(id="b11", property="C11", file="oa/config.py",
     edits=[("""    return os.path.join("/home", user, ".spamassassin", "user_prefs")""",
             """    return os.path.join("/home", user.lower(), ".spamassassin", "user_prefs")""")],
     needs="a User header with upper case letters",
     breaks="the preferences of another user are used",
     demo='''
import oa.server
opened = []
real = os.path.exists
os.path.exists = lambda p: opened.append(p) or False
try:
    class S(oa.server.Server):
        def __init__(self):
            import threading, logging
            self.log = logging.getLogger("x")
            self._lock = threading.Lock()
            self._user_rulesets = {}
            self._parser_state = self._parser_results = None
            self._ruleset = build("allow_user_rules 1\\n")
    s = S()
    del opened[:]
    s.get_user_ruleset("Bob")
finally:
    os.path.exists = real
expect([p for p in opened if ".spamassassin" in p], ["/home/Bob/.spamassassin/user_prefs"])
'''),
dict(id="b34", property="C34", file="oa/plugins/short_circuit.py",
     edits=[("                rule = ruleset.get_rule(rule_name)\n", "                rule = ruleset.get_rule(rule_name, checked_only=True)\n")],
     needs="shortcircuit for a rule with a __ name or score 0 that is evaluated by a meta rule",
     breaks="the matching rule doesn't stop the evaluation",
     demo='''
rs = build("loadplugin oa.plugins.short_circuit.ShortCircuit\\nbody __A /one/\\nmeta M __A\\nbody B /one/\\n"
           "priority B -5\\nshortcircuit __A spam\\n")
msg = check(rs, "Subject: x\\n\\none\\n")
expect(("B" in msg.rules_checked, msg.score), (False, 100.0))
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
