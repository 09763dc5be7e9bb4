R = r'''
def rcvd(*ips, **kw):
    out = ""
    for i, ip in enumerate(ips):
        out += "Received: from h%d.example (h%d.example [%s]) by in.example (Postfix) with SMTP id X%d%s; Mon, 1 Jan 2018 00:00:00 +0000\n" % (
            i, i, ip, i, " (envelope-from <%s>)" % kw["e%d" % i] if "e%d" % i in kw else "")
    return out


class Resolver(object):
    def __init__(self, rs, answers):
        self.asked, self.answers = [], answers
        rs.ctxt.dns._resolver = self

    def query(self, name, qtype="A"):
        import dns.resolver
        self.asked.append((str(name), qtype))
        res = self.answers.get((str(name).rstrip("."), qtype))
        if isinstance(res, Exception):
            raise res
        if res is None:
            raise dns.resolver.NXDOMAIN()
        return res


'''
PROC = '''
import socket
import oa.server, oa.protocol.check


class Server(object):
    class log(object):
        debug = info = warn = staticmethod(lambda *a, **k: None)
    allow_tell = True

    def __init__(self, ruleset):
        self.ruleset = ruleset

    def get_user_ruleset(self, user=None):
        return self.ruleset


def ask(rs, command, text, headers=""):
    body = text.encode("utf8")
    rfile = io.BytesIO(b"Content-length: %d\\r\\n" % len(body) + headers.encode() + b"\\r\\n" + body)
    wfile = io.BytesIO()
    oa.server.COMMANDS[command](rfile, wfile, Server(rs))
    return wfile.getvalue().decode("utf8")


'''
BUGS = [
dict(id="b50", property="C01", file="oa/rules/ruleset.py",
     edits=[('  """Get message adjusted by the rules."""\n        spam = msg.score >= self.conf["required_score"]\n'.replace("  \"\"\"", '        """'),
             '        """Get message adjusted by the rules."""\n        spam = round(msg.score, 1) >= self.conf["required_score"]\n')],
     needs="a score just below required_score, that is rounded up to it, such as 1.96 for 2",
     breaks="PROCESS wraps a message as spam that all replies call ham",
     demo=PROC + '''
rs = build("required_score 2\\nreport the report\\nbody A /one/\\nscore A 1.96\\n")
out = ask(rs, "PROCESS", "Subject: x\\n\\none\\n")
expect("False ; " in out and "the report" not in out, True)
'''),
dict(id="b52", property="C24", file="oa/message.py",
     edits=[('            sender = self.external_relays[0].get("envfrom")\n            if sender:\n                self.sender_address = sender.strip()\n                return\n',
             '            for relay in self.external_relays:\n                sender = relay.get("envfrom")\n                if sender:\n                    self.sender_address = sender.strip()\n                    return\n')],
     needs="an external relay that recorded no envelope sender, and one below it with one",
     breaks="the sender comes from a header that the spammer can forge",
     demo=R + '''
rs = build("")
msg = check(rs, rcvd("45.1.2.3", "46.1.2.3", e1="forged@x.example") + "Subject: x\\n\\none\\n")
expect(msg.sender_address, "")
'''),
dict(id="b53", property="C23", file="oa/message.py",
     edits=[("                            if is_internal and not has_auth and not in_internal:\n", "                            if is_internal and not in_internal:\n")],
     needs="internal networks and an authenticated relay that is not in them",
     breaks="the authenticated relay is trusted but not internal",
     demo=R + '''
rs = build("internal_networks 45.1.0.0/16\\n")
auth = "Received: from h.example (h.example [46.1.2.3]) (Authenticated sender: joe@x.example) by in.example (Postfix) with ESMTP id X1; Mon, 1 Jan 2018 00:00:00 +0000\\n"
msg = check(rs, rcvd("45.1.2.3") + auth + "Subject: x\\n\\none\\n")
expect([r["ip"] for r in msg.trusted_relays], ["45.1.2.3", "46.1.2.3"])
expect([r["ip"] for r in msg.internal_relays], ["45.1.2.3", "46.1.2.3"])
'''),
dict(id="b54", property="C25", file="oa/networks.py",
     edits=[("        self.internal.configured = True\n        self.trusted.add(network, not excluded)\n", "        self.internal.configured = True\n        if not excluded:\n            self.trusted.add(network, True)\n")],
     needs="a negated internal network inside another one",
     breaks="the negated network is trusted",
     demo='''
import ipaddress
rs = build("internal_networks !10.1.2.0/24 10.1.0.0/16\\n")
n = rs.ctxt.networks
ip = ipaddress.ip_address(u"10.1.2.3")
expect((ip in n.internal, ip in n.trusted), (False, False))
'''),
dict(id="b56", property="C20", file="oa/regex.py",
     edits=[("    flags = reduce(operator.or_, (FLAGS.get(flag, 0) for flag in flags_str), 0)\n",
             "    flags = reduce(operator.xor, (FLAGS.get(flag, 0) for flag in flags_str), 0)\n")],
     needs="a pattern with the same flag twice, as in /x/ii",
     breaks="the flag is ignored",
     demo='''
rs = build("body A /ONE/ii\\n")
expect(hits(check(rs, "Subject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b57", property="C21", file="oa/rules/ruleset.py",
     edits=[("        original_attachment.set_payload(msg.raw_msg)\n", "        original_attachment.set_payload(msg.msg.as_string())\n")],
     needs="a message with a header without a space after the colon",
     breaks="the attachment is not exactly the message received",
     demo='''
rs = build("required_score 1\\nbody A /one/\\n")
m = "Subject: x\\nX-Odd:one\\n\\none\\n"
msg = check(rs, m)
expect(m in rs.get_adjusted_message(msg), True)
'''),
dict(id="b58", property="C22", file="oa/rules/ruleset.py",
     edits=[("        data.update(msg.plugin_tags)\n", "        data.update((tag, value) for tag, value in msg.plugin_tags.items() if value)\n")],
     needs="a template with a tag of a plugin whose value is empty, such as RELAYSTRUSTED of a message without Received headers",
     breaks="the tag is shown as one that is not known",
     demo='''
rs = build("report A_RELAYSTRUSTED_B\\nreport_safe 0\\n")
msg = check(rs, "Subject: x\\n\\none\\n")
expect(rs.get_report(msg).strip(), "AB")
'''),
dict(id="b59", property="C14", file="oa/protocol/base.py",
     edits=[("            if content_length < 0:\n", "            if content_length < -1:\n")],
     needs="a request with Content-length: -1",
     breaks="the request is answered for an empty message instead of refused",
     demo=PROC + '''
rs = build("body A /one/\\n")
rfile, wfile = io.BytesIO(b"Content-length: -1\\r\\n\\r\\nSubject: x\\n\\none\\n"), io.BytesIO()
oa.server.COMMANDS["CHECK"](rfile, wfile, Server(rs))
expect(b" 76 Bad header line" in wfile.getvalue(), True)
'''),
dict(id="b60", property="C28", file="oa/plugins/dns_eval.py",
     edits=[("""                return True

            for result in results:
                if subtest.match(str(result)):
                    return True
        return False

    def _check_multi_rbl""", """                return True

            for result in list(results)[:1]:
                if subtest.match(str(result)):
                    return True
        return False

    def _check_multi_rbl""")],
     needs="a list that answers with several addresses, where the one that is meant is not the first",
     breaks="only the first answer is believed",
     demo=R + '''
rs = build("loadplugin oa.plugins.dns_eval.DNSEval\\nheader A eval:check_rbl('z', 'bl.example', '127.0.0.4')\\n")
Resolver(rs, {("3.2.1.45.bl.example", "A"): ["127.0.0.2", "127.0.0.4"]})
expect(hits(check(rs, rcvd("45.1.2.3") + "Subject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b61", property="C27", file="oa/dns_interface.py",
     edits=[("        if not self.query_restrictions:\n            return False\n", "        if True not in self.query_restrictions.values() or qtype == \"PTR\":\n            return False\n"),
            ("    def is_query_restricted(self, qname):\n", "    def is_query_restricted(self, qname, qtype=\"A\"):\n"),
            ("            try:\n                qname = qname.split(\".\", 1)[1]\n            except IndexError:\n                return False\n",
             "            try:\n                qname = qname.split(\".\", 1)[1]\n            except IndexError:\n                return False\n            if \".\" not in qname:\n                # There is no need to look at the top level domains.\n                return False\n")],
     needs="a restriction for a top level domain",
     breaks="names in the domain are queried",
     demo=R + '''
rs = build("loadplugin oa.plugins.dns_eval.DNSEval\\ndns_query_restriction deny example\\nheader A eval:check_rbl('z', 'bl.example')\\n")
r = Resolver(rs, {})
check(rs, rcvd("45.1.2.3") + "Subject: x\\n\\none\\n")
expect(r.asked, [])
'''),
dict(id="b62", property="C29", file="oa/plugins/wlbl_eval.py",
     edits=[('''            wh = self.check_whitelist_rcvd(msg, list_name, address)
            if wh == 1:
                self.set_local(msg, param, 1)
                return True
            elif wh == -1:
                found_match = -1
''', '''            wh = self.check_whitelist_rcvd(msg, list_name, address)
            if wh == 1:
                self.set_local(msg, param, 1)
                return True
            found_match = wh
''')],
     needs="a message with two authors, the first of which is forged and the second not listed",
     breaks="check_forged_in_default_whitelist does not match",
     demo=R + '''
rs = build("loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin\\ndef_whitelist_from_rcvd joe@x.example good.example\\nheader A eval:check_forged_in_default_whitelist()\\n")
expect(hits(check(rs, rcvd("45.1.2.3") + "From: joe@x.example, ann@y.example\\nSubject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b64", property="C34", file="oa/plugins/short_circuit.py",
     edits=[("        if self.stype == \"spam\":\n            msg.score += self.spam_score\n",
             "        if self.stype == \"spam\" and msg.score < self.spam_score:\n            msg.score += self.spam_score\n")],
     needs="a score of more than shortcircuit_spam_score before the adjustment",
     breaks="the score is not adjusted",
     demo='''
rs = build("loadplugin oa.plugins.short_circuit.ShortCircuit\\nshortcircuit_spam_score 2\\nbody A /one/\\nscore A 3\\nshortcircuit A spam\\n")
expect(check(rs, "Subject: x\\n\\none\\n").score, 5.0)
'''),
dict(id="b65", property="C46", file="oa/plugins/uri_eval.py",
     edits=[("                    if len(key) > MAX_URI_LENGTH:\n", "                    if len(msg.uri_detail_links[key][type][\"cleaned\"]) > MAX_URI_LENGTH:\n")],
     needs="a long link with many escaped characters",
     breaks="a link that is too long is not seen as such",
     demo='''
rs = build("loadplugin oa.plugins.uri_eval.URIEvalPlugin\\nheader A eval:check_uri_truncated()\\n")
expect(hits(check(rs, "Content-Type: text/html\\n\\n<a href=\\"http://x.example/" + "%41" * 3000 + "\\">x</a>\\n")), ["A"])
'''),
dict(id="b66", property="C41", file="oa/html_parser.py",
     edits=[("                link[tag]['text'] = []\n", "                link[tag].setdefault('text', self.links[value].get('link', {}).get('text', []))\n")],
     needs="a link that is the address of a link tag and of an anchor",
     breaks="a text of the anchor counts as one of the link",
     demo='''
rs = build("loadplugin oa.plugins.uri_detail.URIDetailPlugin\\nuri_detail A type =~ /^link$/ text =~ /word/\\n")
expect(hits(check(rs, "Content-Type: text/html\\n\\n<link href=\\"http://x.example/\\">t</link><a href=\\"http://x.example/\\">word</a>\\n")), [])
'''),
dict(id="b67", property="C45", file="oa/plugins/bayes.py",
     edits=[("        if not self['bayes_use_hapaxes']:\n            threshold = 2\n\n        probabilities = []\n", "        if not self['bayes_use_hapaxes'] and ns + nn > 2:\n            threshold = 2\n        probabilities = []\n")],
     needs="bayes_use_hapaxes 0 with only one spam and one ham message learned",
     breaks="tokens seen once count",
     demo='''
import tempfile, shutil
d = tempfile.mkdtemp()
rs = build("loadplugin oa.plugins.bayes.BayesPlugin\\nbayes_path %s/b\\nuse_bayes 1\\nbayes_min_spam_num 1\\nbayes_min_ham_num 1\\nbayes_use_hapaxes 0\\n" % d)
p = rs.ctxt.plugins["BayesPlugin"]
expect(p._compute_prob_for_all_tokens([(b"12345", 1, 0, 0)], 1, 1), [None])
shutil.rmtree(d)
'''),
]
