exec(open(__file__.replace("b4.py", "b3.py")).read().split("BUGS = [")[0]) if "__file__" in globals() else None
BUGS = [
dict(id="b93", property="C40", file="oa/plugins/free_mail.py",
     edits=[('        if part.get_content_type() in ("text/plain", "text/html"):\n', '        if part.get_content_type() == part.get_default_type():\n')],
     needs="an address that is only in an HTML part",
     breaks="addresses in HTML are not seen",
     demo='''
rs = build("loadplugin oa.plugins.free_mail.FreeMail\\nutil_rb_tld com\\nfreemail_domains gmail.com hotmail.com\\nheader A eval:check_freemail_replyto('reply')\\n")
head = "From: a@gmail.com\\nSubject: x\\nContent-Type: text/%s\\n\\n"
expect([hits(check(rs, head % kind + "<p>write to b@hotmail.com now</p>\\n")) for kind in ("plain", "html")], [["A"], ["A"]])
'''),
dict(id="b94", property="C40", file="oa/plugins/free_mail.py",
     edits=[("                temp = temp.replace('*', '[^.]*')\n", "                temp = temp.replace('*', '.*')\n")],
     needs="a domain with more labels than the wildcard",
     breaks="a wildcard reaches over dots",
     demo='''
rs = build("loadplugin oa.plugins.free_mail.FreeMail\\nutil_rb_tld com\\nfreemail_domains mail.*.com\\nheader A eval:check_freemail_from()\\n")
expect([hits(check(rs, "From: a@%s\\nSubject: x\\n\\none\\n" % d)) for d in ("mail.one.com", "mail.one.two.com")], [["A"], []])
'''),
dict(id="b95", property="C03", file="oa/rules/meta.py",
     edits=[('        return self._location["match"](msg)\n', '        return self._location["match"](msg) > 0\n')],
     needs="an arithmetic expression with a negative value",
     breaks="a meta rule with a negative value does not match",
     demo='''
rs = build("body __A /one/\\nbody __B /two/\\nmeta M __A - __B\\n")
expect([hits(check(rs, "Subject: x\\n\\n%s\\n" % t)) for t in ("one", "two", "one two")], [["M"], ["M"], []])
'''),
dict(id="b96", property="C37", file="oa/plugins/spf.py",
     edits=[("        mx = msg.external_relays[0]['helo']\n", "        mx = msg.external_relays[-1]['helo']\n")],
     needs="two external relays",
     breaks="the helo result is about another relay's name",
     demo=R + '''
import oa.plugins.spf
import spf
rs = build("loadplugin oa.plugins.spf.SpfPlugin\\nheader A eval:check_for_spf_helo_pass()\\n")
spf.check2 = lambda i, s, h, **k: (("pass" if h == "h0.example" else "fail"), "")
msg = rcvd("45.1.2.3", "46.1.2.3")
expect(hits(check(rs, msg + "Subject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b97", property="C37", file="oa/plugins/spf.py",
     edits=[("    \\bsmtp\\.(\\S+)\\s*=[^;]+)?\n\"\"\", re.I | re.S | re.X | re.M)", "    \\bsmtp\\.(\\S+?)\\s*=[^;]+)?\n\"\"\", re.I | re.X | re.M)"),
            ("    permerror|temperror)\n    \\b(?:.*\\bidentity=(\\S+?);?\\b)?\n\"\"\", re.I | re.S | re.X | re.M)", "    permerror|temperror)\n    \\b(?:.*\\bidentity=(\\S+?);?\\b)?\n\"\"\", re.I | re.X | re.M)")],
     needs="a folded Received-SPF header with the identity on its second line",
     breaks="a helo result counts as one for the sender",
     demo='''
rs = build("loadplugin oa.plugins.spf.SpfPlugin\\nheader A eval:check_for_spf_helo_pass()\\nheader B eval:check_for_spf_pass()\\n")
expect(hits(check(rs, "Received-SPF: pass (x)\\n\\tidentity=helo\\nSubject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b99", property="C05", file="oa/rules/ruleset.py",
     edits=[("            sorted(self.checked.items(), key=itemgetter(1), reverse=False))\n", "            sorted(sorted(self.checked.items(), key=itemgetter(0)), key=itemgetter(1)))\n")],
     needs="two rules of the same priority, defined in another order than that of their names",
     breaks="rules of one priority run by name",
     demo='''
rs = build("body ZZ /one/\\nbody AA /one/\\n")
expect(list(check(rs, "Subject: x\\n\\none\\n").rules_checked), ["ZZ", "AA"])
'''),
dict(id="b104", property="C10", file="oa/context.py",
     edits=[('    def __init__(self):\n        self.plugin_data = collections.defaultdict(dict)\n', '    plugin_data = collections.defaultdict(dict)\n\n    def __init__(self):\n')],
     needs="two configurations in one process that set the same plugin option",
     breaks="one ruleset has the plugin options of another",
     demo='''
conf = "loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin\\nheader A eval:check_from_in_whitelist()\\n"
one = build(conf + "whitelist_from a@x.example\\n")
two = build(conf + "whitelist_from b@x.example\\n")
expect([hits(check(rs, "From: %s@x.example\\nSubject: x\\n\\none\\n" % u)) for rs in (one, two) for u in "ab"], [["A"], [], [], ["A"]])
'''),
dict(id="b105", property="C35", file="oa/context.py",
     edits=[("        self.pop_plugin_data(name)\n        del self.plugins[name]\n", "        del self.plugins[name]\n")],
     needs="a plugin that is unloaded and loaded again",
     breaks="the plugin still has its data of before",
     demo='''
import oa.context
ctxt = oa.context.GlobalContext()
ctxt.load_plugin("oa.plugins.wlbl_eval.WLBLEvalPlugin")
ctxt.plugins["WLBLEvalPlugin"].set_global("mark", "old")
ctxt.unload_plugin("WLBLEvalPlugin")
ctxt.load_plugin("oa.plugins.wlbl_eval.WLBLEvalPlugin")
expect("mark" in ctxt.plugin_data["WLBLEvalPlugin"], False)
'''),
dict(id="b106", property="C46", file="oa/message.py",
     edits=[("                self.uri_list.update(set(URL_RE.findall(payload)))\n", "                self.uri_list = set(URL_RE.findall(payload))\n")],
     needs="a message with links in several text parts",
     breaks="only the links of the last part are known",
     demo='''
rs = build("uri A /one/\\nuri B /two/\\n")
expect(hits(check(rs, "Subject: x\\nContent-Type: multipart/mixed; boundary=b\\n\\n--b\\nContent-Type: text/plain\\n\\nhttp://one.example/\\n--b\\nContent-Type: text/plain\\n\\nhttp://two.example/\\n--b--\\n")), ["A", "B"])
'''),
dict(id="b110", property="C28", file="oa/plugins/dns_eval.py",
     edits=[("                if subtest.match(str(result)):\n                    return True\n        return False\n\n    def check_rbl(", "                return bool(subtest.match(str(result)))\n        return False\n\n    def check_rbl(")],
     needs="a list that answers with several addresses, of which the first does not match",
     breaks="only the first answer for a sender's domain counts",
     demo=R + '''
rs = build("loadplugin oa.plugins.dns_eval.DNSEval\\nheader A eval:check_rbl_from_host('bl.example', '127.0.0.3')\\n")
Resolver(rs, {("x.example.bl.example", "A"): ["127.0.0.2", "127.0.0.3"]})
expect(hits(check(rs, "From: a@x.example\\nSubject: x\\n\\none\\n")), ["A"])
'''),
dict(id="b111", property="C29", file="oa/message.py",
     edits=[("            for dummy, addr in email.utils.getaddresses([value]):\n                if addr:\n                    values.append(addr)\n        return values\n\n    def get_all_from", "            addresses = [addr for _, addr in email.utils.getaddresses([value]) if addr]\n            if addresses:\n                values.append(addresses[-1])\n        return values\n\n    def get_all_from")],
     needs="a header with two addresses, of which the first is listed",
     breaks="only the last address of a header is looked at",
     demo='''
rs = build("loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin\\nheader A eval:check_to_in_blacklist()\\nblacklist_to a@x.example\\n")
expect(hits(check(rs, "From: a@y.example\\nTo: a@x.example, b@x.example\\nSubject: x\\n\\none\\n")), ["A"])
'''),
]
