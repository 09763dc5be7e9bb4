exec(open(__file__.replace("b5.py", "b3.py")).read().split("BUGS = [")[0]) if "__file__" in globals() else None
BUGS = [
dict(id="b120", property="C47", file="oa/plugins/relay_eval.py",
     edits=[("            if not helo_host:\n                continue\n            no_rdns_dotcom_helo = False\n", "            if not helo_host:\n                continue\n")],
     needs="two untrusted relays, of which only the later one said HELO as a large provider",
     breaks="a relay other than the earliest one decides",
     demo='''
rs = build("loadplugin oa.plugins.relay_eval.RelayEval\\nheader A eval:check_for_no_rdns_dotcom_helo()\\n")
one = "Received: from %s (unknown [8.8.8.%d]) by mx.example.org (Postfix) with ESMTP id X; Mon, 1 Jan 2018 00:00:00 +0000\\n"
expect([hits(check(rs, one % (a, 1) + one % (b, 2) + "Subject: x\\n\\none\\n")) for a, b in (("x.example", "mx.aol.com"), ("mx.aol.com", "x.example"))], [["A"], []])
'''),
dict(id="b121", property="C47", file="oa/plugins/relay_eval.py",
     edits=[("                if (ip_netmask_16 != helo_netmask_16 and\n                        not IP_PRIVATE.match(helo_host)):\n", "                if (ip_netmask_16 != helo_netmask_16 and\n                        not IP_PRIVATE.match(from_ip)):\n")],
     needs="a HELO with a private address",
     breaks="a private address in the HELO counts as forged",
     demo='''
rs = build("loadplugin oa.plugins.relay_eval.RelayEval\\nheader A eval:check_for_forged_received_ip_helo()\\n")
one = "Received: from %s (r.example.net [8.8.8.8]) by mx.example.org (Postfix) with ESMTP id X; Mon, 1 Jan 2018 00:00:00 +0000\\nSubject: x\\n\\none\\n"
expect([hits(check(rs, one % h)) for h in ("9.9.9.9", "10.1.1.1")], [["A"], []])
'''),
dict(id="b122", property="C48", file="oa/plugins/header_eval.py",
     edits=[('        for header in ["Resent-Date", "Date"]:\n', '        for header in ["Date", "Resent-Date"]:\n')],
     needs="a message that was sent again long after its Date",
     breaks="the Date counts before the Resent-Date",
     demo='''
rs = build("loadplugin oa.plugins.header_eval.HeaderEval\\nheader A eval:check_for_shifted_date('undef', '-96')\\n")
one = "Received: from a (r.example.net [8.8.8.8]) by mx.example.org (Postfix) with ESMTP id X; Wed, 10 Jan 2018 00:00:00 +0000\\n%sDate: Mon, 1 Jan 2018 00:00:00 +0000\\nSubject: x\\n\\none\\n"
expect([hits(check(rs, one % h)) for h in ("", "Resent-Date: Tue, 9 Jan 2018 23:00:00 +0000\\n")], [["A"], []])
'''),
dict(id="b123", property="C48", file="oa/plugins/header_eval.py",
     edits=[('        date_re = Regex(r"(\\s.?\\d+ \\S\\S\\S \\d+ \\d+:\\d+:\\d+ \\S+)")\n', '        date_re = Regex(r"(\\s.?\\d+ \\S\\S\\S \\d+ \\d+:\\d+:\\d+(?: [+-]\\d+)?)")\n')],
     needs="a Received header with the name of its time zone",
     breaks="the time zone of some Received headers is lost",
     demo='''
rs = build("loadplugin oa.plugins.header_eval.HeaderEval\\nheader A eval:check_for_shifted_date('3', '6')\\n")
one = "Received: from a (r.example.net [8.8.8.8]) by mx.example.org (Postfix) with ESMTP id X; Wed, 10 Jan 2018 00:00:00 %s\\nDate: Wed, 10 Jan 2018 05:00:00 +0000\\nSubject: x\\n\\none\\n"
expect([hits(check(rs, one % h)) for h in ("GMT", "-0500", "EST")], [["A"], [], []])
'''),
dict(id="b124", property="C49", file="oa/plugins/mime_eval.py",
     edits=[('                           html_characters_count + len(payload))\n', '                           max(html_characters_count, len(payload)))\n')],
     needs="two parts of HTML",
     breaks="only the longest HTML part counts for the ratio",
     demo='''
rs = build("loadplugin oa.plugins.mime_eval.MIMEEval\\nbody A eval:check_mime_multipart_ratio('0.4', '0.6')\\n")
head = "Subject: x\\nMIME-Version: 1.0\\nContent-Type: multipart/mixed; boundary=b\\n\\n--b\\nContent-Type: text/plain\\n\\n0123456789\\n"
html = "--b\\nContent-Type: text/html\\n\\n0123456789\\n"
expect([hits(check(rs, head + html * n + "--b--\\n")) for n in (1, 2, 3)], [[], ["A"], []])
'''),
dict(id="b125", property="C49", file="oa/plugins/mime_eval.py",
     edits=[('        if "quoted-printable" in content_transfer_encoding.lower():\n', '        if "quoted-printable" == content_transfer_encoding:\n')],
     needs="the name of the encoding in capitals",
     breaks="the case of the encoding matters",
     demo='''
rs = build("loadplugin oa.plugins.mime_eval.MIMEEval\\nbody A eval:check_for_mime('mime_qp_count')\\n")
expect([hits(check(rs, "Subject: x\\nMIME-Version: 1.0\\nContent-Type: text/plain\\nContent-Transfer-Encoding: %s\\n\\n=41\\n" % e)) for e in ("quoted-printable", "Quoted-Printable", "7bit")], [["A"], ["A"], []])
'''),
dict(id="b126", property="C50", file="oa/plugins/image_info.py",
     edits=[("            area = img['width'] * img['height']\n            self._update_coverage(msg, subtype, area)\n\n        else:\n", "\n        else:\n")],
     needs="the same image twice in a message",
     breaks="a repeated image does not cover again",
     demo='''
import base64
rs = build("loadplugin oa.plugins.image_info.ImageInfoPlugin\\nbody A eval:pixel_coverage('gif', 100, 100)\\n")
gif = b"GIF89a" + bytes([10, 0, 5, 0, 128, 0, 0, 0, 0, 0, 255, 255, 255]) + b"," + bytes([0, 0, 0, 0, 10, 0, 5, 0, 0]) + b"\\x02\\x02\\x44\\x01\\x00;"
part = "--b\\nContent-Type: image/gif\\nContent-Transfer-Encoding: base64\\n\\n%s\\n" % base64.b64encode(gif).decode()
expect([hits(check(rs, "Subject: x\\nMIME-Version: 1.0\\nContent-Type: multipart/mixed; boundary=b\\n\\n" + part * n + "--b--\\n")) for n in (1, 2, 3)], [[], ["A"], []])
'''),
dict(id="b127", property="C51", file="oa/plugins/body_eval.py",
     edits=[("            if token in html_tokens and count >= html_tokens[token]:\n", "            if token in html_tokens and count <= html_tokens[token]:\n")],
     needs="a word that the alternatives have unequally often",
     breaks="a word that HTML has more often counts as the same",
     demo='''
rs = build("loadplugin oa.plugins.body_eval.BodyEval\\nbody A eval:multipart_alternative_difference(50, 100)\\n")
mail = "Subject: x\\nMIME-Version: 1.0\\nContent-Type: multipart/alternative; boundary=b\\n\\n--b\\nContent-Type: text/plain\\n\\n%s\\n--b\\nContent-Type: text/html\\n\\n%s\\n--b--\\n"
expect([hits(check(rs, mail % t)) for t in (("one", "one"), ("one", "one one"), ("one one", "one"), ("one", "two"))], [[], ["A"], [], ["A"]])
'''),
dict(id="b128", property="C52", file="oa/plugins/header_eval.py",
     edits=[("            if rcpt1 == rcpt2:\n                continue\n            addresses.append(rcpt2)\n", "            if rcpt2 in addresses:\n                continue\n            addresses.append(rcpt2)\n")],
     needs="a recipient that is repeated, but not next to itself, among few others",
     breaks="recipients that repeat later are not counted",
     demo="""
rs = build("loadplugin oa.plugins.header_eval.HeaderEval\\nheader A eval:similar_recipients('0.01', '0.15')\\n")
expect([hits(check(rs, "To: %s\\nSubject: x\\n\\none\\n" % ", ".join(c + "@x.example" for c in t))) for t in ("abcde", "abcdea")], [[], ["A"]])
"""),
dict(id="b129", property="C52", file="oa/plugins/header_eval.py",
     edits=[("            if len(subject) < 10:\n                # Don't match short subjects\n                continue\n            if len(subject.split()) == 1:\n                # Don't match one word subjects\n                continue\n            if subject.isupper():", "            if len(subject.split()) == 1:\n                # Don't match one word subjects\n                continue\n            if len(subject) >= 10 and subject == subject.upper():")],
     needs="a long subject of digits only",
     breaks="a subject without any letter is in capitals",
     demo="""
rs = build("loadplugin oa.plugins.header_eval.HeaderEval\\nheader A eval:subject_is_all_caps()\\n")
expect([hits(check(rs, "Subject: %s\\n\\none\\n" % s)) for s in ("HELLO WORLD", "12345 67890", "hello world")], [["A"], [], []])
"""),
]
