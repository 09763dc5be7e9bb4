"""One configuration with every plugin, messages that make each of their rules
match or not, and the fingerprint of everything a check tells of a message."""
import base64
import os
import struct
import zlib

from mc import env

PUBKEY = ("v=DKIM1; k=rsa; p=MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQDLrY6d0h7PWntt4Qg57COs0tPLi6gDS4YWiDv6lMv9xq9tdEZ5Mp+XlyOFe7K9irXkXj0diqunjjelNb5u56zEZEeKYG0o"
          "vRV+gL+R1ffktCOmbLnUsF9MyhaEOlg8h3gdkyQeMYYK6E6Y3Uj4JoRELqN+kksCYrjGdFEElog3iwIDAQAB")

PLUGINS = """loadplugin oa.plugins.body_eval.BodyEval
loadplugin oa.plugins.dkim.DKIMPlugin
loadplugin oa.plugins.dns_eval.DNSEval
loadplugin oa.plugins.free_mail.FreeMail
loadplugin oa.plugins.header_eval.HeaderEval
loadplugin oa.plugins.image_info.ImageInfoPlugin
loadplugin oa.plugins.mime_eval.MIMEEval
loadplugin oa.plugins.pdf_info.PDFInfoPlugin
loadplugin oa.plugins.pyzor.PyzorPlugin
loadplugin oa.plugins.razor2.Razor2Plugin
loadplugin oa.plugins.relay_country.RelayCountryPlugin
loadplugin oa.plugins.relay_eval.RelayEval
loadplugin oa.plugins.replace_tags.ReplaceTags
loadplugin oa.plugins.short_circuit.ShortCircuit
loadplugin oa.plugins.spf.SpfPlugin
loadplugin oa.plugins.textcat.TextCatPlugin
loadplugin oa.plugins.uri_detail.URIDetailPlugin
loadplugin oa.plugins.uri_eval.URIEvalPlugin
loadplugin oa.plugins.whitelist_subject.WhiteListSubjectPlugin
loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin
"""

OPTIONS = """trusted_networks 10.0.0.0/8
internal_networks 10.1.0.0/16
dns_available yes
required_score 5
report all _SCORE_ _TESTS_ _TESTSSCORES(,)_ _RELAYCOUNTRY_ _LANGUAGES_ _SUMMARY_
add_header all Sum _TESTS_ _RELAYSTRUSTED_ _RELAYSUNTRUSTED_
whitelist_from_spf *@spf.example
def_whitelist_from_spf *@dspf.example
def_whitelist_from_spf *@spf.example
whitelist_from_dkim *@dk.example
freemail_domains freemail.example free2.example
ok_languages en
whitelist_from *@good.example
blacklist_from *@bad.example
whitelist_to *@to.example
whitelist_from_rcvd *@rcvd.example rcvd.example
enlist_uri_host (BL) bad-uri.example
enlist_uri_host (WL) good-uri.example
whitelist_subject good subject
blacklist_subject bad subject
replace_tag A [a@4]
replace_rules TAGGED
shortcircuit SCRULE spam
geodb @GEO@
geodb-ipv6 @GEO@
textcat_acceptable_prob 0.6
pyzor_servers a.example:24441
freemail_add_describe_email 1
util_rb_tld example
ok_locales en
"""

RULES = [
    "header H_SUBJ Subject =~ /spam/i", "header H_EX exists:X-Extra", "header H_ADDR From:addr =~ /bad/", "header H_NAME From:name =~ /Name/", "header H_RAW Subject:raw =~ /=\\?/",
    "header H_ALL ALL =~ /^X-Extra: (\\w+)/m", "header H_NEG Subject !~ /spam/i", "header H_TOCC ToCc =~ /to.example/", "header H_MSGID MESSAGEID =~ /@/", "header H_UNSET X-None =~ /^UNSET$/ [if-unset: UNSET]",
    "header H_RELAY X-Relay-Countries =~ /RO/",
    "body B_ONE /\\bone\\b/", "body B_CAP /two (\\w+)/", "rawbody R_HTML /<b>/i", "full F_ALL /boundary=/i", "uri U_BAD /bad-uri/", "uri U_ANY /^http/", "mimeheader M_PNG Content-Type =~ /png/",
    "body TAGGED /c<A>sh/", "body SCRULE /shortcircuit me/", "meta M_1 B_ONE && !H_SUBJ", "meta M_2 (B_ONE + U_ANY + H_EX) >= 2",
    "uri_detail UD_TEXT raw =~ /bad-uri/ text =~ /click/", "uri_detail UD_DOM domain =~ /example/",
    "header SPF_PASS eval:check_for_spf_pass()", "header SPF_FAIL eval:check_for_spf_fail()", "header SPF_SOFT eval:check_for_spf_softfail()", "header SPF_NONE eval:check_for_spf_none()", "header SPF_NEUTRAL eval:check_for_spf_neutral()",
    "header SPF_PERM eval:check_for_spf_permerror()", "header SPF_TEMP eval:check_for_spf_temperror()",
    "header SPFH_PASS eval:check_for_spf_helo_pass()", "header SPFH_FAIL eval:check_for_spf_helo_fail()", "header SPFH_NONE eval:check_for_spf_helo_none()", "header SPFH_SOFT eval:check_for_spf_helo_softfail()",
    "header SPF_WL eval:check_for_spf_whitelist_from()", "header SPF_DWL eval:check_for_def_spf_whitelist_from()",
    "full DK_SIGNED eval:check_dkim_signed()", "full DK_VALID eval:check_dkim_valid()", "full DK_AUTHOR eval:check_dkim_valid_author_sig()", "header DK_DEP eval:check_dkim_dependable()", "header DK_WL eval:check_for_dkim_whitelist_from()",
    "header DK_ADSP eval:check_dkim_adsp('D')",
    "header RBL_A eval:check_rbl('zone', 'bl.example.')", "header RBL_SUB eval:check_rbl_sub('zone', '127.0.0.3')", "header RBL_TXT eval:check_rbl_txt('ztxt', 'txt.example.', '(?i)listed')",
    "header RBL_ENV eval:check_rbl_envfrom('zenv', 'env.example.')", "header RBL_HOST eval:check_rbl_from_host('zh', 'host.example.')", "header DNS_SENDER eval:check_dns_sender()",
    "header FM_FROM eval:check_freemail_from()", "header FM_REPLY eval:check_freemail_replyto('replyto')", "header FM_HDR eval:check_freemail_header('X-Free')", "header FM_BODY eval:check_freemail_body()", "header FM_DIG eval:check_freemail_from('\\d@')",
    "header HE_AOL eval:check_for_fake_aol_relay_in_rcvd()", "header HE_FARC eval:check_for_faraway_charset_in_headers()", "header HE_UNIQ eval:check_for_unique_subject_id()", "header HE_ILL eval:check_illegal_chars('Subject', '0.02', '2')",
    "header HE_ILLA eval:check_illegal_chars('ALL', '0.02', '2')", "header HE_HOT eval:check_for_forged_hotmail_received_headers()", "header HE_NOHOT eval:check_for_no_hotmail_received_headers()", "header HE_MSN eval:check_for_msn_groups_headers()",
    "header HE_YAHOO eval:check_for_forged_yahoo_received_headers()", "header HE_JUNO eval:check_for_forged_juno_received_headers()", "header HE_MATCH eval:check_for_matching_env_and_hdr_from()", "header HE_SORT eval:sorted_recipients()",
    "header HE_SIM eval:similar_recipients('0.1', '2')", "header HE_NOTO eval:check_for_missing_to_header()", "header HE_GW eval:check_for_forged_gw05_received_headers()", "header HE_DATE eval:check_for_shifted_date('12', '24')",
    "header HE_CAPS eval:subject_is_all_caps()", "header HE_TOSUB eval:check_for_to_in_subject('user')", "header HE_OUT eval:check_outlook_message_id()", "header HE_MID eval:check_messageid_not_usable()", "header HE_CNT eval:check_header_count_range('Received', '2', '9')",
    "header HE_TMPL eval:check_unresolved_template()", "header HE_RAT eval:check_ratware_name_id()", "header HE_RATE eval:check_ratware_envelope_from()", "header HE_GATE eval:gated_through_received_hdr_remover()", "header HE_EQ eval:check_equal_from_domains()",
    "header HE_MONTH eval:received_within_months('6', 'undef')", "header HE_EUD eval:check_for_forged_eudoramail_received_headers()",
    "body II_CNT eval:image_count('png', '1', '3')", "body II_NAME eval:image_named('pic.png')", "body II_COV eval:pixel_coverage('png', '10', '100000')", "body II_SIZE eval:image_size_exact('png', '20', '30')", "body II_RANGE eval:image_size_range('png', 10, 10, 50, 50)", "body II_RATIO eval:image_to_text_ratio('png', 0.0, 0.5)",
    "body ME_MIME eval:check_for_mime('mime_multipart_alternative')", "body ME_B64 eval:check_for_mime('mime_base64_count')", "body ME_HTML eval:check_for_mime_html()", "body ME_HTMLO eval:check_for_mime_html_only()", "body ME_RATIO eval:check_mime_multipart_ratio('0.10', '0.70')",
    "body ME_FLAG eval:check_msg_parse_flags('missing_mime_headers')", "body ME_ILL eval:check_for_ascii_text_illegal()", "body ME_UNI eval:check_abundant_unicode_ratio(0.02)", "body ME_FAR eval:check_for_faraway_charset()", "body ME_UP eval:check_for_uppercase('40', '100')",
    "body ME_MA eval:check_ma_non_text()", "body ME_BL eval:check_base64_length(6, 49)", "body ME_QP eval:check_qp_ratio(0)",
    "body BE_ALT eval:multipart_alternative_difference('50', '100')", "body BE_ALTC eval:multipart_alternative_difference_count('3', '1')", "body BE_BLANK eval:check_blank_line_ratio('10', '50', '3')", "body BE_VERT eval:tvd_vertical_words('2', '15')", "body BE_STOCK eval:check_stock_info('1')",
    "body PDF_C eval:pdf_count(1, 5)", "body PDF_N eval:pdf_named('doc.pdf')", "body PDF_R eval:pdf_name_regex('^doc')", "body PDF_E eval:pdf_is_encrypted()", "body PDF_EB eval:pdf_is_empty_body(10)",
    "full PYZOR eval:check_pyzor()", "full RAZOR eval:check_razor2()", "body TEXTCAT eval:check_language()",
    "header RE_NUM eval:check_for_numeric_helo()", "header RE_ALLT eval:check_all_trusted()", "header RE_NONE eval:check_no_relays()", "header RE_NOREV eval:check_for_sender_no_reverse()", "header RE_DOM eval:check_for_from_domain_in_received_headers('good.example', 'true')",
    "header RE_TRAIL eval:check_for_forged_received_trail()", "header RE_IPH eval:check_for_forged_received_ip_helo()", "header RE_HIM eval:helo_ip_mismatch()", "header RE_DOTCOM eval:check_for_no_rdns_dotcom_helo()",
    "body UE_REDIR eval:check_for_http_redirector()", "body UE_HTTPS eval:check_https_ip_mismatch()", "body UE_TRUNC eval:check_uri_truncated()",
    "header WS_W eval:check_subject_in_whitelist()", "header WS_B eval:check_subject_in_blacklist()",
    "header WL_FROM eval:check_from_in_whitelist()", "header WL_BFROM eval:check_from_in_blacklist()", "header WL_TO eval:check_to_in_whitelist()", "header WL_MF eval:check_mailfrom_matches_rcvd()", "header WL_FORGED eval:check_forged_in_whitelist()",
    "body WL_UB eval:check_uri_host_listed('BL')", "body WL_UW eval:check_uri_host_listed('WL')",
]


def config(plugins=PLUGINS, options=OPTIONS, rules=RULES):
    env.write("geo.dat", "x")
    lines = [plugins, options.replace("@GEO@", env.scratch("geo.dat"))]
    for i, r in enumerate(rules):
        name = r.split()[1]
        lines.append("%s\nscore %s %s\n" % (r, name, 0.01 * (i + 1)))
        if i % 3 == 0:
            lines.append("describe %s text of %s\n" % (name, name))
    return "".join(lines)


def png(width, height):
    def chunk(kind, data):
        return struct.pack(">I", len(data)) + kind + data + struct.pack(">I", zlib.crc32(kind + data) & 0xffffffff)
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", width, height, 8, 2, 0, 0, 0)) +
            chunk(b"IDAT", zlib.compress(b"\0" * 100)) + chunk(b"IEND", b""))


RCVD = "Received: from %s (%s [%s]) by %s (Postfix) with SMTP id X%s; Mon, 1 Jan 2018 0%d:00:00 +0000\n"


def rcvd(*hops):
    """Newest first: (helo, rdns, ip, by, envelope from)"""
    out = []
    for i, (helo, rdns, ip, by, frm) in enumerate(hops):
        if frm:
            out.append("Received: from %s (%s [%s]) by %s (Postfix) with SMTP id X%d (envelope-from <%s>); Mon, 1 Jan 2018 0%d:00:00 +0000\n" % (helo, rdns, ip, by, i, frm, 9 - i))
        else:
            out.append("Received: from %s (%s [%s]) by %s (Postfix) with SMTP id X%d; Mon, 1 Jan 2018 0%d:00:00 +0000\n" % (helo, rdns, ip, by, i, 9 - i))
    return "".join(out)


IN = ("in.local.example", "in.local.example", "10.1.0.5", "mx.local.example", None)


def signed(text):
    import dkim
    import time
    with open(os.path.join(os.path.dirname(__file__), "data", "dkim.pem"), "rb") as f:
        key = f.read()
    real = time.time
    time.time = lambda: 1500000000.0
    try:
        sig = dkim.sign(text.replace("\n", "\r\n").encode(), b"sel", b"dk.example", key)
    finally:
        time.time = real
    return sig.decode().replace("\r\n", "\n") + text


def make_messages():
    m = {}
    m["plain"] = "From: Name <a@plain.example>\nTo: u@to.example\nSubject: hello\nDate: Mon, 1 Jan 2018 09:00:00 +0000\nMessage-Id: <1@plain.example>\n\none two three this is an english text of some words\n"
    m["empty"] = "\n"
    m["nohead"] = "just some text without any header at all\n"
    m["spf-pass"] = rcvd(IN, ("mail.spf.example", "mail.spf.example", "45.9.2.1", "in.local.example", "x@spf.example")) + \
        "From: x@spf.example\nTo: u@c.example\nSubject: SPAM ONE\nX-Extra: yes\n\none two four http://good-uri.example\n"
    m["spf-fail"] = rcvd(IN, ("mail.fail.example", "mail.fail.example", "45.9.2.2", "in.local.example", "x@fail.example")) + \
        "From: x@dspf.example\nTo: u@c.example\nSubject: bad subject\n\nc4sh two five http://bad-uri.example\n"
    m["spf-header"] = rcvd(IN, ("mail.h.example", "mail.h.example", "45.9.2.3", "in.local.example", "x@h.example")) + \
        "Received-SPF: softfail (x) identity=mailfrom; client-ip=45.9.2.3\nFrom: x@h.example\nSubject: good subject\n\ntext\n"
    m["spf-authres"] = rcvd(IN, ("mail.ar.example", "mail.ar.example", "45.9.2.4", "in.local.example", "x@ar.example")) + \
        "Authentication-Results: local.example; spf=neutral smtp.mailfrom=x@ar.example; dkim=none\nFrom: x@ar.example\nSubject: x\n\ntext\n"
    m["spf-helo"] = rcvd(IN, ("helo.example", "helo.example", "45.9.2.5", "in.local.example", None)) + \
        "Received-SPF: pass identity=helo; client-ip=45.9.2.5\nFrom: x@helo.example\nSubject: x\n\ntext\n"
    m["dkim-good"] = signed("From: a@dk.example\nTo: u@c.example\nSubject: signed\n\nsigned text\n")
    m["dkim-bad"] = signed("From: a@dk.example\nTo: u@c.example\nSubject: signed\n\nsigned text\n").replace("signed text", "other text")
    m["dkim-other"] = signed("From: a@other.example\nTo: u@c.example\nSubject: signed\n\nsigned text\n")
    m["forged"] = rcvd(IN, ("5.6.7.8", "a.forge.example", "45.9.2.9", "in.local.example", "x@forge.example"), ("78.5.10.9", "b.forge.example", "77.8.13.9", "zz.else.example", None),
                       ("hotmail.com", "unknown", "77.8.13.10", "yy.else.example", None)) + "From: x@forge.example\nTo: a@c.example\nSubject: x\n\ntext\n"
    m["trusted"] = rcvd(IN, ("in2.local.example", "in2.local.example", "10.2.0.5", "in.local.example", "x@good.example")) + "From: x@good.example\nTo: a@c.example\nSubject: x\n\ntext\n"
    m["free"] = rcvd(IN, ("m.free.example", "m.free.example", "45.9.2.11", "in.local.example", "x1@freemail.example")) + \
        "From: x1@freemail.example\nReply-To: y@free2.example\nX-Free: z@freemail.example\nTo: a@c.example\nSubject: x\n\nwrite to w@free2.example or v@freemail.example\n"
    m["illegal"] = u"From: \u00e9\u00e8\u00ea <a@bad.example>\nTo: a@c.example, aa@c.example, ab@c.example\nSubject: \u00e9\u00e9\u00e9\u00e9 \u00e8\n\nDas ist ein deutscher Text mit einigen W\u00f6rtern\n"
    m["html"] = "From: a@x.example\nTo: user@c.example\nSubject: user, this is\nMIME-Version: 1.0\nContent-Type: text/html; charset=us-ascii\n\n<html><b>one</b> <a href=\"http://bad-uri.example/a\">click me</a> <a href=\"https://1.2.3.4/\">https://bank.example/</a></html>\n"
    m["html2"] = "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: text/html\n\n<html><a href=\"http://good-uri.example/b\">here</a> <a href=\"http://r.example/?u=http://z.example/\">z</a></html>\n"
    m["alt"] = ("From: a@x.example\nTo: a@c.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/alternative; boundary=\"b1\"\n\n--b1\nContent-Type: text/plain\n\nONE TWO THREE FOUR\n\n\nFIVE\n"
                "--b1\nContent-Type: text/html\nContent-Transfer-Encoding: quoted-printable\n\n<p>something =C3=A9 very different</p>\n--b1--\n")
    m["png"] = ("From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=\"b1\"\n\n--b1\nContent-Type: text/plain\n\nsee the picture\n"
                "--b1\nContent-Type: image/png; name=\"pic.png\"\nContent-Transfer-Encoding: base64\n\n" + base64.b64encode(png(30, 20)).decode() + "\n--b1--\n")
    m["pdf"] = ("From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=\"b1\"\n\n--b1\nContent-Type: text/plain\n\nx\n"
                "--b1\nContent-Type: application/pdf; name=\"doc.pdf\"\nContent-Transfer-Encoding: base64\n\n" + base64.b64encode(b"%PDF-1.4\n1 0 obj\n<< /Encrypt 1 >>\nendobj\n%%EOF").decode() + "\n--b1--\n")
    m["b64"] = "From: a@x.example\nSubject: =?utf-8?q?sp=C3=A9m?=\nMIME-Version: 1.0\nContent-Type: text/plain; charset=utf-8\nContent-Transfer-Encoding: base64\n\n" + base64.b64encode(u"one \u00e9\u00e9 two words".encode("utf8")).decode() + "\n"
    m["sc"] = "From: a@x.example\nSubject: x\n\nshortcircuit me one\n"
    m["rbl"] = rcvd(IN, ("h.rbl.example", "h.rbl.example", "45.9.2.66", "in.local.example", "x@listed.example")) + "From: x@listed.example\nSubject: x\n\ntext\n"
    m["pyzor"] = "From: a@x.example\nSubject: pyz\n\n" + "this text is known to the service of pyzor as spam\n" * 3
    m["forged2"] = rcvd(IN, ("c.hotmail.com", "c.hotmail.com", "77.8.13.20", "in.local.example", None)) + \
        "From: A <x@hotmail.com>\nTo: <l@groups.msn.com>\nSubject: SPAM ONE TWO THREE\nX-Other: \u00e9\u00e9\u00e9\u00e9 \u00e8\u00e8\u00e8\nDate: Sun, 31 Dec 2017 12:00:00 +0000\nMessage-Id: <0000deadbeef$00000000$00000000@x>\n\ntext\n"
    m["forged3"] = "Received: from a by b with ESMTP; Mon, 1 Jan 2018 09:00:00 +0000\nReceived: from rly-ab12.mx.aol.com (x) by y; Mon, 1 Jan 2018 08:00:00 +0000\n" \
        "From: A <x@yahoo.com>\nTo: aa@c.example, ab@c.example, ac@d.example, ad@d.example, ae@d.example\nX-Tmpl: %AB_C\nSubject: x\n\ntext\n"
    m["forged4"] = rcvd(IN, ("d.example", "d.example", "77.8.13.21", "in.local.example", None)) + "From: x@eudoramail.com\nTo: user <user@to.example>\nSubject: x\n\ntext\n"
    m["forged5"] = rcvd(IN, ("d.example", "d.example", "77.8.13.22", "in.local.example", "toexample.user@x")) + "From: x@hotmail.com\nTo: user@to.example\nSubject: x\n\ntext\n"
    m["juno"] = rcvd(IN, ("d.example", "d.example", "77.8.13.23", "in.local.example", None)) + "From: x@juno.com\nSubject: x\n\ntext\n"
    m["upper"] = "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: text/plain; charset=koi8-r\nContent-Transfer-Encoding: 8bit\n\n" + \
        "THE QUICK BROWN FOX JUMPS OVER THE LAZY DOG AND BUYS STOCK: Price: 1 Symbol: ABCD &#x1234; &#x2345;\n" * 3 + "\n"
    m["altbad"] = ("From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/alternative; boundary=\"b1\"\n\n--b1\nContent-Type: text/plain\n\na b c d e f g h i j k l m n\n"
                   "--b1\nContent-Type: application/x-foo\n\nfoo\n--b1\nContent-Type: text/html; charset=koi8-r\n\n<p>one word here and some more text to be longer than that</p>\n--b1--\n")
    m["https"] = "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: text/html\n\n<a href=\"https://1.2.3.4/\">https://bank.example/</a> <a href=\"http://" + "a" * 9000 + ".example/\">x</a>\n"
    m["reply"] = "From: x1@freemail.example\nReply-To: x1@freemail.example\nSubject: click\n\nwrite to w@free2.example soon\n"
    m["rcvdgood"] = rcvd(IN, ("g.good.example", "g.good.example", "77.8.13.30", "in.good.example", "x@good.example")) + "From: x@good.example\nSubject: x\n\ntext\n"
    m["forgedwl"] = rcvd(IN, ("g.else.example", "g.else.example", "77.8.13.31", "in.local.example", "x@rcvd.example")) + "From: x@rcvd.example\nSubject: x\n\ntext\n"
    m["spf-perm"] = rcvd(IN, ("p.example", "p.example", "45.9.2.20", "in.local.example", "x@p.example")) + "From: x@p.example\nSubject: x\n\ntext\n"
    m["spf-temp"] = rcvd(IN, ("p.example", "p.example", "45.9.2.21", "in.local.example", "x@p.example")) + "From: x@p.example\nSubject: x\n\ntext\n"
    m["razor"] = "From: a@x.example\nSubject: x\n\nrazor-spam\n"
    m["hothelo"] = rcvd(IN, ("mx.hotmail.com", "unknown", "77.8.13.40", "in.local.example", "x@hotmail.com")) + \
        "Received: from mail.hotmail.com (x) by y with SMTP; Mon, 1 Jan 2018 08:00:00 +0000\nFrom: x@hotmail.com\nSubject: free stuff abc123XYZ7890\n\ntext\n"
    m["hothelo2"] = "Received: from mail.hotmail.com (x) by y with SMTP; Mon, 1 Jan 2018 08:00:00 +0000\nFrom: x@hotmail.com\nSubject: free stuff          789012\n\ntext\n"
    m["vertical"] = "From: a@x.example\nSubject: x\nContent-Type: text/plain; charset=us-ascii\n\n" + "longwordlong longwordlong\n" * 10 + "&#x1234;\n"
    m["mimebad"] = "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed\n\nno boundary here\n"
    return m


_messages = {}


def messages():
    if not _messages:
        _messages.update(make_messages())
    return _messages


class PyzorWorld(env.PyzorClient):
    """The answer depends on the message alone."""
    bad = set()

    def _do(self, what, digest):
        self.calls.append((what, digest))
        n = 20 if digest in self.bad else 0
        return {"Code": "200", "Diag": "OK", "PV": "2.1", "Thread": "1", "Count": str(n), "WL-Count": "0"}


def world():
    """What the network says."""
    env.DNS.reset({
        ("sel._domainkey.dk.example", "TXT"): [PUBKEY], ("sel._domainkey.dk.example", "16"): [PUBKEY],
        ("66.2.9.45.bl.example", "A"): ["127.0.0.3"], ("66.2.9.45.txt.example", "TXT"): ["Listed here"],
        ("listed.example.env.example", "A"): ["127.0.0.2"], ("listed.example.host.example", "A"): ["127.0.0.2"],
        ("plain.example", "A"): ["45.9.2.200"], ("spf.example", "MX"): ["10 mx.spf.example."],
    })
    env.SPF.reset({"45.9.2.1": "pass", "45.9.2.2": "fail", "45.9.2.5": "softfail", "45.9.2.20": "permerror", "45.9.2.21": "temperror"})
    env.PROGRAMS.reset({"razor-check": lambda data: 0 if b"razor-spam" in data else 1})
    env.GeoWorld.countries = {"45.9.2.1": "RO", "45.9.2.2": "DE", "77.8.13.9": "US"}
    import pyzor.client
    import pyzor.digest
    import email
    PyzorWorld.bad = {pyzor.digest.DataDigester(email.message_from_string(messages()["pyzor"])).value}
    pyzor.client.BatchClient = PyzorWorld


def fingerprint(rs, text, after=False):
    """Everything the check of this message tells."""
    try:
        msg = env.check(rs, text)
        out = {"score": round(msg.score, 6), "matched": env.matched(msg),
               "descriptions": dict((k, msg.rules_descriptions[k]) for k in sorted(msg.rules_descriptions)),
               "tags": dict((k, str(v)) for k, v in sorted(msg.plugin_tags.items())),
               "report": env.canon(rs.get_report(msg).encode("utf8")),
               "adjusted": env.canon(rs.get_adjusted_message(msg).encode("utf8", "surrogatepass"))}
    except Exception as e:
        import traceback
        out = {"raised": repr(e), "trace": traceback.format_exc()[-900:]}
    return out


def delta(got, want):
    """The differing parts only."""
    keys = sorted(set(got) | set(want))
    return dict((k, (got.get(k), want.get(k))) for k in keys if got.get(k) != want.get(k))
