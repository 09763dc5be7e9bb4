"""C46: the URI eval rules look at every URI and link of the message."""
import itertools
import os

from mc import env

TECHNIQUE = "exhaustive enumeration of URIs (chains of hosts, schemes and separators) and of messages of links and texts on the real engine, against a model of each rule"
LEVEL_NOTE = "All chains of up to 3 hosts (4 in thorough) over 4 hosts, 2 schemes and 6 separators, alone and after another; all messages of up to 3 (4) of 16 links; link lengths around the bound, in every place; all lists of up to 3 (4) of 9 parts."
ASSUMPTIONS = ["addresses with a port or a user are not judged as link hosts"]

CONFIG = "loadplugin oa.plugins.uri_eval.URIEvalPlugin\nbody REDIR eval:check_for_http_redirector()\nbody HTTPS eval:check_https_ip_mismatch()\nbody TRUNC eval:check_uri_truncated()\n"
DETAIL = "loadplugin oa.plugins.uri_detail.URIDetailPlugin\nuri_detail UD raw =~ /example/\n"
HOSTS = ("one.example", "two.example", "one.example.org", "45.1.2.3")
SEPS = ("/", "/go?u=", "?", "/a/b/", "/#", "/x&url=")
_sets = {}


def ruleset(detail=False):
    key = (os.getpid(), detail)
    if key not in _sets:
        _sets[key] = env.build(CONFIG + (DETAIL if detail else ""))
    return _sets[key]


def mail(body, html=False):
    head = "From: a@x.example\nSubject: x\n"
    if html:
        return head + "MIME-Version: 1.0\nContent-Type: text/html\n\n<html>" + body + "</html>\n"
    return head + "\n" + body + "\n"


def chain(scheme, hosts, seps):
    out = ""
    for h, s in zip(hosts, seps):
        out += "%s://%s%s" % (scheme, h, s)
    return out


def run_redirects(case, rec):
    scheme, hosts, where = case
    rs = ruleset()
    for seps in itertools.product(SEPS, repeat=len(hosts) - 1):
        rec.step()
        rec.state((case, seps))
        uri = chain(scheme, hosts, seps + ("/end",))
        want = any(a != b for a, b in zip(hosts, hosts[1:]))
        text = {"alone": uri, "after": "http://zzz.example/ and\n" + uri, "before": uri + "\nhttp://[bad/x http://aaa.example/?q", "link": '<a href="%s">x</a>' % uri}[where]
        rec.check("redirector", "REDIR" in env.matched(env.check(rs, mail(text, where == "link"))), want, uri=uri, where=where)
    rec.trace()


# name: (markup, is a link to an address with a text that names an https host)
LINKS = {
    "evil": ('<a href="http://45.1.2.3/login">https://bank.example/login</a>', True),
    "evil2": ('<a href="https://45.1.2.4/">go to https://bank.example now</a>', True),
    "six": ('<a href="http://45.1.2.3/x">http://bank.example/</a>', False),
    "ips": ('<a href="http://45.1.2.5/">https://45.1.2.5/</a>', False),
    "ips2": ('<a href="http://45.1.2.6/">https://46.1.2.5/</a>', False),
    "iptext": ('<a href="http://45.1.2.7/">click here</a>', False),
    "both": ('<a href="http://45.1.2.8/">https://45.1.2.8/ or https://bank.example/</a>', True),
    "host": ('<a href="http://one.example/">https://bank.example/</a>', False),
    "mail": ('<a href="mailto:x@one.example">write</a>', False),
    "css": ('<link href="http://45.1.2.9/">', False),
    "plain": ('http://45.1.2.10/ https://bank.example/', False),
    "nohref": ('<a href>https://bank.example/</a>', False),
    "badlink": ('<a href="http://[x/">https://bank.example/</a>', False),
    "badtext": ('<a href="http://45.1.2.11/">https://[x/</a>', None),
    "mark": ('<![x>', False),
    "rel": ('<a href="/local">https://bank.example/</a>', False),
}


def run_links(case, rec):
    detail, names = case
    rs = ruleset(detail)
    rec.state(case)
    rec.step()
    want = [LINKS[n][1] for n in names]
    if not any(want) and None in want:
        want = None
    else:
        want = any(want)
    hits = env.matched(env.check(rs, mail("\n".join(LINKS[n][0] for n in names), True)))
    if want is not None:
        rec.check("https", "HTTPS" in hits, want, links=[LINKS[n][0] for n in names])
    rec.check("truncated", "TRUNC" in hits, False, links=names)
    rec.trace()


def run_long(case, rec):
    detail, length, markup, before, after = case[:5]
    fill = case[5] if len(case) > 5 else "a"
    rs = ruleset(detail)
    rec.state(case)
    rec.step()
    uri = "http://one.example/"
    uri += (fill * length)[:length - len(uri)]
    text = LINKS[before][0] + "\n" + markup % uri + "\n" + LINKS[after][0]
    want = length > 8192 and "<" in markup
    rec.check("truncated", "TRUNC" in env.matched(env.check(rs, mail(text, True))), want, length=length, markup=markup, before=before, after=after)
    rec.trace()


PARTS = {
    "text": ("text/plain", "just text", None), "link": ("text/plain", "http://one.example/a", None), "redirect": ("text/plain", "http://one.example/go?u=http://two.example/b", "REDIR"), "other": ("text/plain", "see http://two.example/", None),
    "html": ("text/html", "<html><p>words</p></html>", None), "anchor": ("text/html", '<html><a href="http://one.example/go?u=http://three.example/b">x</a></html>', "REDIR"), "evil": ("text/html", '<html>%s</html>' % LINKS["evil2"][0], "HTTPS"),
    "long": ("text/html", '<html><a href="http://one.example/%s">x</a></html>' % ("a" * 8200), "TRUNC"), "good": ("text/html", '<html>%s</html>' % LINKS["host"][0], None),
}


def run_parts(case, rec):
    detail, kind, names = case
    rs = ruleset(detail)
    rec.state(case)
    rec.step()
    text = "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/%s; boundary=b\n\n" % kind
    text += "".join("--b\nContent-Type: %s\n\n%s\n" % PARTS[n][:2] for n in names) + "--b--\n"
    got = sorted(set(env.matched(env.check(rs, text))) & {"REDIR", "HTTPS", "TRUNC"})
    rec.check("parts", got, sorted({PARTS[n][2] for n in names} - {None}), kind=kind, parts=names)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    # what the link is made of: escapes, directories, queries, a long host
    fills = [(d, n, m, b, "plain", f) for d in (False, True) for n in (8180, 8192, 8193, 8194, 9000, 16000, 24600) for m in ('<a href="%s">x</a>', '<link href="%s">', '<a\nclass=x href=\'%s\'></a>', '<A HREF="%s">') for b in ("plain", "evil") for f in ("%41", "%", "a/", "../", "?", "a=b&", "#", ".", "-", "%25", "%C3%A9", "1", ";", ":", "@a", "%2F", "a b", "[")]
    chains = [h for k in range(1, 5 if deep else 4) for h in itertools.product(HOSTS, repeat=k)]
    links = [s for k in range(5 if deep else 4) for s in (itertools.product(LINKS, repeat=k) if k < 4 else itertools.permutations(LINKS, k))]
    return [
        Space("redirects", [(s, h, w) for s in ("http", "https") for h in chains for w in ("alone", "after", "before", "link")], run_redirects, "chains of hosts in a URI", chunk=4),
        Space("links", [(False, s) for s in links] + [(True, s) for s in links if len(s) < 3], run_links, "links and what they show", chunk=60),
        Space("parts", [(d, k, c) for d in (False, True) for k in ("mixed", "alternative") for n in range(1, 5 if deep else 4) for c in itertools.product(sorted(PARTS), repeat=n)], run_parts, "links in several parts", chunk=60),
        Space("long", [(d, n, m, b, a) for d in (False, True) for n in (30, 8191, 8192, 8193, 20000) for m in ('<a href="%s">x</a>', '<link href="%s">', "see %s now") for b in LINKS for a in ("evil", "plain", "nohref", "css")] + fills, run_long, "long links", chunk=20),
    ]
