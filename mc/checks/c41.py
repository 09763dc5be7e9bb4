"""C41: uri_detail rules match one URI on all their conditions."""
import itertools
import os
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of messages made of links, texts and broken markup, judged by every single, pair and triple of conditions on the real engine, against a model of the links"
LEVEL_NOTE = "All messages of up to 3 (4 in thorough) of 14 links, URIs and pieces of broken markup, as HTML or in a multipart; 20 conditions alone, in all pairs, some triples; all combinations of score, describe, tflags and priority."
ASSUMPTIONS = ["a URI linked several times has one entry for each kind of tag, with the texts of all its anchors", "!~ on the texts of a URI with several is not judged"]

# name: (markup, uri, type, text)
ITEMS = {
    "a1": ('<a href="http://one.example/path">click here</a>', "http://one.example/path", "a", "click here"),
    "a1b": ('<a class="x" href="http://one.example/path" id="y">other words</a>', "http://one.example/path", "a", "other words"),
    "bank": ('<A HREF="https://two.example/">https://bank.example/</A>', "https://two.example/", "a", "https://bank.example/"),
    "enc": ('<a href="http://enc%6Fded.example/x%2Fy">CLICK</a>', "http://enc%6Fded.example/x%2Fy", "a", "CLICK"),
    "css": ('<link href="http://style.example/s.css"></link>', "http://style.example/s.css", "link", None),
    "l1": ('<link href="http://one.example/path">click</link>', "http://one.example/path", "link", "click"),
    "p1": ("see http://plain.example/one now", "http://plain.example/one", "parsed", None),
    "p2": ("see http://one.example/path now", "http://one.example/path", "parsed", None),
    "none": ("<a href>here</a>", None, None, None),
    "anchor": ("<a name=\"x\">click</a>", None, None, None),
    "bad": ('<a href="http://[bad/">click</a>', "http://[bad/", "a", "click"),
    "mark": ("<![x>", None, None, None),
    "text": ("click one.example or two", None, None, None),
    "port": ('<a href="http://one.example:8080/?q=http">go</a>', "http://one.example:8080/?q=http", "a", "go"),
}
CONDITIONS = [("raw", "=~", "/one/"), ("raw", "!~", "/one/"), ("raw", "=~", r"/^http:\/\/[a-z]+\.example\//"), ("raw", "=~", "/%6F/"), ("cleaned", "=~", "/encoded/"), ("cleaned", "=~", r"/x\/y$/"), ("cleaned", "!~", "/%/"),
              ("text", "=~", "/click/"), ("text", "=~", "/CLICK/i"), ("text", "!~", "/click/i"), ("text", "=~", r"/^https?:\/\//"), ("domain", "=~", "/example$/"), ("domain", "=~", r"/^one\.example$/"), ("domain", "!~", "/one|two/"), ("domain", "!~", "/BANK/i"),
              ("type", "=~", "/^a$/"), ("type", "=~", "/parsed/"), ("type", "!~", "/^a$/"), ("scheme", "=~", "/^https$/"), ("scheme", "!~", "/s$/")]
TRIPLES = [(0, 7, 11), (2, 8, 15), (1, 8, 18), (6, 13, 16), (0, 17, 19), (4, 8, 12), (6, 10, 14)]
RULES = [(i,) for i in range(len(CONDITIONS))] + list(itertools.combinations(range(len(CONDITIONS)), 2)) + TRIPLES
_sets = {}


def rule(conditions):
    return " ".join("%s %s %s" % c for c in conditions)


def ruleset():
    if os.getpid() not in _sets:
        _sets.clear()
        _sets[os.getpid()] = env.build("loadplugin oa.plugins.uri_detail.URIDetailPlugin\n" + "".join("uri_detail R_%s %s\nscore R_%s 0.01\n" % ("_".join(map(str, r)), rule(CONDITIONS[i] for i in r), "_".join(map(str, r))) for r in RULES))
    return _sets[os.getpid()]


def links(names):
    """{(uri, type): details}"""
    from urllib.parse import unquote
    out = {}
    uris = []
    for n in names:
        _, uri, kind, text = ITEMS[n]
        if uri is None:
            continue
        if kind == "parsed":
            uris.append(uri)
            continue
        out.setdefault((uri, kind), {"text": []})
        if text:
            out[uri, kind]["text"].append(text)
            if text.startswith("http"):
                uris.append(text)
    linked = set(u for u, _ in out)
    for u in uris:
        if u not in linked:
            out[u, "parsed"] = {}
    for (uri, kind), d in out.items():
        scheme, rest = uri.split("://", 1)
        d.update(raw=uri, type=kind, cleaned=unquote(uri), scheme=scheme, domain=re.split("[/?#]", rest)[0])
    return list(out.values())


def holds(condition, link):
    key, op, pattern = condition
    if key not in link:
        return False
    body, flags = pattern[1:].rsplit("/", 1)
    found = [bool(re.search(body, v, re.I if flags else 0)) == (op == "=~") for v in (link[key] if isinstance(link[key], list) else [link[key]])]
    if key == "text" and op == "!~" and len(found) > 1:
        return None
    return any(found)


def mail(shape, names):
    html = "<html><body>\n" + "\n".join(ITEMS[n][0] for n in names) + "\n</body></html>\n"
    if shape == "html":
        return "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: text/html\n\n" + html
    return "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: multipart/alternative; boundary=BB\n\n--BB\nContent-Type: text/plain\n\nnothing\n--BB\nContent-Type: text/html\n\n" + html + "--BB--\n"


def run_messages(case, rec):
    shape, names = case
    rs = ruleset()
    rec.state(case)
    hits = set(env.matched(env.check(rs, mail(shape, names))))
    found = links(names)
    table = [[holds(c, link) for c in CONDITIONS] for link in found]
    for r in RULES:
        rec.step()
        rows = [[t[i] for i in r] for t in table]
        if any(None in row and False not in row for row in rows):
            continue
        want = any(all(row) for row in rows)
        name = "R_" + "_".join(map(str, r))
        if (name in hits) != want:
            rec.fail("match", "%s %s" % (rule(CONDITIONS[i] for i in r), "does not match" if want else "matches"), message=[ITEMS[n][0] for n in names], shape=shape)
            break
    rec.trace()


def run_properties(case, rec):
    score, describe, tflags, priority, hit = case
    lines = "loadplugin oa.plugins.uri_detail.URIDetailPlugin\nreport all _SUMMARY_\nuri_detail R raw =~ /one/ domain =~ /example/\n"
    if score is not None:
        lines += "score R %s\n" % score
    if describe:
        lines += "describe R %s\n" % describe
    if tflags:
        lines += "tflags R %s\n" % tflags
    if priority:
        lines += "priority R %s\n" % priority
    # stops everything after it, when it matches
    lines += "loadplugin oa.plugins.short_circuit.ShortCircuit\nbody STOP /the end/\nscore STOP 100\npriority STOP 5\nshortcircuit STOP on\n"
    rs = env.build(lines)
    rec.state(case)
    rec.step()
    rec.trace()
    msg = env.check(rs, "From: a@x.example\nSubject: x\n\nhttp://%s.example/ %s\n" % ("one" if hit != "miss" else "two", "the end" if hit == "stop" else ""))
    default = -1.0 if tflags and "nice" in tflags else 1.0
    value = float(score) if score is not None else default
    on = hit != "miss" and value != 0 and not (hit == "stop" and int(priority or 0) < 5)
    rec.check("score", round(msg.score, 6), (value if on else 0) + (100 if hit == "stop" else 0), case=case)
    text = rs.get_report(msg)
    if on:
        rec.check("description", (describe or "No description available.") in text, True, case=case, report=text)
    elif describe:
        rec.check("description", describe in text, False, case=case, report=text)


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    seqs = [s for k in range(5 if deep else 4) for s in (itertools.product(ITEMS, repeat=k) if k < 4 else itertools.permutations(ITEMS, k))]
    cases = [("html", s) for s in seqs] + [("alternative", s) for s in seqs if len(s) < 3]
    return [
        Space("messages", cases, run_messages, "every message of some links, every rule", chunk=40),
        Space("properties", list(itertools.product((None, "2.5", "-3", "0"), ("", "Some text of it"), ("", "nice", "net"), ("", "-10", "7"), ("hit", "miss", "stop"))), run_properties, "score, description, flags and priority", chunk=8),
    ]
