"""C29: allow and deny lists match exactly the listed senders and hosts."""
import ipaddress
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of list entries (every pattern up to a length over an alphabet, every set of up to three entries, every relay and host) x messages on the real code, compared with independent models of the patterns, the relays and the hosts"
LEVEL_NOTE = "Every pattern of up to 3 (quick) or 4 (thorough) symbols of { a + . * ? [ A } in front of 7 domain patterns, against 44 addresses; pairs of entries in every pair of lists; pairs of relay entries x allowed relays x 12 relay chains; sets of 3 host entries x delistings x 19 URIs."
ASSUMPTIONS = ["addresses are those of email.utils.getaddresses", "entries without any of @ ? . are ignored (pinned by the existing tests), entries without @ are domains"]

FROM_LISTS = ("whitelist_from", "blacklist_from")
TO_LISTS = ("whitelist_to", "blacklist_to", "more_spam_to", "all_spam_to")
CONF = """loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin
header WF eval:check_from_in_whitelist()
header BF eval:check_from_in_blacklist()
header LWF eval:check_from_in_list('whitelist_from')
header LBF eval:check_from_in_list('blacklist_from')
header WT eval:check_to_in_whitelist()
header BT eval:check_to_in_blacklist()
header MT eval:check_to_in_more_spam()
header AT eval:check_to_in_all_spam()
header LWT eval:check_to_in_list('whitelist_to')
header LAT eval:check_to_in_list('all_spam_to')
"""
RULES = {"whitelist_from": ("WF", "LWF"), "blacklist_from": ("BF", "LBF"), "whitelist_to": ("WT", "LWT"), "blacklist_to": ("BT",), "more_spam_to": ("MT",), "all_spam_to": ("AT", "LAT")}


def glob(pattern, text):
    """Does the pattern match all of the text?"""
    pattern, text = pattern.lower(), text.lower()
    now = set([0])  # positions in the text the pattern so far can end at
    for c in pattern:
        new = set()
        for i in now:
            if c == "*":
                new.update(range(i, len(text) + 1))
            elif i < len(text) and (c == "?" or c == text[i]):
                new.add(i + 1)
        now = new
    return len(text) in now


def listed(entry, address):
    if not set("?@.") & set(entry):
        return False
    return glob(entry if "@" in entry else "*@" + entry, address)


LOCALS = ("a", "aa", "A", "b", "a.a", "a+a", "xax", "ab", "+", "a.")
DOMAINS = ("x.y", "X.Y", "z.x.y", "xay", "x.yy")
ADDRESSES = ["%s@%s" % p for p in itertools.product(LOCALS[:8], DOMAINS)] + ["ax.y@x.z", "x.y@q.r", "a@x.y.q.r", "aaa@x.y"]
DPATTERNS = ("@x.y", "@*", "@x?y", "@*.y", "@X.*", "x.y", "*y")


def patterns(n):
    for length in range(n + 1):
        for p in itertools.product("a+.*?[A", repeat=length):
            yield "".join(p)


def mail(frm="q@q.q", to="r@r.r", extra="", body="text"):
    return "%sFrom: %s\nTo: %s\nSubject: s\n\n%s\n" % (extra, frm, to, body)


def run_pattern(local, rec):
    for dom in DPATTERNS:
        entry = local + dom
        conf = CONF + "".join("%s %s\n" % (l, entry) for l in FROM_LISTS + TO_LISTS)
        rs = env.build(conf)
        rec.state(entry)
        for addr in ADDRESSES:
            for place, frm, to in (("from", addr, "r@r.r"), ("to", "q@q.q", addr)):
                got = set(env.matched(env.check(rs, mail("<%s>" % frm, "<%s>" % to))))
                want = set(r for lists, a in ((FROM_LISTS, frm), (TO_LISTS, to)) if listed(entry, a) for l in lists for r in RULES[l])
                rec.step()
                rec.check("pattern/%s" % place, sorted(got), sorted(want), entry=entry, address=addr, conf=conf)
    rec.trace()


ENTRIES = ("a@x.y", "*@x.y", "x.y", "a@*", "?@x.y", "A@X.Y", "aa@x.y", "word", "x?y", "b@z.q")
LAYOUTS = ("%(l1)s %(e1)s\n%(l2)s %(e2)s\n", "%(l2)s %(e2)s\n%(l1)s   %(e1)s\n")


def run_pair(case, rec):
    """Two entries in two lists (or on one line of one): each list is on its own, each entry adds what it matches."""
    l1, l2 = case
    for e1, e2 in itertools.product(ENTRIES, repeat=2):
        layouts = [t % dict(l1=l1, l2=l2, e1=e1, e2=e2) for t in LAYOUTS]
        if l1 == l2:
            layouts.append("%s %s  %s\n" % (l1, e1, e2))
        for opts in layouts:
            rs = env.build(CONF + opts)
            rec.state((case, opts))
            for frm, to in (("a@x.y", "a@x.y"), ("b@x.y, A@Q.R", "b@q.z"), ("B@z.q", "aa@X.y, b@z.q"), ("aa@x.y", "zz@zz.zz")):
                got = set(env.matched(env.check(rs, mail(frm, to))))
                want = set()
                for l, e in ((l1, e1), (l2, e2)):
                    addrs = (frm if l in FROM_LISTS else to).split(", ")
                    if any(listed(e, a) for a in addrs):
                        want |= set(RULES[l])
                rec.step()
                rec.check("pair/%s/%s" % case, sorted(got), sorted(want), opts=opts, frm=frm, to=to)
    rec.trace()


FROM_HEADERS = ("From", "Envelope-Sender", "Resent-From", "X-Envelope-From", "EnvelopeFrom")
TO_HEADERS = ("To", "Resent-To", "Resent-Cc", "Apparently-To", "Delivered-To", "Envelope-Recipients", "Apparently-Resent-To", "X-Envelope-To", "Envelope-To", "X-Delivered-To", "X-Original-To", "X-Rcpt-To", "X-Real-To", "Cc")
VALUES = {  # value: addresses
    "in": ("in@l.x", ["in@l.x"]), "out": ("out@l.x", []), "named": ("In <IN@L.X>", ["in@l.x"]), "name": ('"in@l.x" <out@l.x>', []), "comment": ("out@l.x (in@l.x)", []),
    "second": ("out@l.x, <in@l.x>", ["in@l.x"]), "longer": ("in@l.x.out.x", []), "prefix": ("not.in@l.x", []), "folded": ("out@l.x,\n in@l.x", ["in@l.x"]), "empty": ("", []),
}


def run_headers(case, rec):
    h1, h2 = case
    rs = env.build(CONF + "whitelist_from in@l.x\nblacklist_from in@l.x\nwhitelist_to in@l.x\nblacklist_to in@l.x\n")
    for v1, v2 in itertools.product(VALUES, repeat=2):
        if h1 == h2 and v1 != v2:
            continue
        heads = [(h1, v1)] if h1 == h2 else [(h1, v1), (h2, v2)]
        text = "".join("%s: %s\n" % (h, VALUES[v][0]) for h, v in heads) + "Subject: s\n\ntext\n"
        want = set()
        for names, resent, rules in ((FROM_HEADERS, ("Resent-From",), ("WF", "BF", "LWF", "LBF")), (TO_HEADERS, ("Resent-To", "Resent-Cc"), ("WT", "BT", "LWT"))):
            again = [v for h, v in heads if h in resent and v != "empty"]
            use = again or [v for h, v in heads if h in names]
            if any(VALUES[v][1] for v in use):
                want |= set(rules)
        got = set(env.matched(env.check(rs, text)))
        rec.state((case, v1, v2))
        rec.step()
        rec.check("header/%s/%s" % case, sorted(got), sorted(want), mail=text)
    rec.trace()


# Relays: (rdns, ip); the first is the one that handed over the message.
CHAINS = {
    "none": ([], 0), "good": ([("mx.g.x", "9.8.7.6")], 0), "name": ([("g.x", "9.1.1.1")], 0), "case": ([("MX.G.X.", "9.1.1.1")], 0), "other": ([("mx.notg.x", "9.1.1.1")], 0),
    "evil": ([("g.x.evil.z", "9.8.8.6")], 0), "noname": ([("unknown", "9.8.7.99")], 0), "behind": ([("evil.z", "9.1.1.1"), ("mx.g.x", "9.8.7.6")], 0),
    "trusted": ([("mx.g.x", "9.8.7.6")], 1), "trusted2": ([("t.t", "9.5.5.5"), ("mx.g.x", "9.8.7.6")], 2), "mixed": ([("mx.g.x", "9.8.7.6"), ("evil.z", "9.1.1.1")], 1), "mixed-good": ([("t.t", "9.5.5.5"), ("mx.g.x", "9.8.7.6")], 1),
}
SPECS = {"name": "g.x", "host": "mx.g.x", "upper": "G.X", "ip": "[9.8.7.6]", "net": "[9.8.7]", "bare": "9.8.7.6", "cidr": "[9.8.0.0/16]", "evil": "evil.z", "ip2": "[9.1.1.1]", "two": "evil.z g.x"}
SENDERS = ("a@g.x", "A@G.x", "b@g.x", "aa@g.x", "c@h.x")
RCONF = """loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin
header WF eval:check_from_in_whitelist()
header DEF eval:check_from_in_default_whitelist()
header FORGED eval:check_forged_in_whitelist()
header FORGED_DEF eval:check_forged_in_default_whitelist()
header MFR eval:check_mailfrom_matches_rcvd()
"""
RRULES = ("WF", "DEF", "FORGED", "FORGED_DEF")


def received(chain, trusted, sender=""):
    out = ""
    for rdns, ip in chain:
        name = "(%s [%s])" % (rdns, ip)
        out += "Received: from helo.h %s by by.b (envelope-from <%s>); Mon, 1 Jan 2018 00:00:00 +0000\n" % (name, sender)
    return out


def relays(chain, trusted):
    """The relays that count: the one that handed the message over to the trusted ones, else all."""
    return chain[trusted:trusted + 1] or chain


def relay_ok(spec, chain):
    for one in SPECS[spec].split():
        name = one.strip("[]")
        for rdns, ip in chain:
            if name[0].isdigit():
                if "/" in name:
                    ok = ipaddress.ip_address(ip) in ipaddress.ip_network(name)
                else:
                    ok = ip == name if name.count(".") == 3 else ip.startswith(name + ".")
            else:
                rdns = rdns.lower().rstrip(".")
                ok = rdns == name.lower() or rdns.endswith("." + name.lower())
            if ok:
                return True
    return False


def state(entries, senders, chain, allow):
    """1: a listed sender by its relay; -1: listed senders, but none by its relay; 0: none listed."""
    best = 0
    if not chain:
        return 0
    for sender in senders:
        mine = [spec for pat, spec in entries if listed(pat, sender)]
        if any(relay_ok(s, chain) for s in mine):
            return 1
        if mine and not any(listed(a, sender) for a in allow):
            best = -1
    return best


RPATTERNS = ("a@g.x", "*@g.x", "g.x", "?@g.x", "A@G.X", "c@h.x")
ALLOW = ((), ("a@g.x",), ("*@G.x",), ("c@h.x",), ("a@g",))


def rconf(order, wl, df, allow, plain=()):
    rules = RCONF.split("\n")
    head, rest = rules[:1], rules[1:5]
    rest = rest[order:] + rest[:order]
    opts = ["whitelist_from_rcvd %s %s" % (p, SPECS[s]) for p, s in wl] + ["def_whitelist_from_rcvd %s %s" % (p, SPECS[s]) for p, s in df]
    opts += ["whitelist_allow_relays %s" % a for a in allow] + ["whitelist_from %s" % p for p in plain]
    return "\n".join(head + rest + opts) + "\n"


def trust(chain, trusted):
    return "".join("trusted_networks %s\n" % ip for rdns, ip in chain[:trusted]) or "trusted_networks 127.0.0.1\n"


def rwant(wl, df, allow, plain, senders, chain):
    w = state(wl, senders, chain, allow)
    if any(listed(p, s) for p in plain for s in senders):
        w = 1
    d = state(df, senders, chain, allow)
    return sorted(r for r, x in (("WF", w > 0), ("DEF", d > 0), ("FORGED", w < 0 and d == 0), ("FORGED_DEF", w == 0 and d < 0)) if x)


def run_rcvd(case, rec):
    """One entry with each relay spec x chain x sender x allowed relays, in each order of the rules."""
    spec, order = case
    for pat, allow, which, chain in itertools.product(RPATTERNS, ALLOW, ("wl", "def", "both"), CHAINS):
        hops, trusted = CHAINS[chain]
        wl = [(pat, spec)] if which != "def" else []
        df = [(pat, spec)] if which != "wl" else []
        conf = rconf(order, wl, df, allow) + trust(hops, trusted)
        rs = env.build(conf)
        for frm in SENDERS[:3] + ("c@h.x, a@g.x",):
            text = received(hops, trusted, "z@z.z") + mail(frm)
            want = rwant(wl, df, allow, (), frm.split(", "), relays(hops, trusted))
            rec.state((case, pat, allow, which, chain, frm))
            rec.step()
            rec.check("rcvd/%s/%s" % (spec, chain), sorted(env.matched(env.check(rs, text))), want, conf=conf, mail=text)
    rec.trace()


def run_rcvd_pair(case, rec):
    """Two entries: an unrelated one changes nothing, and each counts."""
    (p1, s1), (p2, s2) = case
    for which, chain, sameline in itertools.product((0, 1, 2, 3), CHAINS, (False, True)):
        hops, trusted = CHAINS[chain]
        plain = ()
        wl, df = ([case[0], case[1]], []) if which == 0 else ([case[0]], [case[1]]) if which == 1 else ([], [case[1], case[0]]) if which == 2 else ([case[0]], [])
        if which == 3:
            plain = (p2,)
        conf = rconf(0, wl, df, (), plain) + trust(hops, trusted)
        if sameline:
            if which not in (0, 2):
                continue
            name = "whitelist_from_rcvd" if which == 0 else "def_whitelist_from_rcvd"
            conf = RCONF + "%s %s %s, %s %s\n" % (name, p1, SPECS[s1], p2, SPECS[s2]) + trust(hops, trusted)
        rs = env.build(conf)
        for frm in SENDERS:
            text = received(hops, trusted) + mail(frm)
            want = rwant(wl, df, (), plain, [frm], relays(hops, trusted))
            rec.state((case, which, chain, sameline, frm))
            rec.step()
            rec.check("rcvd2/%s" % chain, sorted(env.matched(env.check(rs, text))), want, conf=conf, mail=text)
    rec.trace()


MAILFROM = ("u@g.x", "u@G.X", "u@mail.g.x", "u@notg.x", "u@x", "u", "")


def run_mailfrom(chain, rec):
    """check_mailfrom_matches_rcvd: the relay is in the domain of the envelope sender."""
    hops, trusted = CHAINS[chain]
    conf = "\n".join(RCONF.split("\n")[:1] + RCONF.split("\n")[5:]) + trust(hops, trusted)
    rs = env.build(conf)
    for sender in MAILFROM:
        text = received(hops, trusted, sender) + mail()
        parts = sender.lower().split("@")
        dom = ".".join(parts[1].split(".")[-2:]) if len(parts) == 2 else ""
        want = bool(dom) and any(r.lower().rstrip(".") == dom or r.lower().rstrip(".").endswith("." + dom) for r, ip in relays(hops, trusted))
        msg = env.check(rs, text)
        rec.state((chain, sender))
        rec.step()
        if not sender:
            continue  # the sender is that of some header then
        rec.check("mailfrom/%s/%s" % (chain, sender), env.matched(msg), ["MFR"] if want else [], conf=conf, mail=text)
    rec.trace()


HCONF = """loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin
header MY eval:check_uri_host_listed('MY')
header WHITE eval:check_uri_host_in_whitelist()
header BLACK eval:check_uri_host_in_blacklist()
header OTHER eval:check_uri_host_listed('OTHER')
"""
NAMES = ("ex.com", "sub.ex.com", "com", "x.com", "1.2.3.4", "Ex.COM", "3.4")
HENTRIES = [n for n in NAMES] + ["!" + n for n in NAMES[:3]]
URIS = {"http://ex.com": "ex.com", "http://EX.com/": "ex.com", "http://sub.ex.com/p?q=/a.b": "sub.ex.com", "http://a.sub.ex.com:8080/x": "a.sub.ex.com", "https://user:pw@ex.com/": "ex.com", "http://notex.com/": "notex.com",
        "http://ex.com.evil.org/": "ex.com.evil.org", "http://evil.org/ex.com": "evil.org", "http://evil.org/?u=http.ex.com": "evil.org", "http://1.2.3.4/": "1.2.3.4", "http://1.2.3.45/": "1.2.3.45", "http://9.1.2.3.4.ex.org/": "9.1.2.3.4.ex.org",
        "www.sub.ex.com": "www.sub.ex.com", "http://ex.com#frag": "ex.com", "http://ex.com?q": "ex.com", "ftp://x.com/": "x.com", "http://subex.com/": "subex.com", "http://bsub.ex.com/": "bsub.ex.com", "http://other.org/": "other.org"}
DELIST = ("", "delist_uri_host ex.com\n", "delist_uri_host (MY) ex.com\n", "delist_uri_host (OTHER) !sub.ex.com\n", "delist_uri_host !sub.ex.com com\n", "delist_uri_host (WHITE) EX.com 1.2.3.4\ndelist_uri_host (BLACK) ex.com\n")


def hosts(entries, delist, lst):
    """The names of a list: whether they are in it, or excluded."""
    gone = set()
    for line in delist.splitlines():
        words = line.split()[1:]
        if words[0].startswith("("):
            if words[0].strip("()") != lst:
                continue
            words = words[1:]
        gone |= set(w.strip("!").lower() for w in words)
    out = {}
    for e in entries:
        name = e.strip("!").lower()
        if name not in gone:
            out[name] = not e.startswith("!")
    return out


def host_listed(names, host):
    labels = host.split(".")
    if all(l.isdigit() for l in labels):
        return names.get(host, False)
    for i in range(len(labels)):
        name = ".".join(labels[i:])
        if name in names:
            return names[name]
    return False


def run_hosts(case, rec):
    entries, form = case
    lower = [e.strip("!").lower() for e in entries]
    if len(set(lower)) != len(lower):
        return  # the same name twice (perhaps listed and excluded)
    line = " ".join(entries)
    if form == "my":
        lists, opts = ("MY",), "enlist_uri_host (MY) %s\n" % line
    elif form == "lines":
        lists, opts = ("MY",), "".join("enlist_uri_host (MY) %s\nenlist_uri_host (NONE) q.q\n" % e for e in entries)
    elif form == "short":
        lists, opts = ("WHITE", "BLACK"), "whitelist_uri_host %s\n" % line + "".join("blacklist_uri_host %s\n" % e for e in entries)
    else:
        lists, opts = ("WHITE", "BLACK", "OTHER"), "enlist_uri_host (OTHER) %s\nenlist_uri_host (WHITE) %s\nenlist_uri_host (BLACK) %s\n" % (line, line, line)
    for delist in DELIST:
        conf = HCONF + opts + delist
        rs = env.build(conf)
        rec.state((entries, form, delist))
        for uri in URIS:
            want = sorted(l for l in lists if host_listed(hosts(entries, delist, l), URIS[uri]))
            got = sorted(env.matched(env.check(rs, mail(body="see %s now" % uri))))
            rec.step()
            rec.check("hosts/%s" % form, got, want, conf=conf, uri=uri)
        text = "a http://other.org/ b http://sub.ex.com/ c http://zz.z/"
        want = sorted(l for l in lists if host_listed(hosts(entries, delist, l), "sub.ex.com") or host_listed(hosts(entries, delist, l), "other.org"))
        rec.check("hosts/several", sorted(env.matched(env.check(rs, mail(body=text)))), want, conf=conf)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    lists = FROM_LISTS + TO_LISTS
    ents = [()] + [(e,) for e in HENTRIES] + list(itertools.combinations(HENTRIES, 2)) + (list(itertools.combinations(HENTRIES, 3)) if deep else [])
    specs = list(SPECS) if deep else ["name", "ip", "evil", "upper"]
    pairs = list(itertools.product(RPATTERNS, specs))
    return [
        Space("patterns", list(patterns(4 if deep else 3)), run_pattern, "every short pattern x address", chunk=4, timeout=120),
        Space("pairs", list(itertools.product(lists, repeat=2)), run_pair, "every pair of entries in every pair of lists", chunk=1, timeout=240),
        Space("headers", list(itertools.product(FROM_HEADERS + TO_HEADERS + ("Reply-To", "Sender", "Bcc"), repeat=2)), run_headers, "every pair of headers x values", chunk=8, timeout=120),
        Space("relays", list(itertools.product(SPECS, range(4 if deep else 2))), run_rcvd, "every relay entry x chain x allowed relays", chunk=1, timeout=240),
        Space("relay-pairs", [(a, b) for a, b in itertools.product(pairs, repeat=2) if deep or (pairs.index(a) + 5 * pairs.index(b)) % 3 == 0 or a[0] == b[0]], run_rcvd_pair, "pairs of relay entries", chunk=4, timeout=120),
        Space("mailfrom", list(CHAINS), run_mailfrom, "senders x relays", chunk=2),
        Space("hosts", list(itertools.product(ents, ("my", "lines", "short", "three"))), run_hosts, "sets of host entries x delistings x URIs", chunk=2, timeout=120),
    ]
