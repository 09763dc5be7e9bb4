"""C24: the envelope sender comes from the trusted side."""
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of relay chains x recorded senders x sender headers x options on the real code, against an independent model of the choice"
LEVEL_NOTE = "All chains of up to 3 relays (thorough 4) over 5 address classes with or without a recorded sender, under 7 configurations, with every combination of up to 3 sender headers over 9 kinds of value."
ASSUMPTIONS = ["parsing of the sender in a Received header is C26, classification of the relays C23"]

ADDR = {"I": "45.2.0.%d", "T": "45.1.0.%d", "X": "8.8.8.%d", "P": "10.1.0.%d", "A": "9.9.9.%d"}
NETS = {"none": "", "both": "trusted_networks 45.1.0.0/16\ninternal_networks 45.2.0.0/16\n", "trusted": "trusted_networks 45.1.0.0/16 45.2.0.0/16\n"}
DEFAULT = ("X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path")
OPTIONS = {"": DEFAULT, "envelope_sender_header X-Mine\n": ("X-Mine",), "envelope_sender_header Return-Path\nenvelope_sender_header X-Sender\n": ("Return-Path", "X-Sender"), "envelope_sender_header x-SENDER\n": ("X-Sender",)}
VALUES = {  # value, address
    "plain": ("%s@h.example", "%s@h.example"), "angle": ("<%s@h.example>", "%s@h.example"), "name": ('"A, B" <%s@h.example>', "%s@h.example"), "comment": ("%s@h.example (A B)", "%s@h.example"), "null": ("<>", None),
    "blank": ("", None), "folded": ("A\n <%s@h.example>", "%s@h.example"), "two": ("%s@h.example, other@h.example", "%s@h.example"), "encoded": ("=?utf-8?b?w6k=?= <%s@h.example>", "%s@h.example"),
}
HEADERS = DEFAULT + ("X-Mine",)


def chain_text(chain):
    text = ""
    for n, (c, sender) in enumerate(chain, 1):
        auth = "ESMTPA" if c == "A" else "ESMTP"
        env_from = {"": "", "0": "(envelope-from <>) ", "s": "(envelope-from <s%d@e.example>) " % n}[sender]
        text += "Received: from h%d.example (r%d.example [%s])\n\tby mx%d.example (Postfix) with %s id X%d %sfor <u@c.example>; Mon, 1 Jan 2018 00:00:00 +0000\n" % (n, n, ADDR[c] % n, n, auth, n, env_from)
    return text


def classes(chain, nets):
    """[(trusted, internal)]"""
    ok = {"none": ("PA", "PA"), "both": ("TIA", "IA"), "trusted": ("TIA", "TIA")}[nets]
    t = i = True
    out = []
    for c, _ in chain:
        t = t and c in ok[0]
        i = i and t and c in ok[1]
        out.append((t, i))
    return out


def expected(chain, nets, option, always, headers):
    cls = classes(chain, nets)
    sender = lambda n: "s%d@e.example" % (n + 1) if chain[n][1] == "s" else ""
    for n, (t, i) in enumerate(cls):
        if not i:
            return sender(n)
    if cls and not always and sender(len(cls) - 1):
        return sender(len(cls) - 1)
    for name in OPTIONS[option]:
        for h, kind in headers:
            if h == name and VALUES[kind][1]:
                return VALUES[kind][1] % mark(h, headers, kind)
    return ""


def mark(h, headers, kind):
    return "%s%d" % (h.lower(), headers.index((h, kind)))


def header_text(headers):
    return "".join("%s: %s\n" % (h, VALUES[k][0].replace("%s", mark(h, headers, k))) for h, k in headers)


_sets = {}


def judge(rec, chain, nets, option, always, headers):
    key = (nets, option, always)
    if key not in _sets:
        _sets[key] = env.build(NETS[nets] + option + ("always_trust_envelope_sender 1\n" if always else ""))
    mail = chain_text(chain) + header_text(headers) + "Subject: x\n\nReturn-Path: <body@b.example>\n"
    rec.step()
    rec.state((chain, key, headers))
    got = env.message(_sets[key], mail).sender_address
    rec.check("%s/%s/%d/%s/%s" % (nets, option.replace("\n", ";").replace(" ", "_"), always, ",".join("".join(c) for c in chain), ",".join("=".join(h) for h in headers)),
              got, expected(chain, nets, option, always, headers), mail=mail)


FEWH = [(), (("Return-Path", "angle"),), (("X-Sender", "plain"), ("X-Mine", "name")), (("Return-Path", "angle"), ("X-Sender", "plain"))]


def run_chains(case, rec):
    nets, option, always, start, more = case
    elements = [(c, s) for c in ADDR for s in ("", "s", "0")]
    for rest in itertools.product(elements, repeat=more):
        for headers in FEWH:
            judge(rec, start + rest, nets, option, always, headers)
    rec.trace()


def run_headers(case, rec):
    option, chain, names = case
    for kinds in itertools.product(VALUES, repeat=len(names)):
        headers = tuple(zip(names, kinds))
        if len(set(headers)) < len(headers):
            continue
        for always in (0, 1):
            judge(rec, chain, "both", option, always, headers)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    elements = [(c, s) for c in ADDR for s in ("", "s", "0")]
    more = 2 if deep else 1
    chains = [(n, o, a, s, k) for n in NETS for o in ("", "envelope_sender_header X-Mine\n") for a in (0, 1) for s, k in [((), 0), ((), 1)] + [((x,), 1) for x in elements]]
    chains += [(n, o, a, (x, y), more) for n in NETS for o in (("", "envelope_sender_header X-Mine\n") if deep else ("",)) for a in ((0, 1) if deep else (0,)) for x in elements for y in elements]
    few = [(), (("I", ""),), (("I", "s"),), (("I", ""), ("T", "s"))]
    names = [t for k in (1, 2) + ((3,) if deep else ()) for t in itertools.product(HEADERS, repeat=k)]
    return [Space("chains", chains, run_chains, "every chain with and without recorded senders, over some headers", chunk=4, timeout=240),
            Space("headers", [(o, c, n) for o in OPTIONS for c in few for n in names], run_headers, "every combination of sender headers", chunk=2, timeout=240)]
