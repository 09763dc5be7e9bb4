"""C13: a well-formed request gets the exact protocol reply."""
import itertools
import re
import socket
import zlib

from mc import env, probe

TECHNIQUE = "exhaustive exploration of the ways a request can arrive (splits, sizes around the chunk size, header orders and spellings, compression) through the daemon's request handler, against the reply computed from the ruleset"
LEVEL_NOTE = "All single splits of every command and all double splits (thorough triple) of small requests; all sizes within 5 bytes of multiples of the chunk size up to 3 chunks with 1 to 4 byte characters; all header permutations."
ASSUMPTIONS = ["the version is the one the package states"]

CONFIG = u"""loadplugin mc.probe.Witness
report r\u00e9port _TESTS_ \u20ac
required_score 3
add_header all Tests _TESTS_
body ONE /one/
score ONE 1.5
body TWO /two/
score TWO 2
body UNI /\u00e9/
score UNI 0.25
"""
COMMANDS = ("CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS")
TEXTS = [u"Subject: s\n\none\n", u"Subject: s\r\n\r\none two\r\n.\r\n", u"Subject: \u20ac\n\ntwo one \u00e9\u00e9 \U0001f600 \u20ac",
         u"one", u"", u"\n\ntwo\n\n\n", u"Subject: x\n\n" + u"one two \u00e9\n" * 3]

_rs = {}


def ruleset():
    if "rs" not in _rs:
        _rs["rs"] = env.build(CONFIG)
    return _rs["rs"]


_reply = {}


def expected(command, text):
    """The reply, from the ruleset alone."""
    import oa
    key = (command, text)
    if key in _reply:
        return _reply[key]
    rs = ruleset()
    msg = env.check(rs, text)
    spam = msg.score >= 3
    names = [n for n, r in msg.rules_checked.items() if r]
    body = u""
    if command == "SYMBOLS":
        body = ",".join(names)
    elif command == "REPORT" or (command == "REPORT_IFSPAM" and spam):
        body = rs.get_report(msg)
    elif command == "PROCESS":
        body = rs.get_adjusted_message(msg)
    elif command == "HEADERS":
        body = rs.get_adjusted_message(msg, header_only=True)
    body = body.encode("utf8")
    head = "SPAMD/%s 0 EX_OK\r\nSpam: %s ; %.1f / 3.0\r\nContent-length: %d\r\n\r\n" % (oa.__version__, spam, msg.score, len(body))
    _reply[key] = env.canon(head.encode("utf8") + body)
    return _reply[key]


def lines(text):
    """Any kind of line break is a newline."""
    return text.replace("\r\n", "\n").replace("\r", "\n")


def cut(data, places):
    out, last = [], 0
    for p in places:
        out.append(data[last:p])
        last = p
    out.append(data[last:])
    return out


def verify(rec, key, command, text, data, pieces, **info):
    probe.reset()
    got, err = env.request(data, env.FakeServer(ruleset()), pieces)
    seen = [e[2] for e in probe.EVENTS if e[1] == "checked"]
    if err is not None:
        rec.fail(key + "/exception", "%r for %r" % (err, data[:200]), **info)
        return
    rec.check(key + "/message", seen, [lines(text)], command=command, **info)
    rec.check(key + "/reply", env.canon(got), expected(command, text), command=command, **info)
    reply = env.Reply(got)
    rec.check(key + "/length", reply.error, None, command=command, **info)
    rec.step(len(pieces))
    rec.trace()


def request(command, text, length, compress, eol="\r\n"):
    body = text.encode("utf8")
    lines = ["%s SPAMC/1.5" % command]
    if compress:
        body = zlib.compress(body)
        lines.append("Compress: zlib")
    if length:
        lines.append("Content-length: %d" % len(body))
    return (eol.join(lines) + eol + eol).encode("utf8") + body


def run_splits(case, rec):
    command, ti, length, compress, first, depth = case
    data = request(command, TEXTS[ti], length, compress)
    if first >= len(data):
        return
    for rest in itertools.combinations(range(first + 1, len(data)), depth - 1):
        verify(rec, "split", command, TEXTS[ti], data, cut(data, (first,) + rest), places=(first,) + rest)
    rec.state(case)


CHUNK = 8192


def run_sizes(case, rec):
    size, ch, compress = case
    head = u"Subject: s\n\n"
    width = len(ch.encode("utf8"))
    n, pad = divmod(size - len(head), width)
    if n < 0:
        head, n, pad = u"", *divmod(size, width)
    text = head + u"a" * pad + ch * n
    body = text.encode("utf8")
    for command in ("SYMBOLS", "PROCESS"):
        for length in (0, 1):
            data = request(command, text, length, compress)
            start = data.index(b"\r\n\r\n") + 4
            for places in ((), (start,), (start + CHUNK - 1,), (start + CHUNK,), (start + CHUNK + 1,), tuple(range(1000, len(data), 1000))):
                if all(p < len(data) for p in places):
                    verify(rec, "size", command, text, data, cut(data, places), size=size, places=places[:4], length=length)
            if length:
                # what follows is not part of the message
                verify(rec, "more", command, text, data + b"two two\nPING SPAMC/1.2\r\n\r\n", [data + b"two two\nPING SPAMC/1.2\r\n\r\n"], size=size)
    rec.state(case)


SPELL = [str, str.lower, str.upper, str.title, lambda s: s.swapcase()]
SEP = [": ", ":", ":  ", ":\t"]


def run_headers(case, rec):
    order, si, sep, eol, command, compress = case
    text = TEXTS[6]
    body = text.encode("utf8")
    if compress:
        body = zlib.compress(body)
    all_headers = {"len": ("Content-length", str(len(body))), "user": ("User", "some one"),
                   "comp": ("Compress", "zlib"), "other": ("X-Other", "a: b, c")}
    lines = ["%s SPAMC/1.2" % command]
    for h in order:
        if h == "comp" and not compress:
            continue
        name, value = all_headers[h]
        lines.append(SPELL[si](name) + SEP[sep] + value)
    if compress and "comp" not in order:
        return
    data = (eol.join(lines) + eol + eol).encode("utf8") + body
    server = env.FakeServer(ruleset())
    probe.reset()
    got, err = env.request(data, server, [data])
    if err is not None:
        rec.fail("headers/exception", "%r for %r" % (err, data))
        return
    rec.check("headers/message", [e[2] for e in probe.EVENTS if e[1] == "checked"], [text], request=data)
    rec.check("headers/reply", env.canon(got), expected(command.upper(), text), request=data)
    rec.check("headers/user", server.asked[-1], "some one" if "user" in order else None, request=data)
    rec.step(len(order))
    rec.trace()
    rec.state(case)


# What is not UTF-8 is left out; everything else stays.
BYTES = [b"one\xffone", b"\xff\xfe\xfd", b"Subject: \xe9\n\ntwo\xc3", b"Subject: s\n\n\xe2\x82one two\xe2", b"one\x00two\x00", b"one\r\rtwo\n\r\n", b"\xef\xbb\xbfone",
         b"one\x1a\x04\x0c\x0btwo\x85\xc2\x85", u"\u2028one\u2029two\u0085".encode("utf8"), b"\xc0\x80one", b"\xf4\x90\x80\x80two", b".\r\n.\r\nQUIT\r\none"]


def run_bytes(case, rec):
    bi, at, length, compress = case
    fill = b"a" * (CHUNK - at) if at is not None else b""
    body = fill + BYTES[bi]
    text = body.decode("utf8", "ignore")
    raw = zlib.compress(body) if compress else body
    data = b"SYMBOLS SPAMC/1.2\r\n" + (b"Content-length: %d\r\n" % len(raw) if length else b"") + (b"Compress: zlib\r\n" if compress else b"") + b"\r\n" + raw
    verify(rec, "bytes", "SYMBOLS", text, data, [data], body=BYTES[bi], at=at)
    rec.state(case)


def run_noop(case, rec):
    import oa
    line, more, places = case
    data = line.encode("utf8") + more
    got, err = env.request(data, env.FakeServer(ruleset()), cut(data, [p for p in places if p < len(data)]))
    word = line.split()[0].upper()
    rec.check("noop", (got, err), (b"" if word == "SKIP" else ("SPAMD/%s 0 PONG\r\n" % oa.__version__).encode(), None), request=data)
    rec.step()
    rec.trace()
    rec.state(case)


def run_socket(case, rec):
    """Over a real pair of connected sockets."""
    import oa.server
    command, ti, length, half = case
    data = request(command, TEXTS[ti], length, 0)
    a, b = socket.socketpair()
    a.settimeout(20)
    b.settimeout(20)
    try:
        a.sendall(data)
        if half or not length:
            a.shutdown(socket.SHUT_WR)
        probe.reset()
        oa.server.RequestHandler(b, ("127.0.0.1", 1), env.FakeServer(ruleset()))
        b.close()
        got = b""
        while True:
            part = a.recv(65536)
            if not part:
                break
            got += part
    finally:
        a.close()
        b.close()
    rec.check("socket/message", [e[2] for e in probe.EVENTS if e[1] == "checked"], [lines(TEXTS[ti])], command=command)
    rec.check("socket/reply", env.canon(got), expected(command, TEXTS[ti]), command=command)
    rec.step()
    rec.trace()
    rec.state(case)


def spaces(tier):
    from mc.core import Space
    thorough = tier == "thorough"
    splits = [(c, t, l, z, f, 1) for c in COMMANDS for t in range(len(TEXTS)) for l in (0, 1) for z in (0, 1) for f in range(130)]
    splits += [(c, t, l, z, f, 2) for c in (COMMANDS if thorough else ("SYMBOLS",)) for t in (0, 2) for l in (0, 1) for z in (0, 1) for f in range(1, 130)]
    if thorough:
        splits += [("SYMBOLS", t, 1, 0, f, 3) for t in (0, 2) for f in range(1, 130)]
    sizes = [(k * CHUNK + d, ch, z) for k in (1, 2, 3) for d in range(-5, 6) for ch in (u"x", u"\u00e9", u"\u20ac", u"\U0001f600") for z in (0, 1)]
    sizes += [(n, ch, z) for n in range(0, 24) for ch in (u"x", u"\u00e9") for z in (0, 1)]
    names = ("len", "user", "comp", "other")
    perms = [p for n in range(5) for p in itertools.permutations(names, n)]
    headers = [(p, s, sep, eol, c, z) for p in perms for s in range(len(SPELL)) for sep in range(len(SEP)) for eol in ("\r\n", "\n")
               for c in ("SYMBOLS", "check", "Process") for z in (0, 1)]
    byts = [(b, at, l, z) for b in range(len(BYTES)) for at in (None, -1, 0, 1, 2, 3, 4, 5) for l in (0, 1) for z in (0, 1)]
    noop = [(w + sp + v + eol, more, pl) for w in ("PING", "SKIP", "ping", "Skip") for sp in (" ", "  ", "\t") for v in ("SPAMC/1.2", "SPAMC/1.5", "x")
            for eol in ("\r\n", "\n", "\r\n\r\n", "") for more in (b"", b"User: x\r\n\r\n", b"\xff\x00garbage") for pl in ((), (1,), (4,), (3, 6, 9))
            if eol or not more]
    sock = [(c, t, l, h) for c in COMMANDS for t in range(len(TEXTS)) for l in (0, 1) for h in (0, 1)]
    return [Space("splits", splits, run_splits, "all ways of splitting small requests"),
            Space("sizes", sizes, run_sizes, "sizes around the chunk boundaries, characters across them"),
            Space("headers", headers, run_headers, "all orders, subsets and spellings of the headers"),
            Space("bytes", byts, run_bytes, "odd bytes, also at the chunk boundary"),
            Space("noop", noop, run_noop, "PING and SKIP"),
            Space("sockets", sock, run_socket, "real sockets")]
