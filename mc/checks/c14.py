"""C14: a malformed request is refused and harms nothing."""
import itertools
import os
import re
import socket
import struct
import threading
import zlib

from mc import env, probe, site

TECHNIQUE = "exhaustive exploration of malformed requests (all first lines over a token alphabet, all truncations and one-byte damages of valid requests, header damages at every place) through the real request handler and a listening server"
LEVEL_NOTE = "First lines up to 3 tokens of 15 and 6 separators; every cut and 12 values for every byte of 9 requests; after each the same server answers a reference request; connections cut and reset over the loopback."
ASSUMPTIONS = ["a request cut short of its Content-length may be answered for what was sent"]

CONFIG = """loadplugin mc.probe.Witness
loadplugin mc.probe.Probe
required_score 3
body ONE /one/
score ONE 1.5
header P eval:probe('p')
"""
TEXT = u"Subject: s\n\none \u20ac two\n"
COMMANDS = ("CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS", "TELL")
KNOWN = COMMANDS + ("PING", "SKIP")
_state = {}


def server():
    if "s" not in _state:
        _state["s"] = env.FakeServer(env.build(CONFIG))
        probe.reset(p=True)
        _state["ref"] = reference()
        assert b"EX_OK" in _state["ref"]
    return _state["s"]


def reference():
    data, err = env.request(env.wire("PROCESS", TEXT), _state["s"])
    if err is not None:
        return repr(err).encode()
    ping, err = env.request(b"PING SPAMC/1.2\r\n\r\n", _state["s"])
    return env.canon(data) + (ping if err is None else repr(err).encode())


def version():
    import oa
    return oa.__version__


def refused(data):
    # (what cannot be read of the line may be shown in any way)
    m = re.match(br"\ASPAMD/(\S+) 76 Bad header line: ", data)
    return bool(m) and m.group(1).decode() == version() and data.endswith(b"\r\n") and b"SPAMD/" not in data[1:] and b"EX_OK" not in data


def complete(data):
    """A complete positive reply."""
    head = ("SPAMD/%s 0 " % version()).encode()
    if data == head + b"PONG\r\n" or data == b"":
        return True
    if not data.startswith(head + b"EX_OK\r\n"):
        return False
    rest = data[len(head) + 7:]
    if re.match(br"\A(DidSet: [^\n]*\r\n)?(DidRemove: [^\n]*\r\n)?\Z", rest):
        return True
    return env.Reply(data).error is None and env.Reply(data).spam is not None


def send(data, rec, key, **info):
    s = server()
    probe.reset(p=True)
    got, err = env.request(data, s)
    events = list(probe.EVENTS)
    if err is not None:
        rec.fail(key + "/exception", "%r for %r" % (err, data[:300]), **info)
    probe.reset(p=True)
    rec.check(key + "/later", reference(), _state["ref"], request=data, **info)
    rec.step()
    rec.trace()
    return got, err, events


def expect_refusal(data, rec, key, **info):
    got, err, events = send(data, rec, key, **info)
    if err is not None:
        return
    if not refused(got):
        rec.fail(key + "/not-refused", "%r got %r" % (data[:300], got[:300]), **info)
    rec.check(key + "/nothing-done", events, [], request=data[:300], **info)


TOKENS = [b"CHECK", b"PING", b"TELL", b"SKIP", b"PROCESS", b"check", b"FOO", b"SPAMC/1.2", b"\x00", b"\xff\xfe", u"\u00e9".encode("utf8"), b"CHECK2", b"76", b"%s", b":"]
SEPS = [b" ", b"\t", b"  ", b"\x0b", b"", b","]
TAILS = [b"\r\n\r\n", b"\n", b"", b"\r\nContent-length: 5\r\n\r\none\r\n", b"\r\nSet: local\r\n\r\none"]


def run_first(case, rec):
    toks, sep, tail = case
    line = SEPS[sep].join(TOKENS[t] for t in toks)
    words = line.decode("utf8", "replace").split()
    if len(words) == 2 and words[0].upper() in KNOWN:
        return
    expect_refusal(line + TAILS[tail], rec, "first")
    rec.state(case)


BAD_LENGTH = [b"", b"x", b"-1", b"-0x1", b"1.5", b"1e3", b"0x10", b"1 2", b"12,", b"one", b"\xff", b"--5", b"5-", b"-9999999999999999999", b"None", b"1\x002", b"\xc2\xb2", b"5;q=1"]
BAD_LINE = [b"nocolon", b"User", b"Set local", b"\xff\xff", b"\x00", b"Content-length 5", b".", b"X=Y", b"compress zlib"]
ZBODY = zlib.compress(TEXT.encode("utf8"))


def bad_zlib():
    out = [b"", b"x", TEXT.encode("utf8"), ZBODY[:-1], ZBODY[:-4], ZBODY[1:], ZBODY[:10], b"\x78\x9c", b"\x1f\x8b" + ZBODY]
    for i in range(len(ZBODY)):
        out.append(ZBODY[:i])
        flipped = bytearray(ZBODY)
        flipped[i] ^= 0x40
        try:
            if zlib.decompress(bytes(flipped)).decode("utf8", "ignore") is not None:
                continue
        except zlib.error:
            out.append(bytes(flipped))
    return out


def run_headers(case, rec):
    command, what, i, place, eol = case
    headers = [b"User: u1", b"Message-class: spam", b"Set: local"]
    body = TEXT.encode("utf8")
    length = [b"Content-length: %d" % len(body)]
    if what == "length":
        length = [b"Content-length: " + BAD_LENGTH[i]]
    elif what == "line":
        length.append(BAD_LINE[i])
    else:
        body = bad_zlib()[i]
        length = [b"Compress: zlib", b"Content-length: %d" % len(body)] if place != 1 else [b"Compress: zlib"]
    headers[place:place] = length
    data = command.encode() + b" SPAMC/1.2" + eol + eol.join(headers) + eol + eol + body
    expect_refusal(data, rec, what)
    rec.state(case)


def valid_requests():
    out = []
    for c in COMMANDS:
        head = dict(User="u1")
        if c == "TELL":
            head = dict(Message_class="ham", Set="local,remote", Remove="local")
        out.append(env.wire(c, TEXT, **head))
    out.append(env.wire("SYMBOLS", zlib.compress(TEXT.encode("utf8")), Compress="zlib"))
    out.append(b"PING SPAMC/1.2\r\n\r\n")
    return out


def judge(data, rec, key, prefix_of=None, **info):
    got, err, events = send(data, rec, key, **info)
    if err is not None:
        return
    if refused(got):
        rec.check(key + "/nothing-done", events, [], request=data[:300], **info)
        rec.count("refused")
    elif complete(got):
        rec.count("answered")
        if prefix_of is not None:
            for e in events:
                if e[1] in ("checked", "report", "revoke"):
                    rec.check(key + "/prefix", prefix_of.startswith(e[2]), True, text=e[2], **info)
    else:
        rec.fail(key + "/half-reply", "%r got %r" % (data[:300], got[:300]), **info)


def run_cut(case, rec):
    ri, n = case
    data = valid_requests()[ri]
    if n >= len(data):
        return
    judge(data[:n], rec, "cut", TEXT, cut=n)
    rec.state(case)


DAMAGE = [0, 0xff, 0x20, 0x0a, 0x0d, 0x3a, 0x2d, 0x2e, 0x78, 0x39, 0xe2, 0x2c]


def run_damage(case, rec):
    ri, n, values = case
    data = valid_requests()[ri]
    if n >= len(data):
        return
    for value in values:
        bad = bytearray(data)
        bad[n] = value
        judge(bytes(bad), rec, "damage", byte=n, value=value)
    rec.state(case)


def run_mismatch(case, rec):
    """More or less announced than there is."""
    command, delta = case
    body = TEXT.encode("utf8")
    n = len(body) + delta
    if n < 0:
        return
    data = b"%s SPAMC/1.2\r\nContent-length: %d\r\n\r\n" % (command.encode(), n) + body
    judge(data, rec, "mismatch", TEXT, delta=delta)
    rec.state(case)


def talk(port, pieces, reset=False, wait=True):
    s = socket.create_connection(("127.0.0.1", port), timeout=20)
    out = b""
    try:
        for p in pieces:
            try:
                s.sendall(p)
            except (BrokenPipeError, ConnectionResetError):
                break
        if reset:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return None
        try:
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        while wait:
            try:
                part = s.recv(65536)
            except ConnectionResetError:
                break
            if not part:
                break
            out += part
    finally:
        s.close()
    return out


def run_server(case, rec):
    """A listening server stays alive and serves the next client."""
    import oa.server
    kind = case
    sitedir = env.scratch("listen")
    env.write(os.path.join(sitedir, "site.cf"), CONFIG)
    import signal
    old = signal.getsignal(signal.SIGUSR1), signal.getsignal(signal.SIGTERM)
    import logging
    logging.getLogger("oa-logger").disabled = True
    try:
        srv = oa.server.Server(("127.0.0.1", 0), sitedir, sitedir)
    finally:
        signal.signal(signal.SIGUSR1, old[0])
        signal.signal(signal.SIGTERM, old[1])
    port = srv.socket.getsockname()[1]
    t = threading.Thread(target=srv.serve_forever, kwargs=dict(poll_interval=0.01))
    t.daemon = True
    t.start()
    ref = env.wire("SYMBOLS", TEXT)
    try:
        want = talk(port, [ref])
        rec.check("server/first", want.startswith(b"SPAMD/"), True)
        requests = valid_requests()
        n = 0
        if kind == "cut":
            todo = [([r[:k]], False, True) for r in requests for k in range(0, len(r), 7)]
        elif kind == "reset":
            todo = [([r[:k]], True, False) for r in requests for k in range(0, len(r) + 1, 7)]
        elif kind == "gone":
            todo = [([r], False, False) for r in requests] * 3
        else:
            todo = [([b"FOO BAR BAZ\r\n"], False, True), ([b"\xff\xff\xff"], False, True), ([b"x" * 200000 + b"\r\n"], False, True),
                    ([b"CHECK SPAMC/1.2\r\nContent-length: -5\r\n\r\n"], False, True), ([b"CHECK SPAMC/1.2\r\nfoo\r\n\r\n" + b"y" * 100000], False, True),
                    ([b"\r\n"], False, True), ([b"GET / HTTP/1.0\r\n\r\n"], False, True)]
        for pieces, reset, wait in todo:
            got = talk(port, pieces, reset, wait)
            if wait and got and not refused(got) and not complete(got) and not got.startswith(b"SPAMD/%s 69 " % version().encode()):
                rec.fail("server/half-reply", "%r got %r" % (pieces[0][:200], got[:200]))
            n += 1
            rec.check("server/alive", talk(port, [ref]), want, after=pieces[0][:300], how=kind)
            rec.check("server/thread", t.is_alive(), True)
            rec.step()
            rec.trace()
    finally:
        stop = threading.Thread(target=srv.shutdown)
        stop.daemon = True
        stop.start()
        stop.join(5)
        srv.server_close()
    rec.state((kind, n))


def spaces(tier):
    from mc.core import Space
    thorough = tier == "thorough"
    r = range(len(TOKENS))
    first = [(t, s, tail) for n in (0, 1, 2) for t in itertools.product(r, repeat=n) for s in range(len(SEPS)) for tail in range(len(TAILS))
             if n == 2 or s == 0]
    first += [(t, s, tail) for t in itertools.product(r, repeat=3) for s in (range(len(SEPS)) if thorough else (0,)) for tail in (range(len(TAILS)) if thorough else (0,))]
    headers = [(c, "length", i, p, e) for c in COMMANDS for i in range(len(BAD_LENGTH)) for p in range(4) for e in (b"\r\n", b"\n")]
    headers += [(c, "line", i, p, e) for c in COMMANDS for i in range(len(BAD_LINE)) for p in range(4) for e in (b"\r\n", b"\n")]
    headers += [(c, "zlib", i, p, b"\r\n") for c in (COMMANDS if thorough else ("TELL", "SYMBOLS")) for i in range(len(bad_zlib())) for p in (0, 1, 3)]
    reqs = range(len(COMMANDS) + 2)
    cuts = [(q, n) for q in reqs for n in range(200)]
    values = tuple(range(256)) if thorough else tuple(DAMAGE)
    damage = [(q, n, values) for q in reqs for n in range(200)]
    mism = [(c, d) for c in COMMANDS for d in list(range(-30, 30)) + [1000, 8192, 8193, 10 ** 6, 10 ** 12, 10 ** 30]]
    return [Space("first", first, run_first, "first lines over a token alphabet"),
            Space("headers", headers, run_headers, "damaged headers at every place"),
            Space("cuts", cuts, run_cut, "requests cut at every byte"),
            Space("damage", damage, run_damage, "one damaged byte at every place"),
            Space("mismatch", mism, run_mismatch, "Content-length that is not the length"),
            Space("server", ["cut", "reset", "gone", "junk"], run_server, "a listening server", timeout=120, chunk=1)]
