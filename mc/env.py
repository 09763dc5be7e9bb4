"""Closes the environment of the code under test and offers the public seams
(configuration text -> ruleset, text -> message, bytes -> reply)."""
from __future__ import print_function

import io
import itertools
import logging
import re
import os
import tempfile
import warnings

from mc import core

_done = False
_counter = itertools.count()


class DNSWorld(object):
    """Answers of the network: {(qname, qtype): [text, ...]}; records queries."""

    def __init__(self):
        self.reset()

    def reset(self, answers=None):
        self.answers = dict(answers or {})
        self.queries = []

    def lookup(self, qname, qtype):
        name = str(qname).rstrip(".").lower()
        self.queries.append((name, str(qtype)))
        return self.answers.get((name, str(qtype)))


DNS = DNSWorld()


class FakeRR(object):
    def __init__(self, text):
        self.text = text

    def to_text(self):
        return self.text

    def __str__(self):
        return self.text


class FakeAnswer(list):
    """What the resolver returns."""

    def __init__(self, texts, qtype):
        super(FakeAnswer, self).__init__(FakeRR(t) for t in texts)
        import dns.rdatatype
        rd = qtype if isinstance(qtype, int) else dns.rdatatype.from_text(str(qtype))

        class Set(object):
            rdtype = rd
            items = [FakeStrings(t) for t in texts]

        class Response(object):
            answer = [Set()]
        self.response = Response()
        self.rrset = self


class FakeStrings(FakeRR):
    """A TXT record as the library has it: a list of strings."""

    @property
    def strings(self):
        return [self.text[i:i + 255] for i in range(0, len(self.text) or 1, 255)]


class SPFWorld(object):
    """Stands in for spf.check2."""

    def __init__(self):
        self.reset()

    def reset(self, answers=None, default="none"):
        self.answers = dict(answers or {})
        self.default = default
        self.queries = []

    def check2(self, i, s, h, **kwargs):
        self.queries.append((str(i), s, h))
        for key in ((str(i), s, h), (str(i), s), str(i)):
            if key in self.answers:
                res = self.answers[key]
                break
        else:
            res = self.default
        if isinstance(res, Exception):
            raise res
        return res, "explained"


SPF = SPFWorld()


class Programs(object):
    """Stands in for the external programs of Razor: {name: return code, or an
    exception on start, or ("communicate", exception)}."""

    def __init__(self):
        self.reset()

    def reset(self, answers=None):
        self.answers = dict(answers or {})
        self.runs = []
        self.killed = 0

    def popen(self, args, **kwargs):
        res = self.answers.get(args[0], FileNotFoundError(2, "No such file"))
        if isinstance(res, Exception):
            self.runs.append((tuple(args), None))
            raise res
        return FakeProcess(self, args, res)


class FakeProcess(object):
    def __init__(self, world, args, res):
        self.world, self.args, self.res = world, args, res
        self.returncode = None
        self.killed = False

    def communicate(self, input=None, timeout=None):
        self.world.runs.append((tuple(self.args), input))
        if isinstance(self.res, tuple):
            raise self.res[1]
        self.returncode = self.res(input) if callable(self.res) else self.res
        return b"", b""

    def kill(self):
        self.world.killed += 1


PROGRAMS = Programs()


class GeoWorld(object):
    """Stands in for pygeoip.GeoIP: a database is any file that exists."""
    countries = {}

    def __init__(self, path, *a, **kw):
        with open(path):
            pass

    def country_code_by_addr(self, addr):
        res = self.countries.get(addr, "")
        if isinstance(res, Exception):
            raise res
        return res


class MailWorld(object):
    """Stands in for smtplib.SMTP."""
    sent = []
    fail = {}

    def __init__(self, *a, **kw):
        self._do("init", a)

    def _do(self, what, args):
        self.sent.append((what,) + tuple(args))
        if what in self.fail:
            raise self.fail[what]

    def connect(self, *a):
        self._do("connect", a)

    def helo(self, *a):
        self._do("helo", a)

    def sendmail(self, *a):
        self._do("sendmail", a)

    def quit(self, *a):
        self._do("quit", a)


class PyzorClient(object):
    """Stands in for pyzor.client.BatchClient."""
    answer = None            # (code, count, wl count), an exception, or None
    calls = []

    def __init__(self, *args, **kwargs):
        pass

    def _do(self, what, digest):
        self.calls.append((what, digest))
        if isinstance(self.answer, Exception):
            raise self.answer
        code, count, wl = self.answer or (200, 0, 0)
        return {"Code": str(code), "Diag": "OK", "PV": "2.1", "Thread": "1",
                "Count": str(count), "WL-Count": str(wl)}

    def check(self, digest, address=None):
        return self._do("check", digest)

    def report(self, digest, address=None):
        return self._do("report", digest)

    def whitelist(self, digest, address=None):
        return self._do("whitelist", digest)


def setup():
    global _done
    if _done:
        return
    _done = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    import dns.name
    import dns.resolver

    def query(self, qname, rdtype="A", *args, **kwargs):
        if not isinstance(qname, dns.name.Name):
            dns.name.from_text(qname)
        ans = DNS.lookup(qname, rdtype)
        if ans is None:
            raise dns.resolver.NXDOMAIN()
        if isinstance(ans, Exception):
            raise ans
        return FakeAnswer(ans, rdtype)

    dns.resolver.Resolver.query = query
    if hasattr(dns.resolver.Resolver, "resolve"):
        dns.resolver.Resolver.resolve = query

    # The installed pyzor library does not run on this Python version.
    import pyzor.client
    pyzor.client.BatchClient = PyzorClient

    import spf
    spf.check2 = SPF.check2
    import smtplib
    smtplib.SMTP = MailWorld
    import subprocess
    real_popen = subprocess.Popen

    class Popen(real_popen):
        def __new__(cls, args, *a, **kw):
            if isinstance(args, (list, tuple)) and str(args[0]).startswith("razor"):
                return PROGRAMS.popen(args, **kw)
            return super(Popen, cls).__new__(cls)
    subprocess.Popen = Popen
    import pygeoip
    pygeoip.GeoIP = GeoWorld
    import langdetect
    langdetect.DetectorFactory.seed = 0

    import socket
    socket.gethostname = lambda: "mc.host"

    import oa.config
    oa.config.LAZY_MODE = True


def scratch(name):
    """A path of this process's own in the scratch directory."""
    d = os.path.join(core.SCRATCH, "p%d" % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d)
    return os.path.join(d, name)


def write(name, text):
    path = name if os.path.isabs(name) else scratch(name)
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    if isinstance(text, str):
        text = text.encode("utf-8")
    with open(path, "wb") as f:
        f.write(text)
    return path


def parse(*texts, **kw):
    """Parse configuration texts (one file each); returns the parser."""
    import oa.rules.parser
    parser = oa.rules.parser.PADParser(
        paranoid=kw.get("paranoid", False),
        ignore_unknown=kw.get("ignore_unknown", True))
    for i, text in enumerate(texts):
        parser.parse_file(write("c%d.cf" % i, text))
    return parser


def build(*texts, **kw):
    return parse(*texts, **kw).get_ruleset()


def message(ruleset, text):
    import oa.message
    return oa.message.Message(ruleset.ctxt, text)


def check(ruleset, text):
    """Parse and match one message; returns it."""
    msg = message(ruleset, text)
    ruleset.match(msg)
    return msg


def matched(msg):
    return sorted(n for n, r in msg.rules_checked.items() if r)


PLUGIN = {
    "AWL": "oa.plugins.awl.AutoWhiteListPlugin",
}


class Log(object):
    def __getattr__(self, name):
        return lambda *a, **k: None


class FakeServer(object):
    """What a protocol command sees of the server."""
    allow_tell = True

    def __init__(self, ruleset, users=None):
        self.log = Log()
        self.ruleset = ruleset
        self.users = users or {}
        self.asked = []

    def get_user_ruleset(self, user=None):
        self.asked.append(user)
        return self.users.get(user, self.ruleset)


class Trickle(io.RawIOBase):
    """A readable that returns its data in given pieces."""

    def __init__(self, pieces):
        super(Trickle, self).__init__()
        self.pieces = [p for p in pieces if p]

    def readable(self):
        return True

    def readinto(self, b):
        if not self.pieces:
            return 0
        piece = self.pieces[0]
        n = min(len(b), len(piece))
        b[:n] = piece[:n]
        if n == len(piece):
            self.pieces.pop(0)
        else:
            self.pieces[0] = piece[n:]
        return n


class NullSock(object):
    """Stands in for the connection of a request handler."""

    def __init__(self, rfile, wfile):
        self._r, self._w = rfile, wfile

    def makefile(self, mode="rb", bufsize=-1):
        return self._r if "r" in mode else self._w

    def sendall(self, data):
        self._w.write(data)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass


def request(data, server, pieces=None):
    """Feed one client connection to the daemon's request handler.
    Returns (reply bytes, exception or None)."""
    import oa.server

    class _W(io.BytesIO):
        def close(self):
            pass

    w = _W()
    r = io.BufferedReader(Trickle(pieces if pieces is not None else [data]))
    err = None
    try:
        oa.server.RequestHandler(NullSock(r, w), ("127.0.0.1", 1), server)
    except Exception as e:
        err = e
    return w.getvalue(), err


VERDICT = re.compile(r"^Spam: (True|False) ; (-?\d+\.\d) / (-?\d+(?:\.\d+)?)$")


def wire(command, body=b"", length=True, **headers):
    """The bytes of one request."""
    if isinstance(body, str):
        body = body.encode("utf8")
    lines = ["%s SPAMC/1.5" % command]
    for k, v in headers.items():
        lines.append("%s: %s" % (k.replace("_", "-"), v))
    if length:
        lines.append("Content-length: %d" % len(body))
    return ("\r\n".join(lines) + "\r\n\r\n").encode("utf8") + body


class Reply(object):
    """A reply, taken apart; `error` says what is wrong with its form."""

    def __init__(self, data):
        self.data = data
        self.error = None
        self.status = self.spam = self.score = self.required = None
        self.body = b""
        try:
            self.status, rest = data.split(b"\r\n", 1)
            if not rest:
                return
            head, self.body = rest.split(b"\r\n\r\n", 1)
            lines = head.decode("utf8").split("\r\n")
            m = VERDICT.match(lines[0])
            if not m or len(lines) != 2:
                self.error = "bad verdict lines %r" % lines
                return
            self.spam = m.group(1) == "True"
            self.score = float(m.group(2))
            self.required = float(m.group(3))
            k, v = lines[1].split(":", 1)
            if k.lower() != "content-length" or int(v) != len(self.body):
                self.error = "%s for %d bytes" % (lines[1], len(self.body))
        except ValueError as e:
            self.error = "unparsable reply %r: %s" % (data, e)
        self.text = self.body.decode("utf8", "replace")


def ask(ruleset, command, text, **headers):
    """One request to a daemon that has this ruleset."""
    data, err = request(wire(command, text, **headers), FakeServer(ruleset))
    if err is not None:
        raise err
    return Reply(data)


_BOUNDARY = re.compile(rb"={15}\d+==")
_DATE = re.compile(rb"\w{3}, \d{1,2} \w{3} \d{4} \d\d:\d\d:\d\d [-+]\d{4}")


def canon(data):
    """Reply bytes without what is random or the time of day."""
    data = _BOUNDARY.sub(b"BOUNDARY", data)
    data = re.sub(rb"Content-length: \d+", b"Content-length: N", data)
    return _DATE.sub(b"DATE", data)
