"""C50: the image rules describe the images of the message."""
import base64
import itertools
import struct
import zlib

from mc import env

TECHNIQUE = "exhaustive enumeration of lists of images (type x size x name x repetition x damage) and texts against the bounds of every image rule, and histories, on the real plugin and image library, against an independent model of each rule"
LEVEL_NOTE = "All lists of up to 3 images of a pool of 14 (4 of 8 in thorough) between text parts, all single sizes one pixel around the bounds of the rules in both directions, all lengths of text around the bounds of the ratio, all names, all histories of 2 messages (3 in thorough)."
ASSUMPTIONS = ["the image library reads the size of an image correctly", "the name of an image is the one in its Content-Type"]

COUNTS = [("all", "1", "1"), ("all", "2", None), ("gif", "1", "1"), ("gif", "2", None), ("png", "0", "0"), ("jpeg", "0", "0"), ("all", "0", "2"), ("png", "1", None)]
COVER = [("all", 1, None), ("gif", 50, 60), ("png", 0, 0), ("all", 100, 200), ("gif", 0, 0), ("png", 51, 99)]
EXACT = [("gif", 5, 10), ("png", 5, 10), ("all", 10, 5), ("jpeg", 5, 10)]
RANGE = [("gif", 5, 10, None, None), ("gif", 5, 10, 6, 11), ("all", 4, 4, 8, 12), ("png", 0, 9, 7, None), ("all", 9, 0, None, 6), ("gif", 0, 0, 0, 0)]
RATIO = [("gif", "0", "0.5"), ("all", "0.5", "1"), ("png", "1", None), ("all", "2.0", "3.0"), ("gif", "0", "0")]
NAMES = ["a.gif", "b.png", "a"]
REGEX = [r"/^\w+\.gif$/i", r"/\.png/", r"/^a/"]


def conf():
    text = "loadplugin oa.plugins.image_info.ImageInfoPlugin\n"
    quote = lambda values: ", ".join("'%s'" % v for v in values if v is not None)
    plain = lambda values: ", ".join("'%s'" % v if n == 0 else str(v) for n, v in enumerate(values) if v is not None)
    for name, rule, table in (("N", "image_count", COUNTS), ("P", "pixel_coverage", COVER), ("E", "image_size_exact", EXACT), ("T", "image_to_text_ratio", RATIO)):
        for n, values in enumerate(table):
            text += "body %s%d eval:%s(%s)\nrawbody %sX%d eval:%s(%s)\n" % (name, n, rule, quote(values), name, n, rule, plain(values))
    for n, values in enumerate(RANGE):
        values = values if values[4] is not None or values[3] is None else values[:4]
        if None not in values[3:4] or values[4] is None:
            text += "body S%d eval:image_size_range(%s)\nrawbody SX%d eval:image_size_range(%s)\n" % (n, quote(values), n, plain(values))
    for n, value in enumerate(NAMES):
        text += "body A%d eval:image_named('%s')\n" % (n, value)
    for n, value in enumerate(REGEX):
        text += "body B%d eval:image_name_regex('%s')\n" % (n, value)
    return text


RANGED = [n for n, v in enumerate(RANGE) if not (v[3] is None and v[4] is not None)]


def gif(width, height, n=0):
    return b"GIF89a" + struct.pack("<HHBBB", width, height, 0x80, 0, 0) + bytes([n, 0, 0, 255, 255, 255]) + b"," + struct.pack("<HHHHB", 0, 0, width, height, 0) + b"\x02\x02\x44\x01\x00;"


def png(width, height, n=0):
    chunk = lambda kind, data: struct.pack(">I", len(data)) + kind + data + struct.pack(">I", zlib.crc32(kind + data) & 0xffffffff)
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", width, height, 8, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(bytes([n]) * ((width + 1) * height if width < 500 else 9))) + chunk(b"IEND", b"")


# (subtype said, data, size or None, name)
POOL = [
    ("gif", gif(10, 5), (10, 5), "a.gif"), ("png", png(10, 5), (10, 5), "b.png"), ("gif", gif(10, 5, 7), (10, 5), None), ("png", png(3, 17), (3, 17), "A.GIF"), ("gif", b"GIF89a", None, "c.gif"), ("png", png(60000, 60000), None, "d.png"),
    ("gif", gif(1, 1), (1, 1), "a b.gif"), ("png", gif(10, 5), (10, 5), "a"), ("gif", gif(5, 10), (5, 10), "a.gif"), ("png", b"", None, ""), ("x-odd", png(7, 7), (7, 7), "a.gif.png"), ("gif", gif(11, 5), (11, 5), "b.gif"), ("png", png(51, 1), (51, 1), None), ("PNG", png(9, 9), (9, 9), "ba.png"),
]


def render(images, text="", html=None):
    mail = "Subject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=b\n\n"
    if text is not None:
        mail += "--b\nContent-Type: text/plain\n\n%s\n" % text
    for subtype, data, size, name in images:
        raw = base64.b64encode(data).decode()
        mail += "--b\nContent-Type: image/%s%s\nContent-Transfer-Encoding: base64\n\n%s\n" % (subtype, "" if name is None else "; name=\"%s\"" % name, "\n".join(raw[i:i + 76] for i in range(0, len(raw), 76)))
    if html is not None:
        mail += "--b\nContent-Type: text/html\n\n%s\n" % html
    return mail + "--b--\n"


def low(value):
    return 0 if value is None else float(value)


def inside(value, a, b):
    return float(a) <= value and (b is None or value <= float(b))


def expected(images, text, html):
    images = [(s.lower(), d, z, n) for s, d, z, n in images]
    of = lambda kind: [i for i in images if kind in ("all", i[0])]
    sizes = lambda kind: [i[2] for i in of(kind) if i[2]]
    area = lambda kind: sum(w * h for w, h in sizes(kind))
    rules = set()
    both = lambda name, n: rules.update({"%s%d" % (name, n), "%sX%d" % (name, n)})
    for n, (kind, a, b) in enumerate(COUNTS):
        if inside(len(of(kind)), a, b):
            both("N", n)
    for n, (kind, a, b) in enumerate(COVER):
        if inside(area(kind), a, b):
            both("P", n)
    for n, (kind, h, w) in enumerate(EXACT):
        if (w, h) in sizes(kind):
            both("E", n)
    for n in RANGED:
        kind, h, w, hh, ww = RANGE[n]
        if any(inside(y, h, hh) and inside(x, w, ww) for x, y in sizes(kind)):
            both("S", n)
    parts = [t for t in (text, html) if t is not None]
    length, raw = len(" ".join(["x"] + parts)), len("\n".join(parts))
    for n, (kind, a, b) in enumerate(RATIO):
        if inside(length / area(kind) if area(kind) else length, a, b):
            rules.add("T%d" % n)
        if inside(raw / area(kind) if area(kind) else raw, a, b):
            rules.add("TX%d" % n)
    names = [i[3] for i in images]
    for n, value in enumerate(NAMES):
        if value in names:
            rules.add("A%d" % n)
    for n, test in enumerate((lambda x: x.lower().endswith(".gif") and "." not in x[:-4] and " " not in x, lambda x: ".png" in x, lambda x: x.startswith("a"))):
        if any(x is not None and test(x) for x in names):
            rules.add("B%d" % n)
    return rules


_set = []


def judge(rec, key, images, text="", html=None):
    rec.step()
    if not _set:
        _set.append(env.build(conf()))
    mail = render(images, text, html)
    got = env.matched(env.check(_set[0], mail))
    rec.check(key, sorted(got), sorted(expected(images, text, html)), images=[(i[0], i[2], i[3]) for i in images], mail=mail[:600])


def run_lists(case, rec):
    rec.state(case)
    images = [POOL[n] for n in case]
    judge(rec, "lists", images, "one two")
    judge(rec, "lists/no text", images, None)
    rec.trace()


def run_sizes(case, rec):
    w, h = case
    rec.state(case)
    for subtype, make in (("gif", gif), ("png", png)):
        judge(rec, "sizes", [(subtype, make(w, h), (w, h), None)])
        judge(rec, "sizes/twice", [(subtype, make(w, h), (w, h), None)] * 2)
        judge(rec, "sizes/other", [(subtype, make(w, h), (w, h), None), (subtype, make(w, h, 9), (w, h), None)])
        judge(rec, "sizes/types", [("gif", make(w, h), (w, h), "a"), ("png", make(w, h), (w, h), "b")])
    rec.trace()


def run_texts(case, rec):
    rec.state(case)
    for images in ([], [POOL[0]], [POOL[0], POOL[1]], [POOL[4]], [POOL[12]]):
        judge(rec, "texts", images, "t" * case)
        judge(rec, "texts/html", images, "t" * (case // 2), "h" * (case - case // 2))
    rec.trace()


def run_names(case, rec):
    rec.state(case)
    judge(rec, "names", [("gif", gif(2, 2), (2, 2), n) for n in case])
    rec.trace()


def run_histories(case, rec):
    rec.state(case)
    for n in case:
        judge(rec, "histories", [[], [POOL[0]], [POOL[1], POOL[1]], [POOL[5], POOL[3]], [POOL[8], POOL[13], POOL[0]]][n], "one")
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    lists = [l for n in range(4) for l in itertools.product(range(14), repeat=n)] + [l for l in itertools.product(range(8), repeat=4) if deep]
    names = [None, "", "a.gif", "A.Gif", "xa.gif", "a.gif.", "b.png", "bxpng", "a", "b", "ab.png.gif"]
    return [
        Space("lists", lists, run_lists, "lists of images", chunk=40),
        Space("sizes", [(w, h) for w in range(1, 14) for h in range(1, 14)], run_sizes, "sizes around the bounds", chunk=8),
        Space("texts", list(range(0, 170)), run_texts, "lengths of the text", chunk=10),
        Space("names", [l for n in (1, 2) for l in itertools.product(names, repeat=n)], run_names, "names", chunk=10),
        Space("histories", list(itertools.product(range(5), repeat=3 if deep else 2)), run_histories, "messages one after the other", chunk=5),
    ]
