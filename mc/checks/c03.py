"""C03: meta rules compute their expression."""
import itertools

from mc import env, probe

TECHNIQUE = "exhaustive enumeration of meta expressions x truth assignments on the real engine, against an independent Perl-precedence evaluator"
LEVEL_NOTE = "All expression trees up to the stated size, all truth assignments, all subrule kinds and definition orders."
ASSUMPTIONS = ["comparisons of equal precedence are not chained (an error in Perl)",
               "division by zero makes the rule not match"]

BINARY = ("||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/")
PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4,
        "+": 5, "-": 5, "*": 6, "/": 6}


# ------------------------------------------------------------ the reference
def ev(t, env_):
    if isinstance(t, int):
        return t
    if isinstance(t, str):
        return env_[t]
    if t[0] == "!":
        return 0 if ev(t[1], env_) else 1
    op, a, b = t
    x = ev(a, env_)
    if op == "&&":
        return ev(b, env_) if x else x
    if op == "||":
        return x if x else ev(b, env_)
    y = ev(b, env_)
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        return x / float(y)
    return int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y,
                "<=": x <= y, ">=": x >= y}[op])


def truth(t, env_):
    try:
        return bool(ev(t, env_))
    except ZeroDivisionError:
        return False


def show(t, style):
    """style 0: only the parentheses Perl needs; 1: all; 2: none needed, no spaces."""
    sp = "" if style == 2 else " "

    def prec(t):
        return 9 if not isinstance(t, tuple) else 8 if t[0] == "!" else PREC[t[0]]

    def paren(s):
        return "(%s)" % s

    def go(t):
        if not isinstance(t, tuple):
            return str(t)
        if t[0] == "!":
            s = go(t[1])
            return "!" + (s if prec(t[1]) >= 8 and style != 1 else paren(s))
        op, a, b = t
        p = PREC[op]
        sa, sb = go(a), go(b)
        nonassoc = p in (3, 4)
        if style == 1:
            if isinstance(a, tuple):
                sa = paren(sa)
            if isinstance(b, tuple):
                sb = paren(sb)
        else:
            if prec(a) < p or (nonassoc and prec(a) == p):
                sa = paren(sa)
            if prec(b) <= p:
                sb = paren(sb)
        return sa + sp + op + sp + sb
    return go(t)


# ---------------------------------------------------------- the enumeration
def trees(leaves, ops, bang):
    """All trees with these leaves in this order; `!` at up to `bang` places."""
    def shapes(ls):
        if len(ls) == 1:
            yield ls[0], 0
            if bang:
                yield ("!", ls[0]), 1
            return
        for i in range(1, len(ls)):
            for a, na in shapes(ls[:i]):
                for b, nb in shapes(ls[i:]):
                    if na + nb > bang:
                        continue
                    for op in ops:
                        yield (op, a, b), na + nb
                        if na + nb < bang:
                            yield ("!", (op, a, b)), na + nb + 1
    return [t for t, _ in shapes(tuple(leaves))]


def batches(exprs, n):
    exprs = list(exprs)
    return [exprs[i:i + n] for i in range(0, len(exprs), n)]


def has_var(t):
    return isinstance(t, str) or (isinstance(t, tuple) and any(has_var(x) for x in t[1:]))


def run_exprs(case, rec):
    style, exprs = case
    conf = ["body A /aa/", "header B Subject =~ /bb/", "body __C /cc/"]
    for i, t in enumerate(exprs):
        conf.append("meta M%d %s" % (i, show(t, style)))
        # tell the branches of a dropped rule from a rule that doesn't match
        conf.append("meta N%d !M%d" % (i, i))
    rs = env.build("\n".join(conf) + "\n")
    for a, b, c in itertools.product((0, 1), repeat=3):
        msg = env.check(rs, "Subject: %s\nFrom: a@b.com\n\n%s %s\n" %
                        ("bb" * b, "aa" * a, "cc" * c))
        got = set(env.matched(msg))
        val = {"A": a, "B": b, "__C": c}
        for i, t in enumerate(exprs):
            want = truth(t, val)
            rec.step()
            rec.trace()
            if ("M%d" % i in got, "N%d" % i in got) != (want, not want):
                rec.fail("expr", "%s with %r: meta %s, its negation %s, want %s" % (
                    show(t, style), val, "M%d" % i in got, "N%d" % i in got, want))
        rec.state(tuple(sorted(got)))
    rec.sample("%s" % show(exprs[0], style))


KINDS = {
    "body": ("body %s /@/", None),
    "score0": ("body %s /@/\nscore %s 0", None),
    "neg": ("body %s /@/\nscore %s -7", None),
    "half": ("body %s /@/\nscore %s 0.5", None),
    "zero4": ("body %s /@/\nscore %s 0 0 0 0", None),
    "net": ("use_network 0\nbody %s /@/\ntflags %s net", None),
    "prio": ("body %s /@/\npriority %s 50", None),
    "last": ("body %s /@/\npriority %s -50", None),
    "header": ("header %s X-W =~ /@/", None),
    "notheader": ("header %s X-N !~ /@/", None),
    "exists": ("header %s exists:X-E-@", None),
    "uri": ("uri %s /@/", None),
    "full": ("full %s /@/", None),
    "rawbody": ("rawbody %s /@/", None),
    "mime": ("mimeheader %s X-W =~ /@/", None),
    "one": ("body %s eval:probe('@')", (True, False)),
    "five": ("body %s eval:probe('@')", (5, 0)),
    "minus": ("body %s eval:probe('@')", (-3, None)),
    "text": ("body %s eval:probe('@')", ("yes", False)),
    "raise": ("body %s eval:probe('@')", (ValueError("no"), ValueError("no"))),
    "meta": ("body __in_%s /@/\nmeta %s __in_%s", None),
    "metasum": ("body __in_%s /@/\nmeta %s __in_%s + __in_%s + 1 > 2", None),
}
NAMES = (("AA", "BB"), ("__AA", "__BB"), ("lambda", "match"), ("msg", "rule_msg"),
         ("A1", "A11"), ("_a", "None"))
TESTS = (("&&", "X", ("!", "Y")), ("==", ("+", "X", "Y"), 1), (">", ("+", "X", "Y"), 1),
         ("||", "X", "Y"), ("-", "X", "Y"))


def rename(t, n):
    if isinstance(t, tuple):
        return (t[0],) + tuple(rename(x, n) for x in t[1:])
    return n.get(t, t) if isinstance(t, str) else t


def run_kinds(case, rec):
    (k1, k2), names, order, prio = case
    blocks = []
    for kind, name, w in ((k1, names[0], "worda"), (k2, names[1], "wordb")):
        text = KINDS[kind][0]
        blocks.append(text.replace("%s", name).replace("@", w))
    metas = []
    for i, t in enumerate(TESTS):
        metas.append("meta TEST%d %s" % (i, show(rename(t, dict(zip("XY", names))), 0)))
        if prio:
            metas.append("priority TEST%d %d" % (i, prio))
    parts = [blocks[0], blocks[1], "\n".join(metas)]
    rs = env.build("loadplugin mc.probe.Probe\n" + "\n".join(parts[i] for i in order) + "\n")
    for x, y in itertools.product((0, 1), repeat=2):
        probe.reset()
        words = ["worda"] * x + ["wordb"] * y
        val = {}
        for kind, v, w in ((k1, x, "worda"), (k2, y, "wordb")):
            if KINDS[kind][1]:
                probe.RESULTS[w] = KINDS[kind][1][0 if v else 1]
            val[w] = 0 if kind == "raise" else v
            if kind == "notheader":
                val[w] = 1 - v
        text = "From: a@b.com\nX-W: %s\nX-N: n %s\n%s\n%s http://%s.com/\n" % (
            " ".join(words), " ".join(words),
            "".join("X-E-%s: 1\n" % w for w in words), " ".join(words), ".".join(words))
        got = [n for n in env.matched(env.check(rs, text)) if n.startswith("TEST")]
        want = ["TEST%d" % i for i, t in enumerate(TESTS)
                if truth(t, {"X": val["worda"], "Y": val["wordb"]})]
        rec.step()
        rec.trace()
        rec.state((got, want))
        rec.check("subrule-kind", got, want, case=case, val=val)


def spaces(tier):
    from mc.core import Space
    V3 = ("A", "B", "__C")
    one = [t for l in ("A", 0, 2) for t in trees([l], BINARY, 1)]
    two = [t for ls in itertools.product(("A", "B", 0, 1, 2), repeat=2)
           for t in trees(ls, BINARY, 2)]
    three = []
    for ls in (V3, ("A", "B", 1), (1, "A", "B"), ("A", 1, "B"), ("A", "A", "B"), ("A", 2, "__C")):
        three += trees(ls, BINARY, 1)
    boolean = trees(("A", "B", "__C", "A"), ("&&", "||"), 3)
    sums = trees(("A", "B", "__C", 2), ("+", ">", "==", "&&", "*"), 0)
    cases = []
    for style in (0, 1, 2):
        for exprs in (one, two, three, boolean, sums):
            cases += [(style, b) for b in batches(exprs, 150)]
    kinds = [((a, b), NAMES[0], o, 0) for a, b in itertools.product(KINDS, repeat=2)
             for o in itertools.permutations(range(3))]
    kinds += [((a, b), n, o, p) for a, b in itertools.product(("body", "meta", "five", "score0", "prio"), repeat=2)
              for n in NAMES for o in ((0, 1, 2), (2, 1, 0)) for p in (0, 100, -100)]
    out = [Space("expressions", cases, run_exprs, "all expression trees up to 3-4 leaves, 3 print styles, 8 assignments", chunk=1),
           Space("subrules", kinds, run_kinds, "all pairs of 22 subrule kinds x 6 definition orders; odd names; priorities")]
    if tier == "thorough":
        four = trees(("A", "B", "__C", 1), BINARY, 0) + trees(("A", "B", "__C", "A"), ("&&", "||", "+", ">", "!="), 2)
        out.append(Space("four", [(s, b) for s in (0, 2) for b in batches(four, 200)], run_exprs,
                         "all trees with 4 leaves", chunk=1))
    return out
