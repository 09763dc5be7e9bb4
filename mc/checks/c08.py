"""C08: conditional blocks and includes select exactly their lines."""
import itertools
import os

from mc import env, probe

TECHNIQUE = "explicit-state enumeration of all conditional line sequences and include graphs, replayed on the real parser against a stack model"
LEVEL_NOTE = "All sequences up to 6 lines (thorough 7) over 8 conditional, plugin and rule lines, also cut over two files and an include; all include graphs over 3 files with up to 2 includes each; all plugin names."
ASSUMPTIONS = ["at most one else per block"]

TOK = {
    "P": "ifplugin Probe",
    "N": "ifplugin NoSuchPlugin",
    "O": "ifplugin mc.probe.Other",
    "E": "else",
    "X": "endif",
    "L": "loadplugin mc.probe.Other",
    "R": None,              # a rule, named by its place
}


def wellformed(seq):
    """No second else in a block, and at least one rule."""
    stack = []
    for t in seq:
        if t in "PNO":
            stack.append(0)
        elif t == "E" and stack:
            if stack[-1]:
                return False
            stack[-1] = 1
        elif t == "X" and stack:
            stack.pop()
    return "R" in seq


class Model(object):
    def __init__(self):
        self.loaded = {"P"}
        self.rules = []

    def run(self, items):
        """items: (token, place); ends like a file."""
        stack = []
        for t, place in items:
            on = all(stack)
            if t in "PNO":
                stack.append(t in self.loaded if on else True)
                if not on:
                    stack[-1] = True       # irrelevant, an outer one is off
            elif t == "E":
                if stack:
                    stack[-1] = not stack[-1]
            elif t == "X":
                if stack:
                    stack.pop()
            elif on and t == "L":
                self.loaded.add("O")
            elif on and t == "R":
                self.rules.append("R%d" % place)
            elif on and t == "I":
                self.run(place)


def text(items):
    out = []
    for t, place in items:
        if t == "R":
            out.append("body R%d /x/" % place)
        elif t == "I":
            out.append("include part.cf")
        else:
            out.append(TOK[t])
    return "\n".join(out) + "\n"


def names(rs):
    probe.reset()
    return sorted(env.check(rs, "Subject: s\n\nx\n").rules_checked)


def run_seq(case, rec):
    seq, split = case
    items = [(t, i) for i, t in enumerate(seq)]
    m = Model()
    head = "loadplugin mc.probe.Probe\n"
    if split is None:
        m.run(items)
        rs = env.build(head + text(items))
    elif split[0] == "files":
        a, b = items[:split[1]], items[split[1]:]
        m.run(a)
        m.run(b)
        rs = env.build(head + text(a), text(b))
    else:
        a, inc, b = items[:split[1]], items[split[1]:split[2]], items[split[2]:]
        env.write("part.cf", text(inc))
        whole = a + [("I", inc)] + b
        m.run(whole)
        rs = env.build(head + text(whole))
    rec.step(len(seq))
    rec.trace()
    rec.check("rules", names(rs), sorted(m.rules), case=case)
    rec.state((seq, split, tuple(m.rules)))
    rec.sample("%s -> %s" % (" ; ".join(TOK[t] or "rule" for t in seq), m.rules))


# ------------------------------------------------------------------ includes
FILES = ("main.cf", "sub/a.cf", "sub/deep/b.cf")
# how each file names the others: relative to itself
REL = {(0, 0): "main.cf", (0, 1): "sub/a.cf", (0, 2): "sub/deep/b.cf",
       (1, 0): "../main.cf", (1, 1): "a.cf", (1, 2): "deep/b.cf",
       (2, 0): "../../main.cf", (2, 1): "../a.cf", (2, 2): "b.cf"}


def run_graph(case, rec):
    import oa.errors
    graph, mode = case
    d = os.path.join(env.scratch("inc"))
    for i, targets in enumerate(graph):
        lines = []
        for k, t in enumerate(targets):
            lines.append("body R%d%d /x/" % (i, k))
            if t == "missing":
                lines.append("include nosuch.cf")
            elif mode == "abs":
                lines.append("include " + os.path.join(d, FILES[t]))
            elif mode == "spaces":
                lines.append("include   \t" + REL[i, t] + "  \t # comment")
            elif mode == "off":
                lines += ["ifplugin Nope", "include " + REL[i, t], "endif"]
            else:
                lines.append("include " + REL[i, t])
        lines.append("score R%d %d" % (i, i + 2))
        lines.append("body R%d /x/" % i)
        env.write(os.path.join(d, FILES[i]), "\n".join(lines))

    order = []

    def walk(i, path):
        if i in path:
            raise RecursionError
        for k, t in enumerate(graph[i]):
            order.append("R%d%d" % (i, k))
            if t != "missing" and mode != "off":
                walk(t, path + (i,))
        order.append("R%d" % i)

    try:
        walk(0, ())
        want = list(dict.fromkeys(order))
    except RecursionError:
        want = "error"
    import oa.rules.parser
    p = oa.rules.parser.PADParser()
    try:
        with decoys(FILES):
            p.parse_file(os.path.join(d, FILES[0]))
        rs = p.get_ruleset()
        msg = env.check(rs, "Subject: s\n\nx\n")
        got = list(msg.rules_checked)
        for i in range(3):
            if "R%d" % i in got:
                rec.check("include-score", rs.get_rule("R%d" % i).score, i + 2, case=case)
    except oa.errors.MaxRecursionDepthExceeded:
        got = "error"
    rec.step(len(order))
    rec.trace()
    rec.check("include", got, want, case=case)
    rec.state((case, want if isinstance(want, str) else tuple(want)))


class decoys(object):
    """The current directory has files of the same names, with rules that
    must not be loaded."""

    def __init__(self, names):
        self.names = names

    def __enter__(self):
        self.old = os.getcwd()
        d = env.scratch("decoys")
        for n in self.names:
            if not os.path.isabs(n) and os.pardir not in n:
                env.write(os.path.join(d, n), "body DECOY /x/\n")
        os.chdir(d)

    def __exit__(self, *a):
        os.chdir(self.old)


def run_chain(case, rec):
    n, = case
    d = env.scratch("chain")
    for i in range(n):
        env.write(os.path.join(d, "f%d.cf" % i),
                  "body A%d /x/\n%sbody B%d /x/\n" % (i, "include f%d.cf\n" % (i + 1) if i + 1 < n else "", i))
    import oa.rules.parser
    p = oa.rules.parser.PADParser()
    with decoys(["f%d.cf" % i for i in range(n + 1)]):
        p.parse_file(os.path.join(d, "f0.cf"))
    msg = env.check(p.get_ruleset(), "Subject: s\n\nx\n")
    rec.check("chain", list(msg.rules_checked),
              ["A%d" % i for i in range(n)] + ["B%d" % i for i in reversed(range(n))], case=case)
    rec.step(n)
    rec.state(n)


def run_names(case, rec):
    """ifplugin knows a plugin by its Perl name, path and class."""
    loaded, form = case
    import oa.plugins
    items = sorted(oa.plugins.REIMPLEMENTED_PLUGINS.items())
    lines = []
    if loaded >= 0:
        perl, path = items[loaded]
        lines.append("loadplugin " + (perl if form % 2 else path))
    for i, (perl, path) in enumerate(items):
        asked = (perl, path, path.rsplit(".", 1)[1])[form // 2]
        lines += ["ifplugin " + asked, "body IN%d /x/" % i, "else", "body OUT%d /x/" % i, "endif"]
    rs = env.build("\n".join(lines))
    want = []
    for i, (perl, path) in enumerate(items):
        on = loaded >= 0 and path.rsplit(".", 1)[1] == items[loaded][1].rsplit(".", 1)[1]
        want.append(("IN%d" if on else "OUT%d") % i)
    # only what is loaded matters here, not what the plugins do
    got = []
    for n in ["%s%d" % (k, i) for k in ("IN", "OUT") for i in range(len(items))]:
        try:
            got.append(rs.get_rule(n).name)
        except KeyError:
            pass
    rec.check("ifplugin-name", sorted(got), sorted(want), case=case, line=lines[0])
    rec.step(len(lines))
    rec.trace()
    rec.state(case)


def spaces(tier):
    from mc.core import Space
    thorough = tier == "thorough"
    depth = 7 if thorough else 6
    seqs = [(s, None) for n in range(1, depth) for s in itertools.product("PNOEXLR", repeat=n) if wellformed(s)]
    # nested shapes: one more level, without the plugin lines
    seqs += [(s, None) for s in itertools.product("PNEXR", repeat=depth) if wellformed(s) and s[0] in "PN" and s[-1] == "R"]
    if thorough:
        seqs += [(s, None) for s in itertools.product("PNEXR", repeat=8) if wellformed(s) and s[0] in "PN" and s[1] in "PN" and s[-1] == "R"]
    cuts = []
    n = 5 if thorough else 4
    for s in itertools.product("PNEXLOR", repeat=n):
        if not wellformed(s):
            continue
        for at in range(1, n):
            cuts.append((s, ("files", at)))
        for a in range(n):
            for b in range(a + 1, n + 1):
                cuts.append((s, ("inc", a, b)))
    tg = [()] + [(t,) for t in (0, 1, 2, "missing")] + list(itertools.product((0, 1, 2, "missing"), repeat=2))
    graphs = [((a, b, c), m) for a in tg for b in tg for c in tg
              for m in (("rel", "abs", "spaces", "off") if thorough else ("rel",))]
    if not thorough:
        small = [()] + [(t,) for t in (0, 1, 2, "missing")]
        graphs += [((a, b, c), m) for a in tg for b in small for c in small for m in ("abs", "spaces", "off")]
    import oa.plugins
    npl = len(oa.plugins.REIMPLEMENTED_PLUGINS)
    return [Space("sequences", seqs, run_seq, "all conditional line sequences"),
            Space("files", cuts, run_seq, "sequences cut over two files or partly included"),
            Space("include-graphs", graphs, run_graph, "all include graphs over three files"),
            Space("chains", [(n,) for n in range(1, 10)], run_chain, "include chains"),
            Space("plugin-names", [(i, f) for i in range(-1, npl) for f in range(6)], run_names,
                  "every known plugin by each of its names")]
