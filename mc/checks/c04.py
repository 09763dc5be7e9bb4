"""C04: a meta rule that cannot be evaluated is dropped alone."""
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of meta reference graphs and definition orders on the real loader, against a graph model"
LEVEL_NOTE = "All reference graphs over 3 (thorough: 4) metas with up to 2 references each, all definition orders, both modes."
ASSUMPTIONS = ["each meta is a disjunction or negated conjunction of its references"]

BAD = ("A ||", "(L", "L)", "&& L", "L ! L", "L L", "L = 1", "", "!", "L @ L", "1 +", "()", "L ||| L", "L (L)", "2 (L)", "(L) (L)", "L , L", "foo(L)", "L < = 1", "L ** ", "1 1")


def model(graph):
    """The metas that survive.  A node is a tuple of references or a bad text."""
    dead = {n for n, r in graph.items() if isinstance(r, str)}
    while True:
        more = {n for n, r in graph.items() if n not in dead and
                any(x == "U" or x in dead for x in r)}
        # circular: reaches itself
        for n in graph:
            if n in dead:
                continue
            seen, todo = set(), [n]
            while todo:
                for x in (graph.get(todo.pop()) or ()):
                    if x in graph and not isinstance(graph[x], str) and x not in seen:
                        seen.add(x)
                        todo.append(x)
            if n in seen:
                more.add(n)
        if not more:
            return set(graph) - dead
        dead |= more


def run(case, rec):
    graph, order, leafpos, paranoid = case
    graph = {n: r for n, r in graph}
    lines = []
    for n in order:
        r = graph[n]
        expr = r if isinstance(r, str) else " || ".join(r)
        lines.append("meta %s %s" % (n, expr))
    lines.insert(leafpos, "body L /hit/\nmeta GOOD L\nheader ALSO Subject =~ /x/\nmeta NOTL !L && ALSO")
    conf = "\n".join(lines) + "\n"
    alive = model(graph)
    rec.step()
    rec.trace()
    if paranoid:
        try:
            env.build(conf, paranoid=True)
            failed = False
        except Exception:
            failed = True
        rec.check("paranoid", failed, alive != set(graph), conf=conf)
        rec.state(failed)
        return
    rs = env.build(conf)
    got = env.matched(env.check(rs, "Subject: x\n\nhit\n"))
    want = sorted(["L", "GOOD", "ALSO"] + [n for n in alive if not n.startswith("__")])
    rec.check("hit", got, want, conf=conf)
    got = env.matched(env.check(rs, "Subject: x\n\nmiss\n"))
    rec.check("miss", got, ["ALSO", "NOTL"], conf=conf)
    rec.state(tuple(want))
    rec.sample("%s -> %s" % (lines, want))


def spaces(tier):
    from mc.core import Space

    def graphs(names, leaves, k):
        refs = names + leaves
        opts = [c for n in range(1, k + 1) for c in itertools.combinations(refs, n)]
        return itertools.product(opts, repeat=len(names))

    names = ("M0", "M1", "M2")
    cases = []
    for g in graphs(names, ("L", "U"), 2):
        for order in itertools.permutations(names):
            cases.append((tuple(zip(names, g)), order, 0, False))
        cases.append((tuple(zip(names, g)), names, 3, False))
        cases.append((tuple(zip(names, g)), names, 0, True))
    hidden = ("M0", "__M1", "M2")
    for g in graphs(hidden, ("L", "U"), 2):
        cases.append((tuple(zip(hidden, g)), hidden, 1, False))
    bad = []
    for b in BAD:
        for g in itertools.product((("L",), ("B",), ("L", "B"), ("M1", "L"), ("M1",)), repeat=2):
            graph = (("M1", g[0]), ("B", b), ("M2", g[1]))
            for order in itertools.permutations(("M1", "B", "M2")):
                for pos in (0, 3):
                    for par in (False, True):
                        bad.append((graph, order, pos, par))
    out = [Space("graphs", cases, run, "all graphs over 3 metas, a leaf and an undefined name, all orders"),
           Space("invalid", bad, run, "13 invalid expressions x dependents x orders")]
    if tier == "thorough":
        n4 = ("M0", "M1", "M2", "M3")
        out.append(Space("graphs4", [(tuple(zip(n4, g)), o, 0, False)
                                     for g in graphs(n4, ("L",), 2)
                                     for o in (n4, n4[::-1], ("M2", "M0", "M3", "M1"))],
                         run, "all graphs over 4 metas in 3 orders"))
    return out
