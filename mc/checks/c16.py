"""C16: the result for a message does not depend on earlier messages."""
from mc import env, pristine, universe

TECHNIQUE = "exhaustive exploration of message histories (every ordered pair, thorough: every triple, of a message catalogue) on one real ruleset with every plugin, each result compared with the one of a fresh process"
LEVEL_NOTE = "Every ordered pair (thorough: triple) of a catalogue of messages that reach the rules of every plugin, in the walks A B1 A B2 ...; each message object matched a second time."
ASSUMPTIONS = ["the network answers the same question the same way all the time", "messages are parsed and matched one after the other, as each process of the daemon does",
               "Bayes and AWL accumulate on purpose and are left out here (C30-C32)"]

BASE = {}


def alone(name):
    universe.world()
    return universe.fingerprint(env.build(universe.config()), universe.messages()[name])


def compare(rec, rs, history, name):
    got = universe.fingerprint(rs, universe.messages()[name])
    rec.step()
    rec.trace()
    rec.state((name, repr(got)))
    if got != BASE[name]:
        d = universe.delta(got, BASE[name])
        key = "raised"
        if "raised" not in d:
            a, b = d.get("matched", ([], []))
            diff = sorted(set(a) ^ set(b)) or sorted(d)
            key = ",".join(diff[:4])
        rec.fail("history/%s" % key, "after %r, %s: %r" % (history[-6:], name, d))
        return False
    return True


def walk(case, rec):
    """first..., then each message with them in between."""
    universe.world()
    rs = env.build(universe.config())
    history = []
    for other in [None] + sorted(universe.messages()):
        for name in ([other] if other else []) + list(case):
            ok = compare(rec, rs, history, name)
            history.append(name)
            if not ok:
                return
    rec.sample("%s: %d checks" % ("+".join(case), len(history)))


def again(name, rec):
    """The same message object."""
    universe.world()
    rs = env.build(universe.config())
    import oa.message
    msg = oa.message.Message(rs.ctxt, universe.messages()[name])
    seen = []
    for _ in range(3):
        msg.clear_matches()
        rs.match(msg)
        seen.append({"score": round(msg.score, 6), "matched": env.matched(msg),
                     "descriptions": dict((k, v) for k, v in sorted(msg.rules_descriptions.items()) if msg.rules_checked.get(k)),
                     "adjusted": env.canon(rs.get_adjusted_message(msg).encode("utf8", "surrogatepass")),
                     "report": env.canon(rs.get_report(msg).encode("utf8"))})
        rec.step()
    rec.trace()
    rec.state(repr(seen[-1]))
    want = dict((k, v) for k, v in BASE[name].items() if k in seen[0])
    for i, got in enumerate(seen):
        if got != want:
            d = universe.delta(got, want)
            rec.fail("again/%s" % name, "match %d of %s: %r" % (i + 1, name, d))
            break


def spaces(tier):
    from mc.core import Space
    import itertools
    BASE.update(pristine.run(alone, sorted(universe.messages())))
    names = sorted(universe.messages())
    out = [Space("pairs", [(n,) for n in names], walk, "walks A B1 A B2 A ... over the catalogue", chunk=1, timeout=120),
           Space("again", names, again, "the same message object matched three times", chunk=2)]
    if tier == "thorough":
        out.append(Space("triples", list(itertools.product(names, names)), walk, "walks A B C1 A B C2 ...", chunk=4, timeout=120))
    return out
