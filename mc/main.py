"""Run one check: python -m mc.main <ID> [--tier T]  |  --replay FILE"""
from __future__ import print_function

import importlib
import json
import os
import sys
import time

from mc import core

KNOWN = os.path.join(core.VERIF, "known_findings.txt")

CONTROLLED = ("C12",)    # checks which schedule the threads themselves


def load_known(pid):
    """`finding: property=<id> key=<key> :: text` lines of this property."""
    known = {}
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, text = line[len("finding:"):].split(" :: ", 1)
            fields = dict(x.split("=", 1) for x in head.split())
            if fields["property"] == pid:
                known[fields["key"]] = text
    return known


def load_check(pid):
    if pid in CONTROLLED:
        import mc.sched
        mc.sched.early()
    import mc.env                       # closes the environment first
    mc.env.setup()
    return importlib.import_module("mc.checks.%s" % pid.lower())


def replay(path):
    with open(path) as f:
        data = json.load(f)
    mod = load_check(data["property"])
    if data.get("space") is None:
        print(data["text"])
        return 1
    for sp in mod.spaces(data.get("tier", "quick")):
        if sp.name == data["space"]:
            rec = core.Recorder()
            import signal
            signal.signal(signal.SIGALRM, core._alarm)
            case = data["case"]
            core._run_case(sp, tuplify(case), rec)
            for k, v in rec.fails.items():
                print("FAIL %s\n%s\n%s" % (k, v["text"], v["info"]))
            print("replayed %s: %d failure(s)" % (path, rec.nfails))
            return 1 if rec.nfails else 0
    print("no such space")
    return 2


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    return x


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--space" in argv:
        only = argv[argv.index("--space") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    mod = load_check(pid)
    spaces = mod.spaces(tier)
    if only:
        spaces = [s for s in spaces if s.name == only]
    results, timed_out = core.explore(spaces)
    wall = time.time() - start

    known = load_known(pid)
    fails = {}
    states = set()
    steps = traces = cases = 0
    samples, per_space = [], {}
    for sp in spaces:
        rec = results[sp.name]
        for k, v in rec.fails.items():
            fails.setdefault(k, v)
        states |= {(sp.name, s) for s in rec.states}
        steps += rec.steps
        traces += rec.traces
        cases += rec.ncases
        samples.extend("%s: %s" % (sp.name, s) for s in rec.samples[:3])
        per_space[sp.name] = dict(
            cases=rec.ncases, distinct_states=len(rec.states),
            transitions=rec.steps, traces=rec.traces, what=sp.note,
            **rec.counts)
    new = {k: v for k, v in fails.items() if k not in known}
    seen_known = [k for k in known if k in fails]

    repdir = os.path.join(core.VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    for name in os.listdir(repdir):
        if name.startswith(pid + "-"):
            os.unlink(os.path.join(repdir, name))
    out = []
    for k in sorted(new):
        v = new[k]
        path = os.path.join(repdir, "%s-%016x.json" % (pid, core.h64(k)))
        with open(path, "w") as f:
            json.dump(dict(property=pid, key=k, tier=tier, **v), f, indent=1,
                      default=repr)
        out.append("VIOLATION property=%s replay=%s" % (pid, path))
        if len(out) <= 40:
            print("%s: %s" % (k, v["text"][:1500]))
    evidence = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": steps,
            "traces_validated_against_impl": traces,
            "executions": cases,
            "exhaustive": not timed_out and not only and
            not any(sp.get("capped") for sp in per_space.values()),
            "samples": samples[:24] or ["none"],
            "spaces": per_space,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(core.VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")
    for name, c in per_space.items():
        print("# %s: %s" % (name, {k: v for k, v in c.items() if k != "what"}))
    print("%s %s: states=%d transitions=%d traces=%d cases=%d wall=%.1fs" %
          (pid, tier, len(states), steps, traces, cases, wall))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
    for line in out[:20]:
        print(line)
    if len(out) > 20:
        print("(%d violations in all, see evidence/replay)" % len(out))
    return 1 if new else 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
