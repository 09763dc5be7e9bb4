"""C35: loading and unloading plugins keeps the registry consistent."""
import itertools
import os

from mc import env

TECHNIQUE = "explicit-state exploration of all sequences of loading, reloading, failing and unloading plugins on the real parser and context, every prefix judged by the hooks, eval rules, rule types and options of real rulesets and messages against a model of the registry"
LEVEL_NOTE = "All sequences of up to 3 (4 in thorough) of 17 operations, over three overlapping plugins, plugins in files with the same names, a plugin that fails when told to, and seven that can never be loaded; and what is left of them in the rulesets of users."
ASSUMPTIONS = ["plugins are loaded by loadplugin lines and unloaded with GlobalContext.unload_plugin", "the order in which plugins are called is not judged", "options are set after the plugins are loaded: whether a reload keeps them is not documented"]

HOOKS = ["check_start", "extract_metadata", "parsed_metadata", "check_end"]
# name: (evals, rule types, option)
GOOD = {"One": (["shared", "only_one"], ["kind"], "opt_one"), "Two": (["shared", "only_two"], ["kind", "sort"], "opt_two"), "Three": (["only_two", "only_three"], ["sort"], None),
        "File": (["shared", "only_three"], ["sort"], "opt_file"), "File2": (["only_one"], [], None)}
FILE = """
import mc.plugs


%s = mc.plugs.plugin(%r, %r, %r, %r)
%s.__name__ = %r
"""
OPS = ["One", "Two", "Three", "File", "File2", "-One", "-Two", "-Three", "-File", "!One", "!Two", "Missing", "Wrong", "Stranger", "function", "nomodule", "nofile"]
RULES = "".join("body E_%s eval:%s()\n" % (e, e) for e in ("shared", "only_one", "only_two", "only_three", "nothing_like_it")) + "kind K_1 x\nsort S_1 y\nopt_one one set\nopt_file file set\nopt_two two set\nbody PLAIN /one/\nreport _TESTS_\n"
# What the registry knows a plugin by.
CLASS = {"One": "One", "Two": "Two", "Three": "Three", "File": "Filed", "File2": "Filed"}


def files():
    """Two files with the same name, and the same class name."""
    out = {}
    for name, d in (("File", "plugs_a"), ("File2", "plugs_b")):
        evals, types, option = GOOD[name]
        path = os.path.join(env.scratch(d), "filed.py")
        text = FILE % ("Filed", name, evals, types, option, "Filed", "Filed")
        if not os.path.exists(path) or open(path).read() != text:
            env.write(path, text)
        out[name] = path
    broken = os.path.join(env.scratch("plugs_a"), "broken.py")
    env.write(broken, "import mc.plugs\nmc.plugs.EVENTS.append(('Broken', 'import'))\nraise ValueError('broken')\n")
    out["broken"] = broken
    return out


def line(op, paths):
    if op.startswith("File"):
        return "loadplugin Filed %s\n" % paths[op]
    if op == "nomodule":
        return "loadplugin mc.nosuchthing.One\n"
    if op == "nofile":
        return "loadplugin One %s\n" % paths["broken"]
    return "loadplugin mc.plugs.%s\n" % op.strip("!")


class Model(object):
    """{class name: plugin}, in the order they were loaded."""

    def __init__(self):
        self.loaded = {}

    def step(self, op):
        if op.startswith("-"):
            return self.loaded.pop(CLASS[op[1:]], None) is not None
        if op in CLASS:
            self.loaded.pop(CLASS[op], None)
            self.loaded[CLASS[op]] = op
        return True

    def owner(self, which, name):
        found = None
        for p in self.loaded.values():
            if name in GOOD[p][which]:
                found = p
        return found

    def options(self):
        return {GOOD[p][2] for p in self.loaded.values()} - {None}


def expected(model, known=None):
    """(rules that match, events of one check)"""
    hits, events = {"PLAIN"}, []
    for p in model.loaded.values():
        events += [(p, h) for h in HOOKS]
    for e in ("shared", "only_one", "only_two", "only_three"):
        p = model.owner(0, e)
        if p:
            hits.add("E_" + e)
            events.append((p, e))
            option = GOOD[p][2]
            if option and known is not None:
                events.append((p, "%s=%s" % (option, p)))
            elif option:
                events.append((p, "%s=%s" % (option, option[4:] + " set")))
    for t, r in (("kind", "K_1"), ("sort", "S_1")):
        p = model.owner(1, t)
        if p and (known is None or t in known):
            hits.add(r)
            events.append((p, "rule"))
    return sorted(hits), sorted(events)


def judge(rs, model, rec, label, known=None, **info):
    from mc import plugs
    del plugs.EVENTS[:]
    msg = env.check(rs, "Subject: s\n\none\n")
    hits, events = expected(model, known)
    rec.state((sorted(model.loaded.items()), tuple(model.loaded)))
    rec.check(label + "/rules", sorted(env.matched(msg)), hits, **info)
    rec.check(label + "/calls", sorted(e for e in plugs.EVENTS if e[1] != "auto_learn"), events, **info)
    for command, hook in (("hook_report", "report"), ("hook_revoke", "revoke")):
        del plugs.EVENTS[:]
        getattr(rs.ctxt, command)(msg)
        rec.check(label + "/" + hook, sorted(plugs.EVENTS), sorted((p, hook) for p in model.loaded.values()), **info)


def spaces(tier):
    deep = tier == "thorough"
    from mc.core import Space

    def histories():
        for n in range(0, 5 if deep else 4):
            for ops in itertools.product(OPS, repeat=n):
                # The last one decides, all prefixes are cases themselves.
                yield ops

    def build(ops, rec, model, tail=True, parser=None):
        """The parser, after these operations."""
        import warnings
        import oa.errors
        import oa.rules.parser
        from mc import plugs
        paths = files()
        del plugs.EVENTS[:]
        plugs.FAILING.clear()
        p = parser or oa.rules.parser.PADParser()
        path = os.path.join(env.scratch("plugs"), "line.cf")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for op in ops + ((None,) if tail else ()):
                rec.step()
                if op is not None and op.startswith("-"):
                    known = model.step(op)
                    try:
                        p.ctxt.unload_plugin(CLASS[op[1:]])
                        done = True
                    except oa.errors.PluginLoadError:
                        done = False
                    rec.check("unload", done, known, ops=ops)
                    continue
                if op is not None and op.startswith("!"):
                    plugs.FAILING.add(op[1:])
                env.write(path, RULES if op is None else line(op, paths))
                p.parse_file(path)
                plugs.FAILING.clear()
                if op is not None:
                    model.step(op)
        return p

    def run(ops, rec):
        model = Model()
        p = build(tuple(ops), rec, model)
        from mc import plugs
        del plugs.EVENTS[:]
        rs = p.get_ruleset()
        hooks = sorted((n, h) for n in model.loaded.values() for h in ("finish_parsing_start", "finish_parsing_end"))
        rec.check("histories/parsing", sorted(plugs.EVENTS), hooks, ops=ops)
        judge(rs, model, rec, "histories", ops=ops)
        rec.trace()

    def early():
        for n in range(1, 4 if deep else 3):
            for ops in itertools.product(OPS, repeat=n):
                for pos in range(n):
                    yield (ops, pos)

    def run_early(case, rec):
        """Rules that come before some of the plugins: a rule needs its type
        where it is written and in the end, its function only in the end."""
        ops, pos = tuple(case[0]), case[1]
        model = Model()
        p = build(ops[:pos], rec, model, tail=False)
        known = {t for t in ("kind", "sort") if model.owner(1, t)}
        env.write(os.path.join(env.scratch("plugs"), "early.cf"), "".join(l + "\n" for l in RULES.splitlines() if not l.startswith("opt_")))
        p.parse_file(os.path.join(env.scratch("plugs"), "early.cf"))
        build(ops[pos:], rec, model, tail=False, parser=p)
        judge(p.get_ruleset(), model, rec, "early", known, ops=ops, pos=pos)
        rec.trace()

    SITE = ["One", "Two", "File", "File2", "Missing", "!One", "nofile"]

    def users():
        for n in range(0, 3):
            for site in itertools.product(SITE, repeat=n):
                for m in range(0, 3 if deep else 2):
                    for prefs in itertools.product(SITE, repeat=m):
                        yield (site, prefs)

    def run_users(case, rec):
        """A user's ruleset has the plugins of the site and its own."""
        import warnings
        from mc import plugs, site
        plugs.FAILING.clear()
        paths = files()
        first, second = ([op for op in ops if not op.startswith("!")] for ops in case)
        both = Model()
        alone = Model()
        for op in first:
            alone.step(op)
            both.step(op)
        for op in second:
            both.step(op)
        conf = "".join(line(op, paths) for op in first) + "allow_user_rules 1\n" + RULES
        prefs = "".join(line(op, paths) for op in second) + RULES
        with site.Homes().installed(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            site.put_prefs("/home/u1/.spamassassin/user_prefs", prefs)
            server = site.make_server(conf)
            server.load_config()
            for who, model in (("u1", both), (None, alone), ("u1", both)):
                rec.step()
                judge(server.get_user_ruleset(who), model, rec, "users/%s" % ("user" if who else "site"), site=first, prefs=second)
        rec.trace()

    return [Space("histories", histories(), run, "loading and unloading of plugins", chunk=20),
            Space("early", early(), run_early, "rules between the plugins", chunk=20),
            Space("users", users(), run_users, "plugins of the site x plugins of the user", chunk=4)]
