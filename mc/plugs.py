"""Plugins that share names of eval rules, rule types and options, some of
which cannot be loaded."""
import oa.errors
import oa.plugins.base
import oa.rules.base

# What was called: (plugin, what)
EVENTS = []
FAILING = set()


class Base(oa.plugins.base.BasePlugin):
    label = None

    def __init__(self, ctxt):
        super(Base, self).__init__(ctxt)
        if self.label in FAILING:
            raise ValueError("cannot be loaded")

    def call(self, what):
        EVENTS.append((self.label, what))

    def finish_parsing_start(self, results):
        super(Base, self).finish_parsing_start(results)
        self.call("finish_parsing_start")

    def finish_parsing_end(self, ruleset):
        super(Base, self).finish_parsing_end(ruleset)
        self.call("finish_parsing_end")

    def check_start(self, msg):
        self.call("check_start")

    def extract_metadata(self, msg, payload, text, part):
        self.call("extract_metadata")

    def parsed_metadata(self, msg):
        self.call("parsed_metadata")

    def check_end(self, ruleset, msg):
        self.call("check_end")

    def auto_learn_discriminator(self, ruleset, msg):
        self.call("auto_learn")

    def plugin_report(self, msg):
        self.call("report")

    def plugin_revoke(self, msg):
        self.call("revoke")


def rule(label):
    class Rule(oa.rules.base.BaseRule):
        rule_type = "x"

        def match(self, msg):
            EVENTS.append((label, "rule"))
            return True
    return Rule


def plugin(name, evals, types=(), option=None):
    def make(fn):
        def run(self, msg, target=None):
            self.call(fn)
            if option:
                EVENTS.append((name, "%s=%s" % (option, self[option])))
            return True
        run.__name__ = fn
        return run
    body = {fn: make(fn) for fn in evals}
    body.update(label=name, eval_rules=tuple(evals), cmds={t: rule(name) for t in types} or None,
                options={option: ("str", name)} if option else None, __module__=__name__)
    return type(name, (Base,), body)


One = plugin("One", ["shared", "only_one"], ["kind"], "opt_one")
Two = plugin("Two", ["shared", "only_two"], ["kind", "sort"], "opt_two")
Three = plugin("Three", ["only_two", "only_three"], ["sort"])
# Names an eval rule that it does not have
Missing = plugin("Missing", ["shared", "only_one"])
Missing.eval_rules = ("shared", "only_one", "nothing_like_it")
# Its rule type is no rule
Wrong = plugin("Wrong", ["shared", "only_three"], ["kind"])
Wrong.cmds = {"kind": Wrong.cmds["kind"], "sort": Base}
# No plugin
Stranger = type("Stranger", (object,), {"eval_rules": ("shared",)})
function = rule
