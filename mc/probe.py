"""Plugins with observable, programmable behaviour, loaded by configurations
of the checks with `loadplugin mc.probe.Probe`."""
import oa.plugins.base
import oa.rules.base

EVENTS = []          # everything that was called, in order
RESULTS = {}         # eval argument -> result, or an exception to raise
FAILING = {}         # text of a message -> tag of the plugin failing to report it


def reset(**results):
    del EVENTS[:]
    RESULTS.clear()
    RESULTS.update(results)


def _answer(key):
    res = RESULTS.get(key, False)
    if isinstance(res, BaseException):
        raise res
    return res


class _Base(oa.plugins.base.BasePlugin):
    tag = "?"

    def check_start(self, msg):
        EVENTS.append((self.tag, "check_start"))

    def parsed_metadata(self, msg):
        EVENTS.append((self.tag, "parsed_metadata"))

    def check_end(self, ruleset, msg):
        EVENTS.append((self.tag, "check_end"))

    def auto_learn_discriminator(self, ruleset, msg):
        EVENTS.append((self.tag, "auto_learn"))

    def plugin_report(self, msg):
        EVENTS.append((self.tag, "report", msg.raw_msg))
        _answer(self.tag + "-report")
        if FAILING.get(msg.raw_msg) == self.tag:
            raise RuntimeError("not reported")

    def plugin_revoke(self, msg):
        EVENTS.append((self.tag, "revoke", msg.raw_msg))
        _answer(self.tag + "-revoke")
        if FAILING.get(msg.raw_msg) == self.tag:
            raise RuntimeError("not reported")


class ProbeRule(oa.rules.base.BaseRule):
    """A rule type of a plugin: its value is the key of the answer."""
    rule_type = "proberule"

    def __init__(self, name, key=None, **kwargs):
        super(ProbeRule, self).__init__(name, **kwargs)
        self.key = key

    def match(self, msg):
        EVENTS.append(("eval", self.key))
        return _answer(self.key)

    @staticmethod
    def get_rule_kwargs(data):
        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
        kwargs["key"] = data["value"].strip()
        return kwargs


class Probe(_Base):
    tag = "probe"
    cmds = {"proberule": ProbeRule}
    eval_rules = ("probe", "probe_text")
    options = {
        "probe_int": ("int", 7),
        "probe_float": ("float", 1.5),
        "probe_bool": ("bool", False),
        "probe_str": ("str", "dflt"),
        "probe_list": ("list", ["a"]),
        "probe_append": ("append", []),
        "probe_append2": ("append", ["x"]),
        "probe_split": ("append_split", []),
        "probe_clear": ("clear", ["probe_append", "probe_split"]),
        "probe_time": ("timevalue", 60.0),
    }

    def probe(self, msg, key, target=None):
        EVENTS.append(("eval", key))
        return _answer(key)

    def probe_text(self, msg, key, target=None):
        """Matches when the word is in the message: the text that is."""
        EVENTS.append(("text", key))
        return key in msg.raw_msg


class Other(_Base):
    """Overlaps with Probe."""
    tag = "other"
    eval_rules = ("probe", "other")
    options = {"other_str": ("str", "o"), "probe_str": ("str", "o2")}

    def probe(self, msg, key, target=None):
        EVENTS.append(("other-eval", key))
        return _answer(key)

    def other(self, msg, target=None):
        EVENTS.append(("other", None))
        return True


class Witness(_Base):
    """Knows the text of every message that was checked."""
    tag = "witness"

    def check_end(self, ruleset, msg):
        EVENTS.append((self.tag, "checked", msg.raw_msg))
