"""tools/options.py: write mc/options.json, the options of the current tree with their types and defaults.

The result is committed after a review against the documentation: check C09 compares the code with it.
Run it as: VMC_SCRATCH=/tmp/vs PYTHONPATH=/verif:/repo /opt/pypyvenv/bin/python tools/options.py
"""
import copy
import importlib
import json

from mc import env

env.setup()
import oa.conf
import oa.plugins

from mc.checks import c09

out = []
for path in [None, "mc.probe.Probe"] + sorted(oa.plugins.REIMPLEMENTED_PLUGINS.values()):
    if path is None:
        klass = oa.conf.PADConf
    else:
        m, c = path.rsplit(".", 1)
        klass = getattr(importlib.import_module(m), c)
    if klass.__name__ in c09.SKIP:
        continue
    for key, (kind, default) in sorted((klass.options or {}).items()):
        if key == "uri_detail":
            continue              # the type of a rule, see C41
        if klass.__name__ == "TextCatPlugin" and kind == "list":
            kind = "list-space"
        out.append((path, klass.__name__, key, kind, copy.deepcopy(default)))
with open("/verif/mc/options.json", "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(e) for e in out) + "\n]\n")
