"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the
check modules present."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props

NA = {}


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


if __name__ == "__main__":
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props.P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
            path = os.path.join(V, "mc", "checks", p["id"].lower() + ".py")
            if os.path.exists(path):
                c = consts(path)
                checks.append({
                    "property": p["id"],
                    "quick_cmd": "./check %s --tier quick" % p["id"],
                    "thorough_cmd": "./check %s --tier thorough" % p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"],
                    "technique": c["TECHNIQUE"],
                    "level": "model_checking",
                    "level_note": c["LEVEL_NOTE"]})
            else:
                na.append({"property": p["id"],
                           "reason": NA.get(p["id"], "no check built yet")})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks: the checks drive /repo through its public seams."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")
