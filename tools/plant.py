"""Development helper: write and confirm planted bugs.

    plant.py SPEC.py [ids...]     SPEC defines BUGS = [dict(id, property, file,
                                  edits=[(old, new)...], demo, needs, breaks)]
    plant.py --run [ids...]       confirm planted bugs and run their checks in
                                  scratch copies of /repo
"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
PRE = '''import os, sys, tempfile, logging, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import io
import oa.rules.parser, oa.message


def parser(*texts, **kw):
    p = oa.rules.parser.PADParser(**kw)
    d = tempfile.mkdtemp()
    for i, t in enumerate(texts):
        path = os.path.join(d, "c%d.cf" % i)
        with open(path, "w") as f:
            f.write(t)
        p.parse_file(path)
        os.unlink(path)
    os.rmdir(d)
    return p


def build(*texts, **kw):
    return parser(*texts, **kw).get_ruleset()


def check(rs, text):
    msg = oa.message.Message(rs.ctxt, text)
    rs.match(msg)
    return msg


def hits(msg):
    return sorted(n for n, r in msg.rules_checked.items() if r)


def expect(got, want):
    if got != want:
        print("got %r, want %r" % (got, want))
        sys.exit(1)


'''
SH = '''#!/bin/bash
export LANG=en_US.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset LC_ALL LC_MESSAGES PYTHONPATH
exec timeout 200 /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"
'''


def copy(name):
    d = "/tmp/plant-%s" % name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", os.environ.get("PLANT_REPO", "/repo") + "/.", d])
    return d


def write(bug):
    d = os.path.join(V, "seeded", bug["id"])
    os.makedirs(d, exist_ok=True)
    wt = copy("w-" + bug["id"])
    files = {}
    for e in bug["edits"]:
        fn, old, new = e if len(e) == 3 else (bug["file"],) + tuple(e)
        p = os.path.join(wt, fn)
        s = open(p).read()
        assert s.count(old) == 1, (bug["id"], fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"]).decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(PRE + bug["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(wt)


def unit(wt):
    env = dict(os.environ, LANG="en_US.UTF-8", TZ="UTC", PYTHONHASHSEED="0", USE_PICKLES="0", PYTHONPATH=wt + ":/opt/vp/plugins")
    env.pop("LC_ALL", None)
    out = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--dist", "loadfile", "-W", "ignore", "--tb=short", "tests/unit"],
                         cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    m = re.findall(r"(\d+) failed, (\d+) passed", out)
    return m[-1] if m else out[-500:], out


def confirm(bid, units=True):
    d = os.path.join(V, "seeded", bid)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = copy("r-" + bid)
    res = [bid, pid]
    try:
        def demo():
            t = tempfile_dir(bid, d)
            r = subprocess.run([os.path.join(t, "demo.sh")], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            shutil.rmtree(t)
            return r.returncode, r.stdout.decode()[-300:]
        rc, out = demo()
        res.append("clean demo %d%s" % (rc, "" if rc == 0 else " !!! " + out))
        subprocess.check_call(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")])
        rc, out = demo()
        res.append("bug demo %d%s" % (rc, (" " + out.strip()[:150]) if rc else " !!!"))
        if units:
            u, out = unit(wt)
            res.append("units %s" % (u,))
            if u != ("5", "1048"):
                open("/tmp/plant-units-%s.txt" % bid, "w").write(out)
                res[-1] += " !!!"
        if os.path.exists(os.path.join(V, "mc/checks/%s.py" % pid.lower())):
            cp = "/tmp/plant-v-%s" % bid
            shutil.rmtree(cp, ignore_errors=True)
            shutil.copytree(V, cp, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
            os.makedirs(cp + "/evidence/replay")
            r = subprocess.run(["./check", pid], cwd=cp, env=dict(os.environ, VMC_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode()
            res.append("check rc=%d %s" % (r.returncode, " | ".join(x[:100] for x in out.splitlines()[:3]) if r.returncode else "MISSED"))
            shutil.rmtree(cp)
        else:
            res.append("no check")
    finally:
        shutil.rmtree(wt)
    return res


def tempfile_dir(bid, d):
    import tempfile
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(d, f), t)
    return t


if __name__ == "__main__":
    args = sys.argv[1:]
    units = "--no-units" not in args
    args = [a for a in args if a != "--no-units"]
    ids = args[1:]
    if args[0] != "--run":
        bugs = runpy.run_path(args[0])["BUGS"]
        bugs = [b for b in bugs if not ids or b["id"] in ids]
        for b in bugs:
            write(b)
        ids = [b["id"] for b in bugs]
    ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: confirm(i, units), ids):
            print("\n    ".join(str(x) for x in r), flush=True)
