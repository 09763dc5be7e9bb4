"""tools/fixed.py <property> [n]: record the last n commits of /repo as fixed."""
import subprocess
import sys

pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "-%d" % n], capture_output=True, text=True).stdout
with open("/verif/known_findings.txt", "a") as f:
    for line in out.splitlines():
        h, m = line.split(" fix: ")
        f.write("fixed: property=%s %s %s\n" % (pid, h, m))
