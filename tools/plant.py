"""plant.py ID MUTANT: writes seeded/<ID>/ from the breakage MUTANT of mutants.py and demos/<ID>.py (docstring: first line
what it breaks, second line what it needs), and confirms it in a private copy: applies, builds, passes the tests, demo tells."""
import ast, json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
sid, mid = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
m = next(m for m in M if m[0] == mid)
BASE = "/tmp/plant"
W = BASE + "/repo"
os.makedirs(BASE, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "/repo/", W + "/"], check=True)
for i in range(2, len(m), 3):
    s = open(W + "/" + m[i]).read()
    assert m[i + 1] in s, m[i + 1]
    open(W + "/" + m[i], "w").write(s.replace(m[i + 1], m[i + 2], 1))
diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True, check=True).stdout
d = here + "/../seeded/" + sid
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
open(d + "/patch.diff", "w").write(diff)
if os.path.exists(here + "/demos/" + sid + ".js"):
    demo = open(here + "/demos/" + sid + ".js").read()
    doc = [x[3:] for x in demo.split("\n")[:2]]
    shutil.copy(here + "/demos/page_lib.js", d + "/page_lib.js")
    open(d + "/demo.js", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec node --experimental-vm-modules --no-warnings "$(dirname "$0")/demo.js"\n')
else:
    demo = open(here + "/demos/" + sid + ".py").read()
    doc = ast.get_docstring(ast.parse(demo)).split("\n")
    shutil.copy(here + "/demo_lib.py", d + "/host.py")
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": m[1], "needs": doc[1].strip(), "what_it_breaks": doc[0].strip()}, open(d + "/meta.json", "w"), indent=1)
# original lines?
blame_bad = []
for i in range(2, len(m), 3):
    old = subprocess.run(["git", "diff", "-U0", "--", m[i]], cwd=W, stdout=subprocess.PIPE, text=True).stdout
    for l in old.splitlines():
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                b = subprocess.run(["git", "blame", "-s", "-l", "-L", "%d,+%d" % (st, n), "HEAD", "--", m[i]], cwd=W, stdout=subprocess.PIPE, text=True).stdout
                own = [x for x in b.splitlines() if not x.lstrip("^").startswith("892505f")]
                blame_bad += own
def ns(cmd, copy):
    c = "python3 /tmp/campaign/lo.py; " + ("mount --bind %s /repo; " % W if copy else "") + "cd /repo && " + cmd
    return subprocess.run(["timeout", "600", "unshare", "-m", "-n", "sh", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
r0 = ns("bash %s/demo.sh" % d, False)
b = ns("bash /opt/vp/build.sh", True)
assert b.returncode == 0, b.stdout[-2000:]
r1 = ns("bash %s/demo.sh" % d, True)
ns("bash /opt/vp/test.sh /tmp/plant/t.json", True)
t = json.load(open("/tmp/plant/t.json"))
print(sid, "unchanged:", r0.returncode, r0.stdout[-300:].strip(), "| patched:", r1.returncode, r1.stdout[-300:].strip(), "| tests failed:", t.get("failed"), "| own lines:", blame_bad)
good = r0.returncode == 0 and r1.returncode != 0 and not t.get("failed")
print("KEEP" if good else "REJECT")
if not good:
    shutil.rmtree(d)
