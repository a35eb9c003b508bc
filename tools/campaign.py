"""campaign.py [-j N] [ID...]: runs each breakage of mutants.py in private copies of /repo and /verif (mount namespaces):
builds, runs the repository's tests, runs the check of its property; prints a line per breakage."""
import os, shutil, subprocess, sys, json, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
BASE = "/tmp/campaign"
SKIPTEST = "--notest" in sys.argv
args = [a for a in sys.argv[1:] if a != "--notest"]
J = 2
if args[:1] == ["-j"]:
    J = int(args[1]); args = args[2:]
os.makedirs(BASE, exist_ok=True)
open(BASE + "/lo.py", "w").write("""import fcntl, socket, struct
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
fcntl.ioctl(s, 0x8914, struct.pack("16sh", b"lo", 0x41))
""")
ids = [m for m in M if not args or m[0] in args or m[1] in args]


def lane(n):
    d = "%s/%d" % (BASE, n)
    os.makedirs(d, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/verif", "verif")):
        subprocess.run(["rsync", "-a", "--delete", "--exclude=/work", "--exclude=/replay"] + (["--exclude=/target"] if name == "repo" else []) + [src + "/", d + "/" + name + "/"], check=True) if shutil.which("rsync") else \
            (shutil.rmtree(d + "/" + name, ignore_errors=True), subprocess.run(["cp", "-a", src, d + "/" + name], check=True))
    return d


def ns(d, cmd, timeout=900):
    return subprocess.run(["timeout", str(timeout), "unshare", "-m", "-n", "sh", "-c",
                           "python3 %s/lo.py; mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s" % (BASE, d, d, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run(d, m):
    mid, prop, edits = m[0], m[1], m[2:]
    for i in range(0, len(edits), 3):
        p = d + "/repo/" + edits[i]
        s = open(p).read()
        if s.count(edits[i + 1]) < 1:
            return "%s %s: TEXT NOT FOUND %r" % (mid, prop, edits[i + 1][:60])
        open(p, "w").write(s.replace(edits[i + 1], edits[i + 2], 1))
    try:
        t = "not run"
        if not SKIPTEST:
            b = ns(d, "bash /opt/vp/build.sh")
            if b.returncode:
                return "%s %s: BUILD FAILED\n%s" % (mid, prop, b.stdout[-1500:])
            ns(d, "bash /opt/vp/test.sh %s/test.json" % d)
            t = open(d + "/test.json").read()
            base = json.load(open("/opt/vp/BASELINE.json"))
            t = "survives" if all(x in t for x in ()) else t
            t = "tests:" + str(len(t))
            try:
                j = json.load(open(d + "/test.json"))
                t = "tests failed: %s" % j.get("failed") if j.get("failed") else "tests pass"
            except Exception as e:
                t = "tests? %s" % e
        c = ns(d, "VERIF_SEED=1 VERIF_TIER=quick python3 lib/check.py " + prop)
        rej = [l for l in c.stdout.splitlines() if "rejected:" in l or "VIOLATION" in l or "ERROR" in l or "TESTERROR" in l]
        return "%s %s: exit %d (%s)%s" % (mid, prop, c.returncode, t, "" if c.returncode == 1 else "\n" + c.stdout[-1200:]) + \
            ("\n    " + "\n    ".join(x[:230] for x in rej[-3:]) if c.returncode == 1 else "")
    finally:
        subprocess.run("git checkout -q -- .", shell=True, cwd=d + "/repo")


os.makedirs(BASE, exist_ok=True)
open(BASE + "/lo.py", "w").write("import fcntl,socket,struct\ns=socket.socket()\nfcntl.ioctl(s,0x8914,struct.pack('16sh14x',b'lo',0x41))\n")
lanes = [lane(i) for i in range(J)]
free = list(lanes)
def job(m):
    d = free.pop()
    try:
        return run(d, m)
    except Exception as e:
        return "%s: %r" % (m[0], e)
    finally:
        free.append(d)
with cf.ThreadPoolExecutor(J) as ex:
    for r in ex.map(job, ids):
        print(r, flush=True)
