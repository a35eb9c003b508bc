"""seedrun.py [-j N] [ID...]: runs the check of its property against each breakage in seeded/, in private copies; a line per breakage."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
src = open(here + "/campaign.py").read().replace('BASE = "/tmp/campaign"', 'BASE = "/tmp/seedrun"')
a, b = src.index("ids = [m for m"), src.index("\n\ndef lane")
src = src[:a] + "SEEDS = sorted(os.listdir(here + '/../seeded'))\nids = [s for s in SEEDS if not args or s in args]" + src[b:]
a, b = src.index("def run(d, m):"), src.index("\n\nos.makedirs(BASE")
src = src[:a] + '''def run(d, m):
    s = here + "/../seeded/" + m
    prop = json.load(open(s + "/meta.json"))["property"]
    r = subprocess.run(["git", "apply", os.path.abspath(s) + "/patch.diff"], cwd=d + "/repo")
    if r.returncode:
        return m + ": DOES NOT APPLY"
    try:
        c = ns(d, "VERIF_SEED=1 VERIF_TIER=quick python3 lib/check.py " + prop)
        hit = c.returncode == 1 and "VIOLATION property=%s " % prop in c.stdout
        return "%s: %s by %s" % (m, "caught" if hit else "MISSED", prop)
    finally:
        subprocess.run("git checkout -q -- .", shell=True, cwd=d + "/repo")
''' + src[b:]
src = src.replace('return "%s: %r" % (m[0], e)', 'return "%s: %r" % (m, e)')
exec(compile(src, "seedrun", "exec"))
