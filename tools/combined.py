"""combined.py [uci] [scene] [host] [page]: one run over scripts of every kind; prints the properties that are broken, as one JSON line."""
import collections, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import blame, check, directed, mc, page, scene, special, tcp
from run import *
what = sys.argv[1:] or ["uci", "scene", "host", "page"]
found, first = collections.Counter(), {}
wd = workdir("combined")


def note(ps, b):
    for p in ps or {"none"}:
        found[p] += 1
        first.setdefault(p, "%s@%s %s" % (b["id"], b["step"], json.dumps(b.get("diffs", b))[:200]))


def uci():
    rng = random.Random("combined")
    scripts = []
    for sc in mc.SCENARIOS:
        scripts += mc.tours(sc, wd, rng, 2500)[0]
    for p in sorted(directed.DIRECTED):
        scripts += directed.directed(p, random.Random("%s/1" % p), False)
    for p in ("C01", "C10", "C12", "C13", "C17"):
        for s in check.random_scripts(p, rng, 20, 120):
            scripts.append(dict(s, id=s["id"] + p))
    tags = {s["id"]: s.get("tag") for s in scripts}
    traces = drive(build_driver(), [{k: v for k, v in s.items() if k != "tag"} for s in scripts], wd)
    for b in validate(traces, wd, heap="8g")[0]:
        note(blame.violated(b, tags[b["id"]]), b)


def scenes():
    rng = random.Random("combined")
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts = special.scene_tours(wd, rng, 2500)[0] + special.scene_scripts((25, 20, 14, 10, 0), rng, False)
    scripts += [tcp.walk(sub(), "tcp-%d" % i, 50, ["pica", "pica-http"][i % 2], i % 3 == 0) for i in range(9)]
    scripts += [tcp.plain_ranging(sub(), "tcpr-%d" % i) for i in range(3)]
    traces = special.scene_drive(build_bins(), scripts, wd)
    for b in validate(traces, wd, module="SceneTrace", heap="8g", name="scene")[0]:
        note(special.scene_blame(b), b)


def host():
    rng = random.Random("combined")
    scripts = special.host_tours(wd, rng, 3000, 2, 1)[0]
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts += [special.host.Walk(sub(), "walk-%d" % i).run(60) for i in range(120)]
    for i in range(5):
        scripts += special.host.ends(sub(), "end-%d" % i)
    scripts += [special.host.flood(sub(), "flood-%d" % i) for i in range(4)]
    for b in validate(special.host_drive(scripts, wd), wd, module="HostTrace", heap="8g", name="host")[0]:
        note({"C23"}, b)


def pages():
    rng = random.Random("combined")
    scripts = page.tours(wd, rng, 2000)[0] + [page.Walk(random.Random(rng.randrange(1 << 40)), "walk-%d" % i, i % 2 == 0).run(120) for i in range(60)] + page.races(rng, 80)
    for b in page.run_page(scripts, wd, build_bins())[0]:
        note({"C25"}, b)


for k, f in (("uci", uci), ("scene", scenes), ("host", host), ("page", pages)):
    if k in what:
        try:
            f()
        except ToolError as e:
            found["TOOL"] += 1
            first["TOOL"] = str(e)[:300]
shutil.rmtree(wd, ignore_errors=True)
print("@" + json.dumps({"found": found, "first": first}))
