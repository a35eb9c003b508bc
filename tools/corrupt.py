"""corrupt.py [-n COUNT] [-s SEED] [uci|scene|host]: how tightly the specification binds the code.  Takes traces of the unchanged tree, changes one thing
an observer sees in each (a byte, a message lost, doubled, sent to another host, two messages swapped, a time, an event) and validates
them: each must be rejected.  Prints the changes that were accepted, grouped by kind, message and offset."""
import argparse, collections, copy, json, os, random, sys
argv, sys.argv = sys.argv[1:], sys.argv[:1]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, directed, mc, special, tcp
from run import *
ap = argparse.ArgumentParser()
ap.add_argument("-n", type=int, default=2000); ap.add_argument("-s", default="1"); ap.add_argument("kind", nargs="?", default="uci")
A = ap.parse_args(argv)
wd = workdir("corrupt")
rng = random.Random("corrupt" + A.s)
def uci_traces():
    scripts = []
    for sc in mc.SCENARIOS:
        scripts += mc.tours(sc, wd, rng, 1500)[0]
    for p in sorted(directed.DIRECTED):
        scripts += directed.directed(p, random.Random("%s/%s" % (p, A.s)), False)
    for p in ("C01", "C10", "C12", "C13", "C17"):
        scripts += [dict(s, id=s["id"] + p) for s in check.random_scripts(p, rng, 12, 100)]
    return drive(build_driver(), [{k: v for k, v in s.items() if k != "tag"} for s in scripts], wd)


def scene_traces():
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts = special.scene_tours(wd, rng, 2500)[0] + special.scene_scripts((25, 20, 14, 10, 0), rng, False)
    scripts += [tcp.walk(sub(), "tcp-%d" % i, 50, ["pica", "pica-http"][i % 2], i % 3 == 0) for i in range(9)]
    scripts += [tcp.plain_ranging(sub(), "tcpr-%d" % i) for i in range(3)]
    return special.scene_drive(build_bins(), scripts, wd)


def host_traces():
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts = special.host_tours(wd, rng, 3000, 2, 1)[0] + [special.host.Walk(sub(), "walk-%d" % i).run(60) for i in range(80)]
    for i in range(5):
        scripts += special.host.ends(sub(), "end-%d" % i)
    return special.host_drive(scripts, wd)


MODULE = {"uci": "PicaTrace", "scene": "SceneTrace", "host": "HostTrace"}[A.kind]
traces = [t for t in {"uci": uci_traces, "scene": scene_traces, "host": host_traces}[A.kind]() if not t.get("dead")]
base, _, _ = validate(traces, wd, module=MODULE)
assert not base, base[:1]
SEEN = {"uci": (), "scene": ("o", "e", "r", "f", "h", "v"), "host": ("o", "r", "e", "x")}[A.kind]


def leaf(t):
    """One change somewhere in what was seen in a step."""
    t = dict(t, steps=list(t["steps"]))
    i = rng.randrange(len(t["steps"]))
    s = t["steps"][i] = copy.deepcopy(t["steps"][i])
    t["steps"] = t["steps"][:i + 3]
    top = [k for k in s if (k in SEEN if A.kind == "scene" else k not in ("a", "ms", "u")) and s[k] not in ([], {}, "")]
    if not top:
        return None
    at, key, path = s, rng.choice(top), ""
    while True:
        path += "." + (key if isinstance(key, str) else "N")
        x = at[key]
        if isinstance(x, (list, dict)) and x and (not isinstance(x, list) or rng.random() < 0.9):
            at, key = x, rng.choice(list(x) if isinstance(x, dict) else range(len(x)))
            continue
        break
    if isinstance(x, bool):
        at[key] = not x
    elif isinstance(x, int):
        at[key] = x ^ 1
    elif isinstance(x, str):
        at[key] = x + "~" if not x or rng.random() < 0.3 else x[:-1] + chr(ord(x[-1]) ^ 1)
    elif isinstance(x, list) and x and all(type(y) is type(x[0]) for y in x) and (isinstance(x[0], dict) or len(x) > 4 or key == "o"):
        j = rng.randrange(len(x))
        if rng.random() < 0.5:
            del x[j]; path += " del"
        else:
            x.insert(j, copy.deepcopy(x[j])); path += " dup"
    else:
        return None
    return t, i, "%s %s %s" % (path, at.get("n", "") if isinstance(at, dict) else "", str(x)[:60])


KINDS = ["byte", "byte", "byte", "drop", "dup", "swap", "other", "time", "edrop", "edup", "ebyte"]


def corrupt(t, kind):
    """A copy of t with one change, and what was changed; None if there is nothing of the kind."""
    t = dict(t, steps=list(t["steps"]))
    steps = [i for i, s in enumerate(t["steps"]) if (s["e"] if kind[0] == "e" else s["o"])]
    if not steps:
        return None
    i = rng.choice(steps)
    s = t["steps"][i] = copy.deepcopy(t["steps"][i])
    t["steps"] = t["steps"][:i + 3]
    if kind[0] == "e":
        j = rng.randrange(len(s["e"]))
        what = "event %s" % s["e"][j][0]
        if kind == "edrop":
            del s["e"][j]
        elif kind == "edup":
            s["e"].insert(j, copy.deepcopy(s["e"][j]))
        else:
            k = rng.randrange(1, len(s["e"][j]))
            v = s["e"][j][k]
            if isinstance(v, list):
                if not v:
                    return None
                m = rng.randrange(len(v)); v[m] = v[m] ^ 1 if isinstance(v[m], int) else v[m]
            elif isinstance(v, int):
                s["e"][j][k] = v + 1
            what += " field %d" % k
        return t, i, what
    j = rng.randrange(len(s["o"]))
    h, m = s["o"][j]
    what = "%02x%02x" % tuple(m[:2])
    if kind == "byte":
        k = rng.randrange(len(m))
        m[k] ^= 1 << rng.randrange(8)
        what += " byte %d of %d" % (k, len(m))
    elif kind == "drop":
        del s["o"][j], s["t"][j]
    elif kind == "dup":
        s["o"].insert(j, copy.deepcopy(s["o"][j])); s["t"].insert(j, s["t"][j])
    elif kind == "swap":
        later = [x for x in range(j + 1, len(s["o"])) if s["o"][x][0] == h]
        if not later or s["o"][later[0]][1] == m:
            return None
        x = later[0]
        what += " with %02x%02x" % tuple(s["o"][x][1][:2])
        s["o"][j], s["o"][x] = s["o"][x], s["o"][j]
    elif kind == "other":
        s["o"][j][0] = h + 1
    elif kind == "time":
        s["t"][j] += rng.choice([-1, 1, 3])
        if s["t"][j] < 0:
            return None
    return t, i, what


out, info, n = [], {}, 0
while len(out) < A.n:
    k = rng.choice(KINDS)
    if A.kind != "uci":
        k = "leaf"
    r = corrupt(rng.choice(traces), k) if A.kind == "uci" else leaf(rng.choice(traces))
    if r:
        t, i, what = r
        t["id"] = "k%d/%s" % (len(out), t["id"])
        info[t["id"]] = (k, i, what)
        out.append(t)
acc, rej, total = collections.Counter(), 0, collections.Counter()
ex = {}
for c in range(0, len(out), 1000):
    bad, ok, _ = validate(out[c:c + 1000], wd, module=MODULE, timeout=1800)
    hit = {b["id"] for b in bad}
    for t in out[c:c + 1000]:
        k, i, what = info[t["id"]]
        total[k] += 1
        if t["id"] not in hit:
            acc[(k, what)] += 1
            ex.setdefault((k, what), "%s step %d" % (t["id"], i + 1))
print("total", dict(total), "accepted", sum(acc.values()))
for key, v in sorted(acc.items(), key=lambda x: -x[1]):
    print(v, *key, ex[key])
shutil.rmtree(wd, ignore_errors=True)
