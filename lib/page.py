"""C25: the web page, as the real server serves it, in a context with what it needs of a browser (lib/page/)."""
import json, os, random, shutil, subprocess, time
import mc
from run import *

INSTANCES = {"two": ('{"A", "B"}', "{0}", 2, 2), "queue": ('{"A"}', "{0, 1}", 3, 2), "places": ('{"A", "B"}', "{0, 1}", 2, 2)}
INV = ["Unique", "ShowsScene", "Follows", "SelectionShown"]
DRIVE = os.path.join(VERIF, "lib", "page", "drive.js")
MACS = ["12:34", "AB:CD", "00:FF", "01:02:03:04:05:06:07:08", "00:00", "00:01"]


def config(wd, name, const, emit):
    cfg = os.path.join(wd, "PageMC-%s.cfg" % name)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nACTION_CONSTRAINT Edges\nCONSTANTS\n  Emitting = %s\n" % ("TRUE" if emit else "FALSE"))
        f.write("  Macs = %s\n  Places = %s\n  MaxQueue = %d\n  MaxAsks = %d\n" % const)
        f.write("" if emit else "".join("INVARIANT %s\n" % i for i in INV))
    return cfg


def model(wd, name):
    rc, out, g, d = tlc("PageMC", wd, cfg=config(wd, name, INSTANCES[name], False), timeout=2400, heap="8g")
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("model checking of PageMC failed\n" + out[-4000:])
    return {"states_generated": g, "distinct_states": d, "constants": INSTANCES[name], "invariants": INV}


def place(r):
    """A position the page can show: its map ends at 600, its sliders at 180 and 90 degrees."""
    k = r.randrange(6)
    c = (lambda: 0) if k == 0 else (lambda: r.choice([-1, 1, 10, -560, 560])) if k == 1 else (lambda: r.randint(-550, 550))
    y = r.choice([0, 0, 0, r.randint(0, 300), r.randint(-100, 300)])
    return {"x": c(), "y": y, "z": c(), "yaw": r.choice([0, r.randint(-180, 180)]), "pitch": r.choice([0, r.randint(-90, 90)]), "roll": r.choice([0, r.randint(-180, 180)])}


class Walker:
    """Executes edge labels of PageMC."""
    def __init__(self, name, r):
        self.name, self.r, self.steps = name, r, []
        ms = r.sample(MACS[:4], 2)
        self.mac = {"A": ms[0], "B": ms[1]}
        self.at = [place(r), place(r)]

    def act(self, a):
        r, k = self.r, a["k"]
        if k == "srv":
            op = {"device-added": "add", "device-removed": "del", "device-updated": "set"}[a["n"]]
            self.steps.append({"k": "srv", "op": op, "mac": self.mac[a["mac"]], "pos": None if op == "del" else self.at[a["p"]]})
        elif k == "deliver":
            self.steps.append({"k": k, "group": True})
        elif k in ("serve", "reply", "fail"):
            self.steps.append({"k": k, "i": a["i"]})
        else:
            self.steps.append({"k": k})

    def script(self):
        return {"id": self.name, "steps": self.steps + calm()}


def calm():
    """Everything that was sent arrives, and the user looks at what there is."""
    return [{"k": "load"}, {"k": "connect"}] + [{"k": "deliver"}, {"k": "serve", "i": 0}, {"k": "reply", "i": 0}] * 3 + [{"k": "deliver", "all": True}]


def tours(wd, rng, budget):
    rc, out, g, d = tlc("PageMC", wd, cfg=config(wd, "tour", ('{"A", "B"}', "{0}", 1, 1), True), workers=1, timeout=600)
    edges = {}
    for e in printed(out, "EDGE"):
        edges.setdefault(e["s"], []).append((e["a"], e["d"]))
    n = sum(len(x) for x in edges.values())
    return mc.cover(printed(out, "SETUP")[0], edges, n, lambda i: Walker("tour-%d" % i, rng), lambda w: w.script(), "page", rng, budget, 150)


def races(rng, n):
    """Two requests for the state under way: of one stream and the next, or of the load and a stream.  Whichever is served
    or answered first, with changes before, between and after."""
    res = []
    for i in range(n):
        w = Walk(rng, "race-%d" % i, False)
        change = lambda: [w.server() for _ in range(rng.randint(0, 2))]
        get = lambda: [{"k": "deliver", "group": True} for _ in range(rng.choice([0, 0, 1, 2]))]
        st = [w.server() for _ in range(rng.randint(1, 4))]
        if rng.random() < .5:
            st += [{"k": "load"}]
        st += change() + [{"k": "connect"}, {"k": "deliver"}]
        if rng.random() < .7:
            st += change() + [{"k": "serve", "i": 0}] * rng.randint(0, 1) + change() + get()
            st += [{"k": rng.choice(["break", "break", "break", "restart"])}] + change() + [{"k": "connect"}, {"k": "deliver"}] + change() + get()
        rest = [{"k": "serve", "i": rng.randrange(2)}, {"k": "serve", "i": 0}, {"k": "reply", "i": rng.randrange(2)}, {"k": "reply", "i": 0}]
        if rng.random() < .3:
            rest[1], rest[2] = rest[2], rest[1]
        for x in rest:
            st += change() + get() + [x]
        st += calm()
        for j in range(4):
            st += [{"k": "press", "i": j}, {"k": "release"}]
        res.append({"id": w.name, "steps": st})
    return res


class Walk:
    def __init__(self, r, name, quiet):
        self.r, self.name, self.quiet = r, name, quiet
        self.steps = []

    def server(self):
        r, k = self.r, self.r.randrange(20)
        m = r.choice(MACS)
        if k < 6:
            return {"k": "srv", "op": "add", "mac": m, "pos": r.choice([None, place(r)])}
        if k < 9:
            return {"k": "srv", "op": "del", "mac": m}
        if k < 11:
            return {"k": "srv", "op": "join"}
        if k < 12:
            return {"k": "srv", "op": "leave"}
        return {"k": "srv", "op": "set", "i": r.randrange(8), "pos": place(r)}

    def user(self):
        r, k = self.r, self.r.randrange(20)
        press = {"k": "press", "i": r.randrange(8)}
        move = lambda: {"k": "move", "x": r.choice([r.randint(-500, 500), r.randint(-900, 900)]), "y": r.randint(-500, 500), "dy": r.choice([0, r.randint(-20, 20)])}
        if k < 7:
            return [press, {"k": "release"}]
        if k < 9:
            return [{"k": "empty"}]
        if k < 11:
            return [press] + [move() for _ in range(r.randint(1, 3))] + [{"k": "release", "out": r.random() < .3}]
        if k < 12:
            return [press] + [x for _ in range(3) for x in ([move()] + self.network())] + [{"k": "release"}]
        if k < 14:
            return [{"k": "grip"}] + [dict(move(), dy=r.choice([-30, -5, -1, 1, 10, 100])) for _ in range(r.randint(1, 3))] + [{"k": "release", "out": r.random() < .3}]
        if k < 15:
            return [move()]
        w = r.choice(["yaw", "pitch", "roll"])
        v = lambda: r.randint(-90, 90) if w == "pitch" else r.randint(-180, 180)
        res = [{"k": "slide", "which": w, "v": v()} for _ in range(r.randint(1, 2))]
        if r.random() < .2:
            res += self.network()
        return res + [{"k": "change", "which": w}]

    def network(self):
        r, k = self.r, self.r.randrange(20)
        if k < 7:
            return [{"k": "deliver"}] * r.randint(1, 4)
        if k < 11:
            return [{"k": "deliver", "all": True}]
        if k < 14:
            return [{"k": "serve", "i": r.randrange(3)}]
        if k < 17:
            return [{"k": "reply", "i": r.randrange(3)}]
        if k < 19 or self.quiet:
            return [{"k": "connect"}]
        return [{"k": r.choice(["break", "break", "fail", "restart"]), "i": r.randrange(3)}]

    def run(self, n):
        r = self.r
        early = r.random() < .5
        self.steps = [{"k": "load"}] if early else []
        for _ in range(r.randrange(5)):
            self.steps.append(self.server())
        if self.quiet:
            self.steps += calm()
        while len(self.steps) < n:
            k = r.random()
            if k < .25:
                self.steps.append(self.server())
            elif k < .45:
                self.steps += self.network()
            elif k < (.6 if self.quiet else .5):
                self.steps += calm()
            else:
                self.steps += self.user()
            if r.random() < .03:
                self.steps.append({"k": "load"})
        self.steps += [{"k": "release"}] + calm()
        for i in range(6):
            self.steps += [{"k": "press", "i": i}, {"k": "release"}] + [{"k": "deliver", "all": True}]
        return {"id": self.name, "steps": self.steps}


def page_drive(bins, scripts, wd, jobs=CPUS):
    """The traces of the scripts, in order."""
    procs = []
    for i in range(jobs):
        part = scripts[i::jobs]
        if part:
            src, dst = os.path.join(wd, "page.%d.json" % i), os.path.join(wd, "page.%d.ndjson" % i)
            with open(src, "w") as f:
                json.dump(part, f)
            procs.append((part, dst, subprocess.Popen(["node", "--experimental-vm-modules", "--no-warnings", DRIVE, os.path.join(bins, "pica-http"), src, dst], cwd=wd,
                                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)))
    by = {}
    for part, dst, p in procs:
        try:
            out, _ = p.communicate(timeout=700)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise ToolError("the page does not come to an end")
        if p.returncode:
            raise ToolError("the page's driver failed:\n" + out[-3000:])
        for line in open(dst):
            t = json.loads(line)
            by[t["id"]] = t
    return [by[s["id"]] for s in scripts]


def run_page(scripts, wd, bins, timeout=600):
    traces = page_drive(bins, scripts, wd)
    # What the driver waited for in vain is tried again, alone: a loaded machine is not a defect.
    again = [i for i, t in enumerate(traces) if any(e.startswith("harness:") for s in t["steps"] for e in s["errs"])][:6]
    for i in again:
        log("  %s: %s; again" % (traces[i]["id"], traces[i]["steps"][-1]["errs"][:1]))
        traces[i] = page_drive(bins, [scripts[i]], wd, 1)[0]
    bad, ok, g = validate(traces, wd, module="PageTrace", timeout=timeout, name="page", heap="8g")
    for b in bad[:20]:
        log("  rejected: %s step %d %s: %s %s" % (b["id"], b["step"], b["what"], json.dumps(b["act"])[:150], json.dumps(b["errs"] or b["obs"])[:300]))
    return bad, ok, g, traces


def check_page(prop):
    import check
    t0 = time.time()
    big = check.tier() == "thorough"
    wd = workdir(prop)
    rng = random.Random("%s/%d" % (prop, check.seed()))
    bins = build_bins()
    per = {n: model(wd, n) for n in (INSTANCES if big else ["two", "queue"])}
    log("model checking: %s, %.0fs" % (", ".join("%s %d states" % (m, x["distinct_states"]) for m, x in per.items()), time.time() - t0))
    scripts, tour = tours(wd, rng, 40000 if big else 4000)
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts += [Walk(sub(), "walk-%d" % i, i % 2 == 0).run(120) for i in range(900 if big else 90)]
    scripts += races(sub(), 1200 if big else 120)
    bad, ok, g, traces = run_page(scripts, wd, bins, 3000 if big else 600)
    log("%d scripts run on the page: %d accepted, %.0fs" % (len(traces), ok, time.time() - t0))
    acts = {}
    for t in traces:
        for s in t["steps"]:
            acts[s["a"]["k"]] = acts.get(s["a"]["k"], 0) + 1
    check.write_evidence(prop, {
        "states": sum(x["distinct_states"] for x in per.values()) + g, "transitions": sum(x["states_generated"] for x in per.values()),
        "traces_validated_against_impl": ok, "model_checking": per, "tours": [tour], "trace_validation_states": g, "observed": acts,
        "exhaustive": False, "samples": [{"script": s["id"], "first_steps": s["steps"][:6]} for s in (scripts[0], scripts[-1])]},
        t0, len(bad), assumptions=["a stand-in for the browser and for lit: templates become trees of elements; no layout, no CSS"])
    replay = None
    if bad:
        b = min(bad, key=lambda x: x["step"])
        s = next(s for s in scripts if s["id"] == b["id"])
        replay = check.write_replay(prop, "page", {"kind": "page", "property": prop, "report": b, "script": s})
    shutil.rmtree(wd, ignore_errors=True)
    return replay


def replay_page(r):
    wd = workdir("replay")
    bad = run_page([r["script"]], wd, build_bins())[0]
    shutil.rmtree(wd, ignore_errors=True)
    return bad
