"""Checks of the parts that are not reached through the UCI driver: the HTTP interface of the real servers and the
Python host library."""
import json, os, random, shutil, subprocess, sys, time
import host, mc, page, scene, tcp
from run import *
from scene_drive import scene_drive

# property -> (instances: (module, constants, invariants, action properties))
SCENE_MC = ("SceneMC", {"Emitting": "FALSE", "MaxHandle": 4, "MaxThings": 3}, ["OneEach", "Placed"], ["Replay", "OneEvent", "Responses", "OnlyNamed"],
            "VIEW View\nCONSTRAINT Small\nACTION_CONSTRAINT Edges\n")
GEO_MC = ("GeometryMC", {"Big": "FALSE"}, ["Narrow", "Distance", "Turned", "FullTurn", "Distinct"], [], "")
MODELS = {"C19": [SCENE_MC], "C20": [SCENE_MC], "C21": [GEO_MC]}
# property -> number of (walks, geometry, ranging, races) scripts, steps of the transition tours
MIX = {"C19": (44, 4, 4, 12, 5000), "C20": (40, 6, 6, 16, 3000), "C21": (8, 32, 20, 2, 0)}


def model(m, wd, big):
    module, const, invs, props, rest = m
    const = dict(const)
    if big:
        const.update({"Big": "TRUE"} if module == "GeometryMC" else {"MaxHandle": 5, "MaxThings": 4})
    cfg = os.path.join(wd, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + rest + "CONSTANTS\n" + "".join("  %s = %s\n" % x for x in const.items()))
        f.write("".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % p for p in props))
    rc, out, g, d = tlc(module, wd, cfg=cfg, timeout=2400)
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("model checking of %s failed\n%s" % (module, out[-4000:]))
    return {"states_generated": g, "distinct_states": d, "constants": const, "invariants": invs, "action_properties": props}


class SceneWalker:
    """Executes edge labels of SceneMC on the real server."""
    def __init__(self, name, rng):
        self.name, self.r = name, rng
        self.conn, self.n = {}, 0
        self.steps = [scene.one({"k": "sub", "c": 0}, sync=False)]

    def act(self, a):
        if a["k"] == "conn":
            self.conn[a["h"]] = self.n
            self.n += 1
            self.steps.append(scene.one({"k": "conn"}))
        elif a["k"] == "leave":
            self.steps.append(scene.one({"k": "eof", "c": self.conn.pop(a["h"]), "n": self.r.randrange(2)}))
        else:
            b = dict(a["body"])
            if b["kind"] == "bad":
                b["text"] = self.r.choice(scene.BAD_BODIES)
            elif b["kind"] == "pos":
                b["style"] = self.r.randrange(3)
            self.steps.append(scene.one(scene.http(a["op"], "".join(chr(x) for x in a["addr"]), b, form=a["form"]), sync=False))

    def script(self):
        self.steps.append(scene.one(scene.state()))
        return {"id": self.name, "bin": "pica-http", "steps": self.steps}


def scene_tours(wd, rng, budget):
    module, const, _, _, rest = SCENE_MC
    cfg = os.path.join(wd, "SceneTour.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + rest + "CONSTANTS\n  Emitting = TRUE\n  MaxHandle = 3\n  MaxThings = 3\n")
    rc, out, g, d = tlc(module, wd, cfg=cfg, workers=1, timeout=600)
    edges = {}
    for e in printed(out, "EDGE"):
        edges.setdefault(e["s"], []).append((e["a"], e["d"]))
    setup = printed(out, "SETUP")[0]
    n = sum(len(x) for x in edges.values())
    return mc.cover(setup, edges, n, lambda i: SceneWalker("tour-%d" % i, rng), lambda w: w.script(), "scene-http", rng, budget, 200)


def scene_scripts(mix, rng, big):
    """[(script, family)]"""
    k = 6 if big else 1
    walks, geos, rangings, races, _ = mix
    sub = lambda: random.Random(rng.randrange(1 << 40))
    out = [scene.Walk(sub(), "walk-%d" % i, subs=i % 3 > 0).run(100) for i in range(walks * k)]
    out += [scene.geometry(sub(), "geo-%d" % i, 60) for i in range(geos * k)]
    out += [scene.crowd(sub(), "crowd-%d" % i, 30) for i in range(3 * k)]
    out += [scene.ranging(sub(), "rng-%d" % i) for i in range(rangings * k)]
    out += [scene.races(sub(), "race-%d" % i, 30) for i in range(races * k)]
    return out


def family(ident):
    return ident.split("-")[0]


def scene_blame(rep):
    """Properties broken by a rejected trace of a real server."""
    fam, p = family(rep["id"]), set()
    for d in rep["diffs"]:
        cls, kind = d["cls"], d["kind"]
        if cls == "dead":
            p |= {"C01", "C19", "C20"} | ({"C17"} if set(rep["whys"]) & {"eof", "conn"} else set())
        elif cls == "late":
            p |= {"scene": {"C19"}, "status": {"C19"}, "subscribe": {"C20"}, "close": {"C17"}, "ranging": {"C10"}, "answer": {"C02"},
                  "events": {"C20"}, "connect": {"C01"}}.get(kind, set())
        elif cls == "http":
            p |= {"C19"}
        elif cls == "sse":
            p |= {"C20"} | ({"C21"} if kind == "values" else set())
        elif cls == "sin":
            # A round whose values are wrong is one too many, as no moment explains it.
            p |= {"C10"} if kind in ("missing", "seq", "header") else {"C10", "C11", "C21"} if kind == "extra" else {"C11", "C21"}
        else:
            import blame
            p |= blame.blame(d, rep)
        # Positions for which there is no answer at all.
        if fam in ("geo", "rng", "crowd") and (cls in ("dead", "late") or cls == "http" and kind == "status" and d["obs"] == [0]):
            p |= {"C21"}
        # What is wrong after inputs that raced may show in the responses or in the events.
        if cls in ("http", "sse") and fam == "race":
            p |= {"C19", "C20"}
    return p


def run_scene(prop, scripts, wd, bins, timeout=600):
    """Runs the scripts and judges the traces; (hits, accepted, states, traces).  A script during which something that
    was waited for did not come is run again, alone: a loaded machine is not a defect."""
    traces = scene_drive(bins, scripts, wd)
    for i, t in enumerate(traces):
        if t["steps"] and t["steps"][-1]["late"]:
            log("  %s: waited in vain (%s); again" % (t["id"], t["steps"][-1]["late"]))
            if sum(1 for x in traces[:i] if x.get("again")) < 4:
                traces[i] = dict(scene_drive(bins, [scripts[i]], wd)[0], again=True)
    bad, ok, g = validate([{k: v for k, v in t.items() if k != "again"} for t in traces], wd, module="SceneTrace", timeout=timeout, heap="14g", name="scene")
    hits = []
    for b in bad:
        v = scene_blame(b)
        if prop in v:
            hits.append(b)
        log("  rejected: %s step %d breaks %s: %s" % (b["id"], b["step"], ",".join(sorted(v)), json.dumps(b["diffs"][0])[:300]))
    return hits, ok, g, traces


def save(prop, scripts, hits):
    import check
    b = min(hits, key=lambda x: x["step"])
    s = next(s for s in scripts if s["id"] == b["id"])
    return check.write_replay(prop, "scene", {"kind": "scene", "property": prop, "report": b, "script": dict(s, steps=s["steps"][:b["step"]])})


def check_scene(prop):
    import check
    t0 = time.time()
    big = check.tier() == "thorough"
    wd = workdir(prop)
    rng = random.Random("%s/%d" % (prop, check.seed()))
    bins = build_bins()
    per = {m[0]: model(m, wd, big) for m in MODELS[prop]}
    log("model checking: %s, %.0fs" % (", ".join("%s %d states" % (m, x["distinct_states"]) for m, x in per.items()), time.time() - t0))
    scripts, info = [], []
    if MIX[prop][4]:
        ss, i = scene_tours(wd, rng, 30000 if big else MIX[prop][4])
        scripts += ss
        info.append(i)
    scripts += scene_scripts(MIX[prop], rng, big)
    hits, ok, g, traces = run_scene(prop, scripts, wd, bins, 3000 if big else 600)
    log("%d scripts run on the real server: %d accepted, %.0fs" % (len(traces), ok, time.time() - t0))
    count = {"requests": 0, "events": 0, "uci_packets": 0, "steps": 0, "measured_values": 0}
    for t in traces:
        for s in t["steps"]:
            count["steps"] += 1
            count["requests"] += len(s["h"])
            count["uci_packets"] += len(s["o"])
            for x in s["v"]:
                count["events"] += len(x[1])
            count["measured_values"] += sum(1 for e in (s["v"][0][1] if s["v"] else []) if e["n"] == "neighbor-updated")
    fams = {}
    for s in scripts:
        fams[family(s["id"])] = fams.get(family(s["id"]), 0) + 1
    check.write_evidence(prop, {
        "states": sum(x["distinct_states"] for x in per.values()) + g, "transitions": sum(x["states_generated"] for x in per.values()),
        "traces_validated_against_impl": ok, "model_checking": per, "tours": info, "scripts": fams, "trace_validation_states": g, "observed": count,
        "exhaustive": False, "samples": [{"script": s["id"], "first_steps": s["steps"][:6]} for s in (scripts[0], scripts[-1])]},
        t0, len(hits), assumptions=["real threads and time: the schedules are those that occurred"])
    replay = save(prop, scripts, hits) if hits else None
    shutil.rmtree(wd, ignore_errors=True)
    return replay


def replay_scene(r):
    wd = workdir("replay")
    bad, ok, _ = validate(scene_drive(build_bins(), [r["script"]], wd), wd, module="SceneTrace")
    shutil.rmtree(wd, ignore_errors=True)
    return bad


# -- C23: the Python host library --
HOST_INV = ["Intact", "Prompt", "Waiting", "Verdicts"]
HOST_PROPS = ["Judged", "TheEnd"]


def host_model(wd, sent, wishes):
    cfg = os.path.join(wd, "HostMC.cfg")
    const = {"Emitting": "FALSE", "MaxSent": sent, "MaxExpect": wishes}
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in const.items()))
        f.write("".join("INVARIANT %s\n" % i for i in HOST_INV) + "".join("PROPERTY %s\n" % p for p in HOST_PROPS))
    rc, out, g, d = tlc("HostMC", wd, cfg=cfg, timeout=2400)
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("model checking of HostMC failed\n" + out[-4000:])
    return {"states_generated": g, "distinct_states": d, "constants": const, "invariants": HOST_INV, "action_properties": HOST_PROPS}


def host_tours(wd, rng, budget, sent, wishes):
    cfg = os.path.join(wd, "HostTour.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW ViewE\nACTION_CONSTRAINT Edges\nCONSTANTS\n  Emitting = TRUE\n  MaxSent = %d\n  MaxExpect = %d\n" % (sent, wishes))
    rc, out, g, d = tlc("HostMC", wd, cfg=cfg, workers=1, timeout=600)
    edges = {}
    for e in printed(out, "EDGE"):
        edges.setdefault(e["s"], []).append((e["a"], e["d"]))
    setup = printed(out, "SETUP")[0]
    n = sum(len(x) for x in edges.values())
    return mc.cover(setup, edges, n, lambda i: host.Walker("tour-%d" % i, rng), lambda w: w.script(), "host-library", rng, budget, 200)


def host_drive(scripts, wd):
    src, dst = os.path.join(wd, "host.json"), os.path.join(wd, "host.ndjson")
    with open(src, "w") as f:
        json.dump(scripts, f)
    r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "lib", "host_harness.py"), REPO, src, dst], cwd=wd, timeout=600,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("the host library does not run:\n" + r.stdout[-4000:])
    return [json.loads(l) for l in open(dst)]


def check_host(prop):
    import check
    t0 = time.time()
    big = check.tier() == "thorough"
    wd = workdir(prop)
    rng = random.Random("%s/%d" % (prop, check.seed()))
    per = host_model(wd, 2, 2 if big else 1)
    log("model checking: HostMC %d states, %.0fs" % (per["distinct_states"], time.time() - t0))
    scripts, tour = host_tours(wd, rng, 60000 if big else 7000, 2, 1)
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts += [host.Walk(sub(), "walk-%d" % i).run(60) for i in range(2000 if big else 220)]
    for i in range(40 if big else 8):
        scripts += host.ends(sub(), "end-%d" % i)
    scripts += [host.flood(sub(), "flood-%d" % i) for i in range(40 if big else 6)]
    traces = host_drive(scripts, wd)
    bad, ok, g = validate(traces, wd, module="HostTrace", timeout=3000 if big else 600, name="host")
    for b in bad[:20]:
        log("  rejected: %s step %d %s: expected %s observed %s" % (b["id"], b["step"], ",".join(b["wrong"]), json.dumps(b["exp"])[:200], json.dumps(b["obs"])[:200]))
    log("%d scripts run on the library: %d accepted, %.0fs" % (len(traces), ok, time.time() - t0))
    count, fams = {"steps": 0, "bytes_sent": 0, "results": {}, "classes": {}}, {}
    for t in traces:
        fams[family(t["id"])] = fams.get(family(t["id"]), 0) + 1
        for s in t["steps"]:
            count["steps"] += 1
            count["bytes_sent"] += len(s["w"])
            for x in s["res"]:
                count["results"][x[1]] = count["results"].get(x[1], 0) + 1
                count["classes"][x[2]] = count["classes"].get(x[2], 0) + 1
    check.write_evidence(prop, {
        "states": per["distinct_states"] + g, "transitions": per["states_generated"], "traces_validated_against_impl": ok, "model_checking": {"HostMC": per},
        "tours": [tour], "scripts": fams, "trace_validation_states": g, "observed": count, "exhaustive": False,
        "samples": [{"script": s["id"], "first_steps": s["steps"][:6]} for s in (scripts[0], scripts[-1])]},
        t0, len(bad), assumptions=["virtual time: the library's event loop runs until idle between inputs", "the socket is a local socket pair"])
    replay = None
    if bad:
        b = min(bad, key=lambda x: x["step"])
        s = next(s for s in scripts if s["id"] == b["id"])
        replay = check.write_replay(prop, "host", {"kind": "host", "property": prop, "report": b, "script": dict(s, steps=s["steps"][:b["step"]])})
    shutil.rmtree(wd, ignore_errors=True)
    return replay


def replay_host(r):
    wd = workdir("replay")
    bad, ok, _ = validate(host_drive([r["script"]], wd), wd, module="HostTrace", name="host")
    shutil.rmtree(wd, ignore_errors=True)
    return bad


CHECKS = dict({p: check_scene for p in MODELS}, C23=check_host, C25=page.check_page)


# -- UCI hosts on the real servers: the main programs, their sockets, threads and timers --
def real_servers(prop, wd, rng, cov):
    """A further stage of a check of a UCI property; paths of replays."""
    import check
    big = check.tier() == "thorough"
    t0 = time.time()
    n = (160, 40) if big else (12, 4)
    sub = lambda: random.Random(rng.randrange(1 << 40))
    scripts = [tcp.walk(sub(), "tcp-%d" % i, 50, ["pica", "pica-http"][i % 2], i % 3 == 0 or prop == "C18") for i in range(n[0])]
    scripts += [tcp.plain_ranging(sub(), "tcpr-%d" % i) for i in range(n[1])]
    hits, ok, g, traces = run_scene(prop, scripts, wd, build_bins(), 3000 if big else 600)
    cov["real_servers"] = {"scripts": len(scripts), "accepted": ok, "steps": sum(len(t["steps"]) for t in traces), "trace_validation_states": g}
    cov["traces_validated_against_impl"] += ok
    cov["states"] += g
    log("real servers: %d scripts, %d accepted, %.0fs" % (len(scripts), ok, time.time() - t0))
    return [save(prop, scripts, hits)] if hits else []


EXTRA = {p: real_servers for p in ("C01", "C02", "C06", "C07", "C10", "C12", "C15", "C16", "C17", "C18", "C24")}
TECH_SCENE = ("TLA+ specification (spec/Scene.tla, Geometry.tla over Pica.tla): TLC exhausts small scenes (SceneMC.tla) or a grid of positions (GeometryMC.tla), and validates "
              "traces of the real pica-http process (SceneTrace.tla) from transition tours, random walks and concurrent requests, hosts and event clients")
NOTE_SCENE = ("Exhaustive on the specification for small instances; the code is bound to it by sampling: scripts run on the real pica-http process over real sockets and "
              "every response, event and packet is compared by TLC with what the specification allows under some order of the concurrent inputs. Thread schedules are those "
              "that happen. Trusts the driver (lib/scene_drive.py) and TLC; the geometry is decided to about one degree in integer arithmetic.")
NOTES = {p: (TECH_SCENE, NOTE_SCENE) for p in MODELS}
NOTES["C23"] = (
    "TLA+ specification (spec/HostLib.tla, HostMsg.tla): TLC exhausts short byte streams with every cut, end and expectation (HostMC.tla), and validates traces of the real "
    "library (HostTrace.tla) from transition tours of HostMC and random histories",
    "Exhaustive on the specification for two messages and up to two expectations; the code is bound to it by sampling: the library runs on a socket pair in an event loop with "
    "virtual time, and TLC compares every result, every field of every message and every byte sent with the specification. Trusts the harness (lib/host_harness.py) and TLC. "
    "Message types above 3 and comparison of payloads of generic packets are not covered.")
NOTES["C25"] = (
    "TLA+ specification (spec/Page.tla): TLC exhausts the orders of changes, events, state responses, failures and reconnections (PageMC.tla), and validates traces of the real "
    "page (PageTrace.tla) from transition tours of PageMC and random histories with user actions",
    "Exhaustive on the specification for two things and bounded queues; the code is bound to it by sampling: the page as served by the real pica-http runs in node, fed with the "
    "real server's events and responses in every scripted order, and TLC judges what it renders and requests. Trusts the stand-ins for the browser and lit (lib/page/) and TLC. "
    "Layout and CSS are not covered.")
