"""check.py <property>: decides one property on the current tree of /repo.

1. The specification: TLC explores instances of PicaMC.tla exhaustively and checks the invariants and action
   properties that state the property.
2. The binding: transition tours of those instances, directed scripts and random walks run on the real code
   (built from /repo now); TLC validates the recorded traces against the specification.
Exit 0: held; 1: VIOLATION line; 2: the machinery failed."""
import json, os, random, sys, time, traceback
from run import *
import blame, directed, gen, mc

# property -> (scenarios, invariants, action properties of PicaMC.tla)
MC = {
    "C01": (["sessions", "types"], [], ["OnlyLeaversLeave"]),
    "C02": (["sessions"], [], ["OneResponse", "NoUnaskedResponse"]),
    "C03": (["sessions", "ranging"], [], ["Gate", "ResetFresh"]),
    "C04": (["sessions", "inband"], [], ["StateMachine", "Refusals"]),
    "C05": (["sessions"], [], ["Table"]),
    "C06": (["sessions", "inband", "mcast"], [], ["OneNotification"]),
    "C07": (["sessions", "inband", "mcast"], ["DeviceState"], ["DeviceNotified"]),
    "C08": (["config", "types", "sessions"], [], ["AllOrNothing", "ConfigStable"]),
    "C09": (["config", "mcast"], [], ["ReadsBack"]),
    "C10": (["ranging", "data"], [], ["Rounds10", "StaleRound"]),
    "C11": (["ranging", "inband"], [], ["Measured"]),
    "C12": (["data", "types"], [], ["Delivery", "Acknowledged"]),
    "C13": (["mcast", "inband"], ["Lists"], ["EmptyStops", "ConfigStable"]),
    "C14": (["inband", "mcast"], ["DeviceState"], ["StopsOnly", "StopsAsked"]),
    "C15": (["config"], [], ["OneResponse"]),
    "C16": (["scene"], ["Addresses"], ["FreshHandles", "AnchorReplies"]),
    "C17": (["scene", "ranging"], [], ["Announced", "OnlyLeaversLeave"]),
    "C18": (["sessions", "data"], [], ["OneResponse", "NoUnaskedResponse"]),
    "C22": (["sessions"], [], ["CoreConfig"]),
    "C24": (["inband", "ranging", "data"], [], ["Isolated", "ConfigStable"]),
}
# Emphasis of the random walks.
WEIGHTS = {
    "C01": {"junk": 30, "leave": 6, "stale": 8}, "C02": {"junk": 20, "burst": 20}, "C03": {"reset": 12, "probe": 6}, "C04": {"start": 14, "stop": 14, "queries": 12},
    "C05": {"init": 16, "deinit": 12}, "C06": {"mcast": 16, "start": 12, "stop": 12}, "C07": {"start": 14, "stop": 14, "core_cfg": 10}, "C08": {"setapp_any": 30, "getapp_any": 15},
    "C09": {"setapp_any": 20, "getapp_any": 30}, "C10": {"time": 30, "stale": 12}, "C11": {"topo": 25, "anchor": 12, "time": 20}, "C12": {"data": 40, "topo": 16, "time": 20},
    "C13": {"mcast": 40, "topo": 14}, "C14": {"mcast": 40, "topo": 20}, "C15": {"segmented": 25, "data": 15, "getapp_any": 15}, "C16": {"anchor": 30, "connect": 10, "leave": 8},
    "C17": {"leave": 12, "connect": 8, "stale": 10}, "C22": {"core_cfg": 25, "queries": 20}, "C24": {"race": 20, "burst": 10, "probe": 6},
}


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def write_evidence(prop, coverage, t0, violations, level="model_checking", assumptions=()):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier(), "seed": seed(), "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1), "violations": violations}, f, indent=1)


def write_replay(prop, name, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, name))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def known(prop):
    """Known findings that are not repaired: (property, text)."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                res.append(line.split(" ", 2)[2].strip())
    return res


def random_scripts(prop, rng, n, length):
    out = []
    for i in range(n):
        w = WEIGHTS.get(prop) if i % 3 else None
        out.append(gen.Gen(random.Random(rng.randrange(1 << 30)), "walk-%d" % i, w).walk(length))
    return out


def summary(traces):
    packets, kinds = 0, {}
    for t in traces:
        for s in t["steps"]:
            packets += len(s["o"])
            for a in s["a"]:
                kinds[a["k"]] = kinds.get(a["k"], 0) + 1
    return packets, kinds


def explore(prop, wd, invs, props, scenarios):
    """Model checking; returns (generated, distinct, per scenario)."""
    gen_total = dist_total = 0
    per = {}
    for sc in scenarios:
        out, g, d = mc.mc(sc, wd, invs, props)
        gen_total += g
        dist_total += d
        per[sc] = {"states_generated": g, "distinct_states": d}
    return gen_total, dist_total, per


def check_uci(prop, extra=None):
    t0 = time.time()
    big = tier() == "thorough"
    wd = workdir(prop)
    rng = random.Random("%s/%d" % (prop, seed()))
    driver = build_driver()
    scenarios, invs, props = MC[prop]
    mgen, mdist, per = explore(prop, wd, mc.INVARIANTS if big else invs, mc.PROPERTIES if big else props,
                               mc.SCENARIOS if big else scenarios)
    log("model checking: %d states generated, %d distinct, %.0fs" % (mgen, mdist, time.time() - t0))
    scripts, tour_info = [], []
    for sc in (mc.SCENARIOS if big else scenarios):
        ss, info = mc.tours(sc, wd, rng, 60000 if big else 7000)
        scripts += ss
        tour_info.append(info)
    for p in sorted(directed.DIRECTED):
        scripts += directed.directed(p, random.Random("%s/%s/%d" % (prop, p, seed())), big)
    scripts += directed.own(prop, rng)
    if big:
        for k in range(4):
            extra_dir = directed.directed(prop, random.Random("%s/x%d/%d" % (prop, k, seed())), True)
            for s in extra_dir:
                s["id"] += "-x%d" % k
            scripts += extra_dir
    scripts += random_scripts(prop, rng, 600 if big else 70, 150)
    tags = {s["id"]: s.get("tag") for s in scripts}
    assert len(tags) == len(scripts)
    traces = drive(driver, [{k: v for k, v in s.items() if k != "tag"} for s in scripts], wd, timeout=600 if big else 200)
    nsteps = sum(len(t["steps"]) for t in traces)
    log("%d scripts run on the real code, %d steps, %.0fs" % (len(scripts), nsteps, time.time() - t0))
    bad, ok, vgen = validate(traces, wd, timeout=3000 if big else 600, heap="14g")
    log("traces validated: %d accepted, %d rejected, %.0fs" % (ok, len(bad), time.time() - t0))
    packets, kinds = summary(traces)
    hits = []
    for b in bad:
        v = blame.violated(b, tags[b["id"]])
        if prop in v:
            hits.append(b)
        log("  rejected: %s step %d breaks %s: %s" % (b["id"], b["step"], ",".join(sorted(v)), json.dumps(b["diffs"][0])[:300]))
    cov = {
        "states": mdist + vgen, "transitions": mgen, "traces_validated_against_impl": ok,
        "model_checking": per, "invariants": invs, "action_properties": props, "tours": tour_info,
        "trace_validation_states": vgen, "trace_steps": nsteps, "packets_received_from_implementation": packets, "inputs": kinds,
        "exhaustive": False,
        "samples": [{"script": s["id"], "first_steps": s["steps"][:6]} for s in (scripts[0], scripts[-1])],
    }
    more = extra(prop, wd, rng, cov) if extra else []
    replay = None
    if hits:
        b = min(hits, key=lambda x: x["step"])
        s = next(s for s in scripts if s["id"] == b["id"])
        replay = write_replay(prop, "trace", {"kind": "uci", "property": prop, "report": b, "script": dict(s, steps=s["steps"][:b["step"]])})
    elif more:
        replay = more[0]
    write_evidence(prop, cov, t0, len(hits) + len(more),
                   assumptions=["virtual time, one thread: the emulator's tasks are interleaved by the tokio scheduler only at their await points"])
    shutil.rmtree(wd, ignore_errors=True)
    return replay


def replay_file(path):
    """Runs a saved script again and prints the verdict of the specification."""
    r = json.load(open(path))
    if r["kind"] in ("scene", "host", "page"):
        import page, special
        bad = {"scene": special.replay_scene, "host": special.replay_host, "page": page.replay_page}[r["kind"]](r)
        print(json.dumps(bad, indent=1) if bad else "accepted")
        return 1 if bad else 0
    if r["kind"] != "uci":
        print(json.dumps(r, indent=1)); return 0
    wd = workdir("replay")
    s = {k: v for k, v in r["script"].items() if k != "tag"}
    bad, ok, _ = validate(drive(build_driver(), [s], wd), wd)
    print(json.dumps(bad, indent=1) if bad else "accepted")
    shutil.rmtree(wd, ignore_errors=True)
    return 1 if bad else 0


def main():
    if sys.argv[1] == "replay":
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    try:
        import special
        f = special.CHECKS.get(prop)
        replay = f(prop) if f else check_uci(prop, special.EXTRA.get(prop))
    except ToolError as e:
        log("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for k in known(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    if replay:
        log("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    log("property %s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main())
