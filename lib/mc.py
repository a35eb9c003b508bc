"""Model checking of PicaMC.tla, and transition tours from its state graph."""
import collections, json, os, re
from run import *

INVARIANTS = ["DeviceState", "Lists", "Addresses"]
PROPERTIES = ["OneResponse", "NoUnaskedResponse", "Gate", "ResetFresh", "StateMachine", "Refusals", "Table",
              "OneNotification", "DeviceNotified", "AllOrNothing", "ConfigStable", "ReadsBack", "Rounds10", "StaleRound",
              "Measured", "Delivery", "Acknowledged", "EmptyStops", "StopsOnly", "StopsAsked", "FreshHandles",
              "AnchorReplies", "Announced", "CoreConfig", "Isolated", "OnlyLeaversLeave"]


SCENARIOS = ["sessions", "types", "config", "mcast", "ranging", "inband", "scene", "data"]


def mc(scenario, wd, invariants, properties, emit=False, workers=None, timeout=600):
    cfg = os.path.join(wd, "mc-%s.cfg" % scenario)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTRAINT Small\nACTION_CONSTRAINT Edges\n")
        f.write('CONSTANTS\n  Scenario = "%s"\n  Emitting = %s\n' % (scenario, "TRUE" if emit else "FALSE"))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for p in properties:
            f.write("PROPERTY %s\n" % p)
    rc, out, gen, dist = tlc("PicaMC", wd, cfg=cfg, workers=workers, timeout=timeout)
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("model checking of scenario %s failed\n%s" % (scenario, "\n".join(l for l in out.splitlines() if "@EDGE" not in l)[-4000:]))
    return out, gen, dist


# ---------------------------------------------------------------------------
# Transition tours: walks that cover every edge of the state graph of a scenario.
import random
import uci
from gen import tx, step

SETUP_CONNS = {"sessions": 1, "scene": 1, "types": 1, "config": 1, "ranging": 2, "mcast": 2, "inband": 3, "data": 3}


def packet(c):
    k = c["k"]
    sid = c.get("sid")
    if k == "reset": return uci.reset()
    if k == "devinfo": return uci.dev_info()
    if k == "setcore": return uci.set_config([(t["id"], t["v"]) for t in c["tlvs"]])
    if k == "getcore": return uci.get_config(c["ids"])
    if k in ("bad", "unserved", "nogroup"): return uci.ctrl(1, c["gid"], c["oid"])
    if k == "init": return uci.s_init(sid, c["type"])
    if k == "deinit": return uci.s_deinit(sid)
    if k == "count": return uci.s_count()
    if k == "state": return uci.s_state(sid)
    if k == "rcount": return uci.rng_count(sid)
    if k == "start": return uci.start(sid)
    if k == "stop": return uci.stop(sid)
    if k == "setapp": return uci.set_app(sid, [(t["id"], t["v"]) for t in c["tlvs"]])
    if k == "getapp": return uci.get_app(sid, c["ids"])
    if k == "mcast": return uci.cmd(1, 7, bytes(sid) + bytes([c["act"]]) + bytes(c["body"]))
    if k == "dsnd": return uci.data_snd(sid, c["data"], seq=c["seq"])
    if k == "drcv": return [2, 0, 17, 0] + list(sid) + [0] * 13
    raise ToolError("unknown command in edge: %r" % c)


class Walker:
    """Executes edge labels as script steps."""

    def __init__(self, setup, ident):
        self.steps, self.conn, self.nconn, self.ctr, self.anch = [], {}, 0, 0, {}
        self.ident = ident
        for _ in range(setup["n"]):
            self.act({"k": "conn"}, probe=False)
        for h, c in setup["cmds"]:
            self.act({"k": "cmd", "h": h, "c": c}, probe=False)

    def mac(self, h):
        return ((h >> 8) & 255, h & 255)

    def act(self, a, probe=True):
        k = a["k"]
        acts = []
        if k == "cmd":
            c = self.conn[a["h"]]
            if probe:
                s1, s2 = [1, 0, 0, 0], [1, 1, 0, 0]
                acts += tx(c, uci.s_state(s1), uci.s_state(s2), uci.s_count(), uci.rng_count(s1), uci.get_config([0, 1]),
                           uci.get_app(s1, [5, 7, 9, 14]))
            p = packet(a["c"])
            acts += tx(c, p)
        elif k == "tick":
            acts = [{"k": "qrng", "c": a["h"], "s": a["sid"]}]
        elif k == "conn":
            used = set(self.anch) | {self.mac(h) for h in self.conn}
            while self.mac(self.ctr) in used:
                self.ctr += 1
            self.conn[self.ctr] = self.nconn
            self.nconn += 1
            self.ctr += 1
            acts = [{"k": "conn"}]
        elif k == "leave":
            acts = [{"k": "eof", "c": self.conn.pop(a["h"])}]
        elif k == "anc":
            m = tuple(a["m"])
            used = set(self.anch) | {self.mac(h) for h in self.conn}
            if m not in used:
                self.anch[m] = self.ctr
                self.ctr += 1
            acts = [{"k": "anc", "p": a["m"]}]
        elif k == "and":
            self.anch.pop(tuple(a["m"]), None)
            acts = [{"k": "and", "p": a["m"]}]
        elif k == "stop":
            return
        self.steps.append(step(acts, 10))

    def script(self, salt):
        return {"id": self.ident, "salt": salt, "mutex": False, "steps": self.steps}


def graph(scenario, wd):
    out, gen, dist = mc(scenario, wd, [], [], emit=True, workers=1)
    edges = collections.defaultdict(list)
    n = 0
    for e in printed(out, "EDGE"):
        edges[e["s"]].append((e["a"], e["d"]))
        n += 1
    setup = printed(out, "SETUP")[0]
    return setup, dict(edges), n


def tours(scenario, wd, rng, budget, length=250):
    """Scripts covering the edges of a scenario's state graph, at most `budget` steps."""
    setup, edges, n = graph(scenario, wd)
    return cover(setup, edges, n, lambda i: Walker(setup, "tour-%s-%d" % (scenario, i)), lambda w: w.script(rng.choice([0, 1, 2, 3])), scenario, rng, budget, length)


def cover(setup, edges, n, walker, script, scenario, rng, budget, length):
    init = setup["s"]
    todo = {s: list(range(len(es))) for s, es in edges.items()}
    for s in todo:
        rng.shuffle(todo[s])
    scripts, used, covered = [], 0, 0
    left = n
    while left and used < budget:
        w = walker(len(scripts))
        at, k = init, 0
        progress = 0
        while k < length and used + k < budget:
            if todo.get(at):
                i = todo[at].pop()
                left -= 1
                covered += 1
                progress += 1
                path = [(edges[at][i])]
            else:
                path = nearest(edges, todo, at)
                if path is None:
                    break
            for a, d in path:
                w.act(a)
                at = d
                k += 1
        used += k
        scripts.append(script(w))
        if progress == 0:
            break
    return scripts, {"scenario": scenario, "edges": n, "edges_covered": covered, "states": len(edges)}


def nearest(edges, todo, src):
    """Shortest path to a state with an uncovered edge."""
    seen, queue = {src: None}, collections.deque([src])
    while queue:
        s = queue.popleft()
        if s != src and todo.get(s):
            path = []
            while seen[s] is not None:
                p, a = seen[s]
                path.append((a, s))
                s = p
            return path[::-1]
        for a, d in edges.get(s, ()):
            if d not in seen:
                seen[d] = (s, a)
                queue.append(d)
    return None
