"""Scripts for the scene server (inputs only; SceneTrace.tla holds the expectations)."""
import random
import uci
from uci import app, reset, s_init, s_deinit, set_app, start, stop

SHORT = ["1234", "ABCD", "0000", "0001", "0002", "00FF"]
LONG = ["0102030405060708", "FFFFFFFFFFFFFFFF", "0000000000000001", "0001000000000000", "1234000000000000"]
POOL = SHORT + LONG
STATIC = ["/", "/openapi", "/openapi.yaml", "/src/components/Map.js", "/src/components/DeviceInfo.js", "/src/components/Orientation.js"]
NOT_ADDRESSES = ["", "1", "12", "123", "12345", "123456", "12345678", "010203040506070", "01020304050607080", "123G", "zzzz", "-123", "+123",
                 "12%3a34", "12%2034", "::", "12-34", "0x12", "1_23", "010203040506070g", "%3A", "12%3A3"]
BAD_BODIES = ["{}", "null", "[]", "7", "x", "{", '{"x":1}', '{"x":1,"y":2,"z":3,"yaw":4,"pitch":5}', '{"x":1,"y":2,"z":3,"yaw":4,"pitch":5,"roll":"6"}',
              '{"x":1.5,"y":2,"z":3,"yaw":4,"pitch":5,"roll":6}', '{"x":null,"y":2,"z":3,"yaw":4,"pitch":5,"roll":6}', '"x"', " ", "{\"x\":1,",
              '{"x":1,"y":2,"z":3,"yaw":4,"pitch":5,"roll":6}}', '{"X":1,"Y":2,"Z":3,"YAW":4,"PITCH":5,"ROLL":6}']
NONE = {"kind": "none"}


def http(op, addr="", body=None, c=0, form="plain"):
    return {"k": "http", "c": c, "op": op, "form": form, "addr": addr, "body": body or NONE}


def state(c=0):
    return http("get-state", c=c)


def pos(x, y, z, yaw=0, pitch=0, roll=0, style=0):
    return {"kind": "pos", "x": x, "y": y, "z": z, "yaw": yaw, "pitch": pitch, "roll": roll, "style": style}


def one(*acts, **kw):
    """A step whose acts follow one another."""
    return dict({"ph": [{"a": [a]} for a in acts]}, **kw)


def par(*acts, **kw):
    """A step whose acts go out together."""
    return dict({"ph": [{"a": list(acts)}]}, **kw)


class Walk:
    """A random history of requests, connections and subscriptions."""
    def __init__(self, rng, name, subs=True, ids=None):
        self.r, self.name, self.subs_ok = rng, name, subs
        self.steps = []
        self.live, self.n = [], 0
        self.subs, self.nsub = [], 0
        self.pool = rng.sample(POOL, 5) + ["0000", "0001"]
        if rng.random() < .3:
            self.pool += ["0001000000000000", "1234", "1234000000000000"]
        self.made = []

    def spelling(self, a):
        r = self.r
        k = r.randrange(8)
        pairs = [a[i:i + 2] for i in range(0, len(a), 2)]
        if k == 0:
            return a.lower()
        if k == 1:
            return ":".join(pairs)
        if k == 2:
            return "%3A".join(pairs)
        if k == 3:
            return "".join(x.lower() if r.random() < .5 else x for x in a)
        if k == 4:
            return ":" + ":".join(pairs).lower() + ":"
        if k == 5:
            i = r.randrange(len(a))
            return a[:i] + ":" + a[i:]
        return a

    def position(self):
        r = self.r
        k = r.randrange(10)
        style = r.randrange(3)
        if k == 0:
            return NONE
        if k < 4:
            return pos(*[r.randint(-300, 300) for _ in range(3)], r.randint(-180, 180), r.randint(-90, 90), r.randint(-180, 180), style=style)
        if k < 7:
            return pos(*[r.choice([0, 0, 1, -1, 10, 100, 1000, 32767, -32768, r.randint(-32768, 32767)]) for _ in range(3)],
                       r.choice([0, 0, 45, 90, 180, -90, 360, 32767, -32768, r.randint(-720, 720)]),
                       r.choice([0, 0, 45, 89, 90, -90, 127, -128, r.randint(-128, 127)]),
                       r.choice([0, 0, 45, 90, 180, -180, 32767, -32768, r.randint(-720, 720)]), style=style)
        return pos(*[r.randint(-32768, 32767) for _ in range(3)], r.randint(-400, 400), r.randint(-128, 127), r.randint(-400, 400), style=style)

    def bad_body(self):
        r = self.r
        if r.random() < .5:
            return {"kind": "bad", "text": r.choice(BAD_BODIES)}
        b = pos(1, 2, 3, 4, 5, 6)
        k = r.choice(["x", "y", "z", "yaw", "pitch", "roll"])
        b[k] = r.choice([128, -129]) if k == "pitch" else r.choice([32768, -32769, 65536, 100000])
        return b

    def address(self):
        r = self.r
        k = r.randrange(10)
        if k < 5 and self.made:
            return r.choice(self.made)
        if k < 8 and self.n:
            return "%04X" % r.randrange(self.n + len(self.made) + 1)
        return r.choice(self.pool)

    def request(self, c=0):
        r = self.r
        k = r.randrange(100)
        if k < 14:
            return state(c)
        if k < 34:
            return http("set-position", self.spelling(self.address()), self.position(), c)
        if k < 38:
            return http("init-uci-device", self.spelling(self.address()), self.position(), c)
        if k < 60:
            a = r.choice(self.pool) if r.random() < .7 else self.address()
            if a not in self.made:
                self.made.append(a)
            return http("create-anchor", self.spelling(a), self.position(), c)
        if k < 76:
            a = self.address()
            if a in self.made and r.random() < .7:
                self.made.remove(a)
            return http("destroy-anchor", self.spelling(a), r.choice([NONE, NONE, self.bad_body()]), c)
        op = r.choice(["set-position", "create-anchor", "destroy-anchor", "init-uci-device"])
        if k < 84:
            return http(op, r.choice(NOT_ADDRESSES), r.choice([NONE, self.position()]), c)
        if k < 91:
            return http(r.choice(["set-position", "create-anchor", "init-uci-device"]), self.spelling(self.address()), self.bad_body(), c)
        if k < 97:
            op = r.choice(["set-position", "create-anchor", "destroy-anchor", "init-uci-device", "get-state"])
            forms = ["slashes", "query", "tail", "more", "upper"] + ([] if op == "get-state" else ["less"])
            return http(op, self.address(), NONE, c, r.choice(forms))
        return http(r.choice(STATIC), "", NONE, c, r.choice(["plain", "query", "slashes", "tail" if k == 98 else "plain"]))

    def step(self):
        r = self.r
        k = r.randrange(100)
        if k < 8 and len(self.live) < 4:
            self.live.append(self.n)
            self.n += 1
            return one({"k": "conn"})
        if k < 13 and self.live:
            c = r.choice(self.live)
            self.live.remove(c)
            return one({"k": "eof", "c": c, "n": r.randrange(2)})
        if k < 18 and self.subs_ok and len(self.subs) < 3:
            self.subs.append(self.nsub)
            self.nsub += 1
            return one({"k": "sub", "c": self.nsub - 1}, sync=False)
        if k < 20 and self.subs:
            return one({"k": "unsub", "c": self.subs.pop(r.randrange(len(self.subs)))}, sync=False)
        if k < 30:
            return par(*[self.request(c) for c in range(r.randint(2, 3))], sync=False)
        return one(self.request(), sync=False)

    def run(self, n):
        while len(self.steps) < n:
            self.steps.append(self.step())
            if self.r.random() < .35:
                self.steps.append(one(state(), sync=False))
        self.steps.append(one(state()))
        return {"id": self.name, "bin": "pica-http", "steps": self.steps}


def geometry(rng, name, n):
    """Positions and orientations of all kinds, seen from each other."""
    w = Walk(rng, name)
    macs = ["%04X" % (0x4000 + i) for i in range(5)]
    steps = [one({"k": "sub", "c": 0}, sync=False)]
    for m in macs:
        steps.append(one(http("create-anchor", m, w.position()), sync=False))
    for i in range(n):
        steps.append(one(http("set-position", rng.choice(macs), w.position()), sync=False))
        if i % 10 == 9:
            steps.append(one(state(), sync=False))
    return {"id": name, "bin": "pica-http", "steps": steps}


def crowd(rng, name, n):
    """Many hosts and anchors in one scene."""
    w = Walk(rng, name)
    anchors = ["%04X" % (0x5000 + i) for i in range(rng.randint(8, 20))]
    steps = [one({"k": "sub", "c": i}, sync=False) for i in range(3)]
    hosts = rng.randint(3, 6)
    for i in range(hosts):
        steps.append(one({"k": "conn"}))
    for m in anchors:
        steps.append(one(http("create-anchor", m, w.position()), sync=False))
    everything = anchors + ["%04X" % h for h in range(hosts)]
    for i in range(n):
        k = rng.randrange(10)
        if k < 6:
            steps.append(one(http("set-position", rng.choice(everything), w.position()), sync=False))
        elif k < 8:
            steps.append(par(http("destroy-anchor", rng.choice(anchors)), http("set-position", rng.choice(everything), w.position(), 1), sync=False))
        else:
            steps.append(one(http("create-anchor", rng.choice(anchors), w.position()), sync=False))
        if i % 6 == 5:
            steps.append(one(state(), sync=False))
    for c in range(hosts):
        steps.append(one({"k": "eof", "c": c, "n": rng.randrange(2)}))
    steps.append(one(state()))
    return {"id": name, "bin": "pica-http", "steps": steps}


def tx(c, p):
    return {"k": "tx", "c": c, "p": p}


def text(mac):
    return "".join("%02X" % b for b in mac)


def ranging(rng, name, rounds=8):
    """Ranging between hosts and anchors while things move: measured values and event values agree."""
    r = rng
    w = Walk(r, name)
    ext = r.random() < .3
    n = r.choice([2, 3])
    short = lambda h: (0, h)
    anchors = [((0x40 + i, r.randrange(256)) + ((1, 2, 3, 4, 5, r.randrange(256)) if ext else ())) for i in range(r.randint(1, 4))]
    # The addresses the sessions use; extended ones stand for other devices than those of the scene.
    ad = (lambda h: (h, 7, 0, 0, 0, 0, 0, 1)) if ext else short
    mode = 2 if ext else None
    steps = [one({"k": "sub", "c": 0}, sync=False)]
    steps += [one({"k": "conn"}) for _ in range(n)]
    for m in anchors:
        steps.append(one(http("create-anchor", text(m), w.position()), sync=False))
    things = [text(short(h)) for h in range(n)] + [text(m) for m in anchors]
    for t in things:
        steps.append(one(http("set-position", t, w.position()), sync=False))
    period = list((r.choice([60, 80, 110])).to_bytes(4, "little"))
    for c in range(n):
        steps.append(one(tx(c, reset())))
    sids = [1] if r.random() < .7 else [1, 2]
    role = r.randrange(2)
    for sid in sids:
        for c in range(n):
            ctl = c == 0
            dst = ([ad(h) for h in range(1, n)] + anchors + [(9, 9) + ((0,) * 6 if ext else ())]) if ctl else [ad(0)] + r.sample(anchors, 1)
            if ctl:
                r.shuffle(dst)
            steps.append(one(tx(c, s_init(sid))))
            p = app(role=role if ctl else 1 - role, typ=1 if ctl else 0, mac=ad(c), dst=dst, multi=1, mode=mode,
                    dur=int.from_bytes(bytes(period), "little"), extra=[] if ctl else [(0x0E, [0])])
            steps.append(one(tx(c, set_app(sid, p))))
    for sid in sids:
        for c in range(1, n):
            if r.random() < .85:
                steps.append(one(tx(c, start(sid))))
    on = []
    for sid in sids:
        steps.append({"ph": [{"a": [tx(0, start(sid))], "sin": [[0, 1]]}]})
        on.append(sid)
    for i in range(rounds):
        k = r.randrange(10)
        if k < 7:
            steps.append({"ph": [{"a": [http("set-position", r.choice(things), w.position())], "sin": [[0, 2]]}]})
        elif k == 7:
            m = text(r.choice(anchors))
            if m in things:
                steps.append({"ph": [{"a": [http("destroy-anchor", m)], "sin": [[0, 1]]}]})
                steps.append({"ph": [{"a": [http("create-anchor", m, w.position())]}, {"a": [http("set-position", m, w.position())], "sin": [[0, 2]]}]})
        elif k == 8 and n > 1:
            sid = r.choice(sids)
            c = r.randrange(1, n)
            steps.append({"ph": [{"a": [tx(c, r.choice([stop, start])(sid))], "sin": [[0, 1]]}]})
        else:
            steps.append(one(state()))
    if n > 2 and r.random() < .5:
        steps.append({"ph": [{"a": [{"k": "eof", "c": n - 1, "n": r.randrange(2)}], "sin": [[0, 2]]}]})
    for sid in on:
        steps.append(one(tx(0, stop(sid))))
    steps.append(one(state()))
    return {"id": name, "bin": "pica-http", "steps": steps}


def races(rng, name, n):
    """Requests that go out together, on the same few addresses, and clients that go away."""
    r = rng
    w = Walk(r, name)
    addr = r.sample(["1234", "ABCD", "0102030405060708"], 2)
    steps = []
    if r.random() < .8:
        steps += [one({"k": "sub", "c": 0}, sync=False), one({"k": "sub", "c": 1}, sync=False)]
    # Hosts that come and go while an anchor with their address does.
    steps += [one({"k": "conn"}) for _ in range(3)]
    nxt = r.choice(["0004", "0005"])
    steps.append(one(http("create-anchor", nxt, w.position()), sync=False))
    steps.append(par(http("destroy-anchor", nxt), {"k": "conn"}))
    steps.append(one(state(), sync=False))
    for c in range(r.choice([2, 3])):
        a = "%04X" % c
        steps.append(par(http("create-anchor", a, w.position()), {"k": "eof", "c": c, "n": r.randrange(2)}, sync=False))
        steps.append(one(state(), sync=False))
        if r.random() < .5:
            steps.append(par(http("destroy-anchor", a, NONE, 1), http("create-anchor", a, NONE, 0), sync=False))
    for i in range(n):
        acts = []
        for c in range(r.choice([2, 2, 3, 3])):
            a = r.choice(addr[:1] * 3 + addr)
            k = r.randrange(10)
            acts.append(http("create-anchor", a, w.position(), c) if k < 4 else http("destroy-anchor", a, NONE, c) if k < 8 else
                        http("set-position", a, w.position(), c) if k < 9 else state(c))
        steps.append(par(*acts, sync=False))
        if i % 3 == 2:
            steps.append(one(state(), sync=False))
        if i % 5 == 4:
            a = r.choice(addr)
            for _ in range(r.choice([1, 2])):
                d = r.choice([http("create-anchor", a, w.position()), http("destroy-anchor", a), http("set-position", a, w.position())])
                steps.append(one(dict(d, k="drop", n=r.choice([0, 0, 30, 60, 100, 150])), sync=False))
            steps.append(one(state(), sync=False))
    return {"id": name, "bin": "pica-http", "steps": steps}
