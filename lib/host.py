"""Scripts for the Python host library (inputs only; HostTrace.tla holds the expectations)."""
import random
import uci

STATUS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 18, 19, 20, 21, 22, 23, 26, 27, 32, 33]


def le(v, n):
    return list(v.to_bytes(n, "little"))


class Gen:
    def __init__(self, rng):
        self.r = rng

    def u(self, n):
        r = self.r
        return r.choice([0, 1, (1 << 8 * n) - 1, r.randrange(1 << 8 * n)])

    def blob(self, most):
        r = self.r
        n = r.choice([0, 1, 2, 3, r.randint(0, min(most, 20)), r.randint(0, most), most])
        return [r.randrange(256) for _ in range(min(n, most))]

    def tlvs(self, ids, n=None):
        r, out, left = self.r, [], 240
        for _ in range(r.randint(0, 4) if n is None else n):
            v = self.blob(min(left - 2, 120))
            left -= len(v) + 2
            out.append((r.choice(ids), v))
            if left < 10:
                break
        return out

    # -- messages of the controller: (packet bytes: 4 header bytes and body of any length; class; args) --
    def message(self):
        """A well-formed message: (mt, gid, oid, body, class, args or None)."""
        r = self.r
        st = r.choice(STATUS)
        one = lambda g, o, cls, f="status": (2, g, o, [st], cls, {f: st})
        k = r.randrange(24)
        if k == 0: return one(0, 0, "CoreDeviceResetRsp")
        if k == 1:
            v = r.choice([1, 2, 255]); return (3, 0, 1, [v], "CoreDeviceStatusNtf", {"device_state": v})
        if k == 2:
            a = [self.u(2) for _ in range(4)]; b = self.blob(100)
            return (2, 0, 2, [st] + sum((le(x, 2) for x in a), []) + [len(b)] + b, "CoreGetDeviceInfoRsp",
                    {"status": st, "uci_version": a[0], "mac_version": a[1], "phy_version": a[2], "uci_test_version": a[3], "vendor_spec_info": b})
        if k == 3:
            t = self.tlvs([0, 1, 2, 7, 19, 192]); return (2, 0, 3, [st, len(t)] + [x for i, v in t for x in [i, len(v)] + v], "CoreGetCapsInfoRsp",
                {"status": st, "tlvs": [{"cls": "CapTlv", "args": {"t": i, "v": v}} for i, v in t]})
        if k == 4:
            t = [(r.randrange(2), r.choice(STATUS)) for _ in range(r.randint(0, 4))]
            return (2, 0, 4, [st, len(t)] + [x for p in t for x in p], "CoreSetConfigRsp", {"status": st, "parameters": [{"cls": "ConfigParameterStatus", "args": {"id": a, "status": b}} for a, b in t]})
        if k == 5:
            t = self.tlvs([0, 1]); return (2, 0, 5, [st, len(t)] + [x for i, v in t for x in [i, len(v)] + v], "CoreGetConfigRsp",
                {"status": st, "parameters": [{"cls": "ConfigParameter", "args": {"id": i, "value": v}} for i, v in t]})
        if k == 6: return (3, 0, 7, [st], "CoreGenericErrorNtf", {"status": st})
        if k == 7: return one(1, 0, "SessionInitRsp")
        if k == 8:
            h = self.u(4); return (2, 1, 0, [st] + le(h, 4), "SessionInitRsp_V2", {"status": st, "session_handle": h})
        if k == 9: return one(1, 1, "SessionDeinitRsp")
        if k in (10, 11):
            s, a, b = self.u(4), r.randrange(4), self.u(1)
            return (3, 1, 2, le(s, 4) + [a, b], "SessionStatusNtf", {"session_token": s, "session_state": a, "reason_code": b})
        if k == 12:
            t = [(r.randrange(20), r.choice(STATUS)) for _ in range(r.choice([0, 1, 3, 30]))]
            return (2, 1, 3, [st, len(t)] + [x for p in t for x in p], "SessionSetAppConfigRsp", {"status": st, "cfg_status": [{"cls": "AppConfigStatus", "args": {"cfg_id": a, "status": b}} for a, b in t]})
        if k == 13:
            t = self.tlvs(list(range(20))); return (2, 1, 4, [st, len(t)] + [x for i, v in t for x in [i, len(v)] + v], "SessionGetAppConfigRsp",
                {"status": st, "tlvs": [{"cls": "AppConfigTlv", "args": {"cfg_id": i, "v": v}} for i, v in t]})
        if k == 14:
            n = self.u(1); return (2, 1, 5, [st, n], "SessionGetCountRsp", {"status": st, "session_count": n})
        if k == 15:
            n = r.randrange(4); return (2, 1, 6, [st, n], "SessionGetStateRsp", {"status": st, "session_state": n})
        if k == 16:
            s = self.u(4); t = [([r.randrange(256), r.randrange(256)], r.randrange(9)) for _ in range(r.choice([0, 1, 2, 8, 60]))]
            return (3, 1, 7, le(s, 4) + [len(t)] + [x for m, v in t for x in m + [v]], "SessionUpdateControllerMulticastListNtf", None)
        if k == 17: return one(2, 0, "SessionStartRsp")
        if k == 18: return one(2, 1, "SessionStopRsp")
        if k == 19:
            n = self.u(4); return (2, 2, 3, [st] + le(n, 4), "SessionGetRangingCountRsp", {"status": st, "count": n})
        if k == 20:
            s, c = self.u(4), r.randrange(2); return (3, 2, 4, le(s, 4) + [c], "SessionDataCreditNtf", {"session_token": s, "credit_availability": c})
        if k == 21:
            ext = r.randrange(2); n = r.choice([0, 1, 2, 8, 20])
            b = le(self.u(4), 4) + le(self.u(4), 4) + [self.u(1)] + le(self.u(4), 4) + [1, 0, ext] + [0] * 8 + [n]
            for _ in range(n):
                m = [r.randrange(256) for _ in range(8 if ext else 2)] + [r.choice(STATUS)] + [r.randrange(256) for _ in range(16)]
                b += m + [0] * (31 - len(m))
            b += self.blob(12) if r.random() < .2 else []
            return (3, 2, 0, b, ("Short", "Extended")[ext] + "MacTwoWaySessionInfoNtf", None)
        if k == 22:
            w = [self.u(4) for _ in range(4)]; return (2, 12, 0, [st] + sum((le(x, 4) for x in w), []), "AndroidGetPowerStatsRsp", None)
        return one(12, 1, "AndroidSetCountryCodeRsp")

    def odd(self):
        """A control message that is not well formed, or not known."""
        r = self.r
        k = r.randrange(5)
        if k == 0:
            mt, g, o, b, cls, _ = self.message()
            return (mt, g, o, b[:-1] if b else [1], "", None)
        if k == 1:
            mt, g, o, b, cls, _ = self.message()
            return (mt, g, o, b + [r.randrange(256)], "", None) if cls != "SessionInitRsp" and "SessionInfo" not in cls else (2, 0, 0, [0, 0], "", None)
        if k == 2:
            return (r.choice([2, 3]), r.choice([3, 9, 13]), r.randrange(64), self.blob(60), "", None)
        if k == 3:
            return (2, r.choice([4, 5, 6, 7, 8]), r.randrange(64), self.blob(10), "", None)
        return (2, r.choice([0, 1, 2]), r.choice([20, 33, 63]), self.blob(6000 if r.random() < .1 else 300), "", None)

    def data(self, most=600):
        r = self.r
        k = r.randrange(12)
        b = self.blob(most)
        if k == 0:
            return (0, 1, 0, le(self.u(4), 4) + le(self.u(8), 8) + le(self.u(2), 2) + le(len(b), 2) + b, "DataMessageSnd", None)
        if k == 1:
            return (0, r.choice([1, 2]), 0, self.blob(10), "DataPacket", None)
        if k == 2:
            return (0, r.choice([0, 3, 15]), 0, self.blob(30), "", None)
        s, st, a, q = self.u(4), r.choice(STATUS), self.u(8), self.u(2)
        return (0, 2, 0, le(s, 4) + [st] + le(a, 8) + le(q, 2) + le(len(b), 2) + b, "DataMessageRcv",
                {"session_handle": s, "status": st, "source_address": a, "data_sequence_number": q, "application_data": b})


def packet(m):
    """Header and whole body, as in a message that needs no segments (the length field is not looked at)."""
    mt, g, o, b = m[:4]
    return [(mt << 5) | g, o if mt else 0, 0, 0] + b


def wire(rng, m, most=255):
    """The bytes of a message on the wire; long control messages in segments, short ones sometimes."""
    mt, g, o, b = m[:4]
    if mt == 0:
        return [g, 0] + le(len(b), 2) + b
    parts = []
    rest = b
    while len(rest) > 255 or (rest and rng.random() < .25) or (not parts and rng.random() < .05):
        n = rng.choice([255, 255, rng.randint(0, min(255, len(rest))), min(1, len(rest))])
        n = min(n, len(rest))
        parts.append(rest[:n])
        rest = rest[n:]
        if len(parts) > 12 and len(rest) <= 255:
            break
    parts.append(rest)
    out = []
    for i, p in enumerate(parts):
        out += [(mt << 5) | (0 if i == len(parts) - 1 else 16) | g, o, 0, len(p)] + p
    return out


def cuts(rng, b):
    """The bytes in pieces."""
    k = rng.randrange(5)
    if k == 0 or not b:
        return [b]
    if k == 1 and len(b) < 200:
        return [[x] for x in b]
    out, i = [], 0
    while i < len(b):
        n = rng.choice([1, 2, 3, 4, 5, 7, rng.randint(1, 40), rng.randint(1, 400)])
        out.append(b[i:i + n])
        i += n
    return out


SUPER = {0: "CorePacket", 1: "SessionConfigPacket", 2: "SessionControlPacket", 12: "AndroidPacket"}


class Walk:
    """A random history: messages in any cuts, expectations before and after, time, the end of the connection."""
    def __init__(self, rng, name):
        self.r, self.name, self.g = rng, name, Gen(rng)
        self.steps, self.n = [], 0
        self.c, self.d = [], []       # sent and not yet expected, as the script writer guesses
        self.waiting = 0

    def ident(self):
        self.n += 1
        return self.n

    def message(self):
        r = self.r
        k = r.randrange(10)
        m = self.g.data() if k < 3 else self.g.odd() if k == 3 else self.g.message()
        (self.d if m[0] == 0 else self.c).append(m)
        return wire(r, m)

    def expect(self, ms=None, q=None):
        r = self.r
        q = q or r.choice(["c", "c", "d"])
        line = self.c if q == "c" else self.d
        m = line.pop(0) if line else (self.g.message() if q == "c" else self.g.data())
        ms = ms or r.choice([1000, 1000, 100, 300])
        a = {"k": "expect", "id": self.ident(), "q": q, "ms": ms, "m": "type", "cls": "", "p": []}
        k = r.randrange(10)
        good = m[4] and m[4] not in ("DataPacket",)
        if k < 3 and good:
            a["cls"] = m[4]
        elif k == 3:
            a["cls"] = ("ControlPacket" if r.random() < .4 else SUPER.get(m[1], "ControlPacket")) if q == "c" else "DataPacket"
        elif k == 4:
            a["cls"] = r.choice(["CoreDeviceStatusNtf", "SessionStatusNtf", "SessionInitRsp", "SessionInfoNtf"]) if q == "c" else r.choice(["DataMessageSnd", "DataMessageRcv"])
        elif good:
            x = list(m)
            if k == 5 and x[3]:
                # Almost the same message.
                y = self.g.message() if q == "c" else self.g.data()
                b = list(x[3])
                at = r.randrange(len(b))
                if x[5] is not None and x[4] in ("SessionStatusNtf", "DataMessageRcv", "SessionInitRsp_V2", "SessionGetRangingCountRsp"):
                    w = 4 if x[4] == "SessionStatusNtf" else 1
                    field = {"SessionStatusNtf": "session_token", "DataMessageRcv": "session_handle", "SessionInitRsp_V2": "session_handle", "SessionGetRangingCountRsp": "count"}[x[4]]
                    off = 0 if x[4] in ("SessionStatusNtf", "DataMessageRcv") else 1
                    v = x[5][field] ^ (1 << r.randrange(32))
                    b[off:off + 4] = le(v, 4)
                    x[3], x[5] = b, dict(x[5], **{field: v})
                else:
                    x = list(y)
                    if not x[4] or x[4] == "DataPacket":
                        x = [2, 0, 0, [0], "CoreDeviceResetRsp", {"status": 0}] if q == "c" else list(m)
            a.update(m="value", cls=x[4], p=packet(x), args=x[5])
        else:
            a["cls"] = "ControlPacket" if q == "c" else "DataPacket"
        return a

    def send(self):
        r, g = self.r, self.g
        k = r.randrange(12)
        s = g.u(4)
        q = "c"
        if k == 0: cls, args, p = "CoreDeviceResetCmd", {"reset_config": 0}, (1, 0, 0, [0])
        elif k == 1: cls, args, p = "CoreGetDeviceInfoCmd", {}, (1, 0, 2, [])
        elif k == 2:
            t = g.tlvs([0, 1]); cls, args = "CoreSetConfigCmd", {"parameters": [{"cls": "ConfigParameter", "args": {"id": i, "value": v}} for i, v in t]}
            p = (1, 0, 4, [len(t)] + [x for i, v in t for x in [i, len(v)] + v])
        elif k == 3: t = r.randrange(6); cls, args, p = "SessionInitCmd", {"session_id": s, "session_type": t}, (1, 1, 0, le(s, 4) + [t])
        elif k == 4: cls, args, p = "SessionDeinitCmd", {"session_token": s}, (1, 1, 1, le(s, 4))
        elif k in (5, 6):
            t = g.tlvs(list(range(20)), r.choice([0, 1, 2, 3, 4]))
            if k == 6:
                # Around the longest there can be.
                n = r.choice([254, 255, 256, 300, 500]) - 5
                t = [(7, [r.randrange(256) for _ in range(min(255, n - 2))])]
                if n - 2 > 255:
                    t.append((5, [1] * max(0, n - 2 - 255 - 2)))
            cls, args = "SessionSetAppConfigCmd", {"session_token": s, "tlvs": [{"cls": "AppConfigTlv", "args": {"cfg_id": i, "v": v}} for i, v in t]}
            p = (1, 1, 3, le(s, 4) + [len(t)] + [x for i, v in t for x in [i, len(v)] + v])
        elif k == 7: cls, args, p = "SessionStartCmd", {"session_id": s}, (1, 2, 0, le(s, 4))
        elif k == 8: cls, args, p = "AndroidSetCountryCodeCmd", {"country_code": [65, 66]}, (1, 12, 1, [65, 66])
        else:
            q = "d"
            n = r.choice([0, 1, 10, 238, 239, 240, 256, 500, 1007, 65519]) if k != 11 else r.choice([65520, 65600 - 65]) if r.random() < .3 else r.randint(0, 3000)
            b = [r.randrange(256) for _ in range(n)]
            a, sq = g.u(8), g.u(2)
            cls, args = "DataMessageSnd", {"session_handle": s, "destination_address": a, "data_sequence_number": sq, "application_data": b}
            p = (0, 1, 0, le(s, 4) + le(a, 8) + le(sq, 2) + le(n, 2) + b)
        return {"k": "send", "id": self.ident(), "q": q, "cls": cls, "args": args, "p": packet(p)}

    def run(self, n, end=True):
        r = self.r
        while len(self.steps) < n:
            k = r.randrange(100)
            if k < 40:
                b = sum((self.message() for _ in range(r.choice([1, 1, 1, 2, 3, 6]))), [])
                if len(b) > 150000:
                    b = b[:150000]
                self.steps.append([{"k": "feed", "cs": cuts(r, b)}])
            elif k < 70:
                self.steps.append([self.expect()])
            elif k < 74:
                # Expectations first, then what they wait for, in two halves.
                acts = [self.expect(1000) for _ in range(r.choice([1, 2, 3]))]
                b = self.message() + self.message()
                i = r.randrange(len(b) + 1)
                self.steps.append(acts + [{"k": "feed", "cs": cuts(r, b[:i])}])
                self.steps.append([{"k": "pass", "ms": r.choice([50, 500, 1050])}, {"k": "feed", "cs": cuts(r, b[i:])}])
            elif k < 80:
                self.steps.append([{"k": "pass", "ms": r.choice([50, 150, 350, 1050])}])
            elif k < 86:
                # A message at the moment at which an expectation gives up.
                ms = r.choice([100, 200])
                acts = [self.expect(ms)] + ([self.expect(r.choice([ms, 1000]))] if r.random() < .5 else [])
                self.steps.append(acts + [{"k": "pass", "ms": ms - 10}, {"k": "more", "b": self.message()}, {"k": "pass", "ms": 50}])
                self.steps.append([self.expect()])
            else:
                self.steps.append([self.send() for _ in range(r.choice([1, 1, 3]))])
        if end:
            b = self.message() + self.message()
            i = r.choice([r.randrange(len(b) + 1), len(b), min(len(b), r.randrange(6)), 0])
            how = r.choice(["eof", "eof", "rst", "disc"])
            self.steps.append([{"k": "feed", "cs": cuts(r, b[:i])}, self.expect(300), {"k": how}])
            self.steps.append([self.expect(200) for _ in range(3)] + [{"k": "pass", "ms": 250}])
            self.steps.append([self.expect(q="d"), self.expect(q="c"), {"k": "pass", "ms": 1100}])
            for _ in range(3):
                self.steps.append([self.expect(100), {"k": "pass", "ms": 200}])
        return {"id": self.name, "steps": self.steps}


def ends(rng, name):
    """A few messages, and the connection ends after every one of their bytes (one script for each)."""
    g = Gen(rng)
    b = []
    while len(b) < 30:
        m = g.message() if rng.random() < .7 else g.data(20)
        w = wire(rng, m)
        if len(w) < 60:
            b += w
    out = []
    for i in range(len(b) + 1):
        w = Walk(random.Random(rng.randrange(1 << 30)), "%s-%d" % (name, i))
        w.steps = [[{"k": "feed", "cs": cuts(rng, b[:i])}], [{"k": rng.choice(["eof", "rst", "disc"])}]]
        for q in "ccdcd":
            w.steps.append([{"k": "expect", "id": w.ident(), "q": q, "ms": 100, "m": "type", "cls": "ControlPacket" if q == "c" else "DataPacket", "p": []}])
        w.steps.append([{"k": "pass", "ms": 200}])
        out.append({"id": w.name, "steps": w.steps})
    return out


def flood(rng, name):
    """Far more messages of one kind than anybody has taken yet, then the other kind, then all of them are taken."""
    w = Walk(rng, name)
    g, q = w.g, rng.choice("cd")
    n = rng.choice([40, 130, 300])
    some = lambda kind: w.g.data(40) if kind == "d" else w.g.odd() if rng.random() < .1 else w.g.message()
    ms = [some(q) for _ in range(n)] + [some("cd"[q == "c"]) for _ in range(3)] + [some(q) for _ in range(3)]
    b = sum((wire(rng, m) for m in ms), [])
    while b:
        i = min(len(b), rng.choice([200, 3000, 60000]))
        w.steps.append([{"k": "feed", "cs": [b[:i]]}])
        b = b[i:]
    kinds = ["d" if m[0] == 0 else "c" for m in ms]
    other = [k for k in kinds if k != q]
    order = other + [q] * (n + 3) + [q, other[0]]
    for i in range(0, len(order), 12):
        w.steps.append([{"k": "expect", "id": w.ident(), "q": k, "ms": 100, "m": "type", "cls": "ControlPacket" if k == "c" else "DataPacket", "p": []} for k in order[i:i + 12]])
    w.steps.append([{"k": "pass", "ms": 200}])
    return {"id": w.name, "steps": w.steps}


class Walker:
    """Executes edge labels of HostMC on the library."""
    def __init__(self, name, rng):
        self.name, self.r, self.steps = name, rng, []

    def act(self, a):
        k = a["k"]
        if k == "feed":
            self.steps.append([{"k": "feed", "cs": [a["b"]]}])
        elif k == "eof":
            self.steps.append([{"k": self.r.choice(["eof", "rst", "disc"])}])
        elif k == "pass":
            self.steps.append([{"k": "pass", "ms": a["ms"]}])
        elif k == "expect":
            w = a["want"]
            self.steps.append([{"k": "expect", "id": a["id"], "q": a["q"], "ms": a["ms"], "m": w["m"], "cls": w["cls"], "p": w["p"]["h"] + w["p"]["b"] if w["m"] == "value" else []}])

    def script(self):
        return {"id": self.name, "steps": self.steps + [[{"k": "pass", "ms": 300}]]}
