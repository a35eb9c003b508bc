"""Generators of scripts (inputs only: what should happen is for the specification to say)."""
import random, struct
from uci import *

SIDS = [1, 5, 0, 0x100, 0x10005, 0x05000000, 0xFFFFFFFF, 0x80000001, 257, 2]
DURS = [20, 20, 33, 50, 50, 100, 7, 250, 1000, None]
ENUMS = {0: [0, 1], 1: range(1, 9), 2: range(0, 5), 3: [0, 1], 4: [5, 6, 8, 9, 10, 12, 13, 14], 11: [0, 1],
         13: range(4), 14: range(8), 17: [0, 1, 5, 6, 7, 8], 18: [0, 1, 3], 19: [0, 1], 22: range(4), 23: [0, 1],
         24: [0], 26: [1], 31: range(3), 34: [0, 1], 35: [0, 1], 38: [0, 1, 2], 44: [0, 1], 49: [0, 1],
         53: range(3), 71: [0, 1]}
FIXED = {5: 1, 8: 2, 9: 4, 10: 4, 12: 1, 15: 2, 16: 2, 20: 1, 21: 1, 25: 1, 27: 1, 29: 8, 32: 2, 33: 1, 36: 1, 37: 1,
         39: 2, 40: 6, 41: 1, 42: 2, 45: 1, 46: 1, 47: 1, 48: 4, 50: 2, 58: 1, 59: 2, 60: 1, 72: 9, 76: 1}
SPECIAL = [6, 7, 43, 69, 70]
PARAMS = sorted(list(ENUMS) + list(FIXED) + SPECIAL)
TYPES = [0, 1, 2, 3, 4, 5, 160, 208]


def tx(c, *ps):
    return [{"k": "tx", "c": c, "p": list(p)} for p in ps]


def step(a, ms=12):
    return {"a": a, "ms": ms}


def short(h):
    return ((h >> 8) & 255, h & 255)


def segments(p, sizes):
    """Cut a complete control packet into segments with the given payload sizes."""
    hdr, pl = p[:4], p[4:]
    out, i = [], 0
    for n in sizes:
        if i + n >= len(pl):
            break
        out.append([hdr[0] | 0x10, hdr[1], hdr[2], n & 255] + pl[i:i + n])
        i += n
    rest = pl[i:]
    while len(rest) > 255:
        out.append([hdr[0] | 0x10, hdr[1], hdr[2], 255] + rest[:255])
        rest = rest[255:]
    out.append([hdr[0], hdr[1], hdr[2], len(rest) & 255] + rest)
    return out


class Gen:
    """Random walk over hosts, sessions and anchors.

    Keeps a rough idea of the state only to choose inputs that lead somewhere."""

    def __init__(self, rng, sid, weights=None, salt=None, mutex=None):
        self.r = rng
        self.id = sid
        self.steps = []
        self.hosts = []       # {c, h, alive, reset, s: {sid: {st, typ, mac, dst, dur}}}
        self.ctr = 0
        self.anchors = []
        self.salt = rng.choice([0, 1, 2, 3, 4, 5]) if salt is None else salt
        self.mutex = rng.random() < 0.2 if mutex is None else mutex
        self.w = weights or {}
        self.sids = rng.sample(SIDS, rng.choice([1, 2, 2, 3]))

    # -- basics
    def script(self):
        return {"id": self.id, "salt": self.salt, "mutex": self.mutex, "steps": self.steps}

    def add(self, acts, ms=None):
        if ms is None:
            ms = self.r.choice([10, 12, 15, 20])
        self.steps.append(step(acts, ms))

    def used(self):
        return set(self.anchors) | {short(x["h"]) for x in self.hosts if x["alive"]}

    def connect(self):
        while short(self.ctr) in self.used():
            self.ctr += 1
        h = self.ctr
        self.ctr += 1
        x = {"c": len(self.hosts), "h": h, "alive": True, "reset": False, "s": {}}
        self.hosts.append(x)
        self.add([{"k": "conn", "n": 1 if self.mutex and self.r.random() < .5 else 0}])
        return x

    def live(self):
        return [x for x in self.hosts if x["alive"]]

    def host(self):
        l = self.live()
        return self.r.choice(l) if l else self.connect()

    def rhost(self):
        x = self.host()
        if not x["reset"] and self.r.random() < 0.97:
            self.send(x, reset())
            x["reset"] = True
        return x

    def send(self, x, *ps, ms=None):
        self.add(tx(x["c"], *ps), ms)

    def mac(self, ext=False):
        r = self.r
        if ext or r.random() < .06:
            return tuple(r.choice([[1, 2, 3, 4, 5, 6, 7, 8], [0, 1, 0, 0, 0, 0, 0, 0], [9, 9, 9, 9, 0, 0, 0, 1]]))
        pool = [short(i) for i in range(max(4, min(self.ctr + 2, 8)))] + [(1, 0), (255, 255), (0x12, 0x34)] + \
               [a for a in self.anchors if len(a) == 2]
        return r.choice(pool)

    def sid(self, x=None):
        r = self.r
        if x and x["s"] and r.random() < .8:
            return r.choice(list(x["s"]))
        return r.choice(self.sids) if r.random() < .9 else r.choice(SIDS)

    # -- sessions
    def value(self, pid, valid=True):
        r = self.r
        if pid in ENUMS:
            v = [r.choice(list(ENUMS[pid]))]
            if not valid:
                v = r.choice([[], [v[0], 0], [255], [max(ENUMS[pid]) + 1], [7] if 7 not in ENUMS[pid] else [200]])
        elif pid in FIXED:
            n = FIXED[pid]
            v = [r.choice([0, 1, 2, 127, 128, 255, r.randrange(256)]) for _ in range(n)]
            if pid == 9:
                d = r.choice([20, 50, 100, 0x1000000, 400])
                v = list(struct.pack("<I", d))
            if not valid:
                v = r.choice([v + [0], v[:-1], []])
        elif pid == 6:
            v = list(self.mac()) if valid else r.choice([[], [1], [1, 2, 3], [1] * 7, [1] * 9])
        elif pid == 7:
            v = [b for _ in range(r.choice([0, 1, 2, 3])) for b in self.mac()] if valid else r.choice([[1], [1] * 5])
        elif pid == 43:
            v = r.choice([[1, 2, 3, 4], [5, 6, 7, 8, 9, 10, 11, 12], [255] * 4]) if valid else r.choice([[1], [0] * 5, []])
        elif pid == 69:
            v = [r.randrange(256) for _ in range(r.choice([0, 1, 16, 32]))]
        elif pid == 70:
            v = [r.randrange(256) for _ in range(r.choice([16, 32]))] if valid else r.choice([[], [1], [1] * 17])
        else:
            v = [r.randrange(256) for _ in range(r.choice([0, 1, 2]))]
        return v

    def init(self):
        x = self.rhost()
        s = self.sid() if self.r.random() < .9 else self.sid(x)
        t = self.r.choice([0, 0, 1, 1, 1] + TYPES) if self.r.random() < .93 else self.r.choice([6, 9, 161, 255])
        self.send(x, s_init(s, t))
        if t in TYPES and s not in x["s"]:
            x["s"][s] = {"st": 0, "typ": t}

    def ensure(self, x, s, typ=None):
        if not x["reset"]:
            self.send(x, reset())
            x["reset"] = True
        if s not in x["s"]:
            t = self.r.choice([0, 1]) if typ is None else typ
            self.send(x, s_init(s, t))
            x["s"][s] = {"st": 0, "typ": t}
        return x["s"][s]

    def topo(self):
        """One controller and its controlees (and anchors), ready to range or nearly so."""
        r = self.r
        s = r.choice(self.sids)
        n = r.choice([2, 2, 3, 3, 4])
        while len(self.live()) < n:
            self.connect()
        team = r.sample(self.live(), n)
        ext = r.random() < .12
        typ = r.choice([0, 1, 1])
        ctl, rest = team[0], team[1:]
        addr = {}
        for x in team:
            addr[x["c"]] = short(x["h"]) if not ext else tuple([x["h"] & 255, 7, 0, 0, 0, 0, 0, 1])
            if r.random() < .1:
                addr[x["c"]] = self.mac(ext)
        anch = [a for a in self.anchors if len(a) == (8 if ext else 2)]
        dst = [addr[x["c"]] for x in rest] + r.sample(anch, min(len(anch), r.choice([0, 1, 2])))
        if r.random() < .15:
            dst.append(self.mac(ext))
        if r.random() < .1 and dst:
            dst.append(dst[0])
        r.shuffle(dst)
        dst = [d for d in dst if len(d) == (8 if ext else 2)][:9]
        for x in team:
            me = x is ctl
            e = self.ensure(x, s, typ)
            if e["st"] == 2 and r.random() < .8:
                self.send(x, stop(s)); e["st"] = 3
            if e["st"] != 0 and r.random() < .8:
                self.send(x, s_deinit(s), ms=12)
                x["s"].pop(s)
                e = self.ensure(x, s, typ)
            role, dt = (1, 1) if me else (0, 0)
            if r.random() < .2:
                role = 1 - role
            if r.random() < .04:
                dt = 1 - dt
            mydst = dst if me else [addr[ctl["c"]]] + ([self.mac(ext)] if r.random() < .2 else [])
            if r.random() < .05:
                mydst = [self.mac(ext)]
            mydst = [d for d in mydst if len(d) == (8 if ext else 2)]
            extra = []
            if r.random() < .15:
                extra.append((0x0E, [r.choice([0, 0, 1, 2, 3])]))
            if r.random() < .3:
                extra.append((0x2F, [r.choice([0, 0, 1, 3])]))
            if r.random() < .2:
                extra.append((0x02, [r.choice([4, 4, 1])]))
            t = app(role=role, typ=dt, mac=addr[x["c"]], dst=mydst, dur=r.choice(DURS), extra=extra,
                    mode=2 if ext else (0 if r.random() < .1 else None), multi=1 if r.random() < .8 else None)
            self.send(x, *segments(set_app(s, t), []))
            if e["st"] == 0:
                e["st"] = 3
            e.update(mac=addr[x["c"]], dst=list(mydst), ctl=me)
        for x in r.sample(team, len(team)):
            if r.random() < .9:
                self.send(x, start(s), ms=r.choice([10, 12, 17, 23]))
                x["s"][s]["st"] = 2

    def setapp_any(self):
        r = self.r
        x = self.rhost()
        s = self.sid(x)
        e = self.ensure(x, s) if r.random() < .9 else x["s"].get(s, {"st": 0})
        n = r.choice([0, 1, 1, 2, 3, 5, 9])
        t = []
        if e["st"] == 0 and r.random() < .5:
            t = app(mac=self.mac(False), dst=[self.mac(False)], dur=r.choice(DURS))
            t = [q for q in t if r.random() < .97]
        for _ in range(n):
            pid = r.choice(PARAMS) if r.random() < .93 else r.choice([28, 30, 51, 54, 77, 99, 160, 227, 255, 74, 6, 7])
            if pid == 9 and e["st"] == 0 and r.random() < .5:
                continue
            t.insert(r.randrange(len(t) + 1), (pid, self.value(pid, r.random() < .85)))
        t = t[:200]
        self.send(x, *segments(set_app(s, t), []))
        if e["st"] == 0 and len(t) >= 8:
            e["st"] = 3

    def getapp_any(self):
        r = self.r
        x = self.rhost()
        ids = [r.choice(PARAMS) for _ in range(r.choice([0, 1, 1, 2, 4, 10]))]
        if r.random() < .1:
            ids.append(r.choice([28, 55, 77, 160, 255, 1]))
        self.send(x, get_app(self.sid(x), ids))

    def mcast(self):
        r = self.r
        x = self.rhost()
        cand = [s for s in x["s"] if x["s"][s].get("ctl")]
        s = r.choice(cand) if cand and r.random() < .9 else self.sid(x)
        e = x["s"].get(s, {})
        act = r.choice([0, 0, 1, 1, 1, 2, 3])
        n = r.choice([0, 1, 1, 1, 2, 3, 8, 9])
        dst = e.get("dst", [])
        lst = []
        for _ in range(n):
            m = r.choice(dst) if dst and r.random() < (.75 if act == 1 else .15) else self.mac()
            lst.append(bytes(m[:2]) + struct.pack("<I", r.choice([0, s])) + {2: bytes(16), 3: bytes(32)}.get(act, b""))
        if act == 1 and r.random() < .15:
            lst = [bytes(m[:2]) + bytes(4) for m in dst]
        if r.random() < .08:
            self.send(x, multicast(s, act, lst, n=len(lst) + r.choice([-1, 1]) & 255))
        elif r.random() < .04:
            self.send(x, multicast(s, act, lst, extra=b"\0"))
        else:
            self.send(x, *segments(multicast(s, act, lst), []))
            if e.get("st") in (2, 3) and "dst" in e:
                for b in lst:
                    m = tuple(b[:2])
                    if act == 1:
                        e["dst"] = [d for d in e["dst"] if d != m]
                    elif m not in e["dst"] and len(e["dst"]) < 8:
                        e["dst"].append(m)
                if act == 1 and not e["dst"] and e["st"] == 2:
                    e["st"] = 3

    def start(self):
        x = self.rhost()
        s = self.sid(x)
        self.send(x, start(s))
        if x["s"].get(s, {}).get("st") == 3:
            x["s"][s]["st"] = 2

    def stop(self):
        x = self.rhost()
        s = self.sid(x)
        self.send(x, stop(s))
        if x["s"].get(s, {}).get("st") == 2:
            x["s"][s]["st"] = 3

    def deinit(self):
        x = self.rhost()
        s = self.sid(x)
        self.send(x, s_deinit(s))
        x["s"].pop(s, None)

    def reset(self):
        x = self.host()
        self.send(x, reset(self.r.choice([0, 0, 0, 0, 1])) if self.r.random() < .9 else reset())
        x["s"], x["reset"] = {}, True

    def queries(self):
        r = self.r
        x = self.rhost()
        s = self.sid(x)
        k = r.randrange(9)
        if k == 0: self.send(x, s_count())
        elif k == 1: self.send(x, s_state(s))
        elif k == 2: self.send(x, rng_count(s))
        elif k == 3: self.send(x, dev_info())
        elif k == 4: self.send(x, caps_info())
        elif k == 5: self.send(x, power_stats())
        elif k == 6: self.send(x, country([r.randrange(256), r.randrange(256)]))
        elif k == 7: self.core_cfg()
        else: self.send(x, s_state(s), s_count(), rng_count(s))

    def core_cfg(self):
        r = self.r
        x = self.rhost()
        ids = [r.choice([0, 1, 1, 2, 5, 255]) for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < .5:
            self.send(x, set_config([(i, self.r.choice([[0], [1], [], [2], [0, 1], [255, 0]])) for i in ids]))
            self.send(x, get_config([0, 1]))
        else:
            self.send(x, get_config(ids))

    def data(self):
        r = self.r
        x = self.host()
        s = self.sid(x)
        n = r.choice([0, 1, 5, 20, 100, 255, 300, 900])
        if r.random() < .03:
            n = r.choice([1003, 1007, 1008, 2000, 5000])
        p = data_snd(s, bytes(r.randrange(256) for _ in range(n)), seq=r.choice([0, 1, 7, 255, 256, 513]),
                     dest=r.choice([0, 1, 1 << 63]))
        k = r.random()
        if k < .05: p = p[:r.randrange(4, max(5, len(p)))]
        elif k < .08: p = data_snd(s, b"xy", n=r.choice([0, 1, 3, 65535]))
        elif k < .12: p = data_snd(s, b"abc", dpf=r.choice([0, 2, 3, 15]))
        elif k < .14: p = [2, 0, 0, 0] + list(sid4(s)) + [0] * 9 + [0, 0] + [0, 0]
        elif k < .18: p = data_snd(s, b"abc", pbf=1)
        self.send(x, p, ms=r.choice([10, 12, 60]))

    def junk(self):
        r = self.r
        x = self.host()
        k = r.randrange(10)
        body = [r.choice([0, 1, 2, 5, 255, r.randrange(256)]) for _ in range(r.choice([0, 0, 1, 4, 5, 6, 9, 40]))]
        if k < 4:
            p = ctrl(1, r.choice([0, 1, 2, 12, 0, 1, 2, 3, 9, 10, 11, 13, 14, 15, 4, 5, 8]), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 32, 63, 64, 128, 192, 200]), body)
        elif k < 5:
            p = ctrl(r.choice([2, 3]), r.randrange(16), r.randrange(64), body)
        elif k < 9:
            good = r.choice([reset(), dev_info(), set_config([(1, [1])]), get_config([1]), s_init(self.sid(x), 0), s_deinit(self.sid(x)),
                             set_app(self.sid(x), [(9, [100, 0, 0, 0])]), get_app(self.sid(x), [9]), s_count(), s_state(self.sid(x)),
                             multicast(self.sid(x), 0, [bytes(6)]), start(self.sid(x)), stop(self.sid(x)), rng_count(self.sid(x)), power_stats(), country([1, 2])])
            j = r.randrange(4)
            if j == 0: p = good + [r.randrange(256)]
            elif j == 1: p = good[:-1] if len(good) > 4 else good + [0]
            elif j == 2:
                p = list(good); i = r.randrange(1, len(p)); p[i] ^= 1 << r.randrange(8)
                if p[0] >> 5 > 3: p = good
            else: p = good + good[4:]
            if p[0] == 0x20 and p[1] & 63 == 0 and len(p) == 5 and p[4] == 0 and x["reset"]:
                x["s"] = {}
            # a mutated init must not start anything unknown to the walk: harmless
        else:
            p = [0x20 | r.randrange(16), r.randrange(256), r.randrange(256), 0] + body
        self.send(x, p)
        if x["reset"] is False and self.r.random() < .5:
            self.send(x, reset()); x["reset"] = True

    def segmented(self):
        r = self.r
        x = self.rhost()
        s = self.sid(x)
        p = r.choice([s_count(), s_state(s), get_app(s, [r.choice(PARAMS) for _ in range(6)]),
                      set_app(s, [(9, [100, 0, 0, 0]), (45, [3])] + [(15, [i, 0]) for i in range(90)]),
                      get_config([0, 1]), caps_info(), ctrl(1, 14, 0, bytes(300))])
        segs = segments(p, [r.choice([0, 1, 2, 3, 5, 100, 254, 255]) for _ in range(r.choice([1, 2, 4]))])
        if r.random() < .5:
            i = r.randrange(len(segs))
            segs[i:i] = [data_snd(s, b"in between", seq=3)]
        if r.random() < .5:
            self.send(x, *segs)
        else:
            for q in segs:
                self.send(x, q)

    def anchor(self):
        r = self.r
        ext = r.random() < .2
        k = r.random()
        m = r.choice(self.anchors) if self.anchors and r.random() < .5 else self.mac(ext)
        if r.random() < .15:
            m = short(r.randrange(self.ctr + 3))
        if k < .6:
            self.add([{"k": "anc", "p": list(m)}])
            if m not in self.used():
                self.anchors.append(m); self.ctr += 1
        elif k < .95:
            self.add([{"k": "and", "p": list(m)}])
            if m in self.anchors:
                self.anchors.remove(m)
        else:
            self.add([{"k": "ancx", "p": list(m)}])
            if m not in self.used():
                self.anchors.append(m); self.ctr += 1

    def leave(self):
        r = self.r
        x = self.host()
        k = r.random()
        if k < .55:
            self.add([{"k": "eof", "c": x["c"]}], 12)
        elif k < .7:
            self.add(tx(x["c"], s_count()) + [{"k": "eof", "c": x["c"]}], 12)
        elif k < .9:
            if x.pop("held", False):
                self.add([{"k": "flow", "c": x["c"]}])
            self.add([{"k": "brk", "c": x["c"]}], 12)
            self.add(tx(x["c"], dev_info()), 12)
        else:
            self.add([{"k": "eof", "c": x["c"]}], 12)
            self.add([{"k": "qdis", "c": x["h"]}], 12)
        x["alive"] = False

    def slow(self):
        """A host stops reading for a while, or reads on."""
        held = [x for x in self.live() if x.get("held")]
        x = self.r.choice(held) if held and self.r.random() < .6 else self.host()
        x["held"] = not x.get("held")
        self.add([{"k": "hold" if x["held"] else "flow", "c": x["c"]}])

    def flow(self):
        for x in self.live():
            if x.pop("held", False):
                self.add([{"k": "flow", "c": x["c"]}])

    def stale(self):
        """What is still in the queue when its device or session is gone, or not active."""
        r = self.r
        k = r.randrange(4)
        h = r.choice([x["h"] for x in self.hosts] + [self.ctr + 5]) if self.hosts else 3
        s = r.choice(self.sids)
        if k < 2: self.add([{"k": "qrng", "c": h, "s": list(sid4(s)), "n": r.choice([1, 1, 2, 5])}])
        elif k == 2: self.add([{"k": "qstp", "p": list(self.mac()), "s": list(sid4(s))}])
        else: self.add([{"k": "qpkt", "c": h, "p": r.choice([s_count(), dev_info()])}])

    def time(self):
        self.add([], self.r.choice([10, 40, 77, 100, 150, 300, 1000]))

    def burst(self):
        """Several packets of one host back to back."""
        r = self.r
        x = self.rhost()
        s = self.sid(x)
        e = self.ensure(x, s)
        ps = []
        for _ in range(r.choice([2, 3, 4, 6])):
            k = r.randrange(9)
            ps += [[s_count()], [s_state(s)], [start(s)], [stop(s)], [s_deinit(s), s_init(s, 1)], [dev_info()],
                   [get_config([0])], [rng_count(s)], [s_state(s)]][k]
            if k == 2 and e["st"] == 3: e["st"] = 2
            if k == 3 and e["st"] == 2: e["st"] = 3
            if k == 4: e = x["s"][s] = {"st": 0, "typ": 1}
        self.send(x, *ps)

    def race(self):
        """Inputs of several hosts at the same instant."""
        r = self.r
        if len(self.live()) < 2: self.connect()
        acts = []
        for x in r.sample(self.live(), 2):
            if not x["reset"]: continue
            s = self.sid(x)
            acts += tx(x["c"], r.choice([start(s), stop(s), s_count(), s_state(s)]))
        if r.random() < .3:
            acts.append({"k": "anc", "p": list(self.mac())})
            m = tuple(acts[-1]["p"])
            if m not in self.used():
                self.anchors.append(m); self.ctr += 1
        self.add(acts)

    def probe(self):
        """Read everything back."""
        for x in self.live():
            if not x["reset"]:
                continue
            ps = [s_count(), get_config([0, 1])]
            for s in sorted(set(self.sids) | set(x["s"])):
                ps += [s_state(s), rng_count(s)]
            self.send(x, *ps)
            for s in x["s"]:
                have = [p for p in PARAMS if p not in (0, 1, 3, 6, 17, 34)]
                self.send(x, get_app(s, have), get_app(s, [0, 1, 3, 6, 17, 34]))

    OPS = {"connect": 2, "init": 4, "topo": 8, "setapp_any": 6, "getapp_any": 4, "mcast": 8, "start": 6, "stop": 6,
           "deinit": 3, "reset": 1.5, "queries": 6, "core_cfg": 2, "data": 6, "junk": 6, "segmented": 2, "anchor": 4,
           "leave": 2, "slow": 1.5, "stale": 3, "time": 10, "burst": 3, "race": 3, "probe": 2}

    def walk(self, n):
        self.connect()
        self.connect()
        for x in self.live():
            if self.r.random() < .8:
                self.send(x, reset()); x["reset"] = True
        w = dict(self.OPS)
        w.update(self.w)
        names = list(w)
        while len(self.steps) < n:
            op = self.r.choices(names, [w[k] for k in names])[0]
            if op == "connect" and len(self.live()) >= 5:
                continue
            if op == "leave" and len(self.live()) <= 1:
                continue
            getattr(self, op)()
        self.flow()
        self.probe()
        return self.script()
