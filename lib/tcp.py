"""Scripts for UCI hosts on the real servers: random walks of gen.Gen over real sockets, with pcapng files; real-time ranging."""
import random
import gen, scene
from scene import http, one, par, text, tx
from uci import app, reset, s_init, set_app, start, stop, rng_count, s_state

LONG = 1 << 30


def framed(p):
    """The packet with the length of its payload in the header, or None."""
    p = list(p)
    if len(p) < 4 or p[0] >> 5 > 3:
        return None
    n = len(p) - 4
    if p[0] >> 5 == 0:
        p[2:4] = list(n.to_bytes(2, "little"))
    elif n > 255:
        return None
    else:
        p[3] = n
    return p


class Tcp(gen.Gen):
    """Random walk over hosts and sessions; no ranging rounds happen (the intervals are long)."""
    def __init__(self, rng, ident, binary, pcap=False):
        super().__init__(rng, ident, {"anchor": 4 if binary == "pica-http" else 0, "stale": 0, "time": 0, "connect": 3, "leave": 3}, 0, False)
        self.bin, self.pcap = binary, pcap

    def script(self):
        s = {"id": self.id, "bin": self.bin, "steps": self.steps}
        return dict(s, pcap="on") if self.pcap else s

    def value(self, pid, valid=True):
        return list(LONG.to_bytes(4, "little")) if pid == 9 and valid else super().value(pid, valid)

    def cut(self, p):
        r = self.r
        if r.random() < .8 or len(p) > 2000:
            return []
        return sorted(r.sample(range(1, len(p)), min(len(p) - 1, r.choice([1, 1, 2, 3]))))

    def add(self, acts, ms=None):
        r, out = self.r, []
        for a in acts:
            k = a["k"]
            if k == "conn":
                out.append({"k": "conn"})
            elif k == "tx":
                if not self.hosts[a["c"]]["alive"]:
                    continue
                p = framed(a["p"])
                # Every message is complete by the end of its step: the step ends with a query.
                if p is not None and len(acts) == 1:
                    p[0] &= 0xEF
                if p is not None:
                    out.append({"k": "tx", "c": a["c"], "p": p, "cuts": self.cut(p)})
            elif k in ("eof", "brk"):
                out.append({"k": "eof", "c": a["c"], "n": 0 if k == "eof" and self.bin == "pica" else r.randrange(2)})
                # Without the scene to look at, the end of the stream is how one sees that the server has dealt with it.
                if self.bin == "pica":
                    out[-1]["n"] = 0
            elif k in ("anc", "and") and self.bin == "pica-http":
                out.append(http("create-anchor" if k == "anc" else "destroy-anchor", text(a["p"])))
        if any(a["k"] == "eof" for a in out):
            self.steps.append(one(*out))
        elif out:
            self.steps.append(par(*out))

    def segmented(self):
        keep, self.add = self.add, lambda acts, ms=None: self.held.extend(acts)
        self.held = []
        try:
            super().segmented()
        finally:
            self.add = keep
        # The host is reset first, if it has to be.
        first = [a for a in self.held if a["p"][:2] == [0x20, 0]]
        for a in first:
            self.add([a])
        self.add([a for a in self.held if a not in first])

    def leave(self):
        x = self.host()
        self.add((gen.tx(x["c"], gen.s_count()) if self.r.random() < .4 else []) + [{"k": "eof", "c": x["c"]}])
        x["alive"] = False

    def race(self):
        """Inputs of two hosts at the same time."""
        r = self.r
        if len(self.live()) < 2:
            self.connect()
        acts = []
        for x in r.sample(self.live(), 2):
            s = self.sid(x)
            acts += gen.tx(x["c"], r.choice([start(s), stop(s), gen.s_count(), s_state(s), reset()]))
            if acts[-1]["p"] == reset():
                x["s"], x["reset"] = {}, True
        self.add(acts)


def walk(rng, ident, n, binary, pcap):
    durs = gen.DURS
    gen.DURS = [LONG, LONG - 1, None]
    try:
        return Tcp(rng, ident, binary, pcap).walk(n)
    finally:
        gen.DURS = durs


def plain_ranging(rng, name, pcap=False):
    """Ranging of a few hosts in real time: rounds, stops, starts, hosts that leave."""
    r = rng
    n = r.choice([2, 3])
    steps = [one({"k": "conn"}) for _ in range(n)]
    steps += [one(tx(c, reset())) for c in range(n)]
    sids = r.choice([[1], [0xFFFFFFFF], [5, 0x100]]) if n == 2 else [7]
    for sid in sids:
        for c in range(n):
            ctl = c == 0
            dst = [(0, h) for h in range(1, n)] if ctl else [(0, 0)]
            steps.append(one(tx(c, s_init(sid, r.choice([0, 1])))))
            steps.append(one(tx(c, set_app(sid, app(role=1 if ctl else 0, typ=1 if ctl else 0, mac=(0, c), dst=dst, multi=1,
                                                    dur=r.choice([60, 90, 130]), extra=[] if ctl else [(0x0E, [0])])))))
    for sid in sids:
        for c in range(1, n):
            if r.random() < .85:
                steps.append(one(tx(c, start(sid))))
        steps.append({"ph": [{"a": [tx(0, start(sid))], "sin": [[0, 2]]}]})
    on, left = set(range(1, n)), []
    for i in range(6):
        k = r.randrange(6)
        sid = r.choice(sids)
        if k < 3 and on:
            c = r.choice(sorted(on))
            steps.append({"ph": [{"a": [tx(c, r.choice([stop, start])(sid))], "sin": [[0, 2]]}]})
        elif k == 3:
            steps.append({"ph": [{"a": [tx(0, rng_count(sid))], "sin": [[0, 1]]}]})
        elif k == 4 and len(on) > 1 and not left:
            c = r.choice(sorted(on))
            on.discard(c)
            left.append(c)
            steps.append({"ph": [{"a": [{"k": "eof", "c": c, "n": 0}], "sin": [[0, 2]]}]})
        else:
            steps.append({"ph": [{"a": [tx(0, stop(sid))]}]})
            steps.append({"ph": [{"a": [tx(0, start(sid))], "sin": [[0, 1]]}]})
    for sid in sids:
        steps.append(one(tx(0, stop(sid))))
        steps.append(one(tx(0, rng_count(sid))))
    s = {"id": name, "bin": "pica", "steps": steps}
    return dict(s, pcap="on") if pcap else s
