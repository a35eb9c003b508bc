"""Scripts aimed at one property each: boundary values, rare orders, unusual combinations.

Like gen.py this only chooses inputs; the specification says what must happen."""
import itertools, struct
from gen import *

READ = [p for p in PARAMS if p not in (0, 1, 3, 6, 17, 34)]
NEED = [0, 1, 3, 6, 17, 34]


class S:
    """A script under construction."""

    def __init__(self, ident, salt=0, mutex=False, tcp=False, pcap=None):
        self.id, self.salt, self.mutex, self.steps, self.n = ident, salt, mutex, [], 0
        self.tcp, self.pcap = tcp, pcap

    def conn(self, n=1):
        for _ in range(n):
            self.steps.append(step([{"k": "conn"}]))
            self.n += 1
        return self

    def tx(self, c, *ps, ms=12):
        self.steps.append(step(tx(c, *ps), ms))
        return self

    def acts(self, *a, ms=12):
        self.steps.append(step(list(a), ms))
        return self

    def wait(self, ms):
        self.steps.append(step([], ms))
        return self

    def hosts(self, n):
        """n connected, reset hosts."""
        self.conn(n)
        for c in range(self.n - n, self.n):
            self.tx(c, reset())
        return self

    def ready(self, c, sid, typ, tlvs, ms=12):
        return self.tx(c, s_init(sid, typ), *segments(set_app(sid, tlvs), []), ms=ms)

    def probe(self, c, *sids):
        ps = [s_count(), get_config([0, 1])]
        for s in sids:
            ps += [s_state(s), rng_count(s), get_app(s, READ), get_app(s, NEED)]
        return self.tx(c, *ps)

    def script(self):
        d = {"id": self.id, "salt": self.salt, "mutex": self.mutex, "steps": self.steps}
        if self.tcp:
            d["tcp"] = True
        if self.pcap:
            d["pcap"] = self.pcap
        return d


def anc(m):
    return {"k": "anc", "p": list(m)}


def and_(m):
    return {"k": "and", "p": list(m)}


def qrng(h, sid, n=1):
    return {"k": "qrng", "c": h, "s": list(sid4(sid)), "n": n}


def entries(ms, sid=0, key=0):
    return [bytes(m[:2]) + struct.pack("<I", sid) + bytes(key) for m in ms]


def duo(s, sid=1, typ=0, dur=50, a=0, b=1, extra=(), start_=True):
    """Controller on connection a, controlee on b (handles equal to the connections)."""
    s.ready(a, sid, typ, app(role=1, mac=short(a), dst=[short(b)], dur=dur, multi=1, extra=extra))
    s.ready(b, sid, typ, app(role=0, mac=short(b), dst=[short(a)], dur=dur, multi=1))
    if start_:
        s.tx(a, start(sid)).tx(b, start(sid))
    return s


# ---------------------------------------------------------------------------------------------------
def c01(r, big):
    """Everything that could upset the emulator, next to a pair of hosts that keep ranging."""
    out = []
    # every group and opcode, several body lengths, before and after a reset
    lens = [0, 1, 4, 5, 6, 9, 30]
    combos = [(g, o) for g in range(16) for o in list(range(0, 12)) + [32, 33, 34, 35, 63, 64, 127, 128, 255]]
    r.shuffle(combos)
    for part in range(4):
        s = S("c01-op-%d" % part, salt=r.choice([0, 1]))
        s.hosts(3)
        duo(s, dur=500)
        if part % 2:
            s.conn(); s.tx(3, s_count())
        c = 3 if part % 2 else 2
        todo = combos[part::4]
        while todo:
            ps = []
            for g, o in todo[:6]:
                if (g, o & 63) == (0, 0) and part % 2:
                    continue
                body = bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice(lens)))
                ps.append(ctrl(1, g, o, body))
            todo = todo[6:]
            s.tx(c, *ps, ms=10)
            if r.random() < .2:
                s.tx(0, s_state(1), rng_count(1), ms=30)
        s.tx(0, s_state(1)).tx(1, s_state(1)).tx(c, s_count(), reset(), s_count())
        out.append(s.script())
    # truncations and extensions of every valid command, in several session states
    for st in range(4):
        s = S("c01-cut-%d" % st)
        s.hosts(3)
        duo(s, dur=400)
        if st >= 1: s.tx(2, s_init(7, 1))
        if st >= 2: s.tx(2, set_app(7, app(mac=(0, 2), dst=[(0, 9)])))
        if st >= 3: s.tx(2, start(7))
        good = [reset(), dev_info(), caps_info(), set_config([(1, [1])]), get_config([0, 1]), s_init(8, 0), s_deinit(9),
                set_app(7, [(9, [0, 1, 0, 0]), (14, [1])]), get_app(7, [9, 14]), s_count(), s_state(7),
                multicast(7, 0, entries([(1, 1), (1, 2)])), multicast(7, 2, entries([(1, 1)], 0, 16)),
                multicast(7, 3, entries([(1, 1)], 0, 32)), start(9), stop(9), rng_count(7), power_stats(), country([1, 2])]
        for g in good:
            if g[0] == 0x20 and g[1] == 0:
                continue
            var = []
            for k in range(len(g) - 4):
                var.append(g[:3] + [k] + g[4:4 + k])
            for k in (1, 3):
                var.append(g[:3] + [len(g) - 4 + k] + g[4:] + [r.randrange(256) for _ in range(k)])
            for _ in range(4):
                if len(g) > 4:
                    v = list(g); v[r.randrange(4, len(v))] = r.choice([0, 1, 254, 255, r.randrange(256)])
                    if v[0] != 0x20 or v[1] != 0: var.append(v)
            r.shuffle(var)
            var = var[:14]
            for i in range(0, len(var), 7):
                s.tx(2, *var[i:i + 7], ms=10)
            s.tx(2, s_count(), ms=10)
        s.tx(0, s_state(1), rng_count(1))
        out.append(s.script())
    # data packets: every format, cut short, lying lengths, huge
    s = S("c01-data")
    s.hosts(3)
    duo(s, typ=1, dur=60)
    for dpf in range(16):
        for body in (b"", b"\1", bytes(4), bytes(13), bytes(15), bytes([1, 0, 0, 0]) + bytes(12), bytes([1, 0, 0, 0]) + bytes(10) + b"\5\0" + b"abc",
                     bytes([1, 0, 0, 0]) + bytes(10) + b"\xff\xff" + b"abc"):
            s.tx(2 if r.random() < .5 else 0, [dpf | r.choice([0, 16]), r.choice([0, 1, 255]), len(body), 0] + list(body), ms=10)
    s.tx(0, s_state(1), rng_count(1), ms=100)
    for n in (0, 1000, 1024, 70000) if big else (0, 1024, 3000):
        s.tx(0, data_snd(1, bytes(n), n=n & 0xffff), ms=70)
    s.tx(0, s_state(1)).tx(1, s_state(1)).tx(2, s_count())
    out.append(s.script())
    # commands in the wrong state, on sessions that do not exist; unset parameters used by start, mcast, data
    s = S("c01-wrong")
    s.hosts(2)
    for typ in (0, 1, 5, 160):
        for pre in range(4):
            s.tx(0, s_init(7, typ))
            if pre >= 1: s.tx(0, set_app(7, app(mac=(0, 0), dst=[(0, 1)], dur=50)))
            if pre >= 2: s.tx(0, start(7))
            if pre >= 3: s.tx(0, stop(7))
            for p in (start(7), start(7), stop(7), stop(7), multicast(7, 0, entries([(1, 1)])), multicast(7, 1, entries([(0, 1)])),
                      multicast(7, 1, entries([(1, 1)])), data_snd(7, b"x"), [2, 0, 16, 0] + [7, 0, 0, 0] + [0] * 12,
                      [2, 0, 17, 0] + [7, 0, 0, 0] + [0] * 13, start(6), stop(6), s_deinit(6), multicast(6, 0, []), rng_count(6), s_state(6),
                      get_app(6, []), set_app(6, []), data_snd(6, b"x")):
                s.tx(0, p, ms=10)
            s.wait(60)
            s.tx(0, s_deinit(7)).tx(1, s_count())
    out.append(s.script())
    # hosts that do not read for a while: nobody else notices, and nothing they are due is lost
    for k in range(6):
        s = S("c01-slow-%d" % k, salt=1, mutex=k % 2 == 1)
        s.hosts(3)
        for c in range(3):
            s.ready(c, 1, 1, app(role=1 if c == 0 else 0, mac=short(c), dst=[short(x) for x in range(3) if (x == 0) != (c == 0)], dur=40, multi=1))
            if k != 2:
                s.tx(c, start(1), ms=10)
        slow = [{0}, {1}, {0, 1}, {2}, {1, 2}, {0, 1, 2}][k]
        s.acts(*[{"k": "hold", "c": c} for c in slow])
        for j in range(10):
            c = r.randrange(3)
            s.tx(c, *r.choice([[s_count(), s_state(1)], [data_snd(1, b"data %d" % j)], [stop(1), start(1)], [rng_count(1), get_config([0, 1])], [caps_info()],
                               [s_init(2 + j, 0), s_deinit(2 + j)], [ctrl(1, 14, 0, bytes(300))], [get_app(1, READ)], [multicast(1, 1, entries([short(2)]))]]),
                 ms=r.choice([10, 45, 100]))
            if r.random() < .3:
                s.acts({"k": r.choice(["flow", "hold"]), "c": r.choice(sorted(slow))})
        if k >= 4:
            s.acts({"k": "eof", "c": 1}, ms=100)
        # much at once: thousands of packets wait for the host
        s.acts(*[{"k": "hold", "c": c} for c in slow])
        s.tx(min(slow), *[s_count(), dev_info()] * 60, ms=10)
        for _ in range(10 if k == 0 else 2):
            s.acts(*[qrng(c, 1, 100) for c in slow], ms=10)
        if k == 2:
            for c in range(3):
                s.tx(c, stop(1), s_count(), ms=10)
            s.wait(1000000)
        s.tx(0, s_state(1), rng_count(1), ms=50).tx(2, s_state(1), rng_count(1), ms=50)
        s.acts(*[{"k": "flow", "c": c} for c in slow], ms=50)
        for c in (0, 2):
            s.tx(c, s_state(1), rng_count(1), s_count(), ms=50)
        out.append(s.script())
    # hosts that vanish in the middle of things
    for k in range(6):
        s = S("c01-gone-%d" % k)
        s.hosts(4)
        duo(s, dur=40, typ=1)
        s.ready(2, 1, 1, app(role=0, mac=(0, 2), dst=[(0, 0)], dur=40, multi=1)).tx(2, start(1))
        s.tx(0, data_snd(1, b"hello"), ms=10)
        if k == 0: s.acts({"k": "eof", "c": 1}, ms=100)
        if k == 1: s.acts({"k": "brk", "c": 1}, ms=100)
        if k == 2: s.acts({"k": "brk", "c": 0}, ms=100)
        if k == 3: s.acts({"k": "brk", "c": 0}, {"k": "brk", "c": 1}, {"k": "brk", "c": 2}, ms=100)
        if k == 4: s.acts(*(tx(1, stop(1), s_deinit(1)) + [{"k": "eof", "c": 1}]), ms=100)
        if k == 5: s.acts(*(tx(0, multicast(1, 1, entries([(0, 1)]))) + [{"k": "eof", "c": 0}]), ms=100)
        s.acts(qrng(0, 1), qrng(1, 1), {"k": "qpkt", "c": 1, "p": s_count()}, qrng(77, 1), ms=40)
        s.tx(3, s_count(), dev_info())
        s.conn(); s.tx(4, reset(), s_count())
        s.wait(100)
        out.append(s.script())
    # message types that are none
    for mt in (4, 5, 6, 7):
        s = S("c01-mt-%d" % mt)
        s.hosts(3)
        duo(s, dur=50)
        s.tx(2, ctrl(mt, 0, 2), ms=20)
        s.tx(0, s_state(1), ms=60).tx(1, s_state(1), ms=60)
        out.append(s.script())
    # responses and notifications from a host
    s = S("c01-backwards")
    s.hosts(2)
    for mt in (2, 3):
        for g in range(16):
            s.tx(0, *[ctrl(mt, g, o, bytes(r.choice([0, 1, 5]))) for o in (0, 1, 2, 3, 5, 63)], ms=10)
            s.tx(0, s_count(), ms=10)
    out.append(s.script())
    return out + tcp01(r, big)


def c02(r, big):
    out = []
    q = lambda sid: [s_count(), s_state(sid), rng_count(sid), get_config([0, 1]), dev_info(), start(sid), stop(sid), get_app(sid, [9]),
                     s_init(sid, 1), s_deinit(sid), ctrl(1, 1, 9), ctrl(1, 9, 3), ctrl(1, 5, 1), power_stats(), country([1, 2]),
                     set_app(sid, [(9, [0, 9, 0, 0])]), multicast(sid, 0, entries([(2, 2)])), multicast(sid, 1, entries([(2, 2)])), reset()]
    for k in range(12 if big else 5):
        s = S("c02-pipe-%d" % k, mutex=k % 3 == 2)
        s.hosts(2)
        duo(s, dur=300)
        for _ in range(60):
            c = r.choice([0, 1])
            s.tx(c, *[r.choice(q(r.choice([1, 1, 1, 2]))) for _ in range(r.choice([2, 3, 5, 8, 12]))], ms=r.choice([10, 15, 40]))
            if r.random() < .3:
                s.ready(c, 1, 1, app(role=1 - c, mac=short(c), dst=[short(1 - c)], multi=1, dur=300)).tx(c, start(1))
        out.append(s.script())
    # unknown everything: every opcode of every group on a reset and a not reset device
    for rst in (0, 1):
        s = S("c02-oids-%d" % rst)
        s.conn()
        if rst: s.tx(0, reset())
        for g in range(16):
            for o in range(0, 64, 8):
                ps = [ctrl(1, g, x | r.choice([0, 0, 64, 128, 192]), bytes(r.choice([0, 0, 1, 3]))) for x in range(o, o + 8)
                      if not (g == 0 and x == 0)]
                if r.random() < .3:
                    ps.insert(r.randrange(len(ps)), ctrl(r.choice([2, 3]), g, o, bytes(r.choice([0, 1, 4]))))
                s.tx(0, *ps, ms=10)
        s.tx(0, s_count(), get_config([0, 1]))
        out.append(s.script())
    return out


def dirty(r, s, c, sids, end=True):
    """Leaves device c with sessions in all states, and odd configurations."""
    for i, sid in enumerate(sids):
        k = r.randrange(5)
        s.tx(c, s_init(sid, r.choice([0, 1, 1, 2])))
        if k >= 1:
            extra = [(pid, Gen.value(FakeGen(r), pid, True)) for pid in r.sample([2, 4, 11, 12, 14, 15, 20, 46, 47, 45, 27], 4)]
            s.tx(c, *segments(set_app(sid, app(role=r.choice([0, 1]), mac=short(c), dst=[short(1 - c), (3, 3)], dur=r.choice([30, 50, 500]), extra=extra)), []))
        if k >= 2: s.tx(c, start(sid))
        if k >= 3: s.tx(c, data_snd(sid, b"pending"), ms=10)
        if k >= 4: s.wait(60)
    s.tx(c, set_config([(1, [0])]))


class FakeGen:
    def __init__(self, r):
        self.r, self.ctr, self.anchors = r, 4, []

    def mac(self, ext=False):
        return Gen.mac(self, ext)


def c03(r, big):
    out = []
    for k in range(14 if big else 8):
        s = S("c03-%d" % k, salt=r.choice([0, 1, 2]))
        s.conn(2).tx(1, reset())
        if k % 2:
            # the gate: nothing but reset does anything
            for p in (dev_info(), caps_info(), set_config([(1, [0])]), get_config([1]), s_init(1, 0), s_count(), s_state(1), start(1),
                      stop(1), rng_count(1), s_deinit(1), set_app(1, app()), get_app(1, [9]), multicast(1, 0, entries([(1, 1)])), power_stats(),
                      country([1, 2]), ctrl(1, 1, 9), ctrl(1, 2, 9), ctrl(1, 0, 9), ctrl(1, 12, 9), ctrl(1, 5, 0), data_snd(1, b"x"), ctrl(1, 0, 2, b"\0"), ctrl(1, 0, 0, b""),
                      ctrl(1, 0, 0, b"\0\0")):
                s.tx(0, p, ms=10)
        s.tx(0, reset(r.choice([0, 1, 255])))
        s.probe(0, 1)
        sids = r.sample(SIDS, 3)
        # the other device ranges with the same session ids
        s.ready(1, sids[0], 1, app(role=0, mac=(0, 1), dst=[(0, 0)], dur=40, multi=1)).tx(1, start(sids[0]))
        for rounds in range(3):
            dirty(r, s, 0, sids)
            s.wait(r.choice([10, 45, 100]))
            s.tx(0, *r.choice([[reset()], [reset(), s_count(), s_state(sids[0])], [reset(), reset()], [s_count(), reset(), get_config([0, 1])]]), ms=r.choice([10, 70, 200]))
            s.probe(0, *sids)
            s.acts(qrng(0, sids[0]), qrng(0, sids[1]))
            s.wait(120)
            # re-use the ids: everything is fresh
            s.tx(0, *[s_init(x, r.choice([0, 1])) for x in sids])
            s.probe(0, *sids)
            s.tx(0, *segments(set_app(sids[0], app(role=1, mac=(0, 0), dst=[(0, 1)], dur=30)), []))
            s.probe(0, *sids)
            s.tx(0, start(sids[0]), ms=70).tx(0, rng_count(sids[0]))
            s.tx(1, s_state(sids[0]), rng_count(sids[0]))
            s.tx(0, reset())
        out.append(s.script())
    return out


def c04(r, big):
    out = []
    for k in range(16 if big else 8):
        s = S("c04-%d" % k, mutex=k % 4 == 3)
        s.hosts(2)
        sids = r.sample(SIDS, 3)
        full = lambda c: app(role=1 - c, mac=short(c), dst=[short(1 - c)], multi=1, dur=r.choice([40, 400, None]))
        for _ in range(120):
            c, sid = r.choice([0, 0, 1]), r.choice(sids)
            p = r.choice([s_init(sid, r.choice([0, 1])), s_deinit(sid), start(sid), start(sid), stop(sid), stop(sid), set_app(sid, full(c)),
                          set_app(sid, full(c)), set_app(sid, full(c)[:5]), set_app(sid, [(9, [0, 1, 0, 0])]), set_app(sid, [(13, [1])]),
                          set_app(sid, full(c) + [(99, [1])]), multicast(sid, 0, entries([(2, 2)])), multicast(sid, 1, entries([short(1 - c)])), multicast(sid, 1, entries([(2, 2)])), reset() if r.random() < .15 else s_count()])
            s.tx(c, p, *[s_state(x) for x in sids], ms=r.choice([10, 10, 45]))
        out.append(s.script())
    return out


def c05(r, big):
    out = []
    s = S("c05-255", salt=1)
    s.hosts(2)
    ids = r.sample(range(1, 1 << 32), 200) + list(range(0x100, 0x100 + 50)) + [1, 0x10001, 0x01000001, 0, 0xffffffff, 0x7fffffff, 0x80000000]
    r.shuffle(ids)
    extra = ids[255:]
    for i in range(0, 255, 5):
        s.tx(0, *[s_init(x, r.choice(TYPES)) for x in ids[i:i + 5]], s_count(), ms=10)
    s.tx(0, s_init(extra[0], 0), s_count(), s_state(extra[0]), s_init(ids[3], 0), s_init(extra[1], 9), s_count())
    s.tx(0, s_deinit(extra[0]), s_count(), s_deinit(ids[17]), s_count(), s_state(ids[17]), s_init(extra[0], 0), s_count(), s_init(extra[1], 0), s_count())
    s.tx(1, s_count(), s_init(ids[5], 0), s_count())
    for x in r.sample(ids[:255], 40):
        s.tx(0, s_state(x), ms=10)
    for i in range(0, 250, 10):
        s.tx(0, *[s_deinit(x) for x in ids[i:i + 10]], s_count(), ms=10)
    s.tx(0, s_init(ids[0], 1), s_state(ids[0]), reset(), s_count(), s_state(ids[0]))
    out.append(s.script())
    # the table stays full through refusals, and the 255th place is usable
    s = S("c05-full")
    s.hosts(1)
    for i in range(0, 254, 10):
        s.tx(0, *[s_init(x, 0) for x in range(i, min(i + 10, 254))], ms=10)
    s.tx(0, s_count(), s_init(500, 1), s_count(), s_init(501, 1), s_count(), s_init(500, 1))
    s.tx(0, *segments(set_app(500, app(mac=(0, 0), dst=[(0, 1)], dur=40)), []), start(500), ms=100)
    s.tx(0, s_state(500), s_deinit(500), s_count(), s_init(502, 0), s_count(), s_init(503, 0), ms=100)
    out.append(s.script())
    # duplicates, with the existing session in every state; ids that share their low or high bits
    for k in range(6 if big else 3):
        s = S("c05-dup-%d" % k)
        s.hosts(2)
        ids = [1, 0x101, 0x10001, 0x1000001, 0x80000001, 0]
        for _ in range(60):
            c, x = r.choice([0, 0, 1]), r.choice(ids)
            full = app(role=1, mac=short(c), dst=[short(1 - c)], dur=r.choice([30, None]))
            p = r.choice([[s_init(x, 0)], [s_init(x, 1)], [s_init(x, 0), s_init(x, 1)], [s_deinit(x)], [s_deinit(x), s_deinit(x)], [set_app(x, full)], [start(x)],
                          [s_deinit(x), s_init(x, 1)], [s_init(x, 7)], [s_init(x, 1), set_app(x, full), start(x)], [s_deinit(x), s_init(x, 0), get_app(x, READ), get_app(x, [0])]])
            s.tx(c, *p, s_count(), s_state(x), ms=r.choice([10, 35]))
            if r.random() < .2:
                s.probe(c, x)
        for x in ids:
            s.probe(0, x)
        out.append(s.script())
    return out


def c06(r, big):
    out = []
    for k in range(12 if big else 6):
        s = S("c06-%d" % k, mutex=k % 3 == 2)
        s.hosts(3)
        sids = r.sample(SIDS, 3)
        full = lambda c, n=2: app(role=1 - min(c, 1), mac=short(c), dst=[short(1), short(2)][:n] if c == 0 else [short(0)], multi=1, dur=r.choice([40, 300, None]),
                                  extra=[(0x2F, [r.choice([0, 1, 1])])])
        for _ in range(50):
            c, x = r.choice([0, 0, 1, 2]), r.choice(sids)
            p = r.choice([[s_init(x, 0), set_app(x, full(c)), start(x)], [stop(x), start(x)], [stop(x), start(x), stop(x)], [s_deinit(x), s_init(x, 1)],
                          [start(x), s_deinit(x)], [s_init(x, 1)], [set_app(x, full(c)), set_app(x, full(c))], [stop(x)], [start(x), start(x)],
                          [multicast(x, 1, entries([short(1)]))], [multicast(x, 1, entries([short(1), short(2)]))], [multicast(x, 0, entries([short(1), short(2)]))],
                          [reset()] if r.random() < .3 else [start(x)]])
            s.tx(c, *p, ms=r.choice([10, 20, 60]))
            if r.random() < .4:
                for c in range(3):
                    s.tx(c, *[y for x in sids for y in (s_init(x, 1), set_app(x, full(c)))], ms=10)
                    s.tx(c, *[start(x) for x in sids], ms=10)
        out.append(s.script())
    return out


def c07(r, big):
    out = []
    for k in range(12 if big else 6):
        s = S("c07-%d" % k, mutex=k % 3 == 2)
        s.hosts(3)
        sids = [1, 257, 2]
        cfg = lambda c: app(role=1 - min(c, 1), mac=short(c), dst=[short(1), short(2)] if c == 0 else [short(0)], multi=1, dur=None)
        for c in range(3):
            for x in sids:
                s.ready(c, x, r.choice([0, 1]), cfg(c))
        g = get_config([0])
        for _ in range(90):
            c, x = r.choice([0, 0, 1, 2]), r.choice(sids)
            p = r.choice([[start(x)], [start(x)], [start(x)], [stop(x)], [s_deinit(x)], [s_init(x, 0), set_app(x, cfg(c))], [s_init(x, 0)], [set_app(x, cfg(c))],
                          [multicast(x, 1, entries([short(1)]))], [multicast(x, 1, entries([short(1), short(2)]))], [multicast(x, 0, entries([short(1), short(2)]))],
                          [stop(x), start(x)], [reset()] if r.random() < .25 else [start(x)], [set_config([(1, [r.choice([0, 1])])])]])
            s.tx(c, *p, g, ms=10)
            if r.random() < .3:
                for c in range(3):
                    s.tx(c, g, ms=10)
        out.append(s.script())
    return out


def c08(r, big):
    """Every parameter id, every length, every value of one-octet parameters; in INIT and in ACTIVE."""
    out = []
    vals = {}
    for pid in range(256):
        v = [[], [0], [1], [255]]
        if pid in ENUMS:
            v = [[x] for x in range(0, 24)] + [[31], [63], [64], [128], [254], [255], [], [0, 0], [1, 0]]
        elif pid in FIXED:
            n = FIXED[pid]
            v = [[r.randrange(256) for _ in range(m)] for m in (0, n - 1, n, n, n, n + 1, 2 * n, 17) if m >= 0]
        elif pid in SPECIAL:
            v = [[r.randrange(256) for _ in range(m)] for m in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 24, 31, 32, 33)]
        vals[pid] = v
    vals[9] = [x for x in vals[9] if len(x) != 4] + [[0, 0, 0, 48], [1, 2, 3, 64], [1, 0, 0, 0]]
    base = app(mac=(0, 0), dst=[(0, 1), (0, 2)])
    jobs = [(pid, v) for pid in range(256) for v in vals[pid]]
    r.shuffle(jobs)
    for part in range(8):
        s = S("c08-vals-%d" % part)
        s.hosts(1)
        mine = jobs[part::8]
        if part % 2:
            s.ready(0, 1, 1, base).tx(0, start(1))
        for i in range(0, len(mine), 3):
            ps = []
            for pid, v in mine[i:i + 3]:
                if part % 2:
                    ps += [set_app(1, [(pid, v)]), get_app(1, [pid])]
                else:
                    t = list(base)
                    t.insert(r.randrange(len(t) + 1), (pid, v))
                    ps += [s_init(1, r.choice([0, 1])), set_app(1, t), get_app(1, [pid] if pid in PARAMS else [9]), s_state(1), s_deinit(1)]
            s.tx(0, *ps, ms=12)
            if part % 2 and i % 60 == 0:
                s.tx(0, get_app(1, READ), get_app(1, NEED))
        out.append(s.script())
    # which parameters are mandatory; order, repetition, addresses of both kinds
    s = S("c08-must")
    s.hosts(1)
    for k in range(len(base)):
        t = base[:k] + base[k + 1:]
        s.tx(0, s_init(1, 0), set_app(1, t), s_state(1), get_app(1, READ), *[get_app(1, [x]) for x in NEED], set_app(1, [base[k]]), s_state(1), s_deinit(1), ms=15)
    for mode in (None, 0, 1, 2, 3):
        for mac in ((1, 2), (1, 2, 3, 4, 5, 6, 7, 8)):
            for dst in ([(1, 2)], [(1, 2), (3, 4)], [(1,) * 8], [(1,) * 8, (2,) * 8], [(3, 4)] * 4, []):
                for n in (None, 3):
                    t = app(mac=mac, dst=dst, n=n, mode=mode)
                    if r.random() < .4:
                        r.shuffle(t)
                    s.tx(0, s_init(1, 0), set_app(1, t), s_state(1), get_app(1, [5, 6, 7, 38]), s_deinit(1), ms=12)
    out.append(s.script())
    # in every state; several bad ones mixed with good ones
    for k in range(6 if big else 3):
        s = S("c08-mix-%d" % k)
        s.hosts(1)
        fg = FakeGen(r)
        for _ in range(40):
            st = r.randrange(4)
            s.tx(0, s_init(1, r.choice([0, 1, 1])))
            if st: s.tx(0, set_app(1, app(mac=(0, 0), dst=[(0, 1)])))
            if st >= 2: s.tx(0, start(1))
            if st >= 3: s.tx(0, stop(1))
            for _ in range(r.choice([1, 2, 3])):
                t = [(p, Gen.value(fg, p, r.random() < .8)) for p in (r.choice(PARAMS + [28, 99, 255] if r.random() < .3 else PARAMS) for _ in range(r.randrange(1, 12)))]
                t = [(p, v) for p, v in t if p != 9 or len(v) != 4 or v[3] >= 1]
                if r.random() < .5:
                    t = app(mac=(0, 0), dst=[(0, 1)]) + t
                if r.random() < .6:
                    t = [q for q in t if q[0] != 13]
                s.tx(0, *segments(set_app(1, t), []), s_state(1), get_app(1, READ), get_app(1, NEED), ms=12)
            s.tx(0, s_deinit(1))
        out.append(s.script())
    # other session types
    s = S("c08-types")
    s.hosts(1)
    for t in TYPES:
        s.tx(0, s_init(1, t), set_app(1, base), s_state(1), get_app(1, [9]), set_app(1, []), s_deinit(1))
    out.append(s.script())
    return out


def c09(r, big):
    out = []
    # every parameter: default, then set to valid values, read alone and together, in two sessions
    for k in range(8 if big else 4):
        s = S("c09-all-%d" % k)
        s.hosts(2)
        fg = FakeGen(r)
        for c in range(2):
            for x in (1, 0x101):
                s.tx(c, s_init(x, 1), get_app(x, READ), *[get_app(x, [p]) for p in NEED])
                s.tx(c, *segments(set_app(x, app(mac=short(c), dst=[(0, 1 - c)])), []), get_app(x, READ), get_app(x, NEED))
        # ACTIVE: parameters can be changed one by one
        for c in range(2):
            for x in (1, 0x101):
                s.tx(c, start(x))
        todo = [p for p in PARAMS if p != 13] * 2
        r.shuffle(todo)
        for p in todo:
            c, x = r.choice([0, 1]), r.choice([1, 0x101])
            v = Gen.value(fg, p, True)
            if p == 9:
                v = [r.randrange(256), r.randrange(256), r.randrange(256), 1 + r.randrange(120)]
            s.tx(c, set_app(x, [(p, v)]), get_app(x, [p]), get_app(x, [r.choice(PARAMS), p, r.choice(PARAMS), p]), ms=10)
            if r.random() < .15:
                s.probe(c, 1, 0x101)
        s.probe(0, 1, 0x101).probe(1, 1, 0x101)
        # unsupported and unset ones
        for p in range(256):
            if p % 4 == k % 4:
                s.tx(0, get_app(1, [p]), get_app(1, [9, p]), s_init(9, 1), get_app(9, [p]), get_app(9, [p, 14, p]), ms=10)
        out.append(s.script())
    # long values: UWB_INITIATION_TIME of both widths, long destination lists, responses of several segments
    s = S("c09-long")
    s.hosts(1)
    for n in (1, 2, 8, 20, 60, 100):
        dst = [(i, i + 1) for i in range(n)]
        s.tx(0, s_init(1, 1), *segments(set_app(1, app(mac=(0, 0), dst=dst, multi=1, extra=[(43, [1, 2, 3, 4])])), []),
             get_app(1, [7, 5, 43]), get_app(1, [29] * n), s_deinit(1), ms=15)
    out.append(s.script())
    return out


def c10(r, big):
    out = []
    for k in range(16 if big else 8):
        s = S("c10-time-%d" % k, salt=r.choice([0, 1]), mutex=k % 4 == 3)
        s.hosts(2)
        durs = [20, 21, 33, 47, 50, 100, 250, 1000]
        d = [r.choice(durs), r.choice(durs)]
        for c in range(2):
            s.ready(c, 1, r.choice([0, 1]), app(role=1 - c, mac=short(c), dst=[short(1 - c)], dur=d[c], multi=1,
                                                extra=[(14, [r.choice([1, 1, 1, 0, 2, 3])])]))
            s.ready(c, 2, 0, app(role=1 - c, mac=short(c), dst=[short(1 - c)], dur=r.choice(durs), multi=1))
        for _ in range(60):
            c, x = r.choice([0, 0, 1]), r.choice([1, 1, 2])
            p = r.choice([[start(x)], [start(x)], [stop(x)], [stop(x), start(x)], [rng_count(x)], [rng_count(x)], [set_app(x, [(9, struct.pack("<I", r.choice(durs)))])],
                          [set_app(x, [(14, [r.choice([0, 1, 1, 2])])])], [s_deinit(x)] if r.random() < .2 else [rng_count(x)],
                          [s_init(x, 0), set_app(x, app(role=1 - c, mac=short(c), dst=[short(1 - c)], dur=r.choice(durs), multi=1)), start(x)], [], []])
            s.tx(c, *p, rng_count(x), ms=r.choice([10, 13, 20, 50, 99, 100, 101, 250, 500]))
        out.append(s.script())
    # rounds already due when the session stops, ends, is reset or its host leaves
    for k in range(8):
        s = S("c10-stale-%d" % k)
        s.hosts(2)
        duo(s, dur=500, typ=1)
        s.tx(0, data_snd(1, b"late"), ms=10)
        end = [stop(1), s_deinit(1), reset(), multicast(1, 1, entries([(0, 1)]))][k % 4]
        if k < 4:
            s.tx(0, end, ms=10)
        else:
            s.acts(*(tx(0, end) if k < 7 else [{"k": "eof", "c": 0}]), qrng(1, 1), ms=10)
        s.acts(qrng(0, 1), ms=10).acts(qrng(0, 1, 3), qrng(0, 9), ms=600)
        s.probe(1, 1)
        if k != 7:
            s.probe(0, 1)
            s.tx(0, s_init(1, 1), set_app(1, app(mac=(0, 0), dst=[(0, 1)], dur=40, multi=1)), start(1), ms=100)
            s.tx(0, rng_count(1))
            s.acts(qrng(0, 1), ms=20).tx(0, rng_count(1))
        out.append(s.script())
    # many rounds: 16- and 8-bit boundaries of the sequence number
    s = S("c10-many")
    s.hosts(1)
    s.ready(0, 1, 0, app(mac=(0, 0), dst=[(0, 1)], dur=None)).tx(0, start(1))
    for _ in range(3):
        s.acts(qrng(0, 1, 100), ms=10)
    s.tx(0, rng_count(1), stop(1), start(1)).acts(qrng(0, 1, 2), ms=10).tx(0, rng_count(1))
    out.append(s.script())
    # durations beyond 8, 16 and 24 bits: the first rounds of each, and a round just before and just after it is due
    for k, d in enumerate((256, 300, 65535, 65536, 65537, 70000, 0x10100, 0x1000000, 0x1000100, 0x1fffff00)):
        s = S("c10-long-%d" % k)
        s.hosts(2)
        for c in range(2):
            s.ready(c, 1, 0, app(role=1 - c, mac=short(c), dst=[short(1 - c)], multi=1, dur=d))
        s.tx(0, start(1), ms=10).tx(1, start(1), ms=10)
        left = d - 20
        for w in (50, 200):
            if left > w + 20:
                s.wait(w)
                left -= w
        s.wait(left - 15).wait(20).wait(20)
        if d < 0x1000000:
            s.wait(d - 60).wait(40).wait(d // 2).tx(0, stop(1), ms=10).wait(d).tx(0, start(1), rng_count(1), ms=10).wait(d - 20).wait(20)
        s.tx(0, rng_count(1)).tx(1, rng_count(1))
        out.append(s.script())
    # a session per duration, all at once
    s = S("c10-multi")
    s.hosts(1)
    for i, d in enumerate((20, 30, 70, 110)):
        s.ready(0, i, 0, app(mac=(0, 0), dst=[(0, 1)], dur=d)).tx(0, start(i))
    for _ in range(12):
        s.wait(r.choice([15, 40, 100, 210]))
    s.tx(0, stop(2)).wait(200).tx(0, *[rng_count(i) for i in range(4)])
    out.append(s.script())
    return out


def c11(r, big):
    out = []
    combos = list(itertools.product([0, 1], [0, 1], [0, 1], [0, 1], [0, 1, 2], [0, 1, 2], [0, 1, 2]))
    r.shuffle(combos)
    for k, (ra, rb, ta, tb, la, lb, st) in enumerate(combos if big else combos[:160]):
        s = S("c11-pair-%d" % k, salt=r.choice([0, 0, 1, 2, 3]))
        s.hosts(3)
        ext = r.random() < .3
        ad = lambda h: (h, 7, 0, 0, 0, 0, 0, 1) if ext else short(h)
        mode = 2 if ext else None
        anchors = [((9, 9) + (0,) * 6) if ext else (9, 9), ((8, 8) + (1,) * 6) if ext else (8, 8)]
        if r.random() < .5:
            s.acts(anc(anchors[0]))
        lists = lambda me, other, l: [[other], [ad(7)], [ad(7), other, anchors[0]]][l]
        cfg = lambda h, o, role, typ, l: app(role=role, typ=typ, mac=ad(h), dst=lists(h, o, l), dur=None, multi=1, mode=mode)
        a = cfg(0, ad(1), ra, ta, la)
        b = cfg(1, ad(0), rb, tb, lb)
        bsid = 1 if st != 1 or r.random() < .5 else 2
        s.ready(0, 1, r.choice([0, 1]), a).ready(1, bsid, r.choice([0, 1]), b)
        s.tx(0, start(1))
        if st != 1:
            s.tx(1, start(bsid))
        if st == 2:
            s.ready(2, 1, 0, cfg(2, ad(0), rb, tb, lb)).tx(2, start(1))
            if r.random() < .5:
                s.tx(1, stop(bsid))
        s.acts(qrng(0, 1)).acts(qrng(1, bsid)).acts(qrng(2, 1))
        if r.random() < .3:
            s.acts(and_(anchors[0])).acts(qrng(0, 1))
        out.append(s.script())
    # many anchors and peers; several sessions of a device; roles beyond 0 and 1
    for k in range(20 if big else 10):
        s = S("c11-many-%d" % k, salt=r.choice([0, 1, 2, 3, 4, 5]))
        n = r.choice([3, 4, 5])
        s.hosts(n)
        an = [(9, i) for i in range(r.choice([0, 3, 8]))]
        for m in an:
            s.acts(anc(m))
        for sid in (1, 2):
            for c in range(n):
                ro = r.choice([0, 1, 0, 1, 2, 3, 4])
                dst = r.sample([short(i) for i in range(n) if i != c], r.randrange(n)) + r.sample(an, r.randrange(len(an) + 1)) + [(7, 7)]
                r.shuffle(dst)
                mac = short(c) if r.random() < .9 else short((c + 1) % n)
                s.ready(c, sid, r.choice([0, 1]), app(role=ro, typ=r.choice([0, 1]), mac=mac, dst=dst, dur=None, multi=1))
                if r.random() < .85:
                    s.tx(c, start(sid))
        for _ in range(4):
            s.acts(*[qrng(c, sid) for c in range(n) for sid in (1, 2)], ms=20)
            if an and r.random() < .5:
                m = r.choice(an)
                s.acts(and_(m)).acts(*[qrng(c, 1) for c in range(n)])
                s.acts(anc(m))
            c = r.randrange(n)
            s.tx(c, r.choice([stop(1), start(1), s_deinit(2), set_app(1, [(7, [0, 0, 0, 1]), (5, [2])]), set_app(1, [(17, [r.choice([0, 1])])]),
                              set_app(1, [(6, [0, r.randrange(n)])])]))
        s.acts({"k": "eof", "c": n - 1}).acts(*[qrng(c, sid) for c in range(n - 1) for sid in (1, 2)])
        out.append(s.script())
    # the two-way values: every pair of handles under several estimators
    for salt in (1, 2, 3, 4, 5, 6):
        s = S("c11-est-%d" % salt, salt=salt)
        s.hosts(4)
        an = [(9, 1), (9, 2), (9, 3)]
        for m in an:
            s.acts(anc(m))
        for c in range(4):
            s.ready(c, 1, 0, app(role=c % 2, typ=c // 2, mac=short(c), dst=[short(i) for i in range(4)] + an, dur=None, multi=1)).tx(c, start(1))
        for c in range(4):
            s.acts(qrng(c, 1))
            s.tx(c, set_app(1, [(17, [1 - c % 2])])).acts(qrng(c, 1))
        out.append(s.script())
    return out


def c12(r, big):
    out = []
    for k in range(30 if big else 14):
        s = S("c12-%d" % k, salt=r.choice([0, 0, 1, 2]))
        n = r.choice([2, 3, 4])
        s.hosts(n)
        sids = [1, 2]
        cfg = {}
        for c in range(n):
            for sid in sids:
                role = 1 if c == 0 or r.random() < .2 else 0
                dst = [short(i) for i in range(1, n)] if c == 0 else [short(0)]
                if r.random() < .3:
                    dst = [(6, 6)]
                cfg[c, sid] = app(role=role, typ=1, mac=short(c) if r.random() < .9 else (5, 5), dst=dst, dur=None, multi=1)
                s.ready(c, sid, r.choice([1, 1, 1, 0]), cfg[c, sid])
                if r.random() < .8:
                    s.tx(c, start(sid))
        for j in range(25):
            c, sid = r.choice([0, 0, 0] + list(range(n))), r.choice([1, 1, 2, 3])
            size = r.choice([0, 1, 2, 3, 16, 200, 1003, 1007, 1008, 1009, 1010, 1024, 2040, 300])
            p = r.choice([[data_snd(sid, bytes(r.randrange(256) for _ in range(size)), seq=r.randrange(65536))]] * 6 +
                         [[data_snd(sid, b"a"), data_snd(sid, b""), data_snd(sid, b"bc")], [stop(sid)], [start(sid)], [s_deinit(sid)],
                          [s_init(sid, 1), set_app(sid, cfg.get((c, sid), cfg[c, 1])), start(sid)], [stop(sid), start(sid)],
                          [[2, 0, 18, 0] + list(sid4(sid)) + [0] * 9 + [1, 0, 1, 0]], [s_deinit(sid), data_snd(sid, b"zz")]])
            s.tx(c, *p, ms=10)
            if r.random() < .6:
                s.acts(qrng(r.choice([0, 0, c]), sid), ms=10)
            if r.random() < .1:
                s.acts(qrng(0, 1), qrng(0, 2), qrng(0, 1), ms=10)
        for c in range(n):
            s.acts(qrng(c, 1), qrng(c, 2), ms=10)
        out.append(s.script())
    # sizes
    for k, sizes in enumerate([[1003], [1004], [1007], [1008], [1009], [1024], [2016], [500, 504], [900] * 3] + ([[60000, 5535], [65535, 1], [65535] * 2, [1000] * 70] if big else [[65535, 1]])):
        s = S("c12-size-%d" % k)
        s.hosts(2)
        duo(s, typ=1, dur=None)
        for j, n in enumerate(sizes):
            b = bytes(r.randrange(256) for _ in range(min(n, 997))) * (n // 997 + 1)
            s.tx(0, data_snd(1, b[:n], seq=j), ms=10)
        s.acts(qrng(0, 1), ms=20).acts(qrng(0, 1), ms=20)
        out.append(s.script())
    # before the session is active, across stop/start, and gone with the session
    for k in range(6):
        s = S("c12-life-%d" % k)
        s.hosts(3)
        duo(s, typ=1, dur=80, start_=False)
        s.ready(2, 1, 1, app(role=0, mac=(0, 2), dst=[(0, 0)], dur=None, multi=1))
        s.tx(0, data_snd(1, b"early"), ms=10)
        s.tx(1, start(1), ms=10)
        if k == 1: s.tx(0, s_deinit(1), s_init(1, 1), set_app(1, app(role=1, mac=(0, 0), dst=[(0, 1)], dur=80, multi=1)))
        if k == 2: s.tx(0, reset(), s_init(1, 1), set_app(1, app(role=1, mac=(0, 0), dst=[(0, 1)], dur=80, multi=1)))
        s.tx(0, start(1), ms=100)
        s.tx(0, data_snd(1, b"one"), ms=10).tx(0, data_snd(1, b"two"), ms=10)
        if k == 3: s.tx(0, stop(1), ms=100).tx(0, start(1))
        if k == 4: s.tx(1, stop(1), ms=100).tx(1, start(1))
        if k == 5: s.tx(2, start(1)).tx(0, set_app(1, [(17, [0])]), ms=100).tx(0, set_app(1, [(17, [1])]))
        s.wait(200)
        out.append(s.script())
    return out


def c13(r, big):
    out = []
    for k in range(24 if big else 12):
        s = S("c13-%d" % k)
        s.hosts(3)
        multi = r.choice([1, 1, 1, 1, 0])
        dst = [short(1), short(2)] + [(4, i) for i in range(r.choice([0, 2, 4, 5, 6]))]
        sts = r.choice([None, None, 4, 3])
        extra = ([(2, [sts])] if sts else []) + [(0x2F, [r.choice([0, 1, 2])])]
        s.ready(0, 1, r.choice([0, 1]), app(role=1, typ=1 if r.random() < .9 else 0, mac=short(0), dst=dst, multi=multi, dur=None, extra=extra))
        for c in (1, 2):
            s.ready(c, 1, 0, app(role=0, typ=0, mac=short(c), dst=[short(0)], multi=1, dur=None)).tx(c, start(1))
        if r.random() < .7:
            s.tx(0, start(1))
        pool = dst + [(4, i) for i in range(10)] + [(5, 5)]
        for _ in range(45):
            act = r.choice([0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 255])
            ms = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 8, 9, 10, 12]))]
            if r.random() < .3 and ms:
                ms.append(ms[0])
            es = entries(ms, r.choice([0, 7]), {2: 16, 3: 32}.get(act, 0))
            q = r.random()
            if q < .1: p = multicast(1, act, es, n=(len(es) + r.choice([1, 255])) & 255)
            elif q < .15: p = multicast(1, act, es, extra=bytes(r.choice([1, 6])))
            elif q < .2: p = multicast(1, act, entries(ms, 0, r.choice([0, 16, 32])))
            elif q < .23: p = multicast(1, 1, entries(dst))
            else: p = multicast(1, act, es)
            s.tx(0, *segments(p, []), get_app(1, [5, 7]), s_state(1), ms=10)
            if r.random() < .15:
                s.tx(0, *r.choice([[start(1)], [stop(1)], [start(1)], [set_app(1, [(5, [2]), (7, [0, 1, 0, 2])])], [set_app(1, [(2, [4])])],
                                   [s_deinit(1), multicast(1, 0, entries([(4, 4)])), s_init(1, 0), multicast(1, 0, entries([(4, 4)])), set_app(1, app(role=1, mac=short(0), dst=dst, multi=1, dur=None))]]))
                s.tx(1, start(1)).tx(2, start(1))
        s.tx(1, s_state(1)).tx(2, s_state(1))
        out.append(s.script())
    # exactly 8, from every size
    s = S("c13-eight")
    s.hosts(1)
    for n0 in range(0, 11):
        for add in (1, 2, 8, 9):
            s.ready(0, 1, 0, app(role=1, mac=short(0), dst=[(4, i) for i in range(n0)], multi=1, dur=None))
            s.tx(0, multicast(1, 0, entries([(5, i) for i in range(add)])), get_app(1, [5, 7]), multicast(1, 0, entries([(6, 6), (4, 0)])),
                 multicast(1, 1, entries([(4, 0), (6, 6), (4, 0)])), multicast(1, 0, entries([(6, 6)])), get_app(1, [5, 7]), s_deinit(1), ms=10)
    out.append(s.script())
    # emptied while active, several ways
    for k in range(4):
        s = S("c13-empty-%d" % k)
        s.hosts(2)
        s.ready(0, 1, 0, app(role=1, mac=short(0), dst=[short(1), (3, 3)], multi=1, dur=40)).ready(0, 2, 0, app(role=1, mac=short(0), dst=[short(1)], multi=1, dur=30))
        s.tx(0, start(1))
        if k % 2: s.tx(0, start(2))
        if k < 2: s.tx(0, multicast(1, 1, entries([(3, 3), short(1)])))
        else: s.tx(0, multicast(1, 1, entries([(3, 3)])), multicast(1, 1, entries([short(1)])))
        s.wait(100).probe(0, 1, 2)
        s.tx(0, start(1), multicast(1, 1, entries([short(1)])), multicast(1, 0, entries([short(1)])), ms=100).probe(0, 1, 2)
        out.append(s.script())
    return out


def c14(r, big):
    out = []
    for k in range(30 if big else 14):
        s = S("c14-%d" % k, salt=r.choice([0, 0, 1]))
        n = r.choice([3, 4, 5])
        s.hosts(n)
        same = r.random() < .5
        addr = {c: short(c) for c in range(n)}
        if same:
            addr[n - 1] = short(1)
        ext = r.random() < .15
        att = lambda: [(0x2F, [r.choice([0, 1, 1, 2, 255])])] if r.random() < .7 else []
        for sid in (1, 257):
            s.ready(0, sid, r.choice([0, 1]), app(role=1, mac=short(0), dst=[addr[c] for c in range(1, n - (1 if same else 0))], multi=1, dur=60, extra=att()))
            for c in range(1, n):
                s.ready(c, sid, r.choice([0, 1]), app(role=0, mac=addr[c], dst=[short(0)] if r.random() < .8 else [(9, 9)], multi=1, dur=60))
        for c in range(n):
            s.tx(c, *[start(x) for x in (1, 257) if r.random() < .85], ms=10)
        for _ in range(12):
            sid = r.choice([1, 257])
            ms = r.sample(list(addr.values()), r.choice([1, 1, 2])) if r.random() < .85 else [(9, 9)]
            s.tx(0, multicast(sid, 1, entries(ms)), ms=r.choice([10, 70]))
            for c in range(1, n):
                s.tx(c, s_state(1), s_state(257), get_config([0]), ms=10)
            if r.random() < .7:
                s.tx(0, multicast(sid, 0, entries(ms)), start(sid), *([set_app(sid, [(0x2F, [r.choice([0, 1, 10])])])] if r.random() < .5 else []))
            for c in range(1, n):
                if r.random() < .6:
                    s.tx(c, start(sid), ms=10)
            if r.random() < .15:
                c = r.randrange(1, n)
                s.tx(c, r.choice([stop(sid), s_deinit(sid), s_init(sid, 0), set_app(sid, [(6, list(r.choice(list(addr.values()))))])]))
        out.append(s.script())
    return out


def c15(r, big):
    out = []
    # commands in segments, everything in between
    for k in range(16 if big else 8):
        s = S("c15-seg-%d" % k)
        s.hosts(2)
        duo(s, typ=1, dur=None)
        msgs = [s_count(), s_state(1), get_app(1, PARAMS[:40]), set_app(1, [(15, [i, 0]) for i in range(30)] + [(45, [3])]), get_config([0, 1, 1, 0]), caps_info(), dev_info(),
                multicast(1, 0, entries([(3, i) for i in range(8)])), multicast(1, 1, entries([(3, i) for i in range(8)])), set_app(1, [(15, [i, 1]) for i in range(60)]),
                set_app(1, [(15, [i, 1]) for i in range(150)]), rng_count(1), ctrl(1, 14, 0, bytes(700)), ctrl(1, 1, 9, bytes(300)), get_app(1, [9] * 240)]
        for _ in range(30):
            m = r.choice(msgs)
            n = len(m) - 4
            sizes = r.choice([[0], [1], [1] * 8, [r.randrange(0, n + 1)], [255], [254], [0, 0, 0], [r.randrange(0, 40) for _ in range(6)], [n], [n - 1] if n else [0]])
            segs = segments(m, sizes)
            if sizes == [n] and n <= 255:
                segs = [[m[0] | 16, m[1], m[2], n] + m[4:], [m[0], m[1], m[2], 0]]
            if len(segs) > 1 and r.random() < .6:
                for _ in range(r.choice([1, 1, 2])):
                    segs.insert(r.randrange(len(segs) + 1), data_snd(r.choice([1, 1, 5]), b"between", seq=r.randrange(9)))
            if r.random() < .5:
                s.tx(0, *segs, ms=10)
            else:
                for q in segs:
                    s.tx(0, q, ms=10)
                    if r.random() < .1:
                        s.tx(1, s_count(), ms=10)
                        s.acts(qrng(0, 1), ms=10)
            if r.random() < .3:
                s.tx(0, s_count(), get_app(1, [15, 45, 7]), ms=10)
            if r.random() < .1:
                s.acts(qrng(0, 1), ms=10)
        out.append(s.script())
    # very long commands, what counts being at their end
    s = S("c15-huge")
    s.hosts(2)
    s.ready(0, 1, 1, app(mac=(0, 0), dst=[(0, 1)], dur=None, multi=1))
    s.tx(1, s_init(1, 1))
    for total in [900, 1000, 1010, 1019, 1020, 1021, 1024, 1030, 1100, 1500, 2047, 2048, 2050, 3000, 4095, 4097, 9000, 16384, 40000] + ([60000] if big else []):
        tl, left, i = [], total, 0
        while left > 300:
            n = r.randrange(244, 256) if total > 20000 else r.randrange(120, 250)
            tl.append((0xE0 + r.randrange(4), [i & 255] * n)); left -= n + 2; i += 1
        while left > 4 and len(tl) < 250:
            tl.append((15, [i & 255, 3])); left -= 4; i += 1
        tl += [(45, [total & 255]), (15, [total & 255, total >> 8 & 255])]
        for x in (tl, tl + [(0, [9])]):
            s.tx(0, *segments(set_app(1, x), [r.randrange(1, 255) for _ in range(4)]), ms=10).tx(0, get_app(1, [15, 45]), ms=10)
    for n in (40, 41, 42, 43, 84, 85, 127, 128, 169, 170, 171, 200, 255):
        s.tx(0, *segments(multicast(1, 0, entries([(n, i) for i in range(n)])), [r.randrange(256)] if n % 2 else []), get_app(1, [7, 5]), ms=10)
        s.tx(0, *segments(multicast(1, 1, entries([(n, i) for i in range(n)])), []), get_app(1, [7, 5]), ms=10)
    s.tx(0, *segments(get_app(1, [45, 15] * 120 + [7]), [10] * 20), *segments(ctrl(1, 1, 3, bytes(3000)), []), *segments(set_config([(1, [0] * 250)] * 9 + [(1, [1])]), []), get_config([1]), ms=10)
    out.append(s.script())
    # long responses: every length around the segment boundaries; long notifications; long data
    s = S("c15-long")
    s.hosts(2)
    s.ready(0, 1, 1, app(mac=(0, 0), dst=[(0, 1)], dur=None))
    targets = [253, 254, 255, 256, 257, 508, 509, 510, 511, 512, 764, 765, 766, 1020]
    for t in targets:
        ids, left = [], t - 2
        while left > 12:
            ids.append(29); left -= 10            # 8-octet parameter
        # the rest from 3- and 4-octet ones
        fit = {3: [14], 4: [15], 6: [14, 14], 7: [14, 15], 8: [15, 15], 9: [14] * 3, 10: [29], 11: [14, 15, 15], 12: [15] * 3, 5: [], 0: [], 1: [], 2: []}[left]
        s.tx(0, get_app(1, ids + fit), ms=10)
    out.append(s.script())
    s = S("c15-ntf", salt=0)
    s.hosts(2)
    an = [(9, i) for i in range(12)]
    for m in an:
        s.acts(anc(m))
    for n in range(5, 13):
        s.ready(0, n, 0, app(mac=(0, 0), dst=an[:n], dur=None, multi=1)).tx(0, start(n)).acts(qrng(0, n)).tx(0, s_count(), s_deinit(n))
    duo(s, sid=1, typ=1, dur=None)
    for n in (1003, 1006, 1007, 1008, 1009, 1024, 2030, 2031, 2032, 3060):
        s.tx(0, data_snd(1, bytes((i * 7 + n) % 256 for i in range(n))), ms=10).acts(qrng(0, 1), qrng(1, 1), ms=10)
    s.acts(qrng(0, 1), *tx(1, get_app(1, [29] * 40), s_count()), ms=10)
    out.append(s.script())
    return out + tcp15(r, big)


def stream_cuts(r, b, how):
    """The octets b in pieces."""
    if how == "each":
        at = range(1, len(b))
    elif how == "header":
        at = [i for i in range(1, min(6, len(b)))]
    else:
        at = sorted(r.sample(range(1, len(b)), min(len(b) - 1, r.choice([1, 1, 2, 3, 5]))))
    out, i = [], 0
    for j in list(at) + [len(b)]:
        out.append(list(b[i:j])); i = j
    return out


def raw(c, b):
    return {"k": "raw", "c": c, "p": list(b)}


def tcp15(r, big):
    """Real byte streams, cut anywhere."""
    out = []
    for k in range(12 if big else 5):
        s = S("c15-tcp-%d" % k, tcp=True, mutex=k % 3 == 2, salt=k % 3)
        s.hosts(2)
        duo(s, typ=1, dur=None)
        def message():
            return r.choice([[s_count()], [s_state(1)], [get_app(1, [15, 45, 7])], segments(set_app(1, [(15, [i, 0]) for i in range(r.choice([3, 30, 70, 90]))]), r.choice([[], [0], [1, 2, 3], [100]])),
                             [data_snd(1, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 100, 255, 256, 300, 1003, 1010, 1024, 1100]))), seq=r.randrange(9))], [caps_info()], [dev_info()],
                             [ctrl(1, 1, 9, bytes(r.choice([0, 1, 255])))], [[0x41, 2, 0, 3, 1, 2, 3]], [[0x61, 2, 0, 1, 0]], [get_app(1, [29] * 40)],
                             segments(ctrl(1, 14, 0, bytes(300)), [100, 0, 1]), [[0x0f, 0xff, 2, 0, 1, 2]], [[0x10, 0, 1, 0, 9]]])
        for i in range(16):
            ms = [message() for _ in range(r.choice([1, 1, 2, 3, 6]))]
            b = [x for m in ms for p in m for x in p]
            q = r.random()
            if q < .25:
                s.acts(raw(0, b), ms=10)
            elif q < .35 and len(b) < 60:
                for piece in stream_cuts(r, b, "each"):
                    s.acts(raw(0, piece), ms=10)
            else:
                for piece in stream_cuts(r, b, r.choice(["header", "some", "some"])):
                    s.acts(raw(0, piece), *([raw(1, s_state(1))] if r.random() < .2 else []), ms=10)
            if r.random() < .3:
                s.acts(qrng(0, 1), qrng(1, 1), ms=10)
        out.append(s.script())
    return out


def tcp01(r, big):
    """Hosts that leave in the middle of things, others that stay."""
    out = []
    for k in range(10 if big else 4):
        s = S("c01-tcp-%d" % k, tcp=True, mutex=k % 2 == 1)
        s.hosts(3)
        duo(s, typ=1, dur=None)
        s.ready(2, 1, 1, app(role=0, mac=short(2), dst=[short(0)], multi=1)).tx(2, start(1))
        for i in range(5):
            s.conn(); c = s.n - 1
            part = r.choice([[], [0x20], [0x20, 0, 0], [0x20, 0, 0, 1], [0x21, 2, 0, 4, 1], [0, 1, 255, 255] + [7] * 40, [0x30, 0, 0, 1, 0], [1, 0, 0, 0, 0, 0, 0x20, 0, 0],
                             [0x21, 1, 0, 255] + [1] * 254])
            if r.random() < .5:
                s.tx(c, reset(), s_count())
            if r.random() < .5:
                s.ready(c, 1, 1, app(role=0, mac=short(c), dst=[short(0)], multi=1)).tx(c, start(1))
                if r.random() < .5:
                    s.tx(0, multicast(1, 0, entries([short(c)])))
            if part:
                s.acts(raw(c, part), ms=10)
            if r.random() < .4:
                s.acts(qrng(0, 1), ms=10)
            s.acts({"k": "eof", "c": c, "n": r.choice([0, 1])}, *(tx(r.choice([0, 2]), s_count(), data_snd(1, b"bye")) if r.random() < .5 else []), ms=10)
            s.tx(0, data_snd(1, b"hello"), s_state(1)).acts(qrng(0, 1), qrng(2, 1))
            s.probe(0, 1).probe(2, 1)
        out.append(s.script())
    # everything at once, nothing left out: thousands of octets in both directions
    s = S("c01-tcp-flood", tcp=True)
    s.hosts(2)
    duo(s, typ=1, dur=None)
    s.tx(0, *[get_app(1, [29] * 40) for _ in range(60)], ms=10)
    s.tx(0, *[s_count() for _ in range(200)], ms=10)
    s.tx(1, *[data_snd(1, bytes(1000)) for _ in range(20)], ms=10)
    s.acts(qrng(0, 1), qrng(1, 1), ms=10)
    s.probe(0, 1).probe(1, 1)
    out.append(s.script())
    return out


def c18(r, big):
    out = []
    for k in range(10 if big else 5):
        tcp = k % 3 == 1
        s = S("c18-%d" % k, salt=k % 3, mutex=k % 4 == 3, tcp=tcp, pcap="on")
        s.hosts(2)
        duo(s, typ=1, dur=None)
        s.conn()
        for i in range(30):
            c = r.randrange(2)
            p = r.choice([[s_count()], [ctrl(1, 1, 9, bytes(i % 9))], [get_app(1, [29] * 40)], segments(set_app(1, [(15, [i, 0]) for i in range(r.choice([3, 30, 90]))]), r.choice([[], [0], [1, 2, 3], [100]])),
                          [data_snd(1, bytes(range(r.randrange(0, 256))), seq=r.randrange(9))], [data_snd(1, bytes(r.choice([1003, 1008, 1009, 2040])))], [caps_info(), dev_info(), s_state(1)],
                          [multicast(1, 0, entries([(3, i)])), multicast(1, 1, entries([(3, i)]))], [set_app(1, [(45, [i])])], [ctrl(1, 14, 1, bytes(i)) for i in range(8)],
                          [[0x41, 2, 0, i % 5] + [1] * (i % 5)], segments(ctrl(1, 14, 0, bytes(300)), [100, 0, 1])])
            s.acts(*tx(c, *p), *(tx(1 - c, s_count(), data_snd(1, b"x" * i)) if r.random() < .4 else []), ms=10)
            if r.random() < .4:
                s.acts(qrng(0, 1), *(tx(0, s_state(1)) if r.random() < .5 else []), ms=10)
            if r.random() < .1:
                s.acts({"k": "nap", "n": r.choice([1, 70, 140])}, ms=10)
            if r.random() < .08 and s.n < 7:
                s.conn()
                s.tx(s.n - 1, reset(), s_count())
            if r.random() < .08 and s.n > 3:
                c = s.n - 1
                s.acts(*(tx(c, s_count(), dev_info()) if r.random() < .6 else []), {"k": "eof", "c": c, "n": 0}, ms=10)
                s.conn()
        out.append(s.script())
    s = S("c18-paced", pcap="on")
    s.hosts(2)
    duo(s, dur=100)
    for i in range(12):
        s.acts({"k": "nap", "n": [0, 1, 66, 3, 132][i % 5]}, *tx(0, s_count(), s_state(1)), ms=r.choice([10, 100, 250]))
    s.acts({"k": "brk", "c": 1}, *tx(1, s_count()), ms=10).acts(*tx(1, s_count()), ms=10).tx(0, s_count())
    s.conn().tx(2, reset(), caps_info())
    out.append(s.script())
    for k, how in enumerate(["none", "file"]):
        s = S("c18-unusable-%s" % how, pcap=how, tcp=k == 1)
        s.hosts(2)
        duo(s, typ=1, dur=None)
        for i in range(6):
            s.tx(0, s_count(), data_snd(1, b"hi"), get_app(1, [29] * 40)).acts(qrng(0, 1))
        s.acts({"k": "eof", "c": 1}).conn().tx(2, reset(), s_count()).probe(0, 1)
        out.append(s.script())
    return out


def c16(r, big):
    out = []
    for k in range(20 if big else 10):
        s = S("c16-%d" % k, mutex=k % 4 == 3)
        pool = [short(i) for i in range(14)] + [(1, 0), (9, 9), (0, 1, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0, 0, 1), (1, 2, 3, 4, 5, 6, 7, 8)]
        gone = set()
        for _ in range(40):
            q = r.random()
            m = r.choice(pool)
            if q < .35: s.acts(anc(m), ms=10)
            elif q < .6: s.acts(and_(m), ms=10)
            elif q < .66: s.acts({"k": "ancx", "p": list(m)}, ms=10)
            elif q < .74: s.acts(anc(m), anc(m), and_(m), and_(m), anc(r.choice(pool)), ms=10)
            elif q < .8: s.acts(and_(m), anc(m), and_(m), anc(m), ms=10)
            elif q < .92: s.conn()
            else:
                live = [c for c in range(s.n) if c not in gone]
                if live:
                    c = r.choice(live); gone.add(c)
                    s.acts({"k": "eof", "c": c}, ms=10)
        out.append(s.script())
    # anchors sitting on the addresses that come next
    s = S("c16-ahead")
    for i in range(2, 30, 3):
        s.acts(anc(short(i)))
    s.hosts(8)
    for c in range(8):
        s.tx(c, s_count())
    for i in range(2, 30, 3):
        s.acts(and_(short(i)))
    s.conn(4)
    out.append(s.script())
    # handles beyond 255 and 65535: addresses repeat, devices still there keep theirs
    s = S("c16-wrap")
    s.acts(anc((0, 5))).hosts(2)
    s.acts(anc((1, 4)))
    s.acts({"k": "churn", "n": 240}).conn(20)
    s.tx(3, reset(), s_init(1, 0), s_count())
    out.append(s.script())
    return out


def c17(r, big):
    out = []
    for k in range(24 if big else 12):
        s = S("c17-%d" % k, mutex=k % 3 == 2)
        s.hosts(3)
        duo(s, typ=1, dur=40)
        s.ready(2, 1, 1, app(role=0, mac=(0, 2), dst=[(0, 0)], dur=40, multi=1)).tx(2, start(1))
        s.tx(0, set_app(1, [(7, [0, 1, 0, 2]), (5, [2])]))
        alive = {0, 1, 2}
        for _ in range(14):
            q = r.random()
            if q < .25 and len(alive) > 1:
                c = r.choice(sorted(alive)); alive.discard(c)
                how = r.randrange(5)
                if how == 0: s.acts({"k": "eof", "c": c}, ms=50)
                elif how == 1: s.acts({"k": "brk", "c": c}, ms=10).tx(c, s_count(), ms=50)
                elif how == 2: s.acts({"k": "brk", "c": c}, {"k": "eof", "c": c}, ms=50)
                elif how == 3: s.acts(*(tx(c, s_count(), stop(1)) + [{"k": "eof", "c": c}]), ms=50)
                else: s.acts({"k": "brk", "c": c}, ms=100).acts({"k": "eof", "c": c})
                s.acts(qrng(c, 1), {"k": "qpkt", "c": c, "p": s_count()})
                if how == 0: s.acts({"k": "qdis", "c": c})
            elif q < .5:
                s.conn(); c = s.n - 1; alive.add(c)
                s.tx(c, s_count(), reset(), s_count(), s_state(1))
                s.ready(c, 1, 1, app(role=0, mac=short(c), dst=[(0, 0)], dur=40, multi=1)).tx(c, start(1))
            else:
                c = r.choice(sorted(alive))
                s.tx(c, *r.choice([[data_snd(1, b"to all")], [s_state(1), rng_count(1)], [s_count()], [multicast(1, 1, entries([short(r.choice(sorted(alive)))]))],
                                   [start(1)]]), ms=r.choice([10, 45, 90]))
        for c in sorted(alive):
            s.tx(c, s_count(), s_state(1), ms=50)
        out.append(s.script())
    s = S("c17-churn")
    s.hosts(2)
    duo(s, dur=100)
    for _ in range(5):
        s.acts({"k": "churn", "n": r.choice([1, 5, 20])})
        s.tx(0, s_state(1))
    s.conn(3)
    out.append(s.script())
    return out


def c22(r, big):
    out = []
    for k in range(6 if big else 3):
        s = S("c22-%d" % k)
        s.hosts(2)
        s.ready(0, 1, 0, app(mac=(0, 0), dst=[(0, 1)], dur=None))
        for i in range(150):
            ids = [r.choice([0, 1, 0, 1, 2, 3, 127, 128, 255, r.randrange(256)] if r.random() < .3 else [0, 1]) for _ in range(r.choice([0, 1, 2, 3, 5, 10, 100]))]
            tl = [(r.choice([1, 1, 0, 2, 128, 255] if r.random() < .5 else [1]), [r.randrange(3) for _ in range(r.choice([0, 1, 1, 1, 2, 5]))]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            p = r.choice([[get_config(ids)], [get_config(ids)], [set_config(tl), get_config([1, 0])], [set_config(tl)], [dev_info()], [caps_info()], [power_stats()], [country([r.randrange(256), 1])],
                          [start(1)], [stop(1)], [start(1), set_config([(1, [0])]), get_config([0, 1]), stop(1)], [reset(), get_config([1])] if r.random() < .2 else [start(1)],
                          [s_init(1, 0), set_app(1, app(mac=(0, 0), dst=[(0, 1)], dur=None))]])
            s.tx(r.choice([0, 0, 0, 1]), *p, get_config([0, 1]), ms=10)
        out.append(s.script())
    return out


def c24(r, big):
    out = []
    for k in range(20 if big else 10):
        # the same session ids and even the same addresses on all devices; everyone does everything
        s = S("c24-%d" % k, salt=r.choice([0, 1, 2]), mutex=k % 4 == 3)
        n = 3
        s.hosts(n)
        sids = [1, 257]
        def cfg(c):
            return app(role=r.choice([0, 1]), typ=r.choice([0, 1]), mac=r.choice([short(c), (7, 7)]), dst=[r.choice([short(i) for i in range(n)] + [(7, 7)])], multi=1, dur=r.choice([None, None, 70]),
                       extra=[(45, [r.randrange(256)]), (0x2F, [r.choice([0, 0, 1])])])
        for _ in range(45):
            c, x = r.randrange(n), r.choice(sids)
            p = r.choice([[s_init(x, r.choice([0, 1])), set_app(x, cfg(c))], [start(x)], [start(x)], [stop(x)], [s_deinit(x)], [set_app(x, [(45, [r.randrange(256)])])],
                          [set_config([(1, [r.choice([0, 1])])])], [multicast(x, 0, entries([(4, 4)]))], [multicast(x, 1, entries([(4, 4)]))], [data_snd(x, b"hello")],
                          [reset()] if r.random() < .3 else [start(x)], [ctrl(1, 1, 9)], [s_init(x, 9)]])
            s.tx(c, *p, ms=10)
            o = r.choice([i for i in range(n) if i != c])
            s.tx(o, s_count(), get_config([0, 1]), *[y for x in sids for y in (s_state(x), rng_count(x), get_app(x, READ), get_app(x, NEED))], ms=10)
        out.append(s.script())
    return out


DIRECTED = {n.upper(): f for n, f in list(globals().items()) if n[0] == "c" and n[1:].isdigit()}


def directed(prop, r, big=False):
    out = DIRECTED[prop](r, big) if prop in DIRECTED else []
    for s in out:
        s["tag"] = prop
    return out


def own(prop, r):
    """Long scripts which only the property's own check runs."""
    if prop == "C16":
        # handles beyond 65535: addresses repeat, devices and anchors still there keep theirs
        s = S("c16-65536")
        s.acts(anc((0, 5))).hosts(2)
        s.acts(anc((1, 4)))
        s.acts({"k": "churn", "n": 240}).conn(20)
        s.tx(3, reset(), s_init(1, 0), s_count())
        for _ in range(130):
            s.acts({"k": "churn", "n": 500})
        s.conn(12).acts(anc((0, 0)), anc((0, 1)), anc((0, 7)))
        s.acts({"k": "churn", "n": 500})
        s.conn(2)
        return [s.script()]
    if prop != "C10":
        return []
    # the sequence number beyond 16 bits
    s = S("c10-65536")
    s.hosts(1)
    s.ready(0, 1, 0, app(mac=(0, 0), dst=[(0, 1)], dur=None)).tx(0, start(1))
    for _ in range(656):
        s.acts(qrng(0, 1, 100), ms=10)
    s.tx(0, rng_count(1), stop(1), start(1)).acts(qrng(0, 1, 2), ms=10).tx(0, rng_count(1))
    return [s.script()]
