"""Data for which no peer was there in a round is delivered by a later round instead of being dropped.
A data message sent while no peer ranges; a peer starts some rounds later."""
from host import *
def data(h, kind, **kw):
    check(h.do(s_init(1, kind))[0][4] == 0 and h.do(set_app(1, app(**kw)))[0][4] == 0, "session")
    h.flush()


with Emulator() as e:
    a, b = Host(e), Host(e)
    data(a, 1, mac=(0, 0), dst=[(0, 1)], role=1, typ=1, dur=60)
    data(b, 1, mac=(0, 1), dst=[(0, 0)], role=0, typ=0)
    a.do(start(1))
    a.tx(data_snd(1, b"hello", dest=1))
    time.sleep(0.5)
    b.do(start(1))
    got = b.flush(0.4)
    check(not [p for p in got if p.endswith(b"hello")], "data of an earlier round delivered: %s" % [p.hex() for p in got])
    a.tx(data_snd(1, b"world", dest=1))
    got = b.flush(0.4)
    check([p for p in got if p[0] >> 5 == 0 and p.endswith(b"world")], "data not delivered")
