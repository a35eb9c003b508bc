"""Data is delivered to a session that is for ranging only.
A peer that ranges with the sender in a session of type ranging, while the sender's session has data transfer."""
from host import *
def data(h, kind, **kw):
    check(h.do(s_init(1, kind))[0][4] == 0 and h.do(set_app(1, app(**kw)))[0][4] == 0, "session")
    h.flush()


with Emulator() as e:
    a, b, c = Host(e), Host(e), Host(e)
    data(a, 1, mac=(0, 0), dst=[(0, 1), (0, 2)], role=1, typ=1, dur=60)
    data(b, 0, mac=(0, 1), dst=[(0, 0)], role=0, typ=0, multi=1)
    data(c, 1, mac=(0, 2), dst=[(0, 0)], role=0, typ=0, multi=1)
    for h in (b, c, a):
        h.do(start(1))
    a.flush()
    a.tx(data_snd(1, b"hello", dest=1))
    got, want = b.flush(0.4), c.flush(0.4)
    check([p for p in want if p[0] >> 5 == 0], "data not delivered to the data session")
    check(not [p for p in got if p[0] >> 5 == 0], "data delivered to the ranging session")
