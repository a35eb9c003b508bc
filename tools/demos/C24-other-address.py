"""A device takes part in the rounds of a session that is not for its address.
A device that ranges in a session of the same number under another address than the one the controller ranges with."""
from host import *
with Emulator() as e:
    a, b, c = Host(e), Host(e), Host(e)
    session(a, 1, mac=(0, 0), dst=[(0, 1), (0, 9)], role=1, typ=1, dur=100)
    session(b, 1, mac=(0, 1), dst=[(0, 0)], role=0, typ=0, multi=1)
    session(c, 1, mac=(0, 2), dst=[(0, 0)], role=0, typ=0, multi=1)
    for h in (b, c):
        h.do(start(1)); h.flush()
    a.do(start(1)); a.flush(0.1)
    # The controller drops b.
    a.do(multicast(1, 1, [[0, 1, 0, 0, 0, 0]]))
    a.flush(0.1)
    check(b.do(s_state(1))[0][5] == 3, "b not stopped")
    check(c.do(s_state(1))[0][5] == 2, "c stopped")
