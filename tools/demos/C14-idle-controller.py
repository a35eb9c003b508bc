"""Removing a controlee while the controller's session is not active no longer stops the controlee.
The controller's session is IDLE (stopped before) while the controlee still ranges."""
from host import *
with Emulator() as e:
    a, b = Host(e), Host(e)
    session(a, 1, mac=(0, 0), dst=[(0, 1), (0, 9)], role=1, typ=1)
    session(b, 1, mac=(0, 1), dst=[(0, 0)], role=0, typ=0)
    b.do(start(1)); a.do(start(1)); a.do(stop(1)); a.flush(); b.flush()
    a.do(multicast(1, 1, [[0, 1, 0, 0, 0, 0]]))
    got = b.flush(0.4)
    check(bytes([0x61, 2, 0, 6, 1, 0, 0, 0, 3, 5]) in got, "controlee not stopped: %s" % [p.hex() for p in got])
    check(b.do(s_state(1))[0][5] == 3, "controlee not idle")
