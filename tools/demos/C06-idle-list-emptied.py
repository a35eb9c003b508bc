"""A session that is already IDLE gets a second IDLE notification when its controlee list becomes empty.
The controlee list of a session that is not active is emptied."""
from host import *
with Emulator() as e:
    h = Host(e)
    session(h, 1, multi=1, dst=[(0, 9)])
    h.do(multicast(1, 1, [[0, 9, 0, 0, 0, 0]]))
    got = h.flush()
    check(not any(p[0] == 0x61 and p[1] == 2 for p in got), "notification without a change: %s" % [p.hex() for p in got])
