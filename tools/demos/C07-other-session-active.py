"""A device becomes READY after an in-band stop although another of its sessions is still active.
A controlee with two active sessions, one of which its controller removes it from."""
from host import *
with Emulator() as e:
    a, b = Host(e), Host(e)
    for s in (1, 2):
        session(a, s, mac=(0, 0), dst=[(0, 1), (0, 9)], role=1, typ=1)
        session(b, s, mac=(0, 1), dst=[(0, 0)], role=0, typ=0)
        b.do(start(s))
    b.flush()
    a.do(multicast(1, 1, [[0, 1, 0, 0, 0, 0]]))
    got = b.flush(0.4)
    check(any(p[0] == 0x61 and p[1] == 2 for p in got), "no in-band stop")
    check(not any(p[0] == 0x60 and p[1] == 1 for p in got), "device status sent: %s" % [p.hex() for p in got])
    check(b.do(get_config([0]))[0][8] == 2, "device not ACTIVE")
