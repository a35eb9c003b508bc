"""Configuring a session that ranges makes its state IDLE.
A parameter that may be changed during ranging is set while the session is active."""
from host import *
with Emulator() as e:
    a = Host(e)
    session(a, 1, mac=(0, 0), dst=[(0, 1)], role=1, typ=1)
    a.do(start(1)); a.flush()
    ok = 0
    for n in (0x0D, 0x0E, 0x0F, 0x10, 0x1D, 0x25, 0x08):
        r = a.do(set_app(1, [(n, [0])]))[0]
        ok += r[4] == 0
        check(not [p for p in a.flush(0.1) if p[:2] == bytes([0x61, 2])], "session status changes")
        check(a.do(s_state(1))[0][5] == 2, "not active")
    check(ok > 0, "nothing can be set")
