"""A configuration with an invalid parameter is applied in part when the session is active.
SESSION_SET_APP_CONFIG in ACTIVE with one invalid and one valid parameter."""
from host import *
with Emulator() as e:
    h = Host(e)
    session(h, 1)
    h.do(start(1)); h.flush()
    r, _ = h.do(set_app(1, [(0x2D, [7]), (0x2E, [1, 2, 3])]))
    bad = r[4]
    r, _ = h.do(get_app(1, [0x2D]))
    check(not (bad != 0 and r[8] == 7), "parameter of a refused command applied (status %d, %s)" % (bad, r.hex()))
