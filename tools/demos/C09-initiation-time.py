"""The UWB initiation time is read back without its upper half.
An initiation time of 2^32 or more."""
from host import *
with Emulator() as e:
    a = Host(e)
    for n in range(8):
        v = bytes(n) + bytes([n + 1]) + bytes(7 - n)
        a.do(s_init(n + 1)); a.flush(0.05)
        r = a.do(set_app(n + 1, app(extra=[(0x2B, v)])))[0]
        a.flush(0.05)
        check(r[4] == 0, "not set: %s" % r.hex())
        r = a.do(get_app(n + 1, [0x2B]))[0]
        check(r[4] == 0 and r[-8:] == v, "%s read back as %s" % (v.hex(), r[-8:].hex()))
        a.do(s_deinit(n + 1)); a.flush(0.05)
