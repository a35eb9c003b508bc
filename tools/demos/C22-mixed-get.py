"""The answer for an invalid core configuration query also lists the valid parameters.
A query with both known and unknown parameters."""
from host import *
with Emulator() as e:
    a = Host(e)
    good = a.do(get_config([0, 1]))[0]
    check(good[4] == 0 and good[5] == 2, "valid query")
    bad = a.do(get_config([0x77]))[0]
    check(bad[4] != 0 and bad[5:] == bytes([1, 0x77, 0]), "unknown parameter: %s" % bad.hex())
    r = a.do(get_config([0, 0x77, 1]))[0]
    check(r[4:] == bad[4:], "answer %s" % r.hex())
