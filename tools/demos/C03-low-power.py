"""A device reset leaves the low power mode as it was configured.
The low power mode is changed from its default before the reset."""
from host import *
with Emulator() as e:
    a = Host(e)
    first = a.do(get_config([1]))[0]
    a.do(set_config([(1, [1 - first[-1]])]))
    check(a.do(get_config([1]))[0][-1] == 1 - first[-1], "not configured")
    a.do(reset())
    check(a.do(get_config([1]))[0] == first, "low power mode survives the reset")
