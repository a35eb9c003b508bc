"""The sequence number and the ranging count start again from 0 when a session is started again.
A session that is started, ranges, is stopped and started a second time."""
from host import *
with Emulator() as e:
    h = Host(e)
    session(h, 1, dur=100)
    h.do(start(1)); time.sleep(0.45); h.do(stop(1)); h.flush()
    n1 = int.from_bytes(h.do(rng_count(1))[0][5:9], "little")
    h.do(start(1)); time.sleep(0.25); h.do(stop(1))
    info = [p for p in h.flush() if p[0] == 0x62 and p[1] == 0]
    n2 = int.from_bytes(h.do(rng_count(1))[0][5:9], "little")
    check(n1 >= 2 and n2 > n1, "count went from %d to %d" % (n1, n2))
