"""A reset does not stop the timers of the sessions that range: their rounds go on in a new session of that number.
A reset while a session ranges with a short interval; then a session with the same number is made and started."""
from host import *
with Emulator() as e:
    a = Host(e)
    session(a, 1, mac=(0, 0), dst=[(0, 1)], role=1, typ=1, dur=100)
    a.do(start(1))
    time.sleep(0.3)
    a.do(reset()); a.flush()
    session(a, 1, mac=(0, 0), dst=[(0, 1)], role=1, typ=1)
    a.do(start(1))
    got = a.flush(0.7)
    check(not [p for p in got if p[:2] == bytes([0x62, 0])], "rounds of the session before the reset")
