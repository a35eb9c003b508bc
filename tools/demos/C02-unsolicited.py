"""A packet that is not a command is answered.
A response or a notification is sent to the emulator."""
from host import *
with Emulator() as e:
    a = Host(e)
    for p in (ctrl(2, 0, 2, [0]), ctrl(3, 0, 1, [1]), ctrl(2, 1, 0, [0]), ctrl(3, 2, 0, bytes(30))):
        a.tx(p)
    a.tx(s_count())
    got = a.flush()
    check([g[:2] for g in got] == [bytes([0x41, 5])], "answers: %s" % [g.hex() for g in got])
