"""Segments of a control message after its first 1024 octets are dropped.
A control message of more than 1024 octets in segments."""
from host import *
with Emulator() as e:
    h = Host(e)
    ids = [0x2D] * 1500
    pl = sid4(1) + bytes([250]) + bytes([0x2D] * 250)
    h.do(s_init(1, 0)); h.flush()
    # one TLV repeated: 255 parameters of 16 octets
    pl = sid4(1) + bytes([120]) + b"".join(bytes([0x45, 16]) + bytes([i] * 16) for i in range(119)) + bytes([0x00, 1, 9])
    segs = [pl[i:i + 255] for i in range(0, len(pl), 255)]
    h.tx(*[ctrl(1, 1, 3, s, 0 if i == len(segs) - 1 else 1) for i, s in enumerate(segs)])
    r = h.rx()
    check(r is not None and r[1] == 3, "no answer")
    check(r[4] != 0x08 and r[4] != 0x09, "segmented message not understood: %s" % r[:12].hex())
