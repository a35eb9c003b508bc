"""A 256th session is accepted, and the count wraps to 0.
256 sessions at once."""
from host import *
with Emulator() as e:
    h = Host(e)
    st = []
    for i in range(256):
        st.append(h.do(s_init(1000 + i, 0))[0][4])
    check(st[:255] == [0] * 255 and st[255] != 0, "statuses %s" % st[250:])
    check(h.do(s_count())[0][5] == 255, "count")
