"""An addition that reaches the limit of 8 controlees is dropped altogether although its first entries were reported as added.
An addition whose entries partly fit in the list."""
from host import *
with Emulator() as e:
    h = Host(e)
    session(h, 1, dst=[(1, i) for i in range(6)])
    r, _ = h.do(multicast(1, 0, [[2, i, 0, 0, 0, 0] for i in range(4)]))
    st = [r[6 + 3 * i + 2] for i in range(r[5])]
    check(st == [0, 0, 1, 1], "statuses %s" % st)
    r, _ = h.do(get_app(1, [5, 7]))
    check(r[8] == 8 and len(r) == 11 + 16 and r[11:27] == bytes(sum([[1, i] for i in range(6)] + [[2, 0], [2, 1]], [])), "list read back: %s" % r.hex())
