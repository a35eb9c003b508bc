"""Packets in the capture files are not padded to whole words, so that what follows cannot be read.
A packet whose length is odd."""
from host import *
with tempfile.TemporaryDirectory() as d, Emulator(args=["--pcapng-dir", d]) as e:
    a = Host(e)
    a.do(reset()); a.do(dev_info()); a.do(set_config([(1, [1])])); a.do(get_config([1])); a.do(s_count()); a.flush()
    files = [f for f in os.listdir(d) if os.path.getsize(os.path.join(d, f)) > 200]
    check(len(files) == 1, "one capture")
    b = open(os.path.join(d, files[0]), "rb").read()
    at = n = 0
    while at < len(b):
        kind, size = struct.unpack_from("<II", b, at)
        check(size % 4 == 0 and size >= 12 and at + size <= len(b) and struct.unpack_from("<I", b, at + size - 4)[0] == size, "block %d of kind %d, size %d" % (at, kind, size))
        n += kind == 6
        at += size
    check(n >= 12, "%d packets recorded" % n)
