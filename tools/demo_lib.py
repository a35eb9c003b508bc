import struct


def ctrl(mt, gid, oid, payload=b"", pbf=0):
    payload = bytes(payload)
    return [(mt << 5) | (pbf << 4) | gid, oid, 0, len(payload) & 0xFF] + list(payload)


def cmd(gid, oid, payload=b""):
    return ctrl(1, gid, oid, payload)


def sid4(s):
    return struct.pack("<I", s) if isinstance(s, int) else bytes(s)


def reset(cfg=0):
    return cmd(0, 0, [cfg])


def dev_info():
    return cmd(0, 2)


def caps_info():
    return cmd(0, 3)


def set_config(params):
    b = bytes([len(params)])
    for i, v in params:
        b += bytes([i, len(v)]) + bytes(v)
    return cmd(0, 4, b)


def get_config(ids):
    return cmd(0, 5, bytes([len(ids)]) + bytes(ids))


def s_init(s, typ=0):
    return cmd(1, 0, sid4(s) + bytes([typ]))


def s_deinit(s):
    return cmd(1, 1, sid4(s))


def set_app(s, tlvs):
    b = sid4(s) + bytes([len(tlvs)])
    for i, v in tlvs:
        b += bytes([i, len(v)]) + bytes(v)
    return cmd(1, 3, b)


def get_app(s, ids):
    return cmd(1, 4, sid4(s) + bytes([len(ids)]) + bytes(ids))


def s_count():
    return cmd(1, 5)


def s_state(s):
    return cmd(1, 6, sid4(s))


def multicast(s, action, controlees, n=None, extra=b""):
    b = sid4(s) + bytes([action, len(controlees) if n is None else n])
    for c in controlees:
        b += bytes(c)
    return cmd(1, 7, b + bytes(extra))


def start(s):
    return cmd(2, 0, sid4(s))


def stop(s):
    return cmd(2, 1, sid4(s))


def rng_count(s):
    return cmd(2, 3, sid4(s))


def power_stats():
    return cmd(0xC, 0)


def country(cc):
    return cmd(0xC, 1, bytes(cc))


def data_snd(s, data, seq=1, dest=0, dpf=1, pbf=0, n=None, mt=0):
    data = bytes(data)
    b = sid4(s) + struct.pack("<QHH", dest, seq, len(data) if n is None else n) + data
    return [(mt << 5) | (pbf << 4) | dpf, 0] + list(struct.pack("<H", len(b) & 0xFFFF)) + list(b)


BIG = list(struct.pack("<I", 0x30000000))


def app(role=1, typ=1, mac=(0, 0), dst=((0, 1),), multi=None, rru=2, sched=1, dur=None, extra=(), n=None, mode=None):
    """Parameter list of a complete ranging configuration."""
    t = []
    if mode is not None:
        t.append((0x26, [mode]))
    t += [(0x00, [typ]), (0x01, [rru]), (0x11, [role]), (0x22, [sched])]
    t.append((0x03, [(0 if len(dst) == 1 else 1) if multi is None else multi]))
    if mac is not None:
        t.append((0x06, list(mac)))
    if dst is not None:
        t.append((0x05, [len(dst) if n is None else n]))
        t.append((0x07, [b for m in dst for b in m]))
    t.append((0x09, BIG if dur is None else list(struct.pack("<I", dur))))
    return t + list(extra)


# ---- hosts over TCP -------------------------------------------------------------
import os, select, socket, subprocess, sys, tempfile, time


class Emulator:
    """The emulator built in /repo, on free ports, stopped at exit."""
    def __init__(self, http=False, args=()):
        self.port, self.web = free_port(), free_port()
        exe = "pica-http" if http else "pica"
        cmdline = [os.path.join(os.getcwd(), "target/debug", exe), "--uci-port", str(self.port)]
        if http:
            cmdline += ["--web-port", str(self.web)]
        self.proc = subprocess.Popen(cmdline + list(args), env=dict(os.environ, RUST_LOG="error", RUST_BACKTRACE="0"),
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for p in [self.port] + ([self.web] if http else []):
            for _ in range(200):
                try:
                    socket.create_connection(("127.0.0.1", p)).close()
                    break
                except OSError:
                    time.sleep(0.05)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.proc.kill()
        self.proc.wait()


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Host:
    def __init__(self, emu, do_reset=True):
        self.s = socket.create_connection(("127.0.0.1", emu.port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b = b""
        self.closed = False
        assert self.rx() is not None, "no greeting"
        if do_reset:
            self.do(reset())
            self.flush()

    def tx(self, *packets):
        self.s.sendall(b"".join(bytes(p) for p in packets))

    def rx(self, timeout=3.0):
        """The next packet, or None."""
        end = time.time() + timeout
        while True:
            if len(self.b) >= 4:
                n = 4 + (self.b[3] if self.b[0] >> 5 else self.b[2] + 256 * self.b[3])
                if len(self.b) >= n:
                    p, self.b = self.b[:n], self.b[n:]
                    return p
            left = end - time.time()
            if left <= 0 or self.closed:
                return None
            if select.select([self.s], [], [], left)[0]:
                try:
                    chunk = self.s.recv(65536)
                except OSError:
                    chunk = b""
                if not chunk:
                    self.closed = True
                self.b += chunk

    def flush(self, quiet=0.15):
        """Everything that comes until nothing does for a while."""
        out = []
        end = time.time() + 2
        while time.time() < end:
            p = self.rx(quiet)
            if p is None:
                break
            out.append(p)
        return out

    def do(self, packet, timeout=3.0):
        """Sends a command; returns (its response or None, notifications received before it)."""
        self.tx(packet)
        before = []
        while True:
            p = self.rx(timeout)
            if p is None or (p[0] >> 5) == 2:
                return p, before
            before.append(p)

    def close(self):
        self.s.close()


def session(h, sid, typ=0, **kw):
    """A configured session."""
    r, _ = h.do(s_init(sid, typ))
    assert r[4] == 0, "init refused"
    r, _ = h.do(set_app(sid, app(**kw)))
    assert r[4] == 0, "configuration refused"
    h.flush()


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
