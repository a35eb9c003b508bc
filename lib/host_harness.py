"""Runs scripts on the Python host library of /repo (py/pica): host_harness.py REPO SCRIPTS OUT.

One event loop with virtual time; the library's connection is one end of a socket pair, the other end is the controller.
Ops: feed (bytes; chunks), more (as feed, but what follows happens at the same moment), eof, rst, disc, pass (ms),
expect (id, q: c or d, m: type or value, cls, p: bytes, ms), send (q, cls, args).  A step is a list of ops; recorded for
each step: results of expectations, bytes sent, whether the reader runs.  HostTrace.tla judges the traces."""
import asyncio, contextlib, dataclasses, io, json, signal, socket, sys, warnings

repo, scripts, dst = sys.argv[1:4]
sys.path.insert(0, repo + "/py/pica")
from pica import Host          # noqa: E402
from pica.packets import uci   # noqa: E402

warnings.simplefilter("ignore")


class Hang(BaseException):
    pass


class Loop(asyncio.SelectorEventLoop):
    vt = 0.0

    def time(self):
        return self.vt

    async def idle(self):
        for _ in range(20000):
            await asyncio.sleep(0)
            if not self._ready and not self._selector.select(0):
                return
        raise Hang()

    async def advance(self, ms):
        for _ in range(ms // 10):
            self.vt += 0.01
            await self.idle()


def item(v, kind=None):
    if kind is bytearray or isinstance(v, (bytes, bytearray)):
        return [len(v)] + list(v)
    if isinstance(v, int):
        return list((v & (1 << 64) - 1).to_bytes(8, "little"))
    return sum((item(getattr(v, f.name), f.type) for f in dataclasses.fields(v) if f.name != "payload"), [])


def value(v, kind=None):
    if kind is bytearray or isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, list):
        return sum((item(x) for x in v), [])
    return item(v)


PLAIN = ("ControlPacket", "DataPacket", "CorePacket", "SessionConfigPacket", "SessionControlPacket", "AndroidPacket")


def fields(p):
    return [[f.name, value(getattr(p, f.name), f.type)] for f in dataclasses.fields(p) if f.name not in ("payload", "gid", "mt", "oid", "pbf", "dpf")]


def body(p):
    if type(p).__name__ not in PLAIN:
        return []
    b = bytes(p.payload or b"")
    return list(b[3:] if type(p).__name__ == "ControlPacket" else b)


def build(cls, args):
    def arg(v):
        if isinstance(v, dict):
            return build(v["cls"], v["args"])
        if isinstance(v, list) and v and isinstance(v[0], dict):
            return [arg(x) for x in v]
        return v
    c = getattr(uci, cls)
    kinds = {f.name: f.type for f in dataclasses.fields(c)}
    return c(**{k: list(v) if kinds[k] is bytearray else bytes(v) if k == "payload" else arg(v) for k, v in args.items()})


class Run:
    def __init__(self, script):
        self.script, self.steps = script, []

    async def expect(self, a):
        q = a["q"]
        if a["m"] == "type":
            want = getattr(uci, a["cls"])
        elif a.get("args") is not None:
            want = build(a["cls"], a["args"])
        else:
            want = (uci.ControlPacket if q == "c" else uci.DataPacket).parse_all(bytes(a["p"]))
        f = self.host.expect_control if q == "c" else self.host.expect_data
        r = [a["id"], "ok", "", [], []]
        try:
            p = await (f(want) if a["ms"] == 1000 else f(want, timeout=a["ms"] / 1000))
            r[2:] = [type(p).__name__, fields(p), body(p)]
        except ValueError:
            r[1] = "value"
        except (TimeoutError, asyncio.TimeoutError):
            r[1] = "timeout"
        except Exception as e:
            r[1] = type(e).__name__
        self.res.append(r)

    def written(self):
        b = b""
        if not self.peer:
            return b
        while True:
            try:
                x = self.peer.recv(1 << 16)
            except (BlockingIOError, OSError):
                return b
            if not x:
                self.gone = True
                return b
            b += x

    def up(self):
        t = getattr(self.host, "reader_task", None)
        return 2 if t is None else int(not t.done())

    async def op(self, a):
        loop, k = self.loop, a["k"]
        if k == "feed":
            for c in a["cs"]:
                self.peer.sendall(bytes(c))
                await loop.idle()
        elif k == "more":
            self.peer.sendall(bytes(a["b"]))
        elif k == "eof":
            self.peer.shutdown(socket.SHUT_WR)
            await loop.idle()
        elif k == "rst":
            self.host.send_control(uci.CoreGetDeviceInfoCmd())
            await loop.idle()
            self.peer.close()
            self.peer = None
            await loop.idle()
        elif k == "disc":
            self.host.disconnect()
            await loop.idle()
        elif k == "pass":
            await loop.advance(a["ms"])
        elif k == "expect":
            self.tasks.append(loop.create_task(self.expect(a)))
            await loop.idle()
        elif k == "send":
            r = [a["id"], "sent", "", [], []]
            try:
                p = build(a["cls"], a["args"])
                (self.host.send_control if a["q"] == "c" else self.host.send_data)(p)
            except Exception:
                r[1] = "error"
            self.res.append(r)
            await loop.idle()
            self.w += list(self.written())

    async def main(self):
        self.loop = asyncio.get_running_loop()
        ours, self.peer = socket.socketpair()
        ours.setblocking(False)
        self.peer.setblocking(False)
        for s in (ours, self.peer):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        real = asyncio.open_connection
        asyncio.open_connection = lambda *a, **k: real(sock=ours)
        try:
            self.host = await Host.connect("127.0.0.1", 7000, bytes([0, 1]))
        finally:
            asyncio.open_connection = real
        self.gone, self.tasks = False, []
        await self.loop.idle()
        for st in self.script["steps"]:
            self.res, self.w = [], []
            dead = False
            try:
                for a in st:
                    await self.op(a)
            except Hang:
                dead = True
            self.w += list(self.written())
            self.steps.append({"a": [{k: v for k, v in a.items() if k != "args"} for a in st], "res": self.res, "w": self.w, "dead": dead,
                               "up": self.up(), "gone": self.gone})
            if dead:
                break
        for t in self.tasks:
            t.cancel()
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task():
                t.cancel()
        await asyncio.sleep(0)


def alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, alarm)
with open(dst, "w") as out:
    for s in json.load(open(scripts)):
        r = Run(s)
        loop = Loop()
        asyncio.set_event_loop(loop)
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                loop.run_until_complete(r.main())
        except Hang:
            n = len(r.steps)
            acts = s["steps"][n] if n < len(s["steps"]) else []
            r.steps.append({"a": [{k: v for k, v in a.items() if k != "args"} for a in acts], "res": [], "w": [], "dead": True, "up": 2, "gone": False})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out.write(json.dumps({"id": s["id"], "steps": r.steps}) + "\n")
