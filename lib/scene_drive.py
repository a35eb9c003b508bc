"""Runs scripts on the real servers (pica-http, pica): real processes, sockets, threads and time.

A script: {"id", "bin", "pcap", "steps": [{"ph": [{"a": [acts], "sin": [[c, n]...]}]}]}; the acts of a phase go out
together, and the next phase begins when all their effects have been seen.  Acts: conn, tx (c, p), eof (c, n: 1 to
close both directions), http (c: lane, op, form, addr, body), sub, unsub (c),
drop (as http, but the client closes its connection at once).
At the end of a step every live host sends a command of an unknown group, and a marker anchor is created and destroyed:
what arrives before the answers and before the marker belongs to the step.  These, too, are acts of the recorded step.
Expectations do not live here; SceneTrace.tla judges the traces."""
import concurrent.futures, json, os, re, select, shutil, signal, socket, struct, subprocess, time
from run import *
import uci

WAIT = 12.0
MARK = "FEFE"


class Gone(Exception):
    """What was waited for did not come."""


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def codes(s):
    return [min(ord(x), 255) for x in s]


def number(v):
    return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 30 else 99999


def thing(o):
    r = {"cat": str(o.get("category")), "mac": codes(str(o.get("mac_address")))}
    for k in ("x", "y", "z", "yaw", "pitch", "roll"):
        r[k] = number(o.get(k))
    return r


def event(name, o):
    pre = "source_" if name == "neighbor-updated" else ""
    r = {"n": name, "cat": str(o.get(pre + "category")), "mac": codes(str(o.get(pre + "mac_address"))),
         "cat2": str(o.get("destination_category", "")), "mac2": codes(str(o.get("destination_mac_address", "")))}
    for k in ("x", "y", "z", "yaw", "pitch", "roll"):
        r[k] = number(o.get(k, 0))
    for k, n in (("d", "distance"), ("az", "azimuth"), ("el", "elevation")):
        r[k] = number(o.get(n, 0))
    return r


class UciHost:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), WAIT)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.rx = b""          # received, not yet reported
        self.seen = 0          # how much of it has been cut into packets
        self.eof = False
        self.open = True       # our side
        self.moved = 0         # packets sent and received

    def pump(self, timeout):
        """Receives what there is; waits up to timeout for something."""
        if self.eof:
            return
        r, _, _ = select.select([self.s], [], [], max(0, timeout))
        if r:
            try:
                b = self.s.recv(65536)
            except OSError:
                b = b""
            if b:
                self.rx += b
            else:
                self.eof = True

    def packet(self):
        """The next complete packet that has arrived, or None."""
        b = self.rx[self.seen:]
        if len(b) < 4:
            return None
        n = 4 + (b[2] | b[3] << 8 if b[0] >> 5 == 0 else b[3])
        if len(b) < n:
            return None
        self.seen += n
        return b[:n]

    @staticmethod
    def count(b):
        """Packets in received bytes."""
        n = 0
        while len(b) >= 4:
            n += 1
            b = b[4 + (b[2] | b[3] << 8 if b[0] >> 5 == 0 else b[3]):]
        return n

    def until(self, what, limit):
        """Looks at packets up to one for which what() is true."""
        end = time.time() + limit
        while True:
            p = self.packet()
            while p is not None:
                if what(p):
                    return True
                p = self.packet()
            if self.eof or time.time() > end:
                return False
            self.pump(end - time.time())

    def take(self, everything=False):
        n = len(self.rx) if everything else self.seen
        b, self.rx, self.seen = self.rx[:n], self.rx[n:], 0
        self.moved += self.count(b)
        return b

    def close(self):
        self.open = False
        self.eof = True
        self.s.close()


class Http:
    """A keep-alive HTTP connection."""
    def __init__(self, port):
        self.port, self.s = port, None

    def send(self, method, path, body):
        if self.s is None:
            self.s = socket.create_connection(("127.0.0.1", self.port), WAIT)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.f = self.s.makefile("rb")
        h = "%s %s HTTP/1.1\r\nHost: pica\r\n" % (method, path)
        if body is not None:
            h += "Content-Type: application/json\r\nContent-Length: %d\r\n" % len(body)
        self.s.sendall(h.encode() + b"\r\n" + (body or b""))

    def head(self):
        line = self.f.readline()
        if not line.startswith(b"HTTP/1."):
            raise OSError("no response")
        status, headers = int(line.split()[1]), {}
        while True:
            line = self.f.readline().strip()
            if not line:
                return status, headers
            k, v = line.decode("latin-1").split(":", 1)
            headers[k.strip().lower()] = v.strip().lower()

    def receive(self):
        """(status, body); status 0 if the connection broke instead."""
        try:
            self.s.settimeout(WAIT)
            status, headers = self.head()
            n = int(headers.get("content-length", 0))
            body = self.f.read(n)
            if len(body) < n:
                raise OSError("short body")
            return status, body
        except (OSError, ValueError):
            self.close()
            return 0, b""

    def close(self):
        if self.s is not None:
            self.f.close()
            self.s.close()
            self.s = None


class Sse:
    """A subscriber: a chunked stream of server-sent events."""
    def __init__(self, port):
        self.h = Http(port)
        self.h.send("GET", "/events", None)
        self.h.s.settimeout(WAIT)
        status, self.headers = self.h.head()
        if status != 200:
            raise OSError("status %d" % status)
        self.raw, self.text = b"", b""
        self.events, self.eof = [], False
        # What the buffered reader already holds.
        self.h.s.setblocking(False)
        try:
            self.raw += self.h.f.read1(65536) or b""
        except (OSError, ValueError):
            pass
        self.cut()

    def pump(self, timeout):
        if self.eof:
            return
        r, _, _ = select.select([self.h.s], [], [], max(0, timeout))
        if r:
            try:
                b = self.h.s.recv(262144)
            except OSError:
                b = b""
            if not b:
                self.eof = True
            self.raw += b
            self.cut()

    def cut(self):
        while True:
            i = self.raw.find(b"\r\n")
            if i < 0:
                break
            n = int(self.raw[:i], 16)
            if len(self.raw) < i + 4 + n:
                break
            self.text += self.raw[i + 2:i + 2 + n]
            self.raw = self.raw[i + 4 + n:]
            if n == 0:
                self.eof = True
                break
        while b"\n\n" in self.text:
            e, self.text = self.text.split(b"\n\n", 1)
            name, data = "", ""
            for line in e.decode("utf-8", "replace").split("\n"):
                if line.startswith("event: "):
                    name = line[7:]
                elif line.startswith("data: "):
                    data += line[6:]
            try:
                o = json.loads(data)
                self.events.append(event(name, o if isinstance(o, dict) else {}))
            except ValueError:
                self.events.append(event("garbled", {}))

    def until(self, what, limit):
        """Waits for what(events)."""
        end = time.time() + limit
        while not what(self.events):
            if self.eof or time.time() > end:
                return False
            self.pump(end - time.time())
        return True

    def take(self):
        e, self.events = self.events, []
        return e


def target(a):
    op, form, addr = a["op"], a["form"], a["addr"]
    if op.startswith("/"):
        path = op
    elif op == "get-state":
        path = "/get-state"
    else:
        path = "/%s/%s" % (op, addr)
    return {"plain": path, "slashes": "//" + path, "query": path + "?a=b/c", "tail": path + "/", "more": path + "/more",
            "upper": path.upper() if not path.isupper() else path + "x", "less": "/" + op}[form]


def body_text(b):
    if b["kind"] == "none":
        return None
    if b["kind"] == "bad":
        return b["text"].encode()
    ks = [k for k in ("x", "y", "z", "yaw", "pitch", "roll")]
    o = {k: b[k] for k in ks}
    if b.get("style") == 1:
        return json.dumps(dict(reversed(list(o.items()))), indent=2).encode()
    if b.get("style") == 2:
        return json.dumps(dict(o, extra="yes", more=[1, {"x": 9}]), separators=(",", ":")).encode()
    return json.dumps(o).encode()


class Scene:
    def __init__(self, bins, script, wd):
        self.script, self.wd = script, wd
        self.http = script.get("bin", "pica-http") == "pica-http"
        self.cap = None
        if script.get("pcap"):
            self.cap = capture_dir(script, wd)
        for attempt in range(8):
            self.uci_port, self.web_port = free_port(), free_port()
            args = [os.path.join(bins, script.get("bin", "pica-http")), "--uci-port", str(self.uci_port)]
            if self.http:
                args += ["--web-port", str(self.web_port)]
            if self.cap:
                args += ["--pcapng-dir", self.cap]
            self.proc = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=wd,
                                         preexec_fn=limit(4), env=dict(os.environ, RUST_LOG="off"))
            if self.ready():
                break
            self.kill()
        else:
            raise ToolError("the server does not start")
        self.t0 = time.monotonic_ns()
        self.hosts, self.lanes, self.subs = [], {}, {}
        self.gone = set()      # hosts whose device is expected to be gone
        self.fpos = {}
        self.patience = 2

    def ready(self):
        end = time.time() + 15
        want = {self.uci_port} | ({self.web_port} if self.http else set())
        while not all(self.listening(p) for p in want):
            if self.proc.poll() is not None or time.time() > end:
                return False
            time.sleep(0.01)
        return self.proc.poll() is None

    @staticmethod
    def listening(port):
        want = {"0100007F:%04X" % port, "00000000:%04X" % port}
        for line in open("/proc/net/tcp"):
            f = line.split()
            if f[1] in want and f[3] == "0A":
                return True
        return False

    def us(self):
        return (time.monotonic_ns() - self.t0) // 1000

    def kill(self):
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()

    def live(self):
        return [c for c, h in enumerate(self.hosts) if c not in self.gone]

    # -- waiting ---------------------------------------------------------

    def scene_has(self, n):
        """Waits until the scene shows n connected devices."""
        if not self.http:
            return
        h = self.lanes.setdefault("poll", Http(self.web_port))
        end = time.time() + WAIT
        while True:
            try:
                h.send("GET", "/get-state", None)
                status, body = h.receive()
                if sum(d["category"] == "Uci" for d in json.loads(body)["devices"]) == n:
                    return
            except (OSError, ValueError, KeyError, TypeError):
                h.close()
            if time.time() > end or self.proc.poll() is not None:
                raise Gone("scene")
            time.sleep(0.003)

    # -- acts ------------------------------------------------------------

    def phase(self, acts, sins):
        waits, dropped, leaves = [], False, False
        for a in acts:
            k = a["k"]
            if k == "conn":
                h = UciHost(self.uci_port)
                self.hosts.append(h)
                if not h.until(lambda p: p[0] == 0x60 and p[1] == 1, WAIT):
                    raise Gone("status")
                self.scene_has(len(self.live()))
            elif k == "tx":
                try:
                    at = 0
                    for i in a.get("cuts", []):
                        self.hosts[a["c"]].s.sendall(bytes(a["p"][at:i]))
                        time.sleep(0.001)
                        at = i
                    self.hosts[a["c"]].s.sendall(bytes(a["p"][at:]))
                    self.hosts[a["c"]].moved += 1
                except OSError:
                    pass
            elif k == "eof":
                h = self.hosts[a["c"]]
                self.gone.add(a["c"])
                leaves = True
                if a["n"] == 1:
                    h.close()
                else:
                    h.s.shutdown(socket.SHUT_WR)
                    waits.append(h)
            elif k == "http":
                lane = self.lanes.setdefault(a["c"], Http(self.web_port))
                try:
                    lane.send("GET" if a["op"] == "get-state" or a["op"].startswith("/") else "POST", target(a), body_text(a["body"]))
                except OSError:
                    lane.close()
                waits.append(a["c"])
            elif k == "drop":
                # The client goes away as soon as it has asked.
                lane = Http(self.web_port)
                try:
                    lane.send("POST", target(a), body_text(a["body"]))
                except OSError:
                    pass
                if a["n"]:
                    time.sleep(a["n"] / 1e6)
                lane.close()
                dropped = True
            elif k == "sub":
                try:
                    self.subs[a["c"]] = Sse(self.web_port)
                except (OSError, ValueError):
                    raise Gone("subscribe")
            elif k == "unsub":
                self.subs.pop(a["c"]).h.close()
        for w in waits:
            if isinstance(w, UciHost):
                end = time.time() + WAIT
                while not w.eof and time.time() < end:
                    w.pump(end - time.time())
                if not w.eof:
                    raise Gone("close")
            else:
                lane = self.lanes[w]
                status, body = lane.receive() if lane.s is not None else (0, b"")
                row = [w, status, False, []]
                if status == 200 and body[:1] == b"{":
                    try:
                        ds = json.loads(body)["devices"]
                        row = [w, status, True, [thing(d) for d in ds]]
                    except (ValueError, KeyError, TypeError, AttributeError):
                        row = [w, 999, False, []]
                self.h.append(row)
        if dropped:
            time.sleep(0.05)
        if leaves:
            self.scene_has(len(self.live()))
        for c, n in sins:
            h = self.hosts[c]
            for _ in range(n):
                if not h.until(lambda p: p[0] == 0x62 and p[1] == 0, WAIT):
                    raise Gone("ranging")

    def step(self, st):
        acts, self.h, late = [], [], []
        before = self.us()
        g = 0
        for h in self.hosts:
            h.seen = 0
        try:
            for ph in st["ph"]:
                g += 1
                acts += [dict(a, g=g) for a in ph["a"]]
                self.phase(ph["a"], ph.get("sin", ()))
            uses_uci = st.get("sync", True)
            live = self.live()
            if uses_uci and live:
                g += 1
                q = uci.cmd(6, 0x2A)
                for c in live:
                    acts.append({"k": "tx", "c": c, "p": q, "g": g})
                    try:
                        self.hosts[c].s.sendall(bytes(q))
                        self.hosts[c].moved += 1
                    except OSError:
                        pass
                for c in live:
                    n = 1 + sum(a["k"] == "tx" and a["c"] == c and a["p"][:2] == q[:2] for a in acts if a["g"] < g)
                    self.hosts[c].seen = 0
                    for _ in range(n):
                        if not self.hosts[c].until(lambda p: p[0] == 0x46 and p[1] == 0x2A, WAIT):
                            raise Gone("answer")
            if self.subs:
                for op in ("create-anchor", "destroy-anchor"):
                    g += 1
                    a = {"k": "http", "c": 99, "op": op, "form": "plain", "addr": MARK, "body": {"kind": "none"}}
                    acts.append(dict(a, g=g))
                    self.phase([a], ())
                mark = codes("FE:FE")
                for x in self.subs.values():
                    if not x.until(lambda es: any(e["n"] == "device-removed" and e["mac"] == mark for e in es), WAIT):
                        raise Gone("events")
        except Gone as e:
            late.append(str(e))
        except OSError as e:
            late.append("connect")
        dead = self.proc.poll() is not None
        o, files = [], self.captures() if self.cap else []
        for c, h in enumerate(self.hosts):
            b = h.take(everything=bool(late) or not h.open or h.eof)
            if b:
                o.append([c, list(b)])
        v = [[c, x.take()] for c, x in sorted(self.subs.items())]
        return {"a": [self.spell(a) for a in acts], "ms": 0, "o": o, "t": [], "e": [], "r": [], "f": files, "u": [before, self.us()],
                "h": self.h, "v": v, "late": late}, dead

    @staticmethod
    def spell(a):
        """Acts as the specification reads them."""
        r = dict({"c": -1, "n": 0}, **{k: v for k, v in a.items() if k != "cuts"})
        if a["k"] in ("http", "drop"):
            r["addr"] = codes(a["addr"])
            b = {k: v for k, v in a["body"].items() if k not in ("text", "style")}
            r["body"] = b
        return r

    def captures(self):
        """What was written to the capture files.  A packet is recorded a moment after it has been sent, and one that was
        sent after the answers may be there: everything that was recorded is received, and the other way around."""
        if self.script["pcap"] != "on":
            return []
        end = time.time() + self.patience
        while True:
            names = sorted(os.listdir(self.cap))
            data = {}
            for f in names:
                with open(os.path.join(self.cap, f), "rb") as fh:
                    data[f] = fh.read()
            if self.agrees(data):
                break
            if time.time() > end:
                self.patience = 0
                break
            time.sleep(0.002)
        res = []
        for f in names:
            m = re.fullmatch(r"device-(\d+)\.pcapng", f)
            b = data[f][self.fpos.get(f, 0):]
            self.fpos[f] = len(data[f])
            if b:
                res.append([int(m.group(1)) if m else 999, list(b)])
        return res

    def agrees(self, data):
        """The files have as many records as packets have been exchanged with their hosts."""
        files = sorted((int(m.group(1)), f) for f in data for m in [re.fullmatch(r"device-(\d+)\.pcapng", f)] if m)
        if len(files) < len(self.hosts):
            return False
        for (_, f), h in zip(files, self.hosts):
            if h.eof or not h.open:
                continue
            b, at, n = data[f], 0, 0
            while at + 8 <= len(b):
                kind, size = struct.unpack_from("<II", b, at)
                if size < 12 or at + size > len(b):
                    break
                n += kind == 6
                at += size
            h.pump(0)
            while h.packet() is not None:
                pass
            if n != h.moved + h.count(h.rx[:h.seen]):
                return False
        return True

    def run(self):
        steps, dead = [], False
        try:
            for st in self.script["steps"]:
                s, dead = self.step(st)
                steps.append(s)
                if dead or s["late"]:
                    break
        finally:
            self.kill()
            for h in self.hosts:
                h.s.close()
            for x in self.subs.values():
                x.h.close()
            for x in self.lanes.values():
                x.close()
        return {"id": self.script["id"], "salt": -1 if self.http else 0, "dead": dead, "tcp": True,
                "cap": self.script.get("pcap", "") if self.cap else "", "steps": steps}


def scene_drive(bins, scripts, wd, jobs=CPUS):
    """The traces of the scripts, in order."""
    def one(s):
        return Scene(bins, s, wd).run()
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, scripts))
