"""No events when a thing is put where it is.
A set-position request with the position the thing has."""
import json, urllib.request
from host import *


class Events:
    def __init__(self, e):
        self.s = socket.create_connection(("127.0.0.1", e.web))
        self.s.sendall(b"GET /events HTTP/1.1\r\nHost: x\r\n\r\n")
        self.b = b""
        self.get(0.3)

    def get(self, quiet=0.3):
        """Names and data of the events that come until nothing does for a while."""
        while select.select([self.s], [], [], quiet)[0]:
            c = self.s.recv(65536)
            if not c:
                break
            self.b += c
        t, self.b = self.b.decode(), b""
        ev = [l.strip()[6:].strip() for l in t.splitlines() if l.startswith("event:")]
        da = [json.loads(l.strip()[5:]) for l in t.splitlines() if l.startswith("data:")]
        return list(zip(ev, da))


def http(e, path, body=None):
    return urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d/%s" % (e.web, path), data=json.dumps(body).encode() if body else b"", method="POST"), timeout=5).status


def pos(x, y=0):
    return {"x": x, "y": y, "z": 0, "yaw": 0, "pitch": 0, "roll": 0}


with Emulator(http=True) as e:
    ev = Events(e)
    http(e, "create-anchor/00:01", pos(100)); http(e, "create-anchor/00:02", pos(200))
    ev.get()
    for x in (300, 300, 301):
        http(e, "set-position/00:02", pos(x))
        got = ev.get()
        check([n for n, _ in got] == ["device-updated", "neighbor-updated", "neighbor-updated"], "at %d: %s" % (x, [n for n, _ in got]))
