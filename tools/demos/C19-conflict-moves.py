"""A create-anchor request that is refused moves what has that address already.
An anchor is created again, with another position."""
import json, urllib.request, urllib.error
from host import *
with Emulator(http=True) as e:
    def http(path, body=None):
        try:
            r = urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d/%s" % (e.web, path), data=json.dumps(body).encode() if body else b"", method="POST"), timeout=5)
            return r.status
        except urllib.error.HTTPError as x:
            return x.code
    def state():
        return json.load(urllib.request.urlopen("http://127.0.0.1:%d/get-state" % e.web, timeout=5))["devices"]
    pos = lambda x: {"x": x, "y": 1, "z": 2, "yaw": 0, "pitch": 0, "roll": 0}
    check(http("create-anchor/AA:BB", pos(3)) == 200, "created")
    check(http("create-anchor/AA:BB", pos(4)) == 409, "created twice")
    check([d["x"] for d in state()] == [3], "moved: %s" % state())
