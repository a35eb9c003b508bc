"""An anchor's position is set for another anchor: a short and an extended address with the same number are taken for one.
Anchors with a short and an extended address whose numbers are equal."""
import json, urllib.request, urllib.error
from host import *
with Emulator(http=True) as e:
    def http(path, body=None):
        try:
            r = urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d/%s" % (e.web, path), data=json.dumps(body).encode() if body else b"", method="POST"), timeout=5)
            return r.status
        except urllib.error.HTTPError as x:
            return x.code
    def state():
        return json.load(urllib.request.urlopen("http://127.0.0.1:%d/get-state" % e.web, timeout=5))["devices"]
    pos = lambda x: {"x": x, "y": 0, "z": 0, "yaw": 0, "pitch": 0, "roll": 0}
    pairs = [("12:34", "00:00:00:00:00:00:12:34"), ("12:34", "34:12:00:00:00:00:00:00"), ("12:34", "12:34:00:00:00:00:00:00"), ("12:34", "00:00:00:00:00:00:34:12")]
    for short, ext in pairs:
        for first, second in ((short, ext), (ext, short)):
            check(http("create-anchor/" + first) == 200 and http("create-anchor/" + second) == 200, "created")
            for i in range(4):
                check(http("set-position/" + first, pos(10 + i)) == 200 and http("set-position/" + second, pos(20 + i)) == 200, "moved")
                got = {d["mac_address"]: d["x"] for d in state()}
                check(got == {first: 10 + i, second: 20 + i}, "positions %s" % got)
            check(http("destroy-anchor/" + first) == 200 and http("destroy-anchor/" + second) == 200, "destroyed")
            check(state() == [], "empty scene")
