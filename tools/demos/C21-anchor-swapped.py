"""The measurements of a ranging round are those of the other direction.
Ranging with an anchor that is not seen under the same angle from both sides."""
import json, urllib.request
from host import *
with Emulator(http=True) as e:
    def http(path, body):
        return urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d/%s" % (e.web, path), data=json.dumps(body).encode(), method="POST"), timeout=5).status
    a = Host(e)
    mac = [d["mac_address"] for d in json.load(urllib.request.urlopen("http://127.0.0.1:%d/get-state" % e.web, timeout=5))["devices"]][-1]
    http("set-position/" + mac, {"x": 0, "y": 0, "z": 0, "yaw": 0, "pitch": 0, "roll": 0})
    http("create-anchor/AA:BB", {"x": 100, "y": 0, "z": 300, "yaw": 0, "pitch": 0, "roll": 0})
    session(a, 1, mac=(0, 0), dst=[(0xBB, 0xAA)], role=1, typ=1, dur=100)
    a.do(start(1))
    one = None
    for p in a.flush(0.3):
        if p[:2] == bytes([0x62, 0]) and p[28] == 1:
            one = p
    if one is None:
        session(a, 2, mac=(0, 0), dst=[(0xAA, 0xBB)], role=1, typ=1, dur=100)
        a.do(start(2))
        for p in a.flush(0.3):
            if p[:2] == bytes([0x62, 0]) and p[28] == 1:
                one = p
    check(one is not None, "no measurement")
    m = one[29:]
    def deg(b):
        v = struct.unpack("<h", b)[0]
        return v / 128 if abs(v) > 360 else v
    azi, dest = deg(m[6:8]), deg(m[12:14])
    # It is ahead to one side; seen from there, we are behind.
    check(abs(azi) < 90 < abs(dest), "azimuth %s, of the other side %s" % (azi, dest))
