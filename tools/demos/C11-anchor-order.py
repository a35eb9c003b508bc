"""The angle of arrival reported for anchors is measured twice from the device instead of once from each side.
A ranging session with an anchor in its list, where azimuth and elevation differ in the two directions."""
import json, urllib.request
from host import *
with Emulator(http=True) as e:
    def http(path, body=None):
        return urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d/%s" % (e.web, path), data=json.dumps(body).encode() if body else b"", method="POST"), timeout=5).read()
    h = Host(e)
    addr = None
    for d in json.loads(http("get-state"))["devices"]:
        addr = d["mac_address"]
    http("set-position/" + addr, dict(x=0, y=0, z=0, yaw=0, pitch=0, roll=0))
    http("create-anchor/AB:CD", dict(x=100, y=50, z=100, yaw=0, pitch=0, roll=0))
    session(h, 1, mac=(0, 0), dst=[(0xAB, 0xCD)], dur=100)
    h.do(start(1))
    info = [p for p in h.flush() if p[0] == 0x62 and p[1] == 0]
    m = info[0][4 + 25:]
    # the device sees the anchor at (45, 19), the anchor sees the device at (-135, -19)
    fields = m.hex()
    check(fields.count((45).to_bytes(2, "little").hex()) >= 1, "no azimuth of 45")
    check((-135).to_bytes(2, "little", signed=True).hex() in fields, "the azimuth of the device as seen from the anchor is missing")
