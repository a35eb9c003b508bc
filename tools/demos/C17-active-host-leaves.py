"""The scene keeps a device whose host has gone.
The host leaves while one of its sessions ranges."""
import json, urllib.request
from host import *
with Emulator(http=True) as e:
    def devices():
        return sorted(d["mac_address"] for d in json.load(urllib.request.urlopen("http://127.0.0.1:%d/get-state" % e.web, timeout=5))["devices"])
    a, b, c = Host(e), Host(e), Host(e)
    time.sleep(0.2)
    all3 = devices()
    check(len(all3) == 3, "three devices: %s" % all3)
    b.close(); time.sleep(0.3)
    check(len(devices()) == 2, "two devices: %s" % devices())
    session(a, 1, mac=(0, 0), dst=[(0, 1)], role=1, typ=1)
    a.do(start(1)); a.close(); time.sleep(0.3)
    check(len(devices()) == 1, "one device: %s" % devices())
