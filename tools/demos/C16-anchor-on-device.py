"""An anchor can be created with the address of a connected device.
A create-anchor request for the address of a device."""
import urllib.request, urllib.error
from host import *
with Emulator(http=True) as e:
    def http(path):
        try:
            return urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d/%s" % (e.web, path), data=b"", method="POST"), timeout=5).status
        except urllib.error.HTTPError as x:
            return x.code
    hosts = [Host(e) for _ in range(3)]
    codes = [http("create-anchor/00:%02X" % n) for n in range(8)]
    check(codes.count(409) == 3, "three devices are connected, but the answers were %s" % codes)
