"""After an expectation has timed out, the next message is lost.
An expectation times out, and the message comes later."""
import asyncio, socket, sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "py/pica"))
from pica import Host
from pica.packets import uci


async def connected():
    a, b = socket.socketpair()
    reader, writer = await asyncio.open_connection(sock=a)
    return Host(reader, writer, bytes(2)), b


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


async def main():
    host, peer = await connected()
    try:
        await host.expect_control(uci.SessionDeinitRsp, timeout=0.05)
        check(False, "nothing has been sent")
    except asyncio.TimeoutError:
        pass
    peer.sendall(bytes([0x41, 1, 0, 1, 0]))
    peer.sendall(bytes([0x42, 0, 0, 1, 0]))
    try:
        await host.expect_control(uci.SessionDeinitRsp, timeout=2)
        await host.expect_control(uci.SessionStartRsp, timeout=2)
    except Exception as x:
        check(False, "a message is lost: %r" % x)
asyncio.run(main())
