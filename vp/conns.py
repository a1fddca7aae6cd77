"""Scripted connections for driving the connection code."""

import asyncio
import logging
from unittest import mock

from vp.nets import FakeTransport

LOG = logging.getLogger("vp.conn")


def script(text):
    """A message's number and what to do with it."""
    if not isinstance(text, str):
        text = bytes(text).decode()
    num, what = text.split()
    return int(num), what


class Recorder:
    """What a scripted connection did."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.plan = list(cfg["plan"])
        self.got = []
        self.fin = 0
        self.sent = []
        self.sentb = []
        self.closes = 0
        self.tries = []
        self.busy = 0
        self.release = asyncio.Queue()
        self.init = asyncio.Queue()
        self.gate = False
        self.loop = asyncio.get_running_loop()
        self.start = self.loop.time()
        self.old = []
        self.broken = False

    def now(self):
        """Time since the beginning."""
        val = self.loop.time() - self.start
        return int(val) if val == int(val) else round(val, 6)

    async def handle(self, data):
        """Handle a message as it asks for."""

        num, what = script(data)
        self.got.append(num)
        if what == "raise":
            raise RuntimeError("handler")
        result = what == "ok"
        if what == "block":
            self.busy += 1
            try:
                result = await self.release.get()
            finally:
                self.busy -= 1
        self.fin += 1
        return result

    async def initialize(self):
        """Initialize as the scenario says."""
        if self.cfg["init"] == "ok":
            return True
        self.gate = True
        try:
            res = await self.init.get()
        finally:
            self.gate = False
        if res == "raise":
            raise RuntimeError("init")
        return res == "ok"

    def attempt(self):
        """An attempt to restart."""
        self.tries.append(self.now())
        what = self.plan.pop(0) if self.plan else "ok"
        if what == "raise":
            raise RuntimeError("restart")
        return what == "ok"

    def closing(self):
        """The connection is being closed."""
        self.closes += 1
        if self.broken:
            raise RuntimeError("close")


def make(rec):
    """Create a connection that does as scripted: (conn, recv, eof)."""

    from runtimepy.net.connection import Connection
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.net.udp.connection import UdpConnection

    class Common:
        """Scripted parts of every connection."""

        async def async_init(self):
            return await rec.initialize()

        async def process_text(self, data):
            return await rec.handle(data)

        async def process_binary(self, data):
            return await rec.handle(data)

        async def process_datagram(self, data, addr):
            del addr
            return await rec.handle(data)

    flav = rec.cfg["flav"]
    if flav == "queue":

        class Queued(Common, Connection):
            """A connection with queues for incoming messages."""

            incoming = asyncio.Queue()

            async def _await_message(self):
                return await self.incoming.get()

            async def _send_text_message(self, data):
                num, what = script(data)
                if what == "raise":
                    raise RuntimeError("send")
                rec.sent.append(num)

            async def _send_binay_message(self, data):
                num, what = script(data)
                if what == "raise":
                    raise RuntimeError("send")
                rec.sentb.append(num)

            async def close(self):
                rec.open = False
                rec.closing()

            async def restart(self):
                good = rec.attempt()
                if good:
                    self.incoming = asyncio.Queue()
                    rec.open = True
                return good

        conn = Queued(LOG)
        rec.open = True

        def recv(num, what):
            if rec.open:
                data = f"{num} {what}"
                conn.incoming.put_nowait(data if num % 2 else data.encode())

        def eof():
            if rec.open:
                conn.incoming.put_nowait(None)

        def late():
            pass

        return conn, recv, eof, late, mock.patch("time.altzone")

    def transport():
        trans = FakeTransport()

        def wrote(data, addr=None):
            del addr
            rec.sent.append(script(data)[0])

        trans.on_write = wrote
        return trans

    base = {"tcp": TcpConnection, "udp": UdpConnection}[flav]

    class Direct(Common, base):
        """A connection on a transport that records."""

        async def close(self):
            await super().close()
            rec.closing()

    def pair():
        # pylint: disable=import-outside-toplevel
        from runtimepy.net.tcp.protocol import QueueProtocol
        from runtimepy.net.udp.protocol import UdpQueueProtocol

        trans = transport()
        proto = QueueProtocol() if flav == "tcp" else UdpQueueProtocol()
        if flav == "tcp":
            proto.connection_made(trans)
        return trans, proto

    trans, proto = pair()
    conn = Direct(trans, proto)

    async def restarter(callback=None, **_):
        """Stands in for creating a socket."""
        if not rec.attempt():
            return None
        rec.old.append(conn._protocol)
        new = pair()
        if callback is not None:
            callback(new)
        return new

    def recv(num, what):
        if not conn._transport.closed:
            data = f"{num} {what}".encode()
            if flav == "tcp":
                conn._protocol.data_received(data)
            else:
                conn._protocol.datagram_received(data, ("127.0.0.1", 2000))

    def eof():
        if conn._transport.closed:
            return
        if flav == "tcp":
            conn._transport.closed = 1
            conn._protocol.connection_lost(None)
        else:
            conn._protocol.error_received(OSError("refused"))

    def late():
        if rec.old:
            if flav == "tcp":
                rec.old[-1].connection_lost(OSError("late"))
            else:
                rec.old[-1].error_received(OSError("late"))
        elif flav == "tcp" and conn._transport.closed:
            conn._protocol.connection_lost(None)

    patch = mock.patch(
        f"runtimepy.net.{flav}.connection.try_{flav}_transport_protocol",
        restarter,
    )
    return conn, recv, eof, late, patch
