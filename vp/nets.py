"""In-memory stand-ins for transports, so no real network is involved."""

import asyncio
import socket


class FakeTransport(asyncio.Transport):
    """A transport that records what is written to it."""

    def __init__(self, local=("127.0.0.1", 1000), remote=("127.0.0.1", 2000)):
        super().__init__()
        self.local = local
        self.remote = remote
        self.written = []
        self.closed = 0
        self.on_write = None
        self.protocol = None

    def get_extra_info(self, name, default=None):
        return {
            "sockname": self.local,
            "peername": self.remote,
            "socket": _FakeSocket(),
        }.get(name, default)

    def write(self, data):
        if self.closed:
            return
        data = bytes(data)
        self.written.append(data)
        if self.on_write is not None:
            self.on_write(data)

    def sendto(self, data, addr=None):
        if self.closed:
            return
        data = bytes(data)
        self.written.append((data, addr))
        if self.on_write is not None:
            self.on_write(data, addr)

    def is_closing(self):
        return bool(self.closed)

    def close(self):
        self.closed += 1

    def abort(self):
        self.closed += 1

    def take(self):
        """Everything written since the last call."""
        out = self.written
        self.written = []
        return out


class _FakeSocket:
    type = socket.SOCK_STREAM


def tcp(cls, port=0, **kwargs):
    """Create a TCP connection of some class on a fake transport."""
    from runtimepy.net.tcp.protocol import QueueProtocol

    transport = FakeTransport(
        ("127.0.0.1", 1000 + port), ("127.0.0.1", 2000 + port)
    )
    protocol = QueueProtocol()
    protocol.connection_made(transport)
    conn = cls(transport, protocol, **kwargs)
    return conn, transport, protocol


def udp(cls, port=0, remote=True, **kwargs):
    """Create a UDP connection of some class on a fake transport."""
    from runtimepy.net.udp.protocol import UdpQueueProtocol

    transport = FakeTransport(
        ("127.0.0.1", 1000 + port),
        ("127.0.0.1", 2000 + port) if remote else None,
    )
    protocol = UdpQueueProtocol()
    conn = cls(transport, protocol, **kwargs)
    return conn, transport, protocol
