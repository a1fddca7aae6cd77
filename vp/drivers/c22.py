"""C22: what a connection says about its traffic."""

import asyncio
from fractions import Fraction
import logging
import re

from vp import nets
from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle


class Socket:
    """Stands in for a websocket."""

    def __init__(self):
        self.logger = logging.getLogger("vp.ws")
        self.remote_address = ("127.0.0.1", 1)
        self.local_address = ("127.0.0.1", 2)
        self.incoming = asyncio.Queue()
        self.sent = []

    async def recv(self):
        """Receive a message."""
        return await self.incoming.get()

    async def send(self, data):
        """Send a message."""
        self.sent.append(data)

    async def close(self):
        """Close."""


class Lines(logging.Handler):
    """Collects what's logged about metrics."""

    def __init__(self):
        super().__init__(1)
        self.out = []

    def emit(self, record):
        text = record.getMessage()
        match = re.search(
            r"\(here\) ([tr]x): messages=(\d+) \|.*\| bytes=(\d+) \|", text
        )
        if match:
            self.out.append([match[1], int(match[2]), int(match[3])])


def execute(cfg, ops):
    """Run a scenario on the real code."""
    return loop_run(_execute(cfg, ops))


async def _execute(cfg, ops):
    from runtimepy.metrics.connection import ConnectionMetrics
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.net.udp.connection import UdpConnection
    from runtimepy.net.websocket.connection import WebsocketConnection

    logging.disable(logging.NOTSET)

    class Common:
        """Takes every message."""

        async def process_text(self, data):
            del data
            return True

        async def process_binary(self, data):
            del data
            return True

        async def process_datagram(self, data, addr):
            del data
            del addr
            return True

    kind = cfg["kind"]
    base = {
        "tcp": TcpConnection,
        "udp": UdpConnection,
        "ws": WebsocketConnection,
    }[kind]

    class Conn(Common, base):
        """A connection."""

    lines = Lines()
    manager = ConnectionManager()
    conns = []
    for _ in range(2):
        if kind == "ws":
            proto = Socket()
            conn = Conn(proto)
        else:
            make = nets.tcp if kind == "tcp" else nets.udp
            conn, _, proto = make(Conn)
        conn.logger.setLevel(1)
        conn.logger.propagate = False
        conn.logger.addHandler(lines)
        conns.append((conn, proto))
        await manager.queue.put(conn)
    stop = asyncio.Event()
    task = asyncio.create_task(manager.manage(stop))
    await settle()
    copy = ConnectionMetrics()
    copied = False

    def ratio(num):
        """What a rate (a 32-bit number) stands for: times are quarters of a
        second and sizes multiples of 125 bytes, so denominators are small."""
        if num != num or abs(num) > 10**6:
            return str(num)
        got = Fraction(num).limit_denominator(250)
        return [got.numerator, got.denominator]

    def view(metrics, conn=None, name=None):
        """What metrics say."""
        out = [
            metrics.messages.value,
            metrics.bytes.value,
            metrics.message_rate.value,
            metrics.kbps.value,
        ]
        if name is not None:
            seen = [
                conn.env.value(f"metrics.{name}.{x}")
                for x in ("messages", "bytes", "messages_rate", "kbps")
            ]
            if seen != out:
                return ["environment", str(seen), str(out)]
        return out[:2] + [ratio(x) for x in out[2:]]

    events = []
    for op in ops:
        name = op["k"]
        lines.out.clear()
        conn, proto = conns[op.get("c", 1) - 1]
        if name in ("send", "recv"):
            data = ("\u00e9" if op["wide"] else "x") * op["n"]
            data = data if op["text"] else data.encode()
            if name == "send":
                if isinstance(data, str):
                    conn.send_text(data)
                elif kind == "udp" and op["n"] == 125:
                    conn.sendto(data, addr=("127.0.0.1", 2001))
                else:
                    conn.send_binary(data)
            elif kind == "ws":
                proto.incoming.put_nowait(data)
            else:
                data = data.encode() if isinstance(data, str) else data
                if kind == "tcp":
                    proto.data_received(data)
                else:
                    proto.datagram_received(data, ("127.0.0.1", 2000))
        elif name == "poll":
            conn.metrics.poll()
        elif name == "pollall":
            manager.poll_metrics()
        elif name == "reset":
            conn.metrics.reset()
        elif name == "resetall":
            manager.reset_metrics()
        elif name == "copy":
            copy.update(conn.metrics)
            copied = True
        elif name == "log":
            conn.log_metrics("here")
        elif name == "tick":
            await asyncio.sleep(op["d"] / 4)
        await settle()
        order = [x[0] for x in lines.out] in ([], ["tx", "rx"])
        events.append(
            {
                "op": op,
                "obs": {
                    "conn": [
                        [
                            view(getattr(conn.metrics, name), conn, name)
                            for name in ("tx", "rx")
                        ]
                        for conn, _ in conns
                    ],
                    "copy": [view(copy.tx), view(copy.rx)] if copied else [],
                    "log": [x[1:] if order else x for x in lines.out],
                },
            }
        )
    stop.set()
    for conn, _ in conns:
        conn.logger.removeHandler(lines)
        conn.logger.propagate = True
    await task
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Depth = 50
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Counted Accounted Bounded
CHECK_DEADLOCK FALSE
"""


def random_scenario(rng, length):
    """Some traffic."""

    ops = []
    busy = rng.random()
    alone = rng.choice([0.5, 0.9])
    for _ in range(length):
        roll = rng.random()
        if roll < 0.3 + 0.3 * busy:
            text = rng.random() < 0.5
            ops.append(
                {
                    "k": rng.choice(["send", "recv"]),
                    "n": rng.choice([0, 125, 125, 250]),
                    "wide": text and rng.random() < 0.5,
                    "text": text,
                    "c": 1 if rng.random() < alone else 2,
                }
            )
        elif roll < 0.9:
            if rng.random() < 0.3:
                ops.append(
                    {"k": rng.choice(["poll", "pollall"])}
                    | {"c": rng.choice([1, 1, 2])}
                )
            else:
                ops.append({"k": "tick", "d": rng.choice([1, 1, 1, 2, 3])})
        else:
            ops.append(
                {
                    "k": rng.choice(
                        ["reset", "resetall", "copy", "copy", "log"]
                    ),
                    "c": rng.choice([1, 1, 2]),
                }
            )
            if ops[-1]["k"][:5] == "reset" and rng.random() < 0.7:
                ops.pop()
    return ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    kinds = ["tcp", "udp", "ws"]
    scns = check.explore(
        "MCMetrics", MC.format(ops=check.pick(4, 5)), need=["send", "poll"]
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(3000, 30000)]):
        jobs.append(({"kind": kinds[idx % 3]}, scn))
    for idx in range(check.pick(400, 6000)):
        ops = random_scenario(check.rng, check.rng.choice([20, 60, 250]))
        jobs.append(({"kind": kinds[idx % 3]}, ops))
    traces = check.execute(execute, jobs)
    check.validate("TraceMetrics", "TraceMetrics.cfg", traces)
