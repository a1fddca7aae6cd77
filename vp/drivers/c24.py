"""C24: how connections come about."""

import asyncio
import logging

from vp import nets
from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle

ANYWHERE = 9


def execute(cfg, ops):
    """Run a scenario on the real code."""
    del cfg
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(ops))


def address(num):
    """An address that stands for a number."""
    return (f"127.0.0.{10 + num}", 7000 + num)


def number(addr):
    """The number an address stands for."""
    if addr is None:
        return 0
    addr = tuple(addr)[:2]
    if addr == ("0.0.0.0", 0):
        return ANYWHERE
    for num in range(1, 9):
        if addr == address(num):
            return num
    return str(addr)


class Server:
    """Stands in for a server."""

    def __init__(self, factory):
        self.factory = factory
        self.open = False

    @property
    def sockets(self):
        """Where it listens."""
        return [self]

    def getsockname(self):
        """Where it listens."""
        return address(8)

    async def __aenter__(self):
        self.open = True
        return self

    async def __aexit__(self, *_):
        self.open = False


async def _execute(ops):
    from runtimepy.net.backoff import ExponentialBackoff
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.tcp.connection import NullTcpConnection
    from runtimepy.net.udp.connection import NullUdpConnection

    class Udp(NullUdpConnection):
        """Its default is not to connect."""

        should_connect = False

    net = {"up": True}
    made = []
    loop = asyncio.get_running_loop()

    def transport(remote, local):
        """What the host gives."""
        local = local or ("127.0.0.1", 50000)
        return nets.FakeTransport(tuple(local), remote and tuple(remote))

    async def stream(factory, host=None, port=None, local_addr=None, **kwargs):
        """A connection is asked for."""
        made.append(
            [number((host, port)), number(local_addr)]
            if not kwargs
            else str(kwargs)
        )
        if not net["up"]:
            raise ConnectionRefusedError("refused")
        inst = transport((host, port), local_addr)
        protocol = factory()
        protocol.connection_made(inst)
        return inst, protocol

    async def datagrams(factory, remote_addr=None, local_addr=None, **kwargs):
        """An endpoint is asked for."""
        kwargs.pop("family", None)
        made.append(
            [number(remote_addr), number(local_addr)]
            if not kwargs
            else str(kwargs)
        )
        if not net["up"]:
            raise ConnectionRefusedError("refused")
        inst = transport(remote_addr, local_addr)
        protocol = factory()
        protocol.connection_made(inst)
        return inst, protocol

    servers = []

    async def listen(factory, **kwargs):
        """A server is asked for."""
        server = Server(factory)
        servers.append(server)
        assert kwargs == {"host": "127.0.0.18", "port": 7008}, kwargs
        return server

    loop.create_connection = stream
    loop.create_datagram_endpoint = datagrams
    loop.create_server = listen

    making = conn = task = app = manager = None
    stop = asyncio.Event()
    told = []
    serving = []
    events = []

    def backoff(op):
        """As asked for."""
        if not op["back"]:
            return None
        return ExponentialBackoff(
            interval=op["interval"] / 10,
            max_sleep=op["cap"] / 10,
            max_tries=op["tries"],
        )

    def phase():
        """How far it is."""
        nonlocal conn, task
        if making is None:
            return "none"
        if not making.done():
            return "making"
        if making.exception() is not None:
            err = making.exception()
            return (
                "failed" if isinstance(err, AssertionError) else type(err).__name__
            )
        if not conn.disabled:
            return "up"
        return "lost" if task.done() else "again"

    for op in ops:
        name = op["k"]
        made.clear()
        sent = []
        state = phase()
        if name == "create" and state not in ("making", "again"):
            if conn is not None:
                conn.disable("test")
                await settle()
            kwargs = {}
            kind = NullTcpConnection
            if op["kind"] == "udp":
                # Either way of saying whether to connect.
                kind = NullUdpConnection
                if op["form"] == "class":
                    kind = kind if op["connect"] else Udp
                else:
                    kind = Udp if op["connect"] else kind
                    kwargs["connect"] = op["connect"]
                if op["remote"]:
                    kwargs["remote_addr"] = address(op["remote"])
            else:
                kwargs["host"], kwargs["port"] = address(op["remote"])
            if op["local"]:
                kwargs["local_addr"] = address(op["local"])
            if op["back"] or op["local"]:
                kwargs["backoff"] = backoff(op)
            conn = task = None
            making = asyncio.create_task(kind.create_connection(**kwargs))
        elif name == "net":
            net["up"] = op["up"]
        elif name == "lost" and state == "up":
            if isinstance(conn, NullTcpConnection):
                conn._protocol.connection_lost(None)
            else:
                conn._protocol.error_received(OSError("test"))
        elif name == "again" and state == "lost":
            task = asyncio.create_task(conn.process(backoff=backoff(op)))
        elif name == "send" and state == "up":
            conn._transport.take()
            conn.send_text("hello")
            for item in conn._transport.take():
                if isinstance(item, tuple):
                    data, where = item
                    where = number(where)
                else:
                    data = item
                    where = number(conn._transport.remote)
                sent.append(where if data == b"hello" else str(data))
        elif name == "tick":
            await asyncio.sleep(op["d"] / 10)
        elif name == "serve" and app is None:
            told = []
            serving = []
            manager = ConnectionManager()
            stop = asyncio.Event()
            app = asyncio.create_task(
                NullTcpConnection.app(
                    stop,
                    callback=told.append,
                    serving_callback=serving.append,
                    manager=manager,
                    host="127.0.0.18",
                    port=7008,
                )
            )
        elif name == "accept" and app is not None:
            protocol = servers[-1].factory()
            protocol.connection_made(
                nets.FakeTransport(address(8), address(op["from"]))
            )
        elif name == "close" and app is not None:
            stop.set()
            await app
            app = None
        await settle()
        if making is not None and making.done() and conn is None:
            if making.exception() is None:
                conn = making.result()
                task = asyncio.create_task(conn.process())
                await settle()
        there = []
        if conn is not None:
            local = number(conn.local_address)
            if local == str(("127.0.0.1", 50000)):
                local = 0
            there = [number(conn.remote_address), local]
        busy = (
            [not x.disabled for x in told] == [app is not None] * len(told)
            and (app is None or set(manager.by_type(NullTcpConnection)) == set(told))
            and serving == servers[-1:]
        )
        events.append(
            {
                "op": op,
                "obs": {
                    "phase": phase(),
                    "made": made[:],
                    "there": there,
                    "counts": (
                        [conn._restarts.value, conn._restart_attempts.value]
                        if conn
                        else [0, 0]
                    ),
                    "sent": sent,
                    "served": [
                        number(x.remote_address) if busy else "idle"
                        for x in told
                    ],
                    "gone": sum(x.disabled for x in told),
                    "serving": bool(servers) and servers[-1].open,
                },
            }
        )
    stop.set()
    if app is not None:
        await app
    if conn is not None:
        conn.disable("test")
    for item in (making, task):
        if item is not None:
            item.cancel()
    await asyncio.gather(
        *[x for x in (making, task) if x is not None], return_exceptions=True
    )
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Anywhere = 9
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Enough Counts Steady
CHECK_DEADLOCK FALSE
"""


def random_scenario(rng, length):
    """A network that comes and goes."""

    ops = []
    phase = "none"
    up = True
    serving = False

    def back():
        """Some backoff, or the default."""
        return {
            "back": rng.random() < 0.7,
            "interval": rng.choice([1, 2, 7]),
            "cap": rng.choice([1, 5, 40, 100]),
            "tries": rng.choice([0, 1, 2, 5, 20]),
        }

    for _ in range(length):
        roll = rng.random()
        if roll < 0.15 or phase == "none":
            kind = rng.choice(["tcp", "udp", "udp"])
            remote = rng.choice([0, 1, 2])
            local = rng.choice([0, 0, 3, 4])
            if kind == "tcp" or not local:
                remote = remote or 1
            ops.append(
                {
                    "k": "create",
                    "kind": kind,
                    "connect": kind == "tcp" or rng.random() < 0.5,
                    "remote": remote,
                    "local": local,
                    "form": rng.choice(["given", "class"]),
                }
                | back()
            )
            phase = "some"
        elif roll < 0.3:
            up = not up
            ops.append({"k": "net", "up": up})
        elif roll < 0.45:
            ops.append({"k": "lost"})
            if rng.random() < 0.7:
                ops.append({"k": "again"} | back())
        elif roll < 0.52:
            ops.append({"k": "send"})
        elif roll < 0.6:
            ops.append({"k": "again"} | back())
        elif roll < 0.85:
            ops.append({"k": "tick", "d": rng.choice([1, 3, 10, 50, 300])})
        elif not serving:
            ops.append({"k": "serve"})
            serving = True
        elif rng.random() < 0.8:
            ops.append({"k": "accept", "from": rng.randint(1, 7)})
        else:
            ops.append({"k": "close"})
            serving = False
    return ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCConnect", MC.format(ops=check.pick(5, 6)), need=["send", "again"]
    )
    check.rng.shuffle(scns)
    for scn in scns[: check.pick(3000, 30000)]:
        jobs.append(({"k": "all"}, scn))
    for _ in range(check.pick(1000, 12000)):
        ops = random_scenario(check.rng, check.rng.choice([10, 30, 60]))
        jobs.append(({"k": "all"}, ops))
    traces = check.execute(execute, jobs)
    check.validate("TraceConnect", "TraceConnect.cfg", traces)
