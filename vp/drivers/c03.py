"""C03: size-prefixed messages over byte streams."""

import asyncio
import io
import json
import logging
from unittest import mock

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle

KINDS = {1: "uint8", 2: "uint16", 4: "uint32", 8: "uint64"}


def _byte_order(name):
    from runtimepy.primitives.byte_order import ByteOrder

    return (
        ByteOrder.LITTLE_ENDIAN if name == "little" else ByteOrder.BIG_ENDIAN
    )


def execute(cfg, ops):
    """Run a scenario on the real code."""

    logging.disable(logging.CRITICAL)
    if cfg["mode"] in ("processor", "json"):
        return _processor(cfg, ops)
    return loop_run(_connection(cfg, ops))


def _processor(cfg, ops):
    """Use message processors directly."""

    from runtimepy.message import MessageProcessor
    from runtimepy.primitives import normalize

    # pylint: disable=too-few-public-methods
    class Proc(MessageProcessor):
        """A processor with the configured prefix."""

        message_length_kind = normalize(KINDS[cfg["psize"]])

    send = Proc(byte_order=_byte_order(cfg["order"]))
    recv = Proc(byte_order=_byte_order(cfg["order"]))
    use_json = cfg["mode"] == "json"
    wire = b""
    events = []
    for op in ops:
        obs = {"wire": [], "out": []}
        if op["k"] == "send":
            stream = io.BytesIO()
            data = bytes(op["m"])
            if op.get("s"):
                send.encode(stream, data.decode())
            elif use_json and op.get("j"):
                send.encode_json(stream, json.loads(data))
            else:
                send.encode(stream, data)
            obs["wire"] = list(stream.getvalue())
            wire += stream.getvalue()
        else:
            data, wire = wire[: op["n"]], wire[op["n"] :]
            limit = op["limit"]
            if limit != 0:
                if use_json:
                    # Consuming stops at a message which isn't JSON.
                    try:
                        for msg in recv.messages(data):
                            obs["out"].append(
                                list(
                                    json.dumps(
                                        msg, separators=(",", ":")
                                    ).encode()
                                )
                            )
                    except ValueError as exc:
                        obs["out"].append(
                            list(exc.doc.encode())
                            if hasattr(exc, "doc")
                            else list(exc.object)
                        )
                else:
                    for msg in recv.process(data):
                        obs["out"].append(list(msg))
                        limit -= 1
                        if limit == 0:
                            break
        events.append({"op": op, "obs": obs})
    return events


async def _connection(cfg, ops):
    """Use connections of the configured kind (4-byte prefix)."""

    from runtimepy.message import MessageProcessor
    from runtimepy.net import stream as streams
    from vp import nets

    got = []
    order = _byte_order(cfg["order"])
    mode = cfg["mode"]

    class Binary(
        streams.TcpPrefixedMessageConnection
        if mode != "udp"
        else streams.UdpPrefixedMessageConnection
    ):
        """Records binary messages."""

        byte_order = order

        async def process_single(self, stream, addr=None):
            got.append(list(stream.read()))
            if len(got) % 2:
                await asyncio.sleep(0)
            return True

    class Text(streams.TcpStringMessageConnection):
        """Records text messages."""

        byte_order = order

        async def process_message(self, data, addr=None):
            got.append(list(data.encode()))
            await asyncio.sleep(0)
            return True

    class Echo(streams.EchoTcpMessageConnection):
        """Echoes messages."""

        byte_order = order

    kind = {"text": Text, "echo": Echo}.get(mode, Binary)
    make = nets.udp if mode == "udp" else nets.tcp
    sender, out, _ = make(kind)
    receiver, echoed, proto = make(kind, port=1)
    task = asyncio.create_task(receiver.process())
    await settle()
    wire = b""
    echo_proc = None

    async def relink(callback=None, **_):
        """Establish the link again."""
        nonlocal echoed, proto
        _, echoed, proto = make(kind, port=1)
        callback((echoed, proto))
        return True

    if mode == "echo":
        echo_proc = MessageProcessor(byte_order=order)
    events = []
    for op in ops:
        obs = {"wire": [], "out": []}
        if op["k"] == "send":
            data = bytes(op["m"])
            if op.get("s"):
                sender.send_message_str(data.decode())
            else:
                sender.send_message(data)
            sent = b"".join(
                x[0] if isinstance(x, tuple) else x for x in out.take()
            )
            obs["wire"] = list(sent)
            wire += sent
        elif op["k"] == "lost":
            wire = b""
            if mode == "udp":
                proto.error_received(OSError("refused"))
            else:
                proto.connection_lost(None)
            await task
            with mock.patch(
                "runtimepy.net."
                + ("udp" if mode == "udp" else "tcp")
                + ".connection.try_"
                + ("udp" if mode == "udp" else "tcp")
                + "_transport_protocol",
                relink,
            ):
                task = asyncio.create_task(receiver.process())
                await asyncio.sleep(5)
            await settle()
            if mode == "echo":
                echo_proc = MessageProcessor(byte_order=order)
        else:
            data, wire = wire[: op["n"]], wire[op["n"] :]
            got.clear()
            if mode == "udp":
                proto.datagram_received(data, ("127.0.0.1", 2001))
            else:
                proto.data_received(data)
            await settle()
            if mode == "echo":
                for item in echo_proc.process(b"".join(echoed.take())):
                    got.append(list(item))
            obs["out"] = list(got)
        events.append({"op": op, "obs": obs})
    for conn in (sender, receiver):
        conn.disable("done")
    await task
    return events


MC = """
CONSTANTS PSize = {psize}
 Order = "{order}"
 Msgs <- ConstMsgs
 MaxSent = {sent}
 Limits = {limits}
 Relinks = {relinks}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS InOrderOnce NothingLost Prompt
CHECK_DEADLOCK FALSE
"""

TEXT = ["", "a", "hello", "\u00e9", "\u20ac uro", "\U0001f600", "x" * 300]
JSON = [
    "{}",
    '{"a":1}',
    '{"b":[1,2,{"c":"d"}]}',
    "[]",
    "1",
    '"x"',
    "{bad",
    "",
    "nope",
]


def random_scenario(rng, length):
    """Random messages cut at random places."""

    mode = rng.choice(
        ["processor", "processor", "json", "binary", "text", "echo", "udp"]
    )
    psize = rng.choice([1, 2, 4, 8]) if mode in ("processor", "json") else 4
    ops = []
    pending = 0
    for _ in range(length):
        if pending == 0 or rng.random() < 0.45:
            if mode == "text":
                data = rng.choice(TEXT).encode()
                item = {"k": "send", "m": list(data), "s": True}
            elif mode == "json":
                data = rng.choice(JSON).encode()
                item = {"k": "send", "m": list(data)}
                if data[:1] == b"{" and data != b"{bad":
                    item["j"] = rng.random() < 0.5
            else:
                size = rng.choice([0, 0, 1, 2, 3, 5, 17, 255])
                if psize > 1:
                    size = rng.choice([size, size, 256, 300])
                data = bytes(
                    rng.choice([0, 1, 255, rng.randrange(256)])
                    for _ in range(size)
                )
                item = {"k": "send", "m": list(data)}
                if mode == "processor" and rng.random() < 0.3:
                    data = rng.choice(TEXT[:-1]).encode()
                    item = {"k": "send", "m": list(data), "s": True}
            ops.append(item)
            pending += psize + len(data)
        elif mode not in ("processor", "json") and rng.random() < 0.06:
            ops.append({"k": "lost"})
            pending = 0
        else:
            size = rng.choice([1, 1, 2, 3, 4, 5, 7, 64, pending])
            size = min(size, pending)
            pending -= size
            limit = 9999
            if mode == "processor" and rng.random() < 0.25:
                limit = rng.choice([1, 2])
            ops.append({"k": "recv", "n": size, "limit": limit})
    if pending:
        ops.append({"k": "recv", "n": pending, "limit": 9999})
    if mode in ("processor", "json"):
        for _ in range(3):
            ops.append({"k": "recv", "n": 0, "limit": 9999})
    return (
        {
            "mode": mode,
            "psize": psize,
            "order": rng.choice(["big", "little"]),
        },
        ops,
    )


def split_json(scn):
    """
    A message that isn't JSON ends one pass of the consumer; translate this
    into explicit limits (computed from the sent messages alone).
    """

    cfg, ops = scn
    if cfg["mode"] != "json":
        return scn
    msgs = []
    seen = have = 0
    end = 0
    out = []
    for op in ops:
        if op["k"] == "send":
            end += cfg["psize"] + len(op["m"])
            text = bytes(op["m"]).decode()
            try:
                json.loads(text)
                good = True
            except ValueError:
                good = False
            msgs.append((end, good))
            out.append(op)
        else:
            have += op["n"]
            limit = 0
            while seen < len(msgs) and msgs[seen][0] <= have:
                seen += 1
                limit += 1
                if not msgs[seen - 1][1]:
                    break
            out.append({**op, "limit": limit if limit else 9999})
    return cfg, out


def run(check: Check) -> None:
    """Entry."""

    scns = []
    for psize, order, sent, limits in check.pick(
        [(1, "big", 3, "{9999, 1}"), (2, "little", 2, "{9999}")],
        [
            (1, "big", 4, "{9999, 1}"),
            (2, "little", 3, "{9999, 1}"),
            (2, "big", 3, "{9999}"),
        ],
    ):
        cfg = MC.format(
            psize=psize, order=order, sent=sent, limits=limits, relinks=0
        )
        for ops in check.explore("MCFraming", cfg, need=["send", "recv"]):
            scns.append(
                ({"mode": "processor", "psize": psize, "order": order}, ops)
            )
    cap = check.pick(4000, 60000)
    if len(scns) > cap:
        scns = check.rng.sample(scns, cap)
    # The same schedules with the connection classes' four-byte prefix.
    cfg = MC.format(
        psize=4, order="big", sent=2, limits="{9999}", relinks=1
    )
    wide = check.explore("MCFraming", cfg, need=["send", "recv", "lost"])
    wide = check.rng.sample(wide, min(len(wide), check.pick(400, 5000)))
    for idx, ops in enumerate(wide):
        mode = ["binary", "text", "echo", "udp"][idx % 4]
        ops = [x for x in ops if x["k"] != "recv" or x["n"]]
        scns.append(({"mode": mode, "psize": 4, "order": "big"}, ops))
    for _ in range(check.pick(1200, 12000)):
        scns.append(
            split_json(
                random_scenario(check.rng, check.rng.randint(4, 30))
            )
        )
    traces = check.execute(execute, scns)
    check.validate("TraceFraming", "TraceFraming.cfg", traces)
    check.assumptions += [
        "datagrams arrive in order (size-prefixed messages are a stream)",
        "messages fit the size prefix",
    ]
