"""C23: talking to devices (telnet, SCPI)."""

import asyncio
import logging

from vp import nets
from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_telnet(ops) if cfg["kind"] == "telnet" else _scpi(ops))


NOTHING = {
    "alive": True,
    "text": [],
    "raw": [],
    "signs": [],
    "out": [],
    "sent": [],
    "done": [],
    "ready": False,
}


async def _telnet(ops):
    from runtimepy.net.tcp.telnet import BasicTelnet, TelnetCode, TelnetNvt

    text = []
    raw = []
    signs = []

    class Conn(BasicTelnet):
        """Takes note of everything."""

        async def process_telnet_message(self, data):
            raw.extend(data)
            return await super().process_telnet_message(data)

        async def process_text(self, data):
            text.extend(data.encode())
            return await super().process_text(data)

        async def process_command(self, code):
            assert isinstance(code, TelnetCode)
            signs.append(["command", int(code)])
            await super().process_command(code)

        async def handle_nvt(self, action):
            assert isinstance(action, TelnetNvt)
            signs.append(["signal", int(action)])
            await super().handle_nvt(action)

        async def process_option(self, code, option, stream):
            assert isinstance(code, TelnetCode)
            signs.append(["option", int(code), option])
            await super().process_option(code, option, stream)

    conn, transport, protocol = nets.tcp(Conn)
    stop = asyncio.Event()
    task = asyncio.create_task(conn.process(stop_sig=stop))
    await settle()
    events = []
    for op in ops:
        text.clear()
        raw.clear()
        signs.clear()
        transport.take()
        if op["k"] == "data":
            protocol.data_received(bytes(op["bytes"]))
        elif op["k"] == "command":
            conn.send_command(TelnetCode(op["code"]))
        else:
            conn.send_option(TelnetCode(op["code"]), op["n"])
        out = list(b"".join(transport.take()))
        if conn.disabled:
            # Nothing's sent by a connection that has ended.
            out = [255, op["code"]] if op["k"] == "command" else out
            out = [255, op["code"], op["n"]] if op["k"] == "option" else out
        await settle()
        events.append(
            {
                "op": op,
                "obs": NOTHING
                | {
                    "alive": not conn.disabled,
                    "text": text[:],
                    "raw": raw[:],
                    "signs": signs[:],
                    "out": out,
                },
            }
        )
    stop.set()
    await task
    return events


async def _scpi(ops):
    from runtimepy.net.tcp.scpi import ScpiConnection

    sent = []
    done = []
    lines = 0

    class Conn(ScpiConnection):
        """Takes note of everything."""

        def send_text(self, data):
            name = data.rstrip("?\n")
            asks = data.endswith("?\n")
            known = name == "*IDN" or name[:1] == "q" and name[1:].isdigit()
            sent.append(
                [0 if name == "*IDN" else int(name[1:]), asks]
                if known and data == name + ("?\n" if asks else "\n")
                else data
            )
            super().send_text(data)

        async def send_command(self, command, *args, **kwargs):
            if command != "*IDN":
                return await super().send_command(command, *args, **kwargs)
            result = await super().send_command(command, *args, **kwargs)
            done.append([0, result])
            return result

    conn, _, protocol = nets.tcp(Conn)
    stop = asyncio.Event()
    task = asyncio.create_task(conn.process(stop_sig=stop))
    await settle()
    events = []
    asks = {}

    async def ask(num, op):
        """Ask something."""
        try:
            got = await conn.send_command(
                f"q{num}",
                response=op["response"],
                query=op["query"],
                timeout=op["limit"] / 10,
                log=num % 2 == 1,
            )
        except asyncio.CancelledError:
            got = "cancelled"
        done.append([num, got])

    # It's been asked already.
    assert sent == [[0, True]], sent
    for op in ops:
        sent.clear()
        done.clear()
        if op["k"] == "ask":
            num = len(asks) + 1
            asks[num] = asyncio.create_task(ask(num, op))
        elif op["k"] == "line":
            text = "\r\n\n" if op["blank"] else ""
            for _ in range(op["n"]):
                lines += 1
                text += f"r{lines}\n"
            protocol.data_received(text.encode())
        elif op["k"] == "cancel":
            asks[op["id"]].cancel()
        else:
            await asyncio.sleep(op["d"] / 10)
        await settle()
        events.append(
            {
                "op": op,
                "obs": NOTHING
                | {
                    "alive": not conn.disabled,
                    "sent": sent[:],
                    "done": done[:],
                    "ready": conn.initialized.is_set(),
                },
            }
        )
    for item in asks.values():
        item.cancel()
    await asyncio.gather(*asks.values(), return_exceptions=True)
    await settle()
    stop.set()
    await task
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Kind = "{kind}"
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Whole Turn Fits
CHECK_DEADLOCK FALSE
"""


def random_telnet(rng, length):
    """A stream in pieces, with text that's whole in the end."""

    stream = []
    for _ in range(length):
        roll = rng.random()
        if roll < 0.4:
            for byte in rng.choice(
                ["a", "é", "€", "😀", "~", "\u0080", "\r\n", "\t", "\x7f"]
            ).encode():
                stream.append(byte)
                if byte > 127 and rng.random() < 0.2:
                    # (Something that isn't text in the middle of a character.)
                    stream += rng.choice([[255, 241], [7], [255, 251, 31]])
            continue
        stream += rng.choice(
            [
                [255, rng.randrange(240, 251)],
                [255, 255],
                [255, rng.randrange(251, 255), rng.choice([0, 1, 255, 251])],
                [255, rng.randrange(0, 240)],
                [rng.choice([0, 7, 8, 9, 10, 11, 12, 13])],
            ]
        )
        if stream[-2:] == [255, 244] and rng.random() < 0.9:
            stream[-1] = 245
    ops = []
    most = rng.choice([1, 2, 5, 20])
    while stream:
        size = rng.randrange(1, most + 1)
        ops.append({"k": "data", "bytes": stream[:size]})
        stream = stream[size:]
        if rng.random() < 0.1:
            ops.append({"k": "command", "code": rng.randrange(240, 256)})
        if rng.random() < 0.1:
            ops.append(
                {
                    "k": "option",
                    "code": rng.randrange(251, 255),
                    "n": rng.randrange(256),
                }
            )
    return ops


def random_scpi(rng, length):
    """Questions and lines."""

    ops = [{"k": "line", "n": 1, "blank": False}]
    ids = 0
    for _ in range(length):
        roll = rng.random()
        if roll < 0.35:
            ids += 1
            ops.append(
                {
                    "k": "ask",
                    "query": rng.random() < 0.7,
                    "response": rng.random() < 0.7,
                    "limit": rng.choice([3, 10, 17, 50]),
                }
            )
        elif roll < 0.65:
            ops.append(
                {
                    "k": "line",
                    "n": rng.choice([0, 1, 1, 1, 2, 4]),
                    "blank": rng.random() < 0.3,
                }
            )
            if ops[-1]["n"] == 0:
                ops[-1]["blank"] = True
        elif roll < 0.9 or not ids:
            ops.append({"k": "tick", "d": rng.choice([1, 4, 9, 20])})
        else:
            ops.append({"k": "cancel", "id": rng.randint(1, ids)})
    return ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    for kind, ops in (
        ("telnet", check.pick(6, 9)),
        ("scpi", check.pick(5, 6)),
    ):
        scns = check.explore(
            "MCDevice",
            MC.format(kind=kind, ops=ops),
            need=["data"] if kind == "telnet" else ["ask", "line"],
        )
        check.rng.shuffle(scns)
        for scn in scns[: check.pick(2500, 30000)]:
            jobs.append(({"kind": kind}, scn))
    for idx in range(check.pick(1200, 15000)):
        if idx % 2:
            ops = random_telnet(check.rng, check.rng.choice([5, 20, 60]))
            jobs.append(({"kind": "telnet"}, ops))
        else:
            ops = random_scpi(check.rng, check.rng.choice([10, 30, 80]))
            jobs.append(({"kind": "scpi"}, ops))
    traces = check.execute(execute, jobs)
    check.validate("TraceDevice", "TraceDevice.cfg", traces)
