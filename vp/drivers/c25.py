"""C25: telemetry of structures."""

import asyncio
import logging

from vp import nets
from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(cfg, ops))


NAMES = {
    "u8": "uint8",
    "i8": "int8",
    "u16": "uint16",
    "i16": "int16",
    "u32": "uint32",
    "i32": "int32",
    "u64": "uint64",
    "i64": "int64",
    "f32": "float",
    "f64": "double",
    "bool": "bool",
}


async def _execute(cfg, ops):
    from runtimepy.net.arbiter.struct import (
        TimestampedStruct,
        UdpStructTransceiver,
    )
    from runtimepy.primitives import create
    from runtimepy.primitives.byte_order import ByteOrder
    from runtimepy.primitives.field import BitField, BitFlag

    kinds = cfg["kinds"]
    now = cfg["start"]

    class Struct(TimestampedStruct):
        """A structure made to order."""

        time_keeper = staticmethod(lambda: now)
        if not cfg.get("late"):
            byte_order = ByteOrder[cfg["order"]]

        def init_env(self):
            super().init_env()
            byte = None
            bit = 0
            for idx, kind in enumerate(kinds):
                if kind == "bits":
                    byte = create("uint8")
                    bit = 0
                    # (What's sent is the byte.)
                    self.env.int_channel(f"r{idx}", byte)
                if kind == "flag":
                    self.env.add_field(BitFlag(f"c{idx}", byte, bit))
                    bit += 1
                elif kind in ("bits", "more"):
                    self.env.add_field(BitField(f"c{idx}", byte, bit, 3))
                    bit += 3
                else:
                    self.env.channel(f"c{idx}", create(NAMES[kind]))

    news = []

    class Conn(UdpStructTransceiver):
        """A connection."""

        struct_kind = Struct

        def mtu(self, probe_size=1000, fallback=1500, probe_create=bytes):
            """Probes, as the real one does."""
            data = probe_create(777)
            size = len(bytes(self.struct_tx.array))
            assert data and 777 - size < len(data) <= 777, len(data)
            assert len(data) % size == 0, len(data)
            return cfg["mtu"]

        def handle_update(self, timestamp_ns, instance, addr):
            assert instance is rx and addr == ("127.0.0.1", 2000), addr
            assert timestamp_ns == instance.timestamp.value
            news.append(state(instance))

    def state(inst):
        """What a structure says."""
        vals = []
        for idx, kind in enumerate(kinds):
            val = inst.env.value(f"c{idx}")
            val = int(val * 2) if kind in ("f32", "f64") else int(val)
            vals.append(val)
        return [inst.timestamp.value, inst.sequence.value, vals]

    tx, rx = (Struct(x, {}) for x in ("tx", "rx"))
    for item in (tx, rx):
        await item.build(None)
        if cfg.get("late"):
            item.update_byte_order(ByteOrder[cfg["order"]])
        item.env.finalize()
    rx.timestamp.value = 0
    tx.sequence.value = cfg["seq"]
    send, transport, _ = nets.udp(Conn)
    recv, _, protocol = nets.udp(Conn, port=1)
    send.assign_tx(tx)
    # Probing doesn't change anything.
    recv.assign_rx(rx)
    task = asyncio.create_task(recv.process())
    await settle()
    wire = []
    events = []
    for op in ops:
        news.clear()
        if op["k"] == "set" and op["c"] <= len(kinds):
            kind = kinds[op["c"] - 1]
            val = op["v"]
            if kind in ("bool", "flag"):
                val = bool(val % 2)
            elif kind in ("bits", "more"):
                val = val % 8
            elif kind[0] == "u":
                val = abs(val)
            elif kind[0] == "f":
                val = val / 2
            tx.env.set(f"c{op['c'] - 1}", val)
        elif op["k"] == "tick":
            now += op["d"]
        elif op["k"] == "capture":
            send.capture(sample=op["sample"], flush=op["flush"])
            wire.extend(data for data, _ in transport.take())
        elif op["k"] == "deliver" and op["i"] <= len(wire):
            protocol.datagram_received(wire[op["i"] - 1], ("127.0.0.1", 2000))
            await settle()
            times = {
                rx.env[name][0].raw.last_updated_ns
                for name in rx.env.names
                if rx.env.get(name) is not None
            }
            # (All of a structure is of the same time.)
            if times != {rx.timestamp.value}:
                news.append(str(times))
        events.append(
            {
                "op": op,
                "obs": {
                    "wire": [len(x) for x in wire],
                    "news": news[:],
                    "got": state(rx),
                    "own": state(tx),
                    "fits": send.framer_tx.length,
                },
            }
        )
    recv.disable("test")
    protocol.queue.put_nowait(None)
    task.cancel()
    await asyncio.gather(task, return_exceptions=True)
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Header = 10
 Overhead = 68
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Once Small True
CHECK_DEADLOCK FALSE
"""
# (As in the specification.)
CFGS = [
    {"kinds": ["u8", "f32"], "mtu": 100, "seq": 0, "start": 1000},
    {"kinds": ["bits", "flag", "i16"], "mtu": 110, "seq": 65534, "start": 1000},
]
WIDTH = {"8": 1, "l": 1, "6": 2, "2": 4, "4": 8}


def random_scenario(rng, length):
    """A structure and its telemetry."""

    kinds = []
    size = 10
    for _ in range(rng.choice([1, 3, 8])):
        if rng.random() < 0.3:
            kinds += ["bits"] + rng.choice([[], ["flag"], ["flag", "more"]])
            size += 1
        else:
            kinds.append(rng.choice(list(NAMES)))
            size += WIDTH[kinds[-1][-1]]
    cfg = {
        "kinds": kinds,
        "mtu": 68 + size * rng.choice([1, 2, 3, 5]) + rng.randrange(size),
        "seq": rng.choice([0, 0, 65530]),
        "start": rng.choice([1, 1000, 10**9]),
        "order": rng.choice(["NETWORK", "LITTLE_ENDIAN", "BIG_ENDIAN"]),
        "late": rng.random() < 0.3,
    }
    ops = []
    sent = 0
    for _ in range(length):
        roll = rng.random()
        if roll < 0.3:
            limit = 100
            ops.append(
                {
                    "k": "set",
                    "c": rng.randint(1, len(kinds)),
                    "v": rng.randint(-limit, limit),
                }
            )
        elif roll < 0.4:
            ops.append({"k": "tick", "d": rng.choice([0, 1, 1000])})
        elif roll < 0.75:
            ops.append(
                {
                    "k": "capture",
                    "sample": rng.random() < 0.8,
                    "flush": rng.random() < 0.2,
                }
            )
            sent += 1
        else:
            ops.append({"k": "deliver", "i": rng.randint(1, 1 + sent // 2)})
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCTelem", MC.format(ops=check.pick(6, 7)), need=["capture", "deliver"]
    )
    check.rng.shuffle(scns)
    orders = ["NETWORK", "LITTLE_ENDIAN"]
    for idx, scn in enumerate(scns[: check.pick(2500, 30000)]):
        cfg = CFGS[scn[0]["i"] - 1] | {
            "order": orders[idx % 2],
            "late": idx % 4 > 1,
        }
        jobs.append((cfg, scn[1:]))
    for _ in range(check.pick(1000, 12000)):
        jobs.append(
            random_scenario(check.rng, check.rng.choice([15, 40, 100]))
        )
    traces = check.execute(execute, jobs)
    check.validate("TraceTelem", "TraceTelem.cfg", traces)
