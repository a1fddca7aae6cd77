"""C11: channel-event telemetry."""

from contextlib import ExitStack
import io
import logging
import re

from vp.core import Check

SIZES = {
    "bool": 1,
    "uint8": 1,
    "int8": 1,
    "uint16": 2,
    "int16": 2,
    "uint32": 4,
    "int32": 4,
    "uint64": 8,
    "int64": 8,
    "float": 4,
    "double": 8,
}


class Stream(io.BytesIO):
    """Counts flushes."""

    flushes = 0

    def flush(self):
        self.flushes += 1


def number(val):
    """A value as a whole number, if it's one."""
    if isinstance(val, (bool, int)):
        return int(val)
    return int(val) if val == int(val) else str(val)


def build(cfg, clock):
    """Create the environment."""

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.primitives import ChannelScaling, create
    from runtimepy.primitives.field.fields import BitFields

    env = ChannelEnvironment()
    raws = []
    for cell, kind in enumerate(cfg["kinds"], start=1):
        inside = [x for x in cfg["items"] if x["cell"] == cell]
        if not inside or inside[0]["kind"] == "f":
            fields = BitFields.new(kind)
            for item in inside:
                if item["width"] == 1:
                    fields.flag(item["name"], index=item["at"])
                else:
                    fields.field(
                        item["name"], item["width"], index=item["at"]
                    )
            env.fields.add(fields)
            raws.append(fields.raw)
        else:
            name = inside[0]["name"]
            scaling = None
            if kind != "bool" and cfg["style"] % 4 < 3 and cell % 3 == 0:
                scaling = ChannelScaling([1.0, 2.0])
            prim = create(kind)
            if scaling:
                prim.scaling = scaling
            enum = None
            if kind == "uint8" and cell % 2 == 0:
                enum = f"enum{cell}"
                env.enum(enum, "int", items={"low": 1, "high": 5})
            env.channel(name, prim, enum=enum, commandable=True)
            raws.append(prim)
    for raw in raws:
        raw.time_source = clock
        raw.last_updated_ns = clock()
    env.finalize()
    return env, raws


def execute(cfg, ops):
    """Run a scenario on the real code."""

    logging.disable(logging.CRITICAL)

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.registry import ParsedEvent
    from runtimepy.metrics.channel import ChannelMetrics

    now = [1000]
    clock = lambda: now[0] * 10**6
    env, raws = build(cfg, clock)
    if cfg["style"] % 4 == 3:
        client = ChannelEnvironment.load_json(env.export_json())
        craws = [
            (
                client.fields[x["name"]].raw
                if x["kind"] == "f"
                else client[x["name"]][0].raw
            )
            for c in range(1, len(raws) + 1)
            for x in [[y for y in cfg["items"] if y["cell"] == c][0]]
        ]
    else:
        client, craws = build(cfg, clock)
    items = {x["name"]: i for i, x in enumerate(cfg["items"], start=1)}
    reader, _ = build(cfg, clock)
    streams = [Stream(), Stream()]
    open_at = [None, None]
    metrics = ChannelMetrics()
    pos = 0
    events = []

    def parsed(event):
        stamp = event.timestamp
        return [
            items.get(event.name, event.name),
            stamp // 10**6 if stamp % 10**6 == 0 else str(stamp),
            number(event.value),
        ]

    for op in ops:
        kind = op["k"]
        res = "ok"
        last = []
        if kind == "reg":
            idx = op["s"] - 1
            if open_at[idx] is None:
                names = [cfg["items"][x - 1]["name"] for x in op["sel"]]
                kwargs = {"flush": op["flush"]}
                if op["met"]:
                    kwargs["channel"] = metrics
                if len(names) == 1 and cfg["style"] % 2:
                    kwargs["exact"] = True
                    kwargs["pattern"] = names[0]
                elif len(names) < len(items):
                    kwargs["pattern"] = (
                        "^(" + "|".join(re.escape(x) for x in names) + ")$"
                    )
                stack = ExitStack()
                try:
                    found = stack.enter_context(
                        env.registered(streams[idx], **kwargs)
                    )
                    if found != names:
                        res = f"names {found}"
                    open_at[idx] = stack
                except AssertionError:
                    res = "refused"
        elif kind in ("unreg", "raise"):
            idx = op["s"] - 1
            stack, open_at[idx] = open_at[idx], None
            if stack is not None:
                if kind == "unreg":
                    stack.close()
                else:
                    try:
                        with stack:
                            raise KeyError("scenario")
                    except KeyError:
                        pass
        elif kind == "set":
            now[0] += op["d"]
            raw = raws[op["c"] - 1]
            value = op["v"]
            item = [x for x in cfg["items"] if x["cell"] == op["c"]][0]
            if cfg["kinds"][op["c"] - 1] == "bool":
                value = bool(value)
            if item["kind"] == "c" and now[0] % 3 == 0:
                env.set(item["name"], raw.scale(value))
            elif now[0] % 3 == 1:
                raw.value = value
            else:
                raw.set_value(value, timestamp_ns=clock())
        elif kind == "bits":
            now[0] += op["d"]
            item = cfg["items"][op["i"] - 1]
            if now[0] % 2:
                env.set(item["name"], op["v"])
            else:
                env.fields.set(item["name"], op["v"])
        elif kind == "minp":
            name = cfg["items"][op["i"] - 1]["name"]
            env[name][0].event.set_min_period(op["v"] / 1000)
        elif kind == "deliver":
            data = streams[0].getvalue()[pos : pos + op["n"]]
            pos += len(data)
            source = client.parse_event_stream(io.BytesIO(data))
            count = 0
            got = []
            for event in source:
                got.append(event)
                if op["apply"]:
                    client.ingest(event)
                count += 1
                if count == op["take"]:
                    break
            source.close()
            last = [parsed(x) for x in got]
            grouped = ParsedEvent.by_channel(got)
            if sum(grouped.values(), []) != sorted(
                got, key=lambda x: list(grouped).index(x.name)
            ):
                last = "grouping"
        out = []
        for stream in streams:
            # A client that receives everything at once.
            fresh = reader.channels
            fresh.event_fifo.pop(fresh.event_fifo.size)
            fresh.header_ready = False
            out.append(
                [
                    parsed(x)
                    for x in reader.parse_event_stream(
                        io.BytesIO(stream.getvalue())
                    )
                ]
            )
            if fresh.event_fifo.size or fresh.header_ready:
                out[-1].append("partial")
        events.append(
            {
                "op": op,
                "obs": {
                    "v": [number(x.value) for x in raws],
                    "out": out,
                    "fl": [x.flushes for x in streams],
                    "msgs": metrics.messages.value,
                    "bytes": metrics.bytes.value,
                    "cv": [number(x.value) for x in craws],
                    "last": last,
                    "res": res,
                    "cbs": [len(x.callbacks) for x in raws],
                },
            }
        )
    return events


MC = """
CONSTANTS Items <- ConstItems
 Sizes <- ConstSizes
 Mode = "{mode}"
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Registered BusyOnce Times InOrder
CHECK_DEADLOCK FALSE
"""
CONFIG = {
    "kinds": ["uint8", "uint8", "float"],
    "sizes": [1, 1, 4],
    "items": [
        {"name": "f1", "cell": 1, "kind": "f", "at": 0, "width": 1},
        {"name": "f2", "cell": 1, "kind": "f", "at": 1, "width": 2},
        {"name": "a", "cell": 2, "kind": "c", "at": 0, "width": 0},
        {"name": "b", "cell": 3, "kind": "c", "at": 0, "width": 0},
    ],
}


def bounds(kind):
    """Values that are stored as they are."""
    if kind == "bool":
        return [0, 1]
    if kind in ("float", "double"):
        return [-512, 0, 1, 5, 7, 1024]
    size = int(re.sub("[a-z]", "", kind))
    top = min(size, 31)
    if kind[0] == "u":
        return [0, 1, 5, 200, 2 ** min(size, 31) - 1]
    return [-(2 ** (top - 1)), -1, 0, 1, 5, 2 ** (top - 1) - 1]


def random_scenario(rng, length):
    """A random history."""

    kinds = []
    items = []
    for cell in range(1, rng.randint(0, 2) + 1):
        kind = rng.choice(["uint8", "uint16"])
        kinds.append(kind)
        at = 0
        for _ in range(rng.randint(1, 3)):
            at += rng.randint(0, 1)
            width = rng.randint(1, 2)
            if at + width > 8:
                break
            items.append(
                {
                    "name": f"f{len(items)}",
                    "cell": cell,
                    "kind": "f",
                    "at": at,
                    "width": width,
                }
            )
            at += width
    for _ in range(rng.randint(1, 5)):
        kinds.append(rng.choice(list(SIZES)))
        items.append(
            {
                "name": rng.choice(["a", "b.x", "c"]) + str(len(items)),
                "cell": len(kinds),
                "kind": "c",
                "at": 0,
                "width": 0,
            }
        )
    count = len(items)
    chans = [x for x in range(1, count + 1) if items[x - 1]["kind"] == "c"]
    fields = [x for x in range(1, count + 1) if items[x - 1]["kind"] == "f"]
    ops = []
    calm = rng.random() < 0.5
    for index in range(length):
        roll = rng.random()
        if roll < 0.08 or index == 0:
            sel = list(range(1, count + 1))
            if rng.random() < 0.5:
                sel = sorted(rng.sample(sel, rng.randint(1, count)))
            ops.append(
                {
                    "k": "reg",
                    "s": 1 if index == 0 else rng.randint(1, 2),
                    "sel": sel,
                    "flush": rng.random() < 0.5,
                    "met": rng.random() < 0.5,
                }
            )
        elif roll < 0.13:
            ops.append(
                {"k": rng.choice(["unreg", "raise"]), "s": rng.randint(1, 2)}
            )
        elif roll < 0.2 and not calm:
            ops.append(
                {
                    "k": "minp",
                    "i": rng.choice(chans),
                    "v": rng.choice([1, 4, 30]),
                }
            )
        elif roll < 0.35 and fields:
            item = rng.choice(fields)
            ops.append(
                {
                    "k": "bits",
                    "i": item,
                    "v": rng.randrange(2 ** items[item - 1]["width"]),
                    "d": rng.choice([0, 1, 2, 5]),
                }
            )
        elif roll < 0.65:
            cell = items[rng.choice(chans) - 1]["cell"]
            ops.append(
                {
                    "k": "set",
                    "c": cell,
                    "v": rng.choice(bounds(kinds[cell - 1])),
                    "d": rng.choice([0, 1, 2, 5]),
                }
            )
        else:
            ops.append(
                {
                    "k": "deliver",
                    "n": rng.choice([1, 2, 3, 9, 10, 11, 13, 25, 1000]),
                    "take": rng.choice([0, 0, 0, 1, 2]),
                    "apply": rng.random() < 0.8,
                }
            )
    return {
        "kinds": kinds,
        "sizes": [SIZES[x] for x in kinds],
        "items": items,
    }, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    for mode, ops in (
        ("stream", check.pick(5, 6)),
        ("reg", check.pick(4, 6)),
    ):
        scns = check.explore(
            "MCTelemetry",
            MC.format(mode=mode, ops=ops),
            need=["reg", "unreg", "raise", "set", "bits"],
            workers=8,
            timeout=1500,
        )
        check.rng.shuffle(scns)
        for index, scn in enumerate(scns[: check.pick(5000, 60000)]):
            jobs.append(({**CONFIG, "style": index % 4}, scn))
    for index in range(check.pick(4000, 40000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(5, 40))
        jobs.append(({**cfg, "style": index % 4}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceTelemetry",
            "TraceTelemetry.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
