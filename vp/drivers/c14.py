"""C14: channel commands."""

import asyncio
import logging

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle

ENUM = {"x": 1, "y": 2, "z": 3}
CUSTOM = ["one", "two", "three"]


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(cfg, ops))


def text(name):
    """A channel's name."""
    return "".join("_ab."[x] for x in name)


def word(item):
    """A word of a command."""
    if item["t"] == "word":
        return item["s"]
    if item["t"] == "int":
        return str(item["n"] // 2)
    return str(item["n"] / 2)


def environment(chans):
    """Create an environment."""

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.primitives import Int16
    from runtimepy.primitives import Uint32
    from runtimepy.primitives.field import BitField, BitFlag

    env = ChannelEnvironment()
    env.enum("Enum", "int", ENUM)
    env.enum("BEnum", "bool", {"on": True, "off": False})
    prim = Uint32()
    bit = 0
    for item in chans:
        name, kind = text(item["name"]), item["kind"]
        args = {"commandable": item["cmd"]}
        if kind == "bool":
            env.bool_channel(name, **args)
        elif kind == "benum":
            env.bool_channel(name, enum="BEnum", **args)
        elif kind == "int":
            env.int_channel(name, kind="int8", **args)
        elif kind == "float":
            env.float_channel(name, kind="double", **args)
        elif kind == "scaled":
            half = Int16(scaling=[1.0, 0.5])
            half.scaled = 0
            env.int_channel(name, kind=half, **args)
        elif kind == "enum":
            env.int_channel(name, kind="uint8", enum="Enum", **args)
        elif kind == "flag":
            env.add_field(BitFlag(name, prim, bit, **args))
            bit += 1
        elif kind == "field":
            env.add_field(BitField(name, prim, bit, 3, **args))
            bit += 3
        else:
            enum = env.enums["Enum"].id
            env.add_field(BitField(name, prim, bit, 2, enum=enum, **args))
            bit += 2
    env.finalize(strict=False)
    return env


async def _execute(cfg, ops):
    from runtimepy.channel.environment.command import GlobalEnvironment
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
        RemoteCommandProcessor,
    )
    from runtimepy.mixins.async_command import AsyncCommandProcessingMixin

    chans = cfg["chans"]
    env = environment(chans)
    names = [text(x["name"]) for x in chans]
    objects = [env.field_or_channel(x) for x in names]
    log = logging.getLogger("test")
    kind = RemoteCommandProcessor if cfg["remote"] else ChannelCommandProcessor
    proc = kind(env, log)
    calls, done = [], []

    def record(args, channel):
        word_ = str(args.command)
        known = CUSTOM if word_ == "custom" else names
        target = known.index(args.channel) + 1 if args.channel in known else 0
        index = 0
        if channel is not None:
            same = [i for i, x in enumerate(objects) if x is channel]
            index = same[0] + 1 if same else "unknown"
        return [word_, target, index]

    class Owner(AsyncCommandProcessingMixin):
        """Handles what's handed over."""

        def __init__(self):
            super().__init__()
            self.command = proc

        async def handle_command(self, args, channel):
            await asyncio.sleep(0)
            done.append(record(args, channel))

    owner = Owner()

    async def one(args, channel):
        done.append(record(args, channel))

    async def two(args, channel):
        done.append(record(args, channel))
        raise ValueError("custom")

    async def three(args, channel):
        await asyncio.sleep(0)
        done.append(record(args, channel))
        proc.command("custom one")

    customs = [one, two, three][: cfg["custom"]]
    # Setting this up in pieces doesn't change anything.
    owner._setup_async_commands(*customs[:1])
    owner._setup_async_commands(*customs[1:])

    registry = GlobalEnvironment()
    others = [ChannelCommandProcessor(env, log) for _ in range(2)]

    def hook(args, channel):
        calls.append(record(args, channel))

    def reason(value):
        if not value.reason:
            return [value.success, "", 0]
        if value.success:
            try:
                number = float(value.reason) * 2
                if number == int(number):
                    number = int(number)
                return [True, "num", number]
            except ValueError:
                return [True, value.reason, 0]
        return [False, value.reason, 0]

    def classify(value, target):
        result = reason(value)
        if not result[0]:
            got = result[1]
            if got == "No value specified.":
                got = "novalue"
            elif got == f"No channel '{target}'.":
                got = "nochannel"
            elif got.startswith(f"Channel '{target}' not commandable"):
                got = "notcmd"
            elif got.startswith(f"Channel '{target}' is") and got.endswith(
                "not boolean."
            ):
                got = "notbool"
            elif got == f"Exception while setting '{target}'.":
                got = "badvalue"
            elif proc.parser_data["error_message"] == got:
                got = "parse"
            result[1] = got
        return result

    def value(name, item):
        raw = env.value(name, resolve_enum=False)
        number = float(raw) * 2
        return int(number) if number == int(number) else number

    def line(op, style):
        flags = []
        for flag in op["fl"]:
            flags += {
                "force": ["-f"] if style % 2 else ["--force"],
                "remote": ["-r"] if style % 2 else ["--remote"],
                "env": ["-e", "default"] if style % 2 else ["--env=some"],
                "junk": ["--bogus"],
            }[flag]
        words = [op["w"]]
        target = ""
        if op["c"] >= 0:
            known = CUSTOM if op["w"] == "custom" else names
            target = known[op["c"] - 1] if op["c"] else "zz"
            words.append(target)
        words += [word(x) for x in op["xs"]]
        spot = (style // 2) % 3
        if spot == 0:
            words = flags + words
        elif spot == 1:
            words = words[:1] + flags + words[1:]
        else:
            words += flags
        return ("  " if style % 5 == 1 else " ").join(words), target

    events = []
    style = cfg["style"]
    res = []
    for op in ops:
        calls.clear()
        done.clear()
        sugg = []
        what = op["k"]
        style += 1
        if what == "cmd":
            data, target = line(op, style)
            res = classify(proc.command(data), target)
        elif what == "hook":
            proc.hooks.append(hook)
            res = []
        elif what == "drain":
            task = asyncio.create_task(owner.process_command_queue())
            await settle()
            if not task.done():
                res = [False, "pending", 0]
            elif task.exception() is not None:
                good = isinstance(task.exception(), ValueError)
                res = [False, "raised" if good else "error", 0]
            else:
                res = [True, "", 0]
        elif what == "sugg":
            first = ["set", "toggle", "get"][style % 3]
            got = proc.get_suggestion(f"{first} {text(op['p'])}")
            sugg = [0]
            if got is not None:
                start, _, name = got.partition(" ")
                sugg = [names.index(name) + 1 if start == first else got]
            res = []
        elif what == "reg":
            try:
                registry.register(str(op["n"]), others[op["e"] - 1])
                res = [True, "", 0]
            except AssertionError:
                res = [False, "taken", 0]
        elif what == "clear":
            registry.clear()
            res = [True, "", 0]
        found = [registry.get(str(x)) for x in (1, 2, 3)]
        events.append(
            {
                "op": op,
                "obs": {
                    "v": [value(x, y) for x, y in zip(names, chans)],
                    "res": res,
                    "calls": list(calls),
                    "queue": owner.outgoing_commands.qsize(),
                    "done": list(done),
                    "reg": [
                        0 if x is None else others.index(x) + 1 for x in found
                    ],
                    "sugg": sugg,
                },
            }
        )
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Cfgs <- ConstCfgs
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
PROPERTY Safe
CHECK_DEADLOCK FALSE
"""


def conf(chans, remote, custom):
    """A configuration."""
    return {
        "chans": [{"kind": x[0], "cmd": x[1], "name": x[2]} for x in chans],
        "remote": remote,
        "custom": custom,
    }


CFGS = [
    conf(
        [
            ("bool", True, [1, 2]),
            ("int", False, [1]),
            ("enum", True, [1, 2, 1]),
        ],
        False,
        3,
    ),
    conf(
        [
            ("flag", False, [1, 2, 2]),
            ("field", True, [1, 2]),
            ("fenum", True, [2, 1, 1, 1]),
        ],
        False,
        2,
    ),
    conf(
        [
            ("scaled", True, [2]),
            ("float", False, [1, 2]),
            ("benum", True, [1, 2, 1]),
        ],
        False,
        0,
    ),
    conf([("bool", True, [2, 2])], True, 1),
]
KINDS = [
    "bool",
    "int",
    "float",
    "scaled",
    "enum",
    "flag",
    "field",
    "fenum",
    "benum",
]


def random_scenario(rng, length):
    """A random environment and history."""

    names = []
    lengths = rng.sample(range(1, 13), rng.randint(1, 9))
    for size in lengths:
        names.append([rng.choice([1, 1, 1, 2]) for _ in range(size)])
    chans = [(rng.choice(KINDS), rng.random() < 0.6, x) for x in names]
    cfg = conf(chans, rng.random() < 0.1, rng.randint(0, 3))
    ops = []
    words = ["true", "false", "TRUE", "junk", "on", "off", "x", "y", "z"]
    for _ in range(length):
        roll = rng.random()
        if roll < 0.75:
            what = rng.choices(
                ["set", "toggle", "get", "custom", "junk", "SET"],
                [8, 4, 3, 2, 0.2, 0.2],
            )[0]
            flags = [
                x
                for x, y in (
                    ("force", 0.3),
                    ("remote", 0.1),
                    ("env", 0.1),
                    ("junk", 0.02),
                )
                if rng.random() < y
            ]
            rng.shuffle(flags)
            target = rng.randint(1, len(chans))
            if rng.random() < 0.08:
                target = rng.choice([-1, 0, 0])
            if what == "custom":
                target = rng.randint(0, 3)
            extra = []
            if target >= 0 and rng.random() < (0.93 if what == "set" else 0.1):
                kind = chans[target - 1][0] if target and what == "set" else ""
                for _ in range(rng.choices([1, 2], [9, 1])[0]):
                    kinds = ["int", "word"]
                    if kind not in ("flag", "field"):
                        kinds.append("half")
                    pick = rng.choice(kinds)
                    if pick == "word":
                        extra.append(
                            {
                                "t": "word",
                                "n": 0,
                                "s": rng.choice(
                                    words
                                    + (
                                        ["inf", "nan", "-0x", "1e999"]
                                        if kind != "float"
                                        else []
                                    )
                                ).lstrip("-"),
                            }
                        )
                    else:
                        low = 0 if kind in ("flag", "field") else -20
                        number = 2 * rng.randint(low, 20)
                        if pick == "half":
                            number += 1
                        extra.append({"t": pick, "n": number, "s": ""})
            ops.append(
                {
                    "k": "cmd",
                    "w": what,
                    "fl": flags,
                    "c": target,
                    "xs": extra,
                }
            )
        elif roll < 0.78:
            ops.append({"k": "hook"})
        elif roll < 0.86:
            ops.append({"k": "drain"})
        elif roll < 0.93:
            base = rng.choice(names)
            ops.append({"k": "sugg", "p": base[: rng.randint(0, len(base))]})
        elif roll < 0.99:
            ops.append(
                {"k": "reg", "n": rng.randint(1, 3), "e": rng.randint(1, 2)}
            )
        else:
            ops.append({"k": "clear"})
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCCommand",
        MC.format(ops=check.pick(3, 4)),
        need=["cmd", "hook", "drain", "sugg", "reg"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(8000, 80000)]):
        jobs.append(({**CFGS[scn[0]["i"] - 1], "style": idx % 30}, scn[1:]))
    for idx in range(check.pick(2500, 40000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(5, 40))
        jobs.append(({**cfg, "style": idx % 30}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceCommand",
            "TraceCommand.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
