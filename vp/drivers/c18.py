"""C18: the web interface's tabs."""

import asyncio
from contextlib import ExitStack
import json
import logging
import re
import struct
from unittest import mock

from vp.core import Check

NAMES = ["n", "x", "e", "b", "f1", "f2"]
VALUES = {
    "n": ["0", "1", "2", "-5"],
    "x": ["0.0", "1.5", "-2.25", "nan", "inf"],
    "e": ["a", "b", "7"],
    "b": ["False", "True"],
    "f1": ["False", "True"],
    "f2": ["c", "d", "3"],
}
TABS = [1, 2]
CLIENTS = [1, 2, 3]


def strict(text):
    """Decode JSON as a browser does."""

    def refuse(_):
        raise ValueError("not JSON")

    return json.loads(text, parse_constant=refuse)


def python_value(chan, tok):
    """A value to set a channel to."""
    if chan == "x":
        return float(tok)
    if chan in ("b", "f1"):
        return tok == "True"
    return int(tok) if tok.lstrip("-").isdigit() else tok


def execute(cfg, ops):
    """Run a scenario on the real code."""
    return asyncio.run(_execute(cfg, ops))


class Socket:
    """A WebSocket that's a client's."""

    def __init__(self):
        self.logger = logging.getLogger("vp.socket")
        self.queue = asyncio.Queue()
        self.out = []
        self.buf = b""
        self.bad = 0

    async def recv(self):
        """Receive a message."""
        from websockets.exceptions import ConnectionClosedOK

        data = await self.queue.get()
        if data is None:
            raise ConnectionClosedOK(None, None)
        return data

    async def close(self):
        """Close this."""
        self.queue.put_nowait(None)

    def put(self, message):
        """Send a message to the server."""
        data = json.dumps(message).encode()
        self.queue.put_nowait(struct.pack(">I", len(data)) + data)

    async def send(self, data):
        """Send a message to the client."""
        self.buf += bytes(data)
        while len(self.buf) >= 4:
            size = struct.unpack(">I", self.buf[:4])[0]
            if len(self.buf) < 4 + size:
                break
            text = self.buf[4 : 4 + size]
            self.buf = self.buf[4 + size :]
            try:
                msg = strict(text)
            except ValueError:
                self.bad += 1
                continue
            if "__id__" in msg:
                self.put(msg)
            if "ui" in msg:
                self.out.append(msg["ui"])


async def _execute(cfg, ops):
    from svgen.element.html import div

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
    )
    from runtimepy.enum import RuntimeEnum
    from runtimepy.net.html.bootstrap.tabs import TabbedContent
    from runtimepy.net.server import struct as ui_struct
    from runtimepy.net.server import websocket as web
    from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
    from runtimepy.primitives.field.fields import BitFields

    for handler in ("vp.socket", "vp.tab1", "vp.tab2", "vp.ui"):
        log = logging.getLogger(handler)
        log.propagate = False
        log.setLevel(logging.DEBUG if "tab" in handler else 100)
        for old in list(log.handlers):
            log.removeHandler(old)
        log.addHandler(logging.NullHandler())

    now = 0
    content = TabbedContent("vp", div())
    tabs, cmds, envs = {}, {}, {}
    stack = ExitStack()
    with stack:
        stack.enter_context(
            mock.patch.object(ChannelEnvironmentTab, "all_tabs", tabs)
        )
        stack.enter_context(
            mock.patch.object(
                web, "metrics_time_ns", lambda: (now + 10) * 5_000_000
            )
        )
        stack.enter_context(mock.patch.object(ui_struct, "UI", None))

        prims = {}
        for num in TABS:
            env = ChannelEnvironment()
            env.enum("ab", "int", {"a": 0, "b": 1})
            env.enum("cd", "int", {"c": 0, "d": 1})
            env.int_channel("n", kind="int8", commandable=True)
            env.float_channel("x", kind="double", commandable=True)
            env.int_channel("e", kind="uint8", enum="ab", commandable=True)
            env.bool_channel("b", commandable=True)
            fields = BitFields.new()
            env.add_field(fields.flag("f1"))
            env.add_field(fields.field("f2", 2, enum="cd"))
            env.finalize()
            envs[num] = env
            prims[num] = [env[x][0].raw for x in NAMES[:4]] + [fields.raw]
            for prim in prims[num]:
                prim.time_source = lambda: now * 1000
            cmds[num] = ChannelCommandProcessor(
                env, logging.getLogger(f"vp.tab{num}")
            )
            ChannelEnvironmentTab(f"t{num}", cmds[num], None, content)

        struct_ui = ui_struct.UiState("vp.ui", {"psutil": False})
        if cfg["ui"]:
            struct_ui.init_env()
            struct_ui.env.finalize()

        serial, style = 0, cfg["style"]
        socks, conns, runs, views, lasts, shown = {}, {}, {}, {}, {}, {}

        def token(name, val):
            """A value as the specification has it."""
            if name in ("b", "f1"):
                return {0: "False", 1: "True"}.get(val, "?")
            return str(val)

        async def settle():
            """Let the server do what it has to."""
            for _ in range(12):
                await asyncio.sleep(0)

        def opened(num):
            return num in conns and not conns[num].disabled

        events = []
        for op in ops:
            style += 1
            what = op["k"]
            if not (what == "frame" and op["quick"]):
                now += 1
            num = op.get("c", 0)
            pts, logs, view, bad = [], [], [], 0
            if what == "conn" and not opened(num):
                serial += 1
                socks[num] = Socket()
                conn = web.RuntimepyWebsocketConnection(socks[num])
                conns[num] = conn
                runs[num] = asyncio.create_task(conn.process())
                for _ in range(200):
                    await asyncio.sleep(0)
                    if conn.initialized.is_set() or conn.disabled:
                        break
                await settle()
                socks[num].out.clear()
                conn.metrics.rx.messages.value = 1000 * serial
                for tab in TABS:
                    views[num, tab] = ["?"] * len(NAMES)
                    lasts[num, tab] = ["?"] * len(NAMES)
                    shown[num, tab] = False
            elif what == "leave" and opened(num):
                if style % 2:
                    conns[num].disable("left")
                else:
                    socks[num].queue.put_nowait(None)
                await asyncio.wait_for(runs[num], 5)
            elif what == "ev" and opened(num):
                data = {"kind": op["e"]}
                socks[num].put({"ui": {"name": f"t{op['t']}", "event": data}})
                await settle()
            elif what == "set" and (not num or opened(num)):
                env, name = envs[op["t"]], op["ch"]
                if num:
                    data = {"kind": "command"}
                    data["value"] = f"set {name} {op['v']}".replace(
                        "True", "true"
                    ).replace("False", "false")
                    if name[0] == "f" or style % 3 == 0:
                        data["value"] = data["value"].replace("set", "set -f")
                    socks[num].put(
                        {"ui": {"name": f"t{op['t']}", "event": data}}
                    )
                    await settle()
                else:
                    env.set(name, python_value(name, op["v"]))
            elif what == "burst":
                for idx in range(op["n"]):
                    envs[op["t"]]["n"][0].raw.value = 1 - idx % 2
            elif what == "log":
                logging.getLogger(f"vp.tab{op['t']}").info("L%dL", op["n"])
            elif what == "frame" and opened(num):
                socks[num].put({"ui": {"time": op["time"]}})
                await settle()

            # What the clients got.
            got = [[[] for _ in NAMES] for _ in TABS]
            said = [[] for _ in TABS]
            for idx, sock in socks.items():
                bad += sock.bad
                sock.bad = 0
                for msg in sock.out:
                    if idx != num:
                        bad += 1
                    for key, data in msg.items():
                        if key not in ("t1", "t2") or not opened(idx):
                            bad += 1
                            continue
                        tab = int(key[1])
                        for name, val in data.items():
                            if name in NAMES:
                                spot = NAMES.index(name)
                                views[idx, tab][spot] = token(name, val)
                        for name, vals in data.get("points", {}).items():
                            if name not in NAMES:
                                bad += 1
                                continue
                            spot = NAMES.index(name)
                            for val, when in vals:
                                tok = token(name, val)
                                # Other fields have changed, too.
                                if (
                                    name[0] != "f"
                                    or tok != lasts[idx, tab][spot]
                                ):
                                    got[tab - 1][spot].append(
                                        [tok, when // 1000]
                                    )
                                lasts[idx, tab][spot] = tok
                                views[idx, tab][spot] = tok
                        for line in data.get("log_messages", []):
                            said[tab - 1] += [
                                int(x) for x in re.findall(r"L(\d+)L", line)
                            ]
                sock.out.clear()
            if what == "ev" and op["t"] in TABS and opened(num):
                spot = num, op["t"]
                if op["e"] == "tab.shown" and not shown[spot]:
                    shown[spot] = True
                    view = list(views[spot])
                    lasts[spot] = list(views[spot])
                elif op["e"] == "tab.hidden":
                    shown[spot] = False
            if what == "frame" and opened(num):
                pts, logs = got, said
                view = [
                    list(views[num, x]) if shown[num, x] else [] for x in TABS
                ]
            elif any(any(x) for x in got) or any(said):
                bad += 1

            state = [0, 0, 0, 0]
            if cfg["ui"]:
                env = struct_ui.env
                state = [
                    int(env.value("time_ms")),
                    int(env.value("frame_period_ms")),
                    env.value("num_connections"),
                    struct_ui.json_metrics.rx.messages.value // 1000,
                ]
            events.append(
                {
                    "op": op,
                    "obs": {
                        "pts": pts,
                        "logs": logs,
                        "view": view,
                        "ui": state,
                        "open": [opened(x) for x in CLIENTS],
                        "watched": [
                            any(y.callbacks for y in prims[x]) for x in TABS
                        ],
                        "val": [
                            [token(y, envs[x].value(y)) for y in NAMES]
                            for x in TABS
                        ],
                        "bad": bad,
                    },
                }
            )
        for num, conn in conns.items():
            conn.disable("done")
            await asyncio.wait_for(runs[num], 5)
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Cfgs <- ConstCfgs
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Current Clean Counted PollerOpen
CHECK_DEADLOCK FALSE
"""

STARTS = [
    [{"k": "conn", "c": 1}, {"k": "conn", "c": 2}],
    [
        {"k": "conn", "c": 1},
        {"k": "ev", "c": 1, "t": 1, "e": "tab.shown"},
    ],
]


def random_scenario(rng, length):
    """A random history."""

    ops = [{"k": "conn", "c": 1}]
    time = 0
    busy = rng.random() * 0.3
    for idx in range(length):
        roll = rng.random()
        num, tab = rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 2])
        if roll < 0.08:
            ops.append({"k": "conn", "c": num})
        elif roll < 0.11:
            ops.append({"k": "leave", "c": num})
        elif roll < 0.3 - busy * 0.3:
            what = rng.choice(
                ["init"] + ["tab.shown"] * 3 + ["tab.hidden"] * 2 + ["plot"]
            )
            if rng.random() < 0.03:
                tab = 3
            ops.append({"k": "ev", "c": num, "t": tab, "e": what})
        elif roll < 0.6 + busy:
            chan = rng.choice(NAMES)
            val = rng.choice(VALUES[chan])
            # Commands can only set values that have a name.
            via = 0 if val in ("7", "3") else rng.choice([0, 0, num])
            ops.append({"k": "set", "c": via, "t": tab, "ch": chan, "v": val})
        elif roll < 0.68 + busy:
            ops.append({"k": "log", "t": tab, "n": idx})
        elif roll > 0.995:
            ops.append({"k": "burst", "t": tab, "n": rng.randint(2, 150)})
        else:
            time += rng.randint(0, 30)
            ops.append(
                {
                    "k": "frame",
                    "c": num,
                    "time": time,
                    "quick": rng.random() < 0.2,
                }
            )
    return {"ui": rng.random() < 0.9}, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCTabs",
        MC.format(ops=check.pick(4, 6)),
        need=["conn", "leave", "frame", "ev", "set", "log"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(6000, 80000)]):
        start = STARTS[scn[0]["i"] - 1]
        jobs.append(({"ui": True, "style": idx % 12}, start + scn[1:]))
    for idx in range(check.pick(2000, 25000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(10, 100))
        jobs.append(({**cfg, "style": idx % 12}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceTabs",
            "TraceTabs.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
