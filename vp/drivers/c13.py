"""C13: the lifecycle of an application run by the connection arbiter."""

import asyncio
import logging

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle

UNIT = 0.025


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(cfg, ops))


async def _execute(cfg, ops):
    from runtimepy.net.arbiter import ArbiterTask, ConnectionArbiter
    from runtimepy.net.arbiter.info import RuntimeStruct
    from runtimepy.net.connection import NullConnection

    arb = ConnectionArbiter(metrics_poller_task=False)
    infos = []
    task_state = {"init": False, "ticks": 0, "polls": 0}

    class Scripted(NullConnection):
        """A scripted connection."""

        def __init__(self, item):
            self.item = item
            self.gate = asyncio.get_running_loop().create_future()
            self.data = asyncio.Queue()
            self.closes = 0
            self.closed = False
            self.active = False
            self.gated = False
            self.served = False
            super().__init__(logging.getLogger("test"))

        async def _await_message(self):
            return await self.data.get()

        async def async_init(self):
            verdict = self.item["init"]
            self.active = True
            if verdict == "gate":
                self.gated = True
                verdict = await self.gate
            if verdict == "raise":
                raise ValueError("init")
            return verdict == "ok"

        async def close(self):
            self.closes += 1
            if self.item["delay"]:
                await asyncio.sleep(self.item["delay"] * UNIT)
            self.closed = True

    class Task(ArbiterTask):
        """A periodic task."""

        async def init(self, app):
            await super().init(app)
            infos.append(app)
            task_state["init"] = True
            if cfg["tinit"] == "raise":
                raise ValueError("task")

        async def dispatch(self):
            task_state["ticks"] += 1
            return True

    class Struct(RuntimeStruct):
        """A struct that's polled when an application ends."""

        final_poll = True

        def init_env(self):
            infos.append(self.app)
            if cfg["build"] == "raise":
                raise ValueError("struct")

        def poll(self):
            task_state["polls"] += 1

    apps = []

    def method(name):
        async def inner(_):
            mine = {
                "st": "run",
                "gate": asyncio.get_running_loop().create_future(),
            }
            apps.append(mine)
            result = await mine["gate"]
            if result == "raise":
                mine["st"] = "raised"
                raise ValueError("app")
            mine["st"] = "done"
            return result

        inner.__name__ = name
        return inner

    def stages(sizes, name):
        return [
            [method(f"{name}{x}_{y}") for y in range(size)]
            for x, size in enumerate(sizes)
        ]

    arb.task_manager.register(Task("task", period_s=40 * UNIT))
    arb._structs["struct"] = Struct("struct", {})
    arb._inits = stages(cfg["inits"], "init")
    arb._apps = stages(cfg["apps"], "app")
    names = [[x.__name__ for x in y] for y in arb._inits + arb._apps]

    conns = []
    made = []
    registered = []
    for item in cfg["conns"]:
        conn = Scripted(item)
        conns.append(conn)
        future = asyncio.get_running_loop().create_future()
        made.append(future)
        registered.append(False)
        if item["kind"] == "reg":
            arb.register_connection(conn, item["name"])
        elif item["kind"] == "def":
            arb.register_connection(future, item["name"])

    main = None

    def view():
        running = main is not None and not main.done()
        result = "none"
        if main is not None and main.done():
            if main.cancelled():
                result = "cancelled"
            elif main.exception() is not None:
                if isinstance(main.exception(), ValueError):
                    result = "raised"
                else:
                    result = repr(main.exception())
            else:
                result = main.result()
        table = []
        good, threw = True, False
        if infos:
            info = infos[0]
            good = info.result()
            threw = info.raised_exception
            for idx, stage in enumerate(info.results):
                table.append(
                    [
                        [
                            str(x.state),
                            "-" if x.code is None else x.code,
                        ]
                        for x in stage
                    ]
                )
                offset = idx
                if idx >= len(cfg["inits"]):
                    assert len(names) > idx
                if [x.method for x in stage] != names[offset]:
                    table[-1] = [x.method for x in stage]
        found = 0
        if infos and apps and running and not arb.stop_sig.is_set():
            found = len(list(infos[0].search(kind=Scripted)))
        mine = list(arb._connections.values())
        return {
            "cs": [
                [
                    not x.disabled,
                    x.initialized.is_set(),
                    x.closes,
                    x.closed,
                ]
                for x in conns
            ],
            "reg": [any(x is y for y in mine) for x in conns],
            "run": running,
            "stop": arb.stop_sig.is_set(),
            "result": result,
            "apps": [x["st"] for x in apps],
            "table": table,
            "good": good,
            "threw": threw,
            "task": [task_state["init"], task_state["ticks"]],
            "polls": task_state["polls"],
            "found": found,
        }

    events = []
    for op in ops:
        kind = op["k"]
        if kind == "run":
            if main is None:
                main = asyncio.create_task(
                    arb.app(check_connections=cfg["check"])
                )
        elif kind == "init":
            conn = conns[op["i"] - 1]
            if conn.gated and not conn.gate.done():
                conn.gate.set_result(op["v"])
        elif kind == "made":
            future = made[op["i"] - 1]
            if main is not None and not future.done():
                if op["v"] == "ok":
                    future.set_result(conns[op["i"] - 1])
                else:
                    future.set_exception(ValueError("made"))
        elif kind == "drop":
            conn = conns[op["i"] - 1]
            if conn.active and not conn.disabled:
                conn.data.put_nowait(None)
        elif kind == "serve":
            conn = conns[op["i"] - 1]
            if not conn.served:
                arb.manager.queue.put_nowait(conn)
            conn.served = True
        elif kind in ("fin", "fail"):
            if op["i"] <= len(apps) and not apps[op["i"] - 1]["gate"].done():
                apps[op["i"] - 1]["gate"].set_result(
                    op["r"] if kind == "fin" else "raise"
                )
        elif kind == "stop":
            if not arb.stop_sig.is_set():
                await asyncio.sleep(2 * UNIT)
                await settle()
                arb.stop_sig.set()
        elif kind == "adv":
            await asyncio.sleep(op["d"] * UNIT)
        await settle()
        events.append({"op": op, "obs": view()})
    return events


MC = """
CONSTANTS Grace = 40
 Period = 40
 Cfgs <- ConstCfgs
 Steps = {{{steps}}}
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Ended Success InOrder Ready Once NoHang
CHECK_DEADLOCK FALSE
"""


def conf(conns, inits, apps, check=True, build="ok", tinit="ok"):
    """A configuration."""
    return {
        "conns": [
            {"kind": x[0], "name": x[1], "init": x[2], "delay": x[3]}
            for x in conns
        ],
        "inits": inits,
        "apps": apps,
        "check": check,
        "build": build,
        "tinit": tinit,
    }


CFGS = [
    conf([], [], [1]),
    conf([], [1], [2, 1]),
    conf([("reg", "a", "gate", 0), ("reg", "b", "ok", 21)], [], [2]),
    conf([("reg", "a", "ok", 63), ("srv", "-", "ok", 21)], [1], [1]),
    conf([("def", "a", "gate", 21), ("reg", "b", "ok", 0)], [], [1]),
    conf([("def", "a", "ok", 21), ("def", "b", "gate", 63)], [], [1, 1]),
    conf(
        [("reg", "a", "no", 0), ("reg", "b", "raise", 21)], [1], [1], False
    ),
    conf([("reg", "a", "gate", 63), ("srv", "-", "gate", 0)], [1], [], False),
    conf([("reg", "a", "ok", 21)], [], [1], build="raise"),
    conf(
        [("reg", "a", "ok", 21), ("srv", "-", "ok", 63)],
        [1],
        [1],
        tinit="raise",
    ),
    conf(
        [
            ("reg", "a", "ok", 0),
            ("reg", "a", "ok", 0),
            ("def", "a", "ok", 0),
            ("reg", "b", "ok", 0),
        ],
        [0, 1],
        [0, 2],
    ),
]


def random_scenario(rng, length):
    """A random configuration and history."""

    count = rng.randint(0, 5)
    cfg = conf(
        [
            (
                rng.choice(["reg", "reg", "def", "srv"]),
                rng.choice("abcdefgh"),
                rng.choices(["ok", "gate", "no", "raise"], [8, 4, 1, 1])[0],
                rng.choice([0, 0, 21, 33, 63, 125]),
            )
            for _ in range(count)
        ],
        [rng.randint(0, 2) for _ in range(rng.randint(0, 2))],
        [rng.randint(0, 3) for _ in range(rng.randint(0, 4))],
        rng.random() < 0.7,
        "raise" if rng.random() < 0.05 else "ok",
        "raise" if rng.random() < 0.05 else "ok",
    )
    ops = []
    if rng.random() < 0.1:
        ops.append({"k": "stop"})
    ops.append({"k": "run"})
    fail = rng.choice([0.02, 0.2])
    num = 1
    for _ in range(length):
        roll = rng.random()
        index = rng.randint(1, max(count, 1))
        if roll < 0.3:
            if rng.random() < fail:
                if rng.random() < 0.3:
                    ops.append({"k": "fail", "i": num})
                else:
                    ops.append(
                        {
                            "k": "fin",
                            "i": num,
                            "r": rng.choice([1, -1, 2, -3, 255]),
                        }
                    )
            else:
                ops.append({"k": "fin", "i": num, "r": 0})
            num = rng.choice([num + 1, num + 1, rng.randint(1, num + 3)])
        elif roll < 0.8 and count:
            kind = cfg["conns"][index - 1]["kind"]
            what = rng.choice(["init", "made", "serve", "drop"])
            if what == "init":
                ops.append(
                    {
                        "k": "init",
                        "i": index,
                        "v": rng.choices(["ok", "no", "raise"], [9, 1, 1])[0],
                    }
                )
            elif what == "made":
                if kind == "def":
                    ops.append(
                        {
                            "k": "made",
                            "i": index,
                            "v": "raise" if rng.random() < 0.05 else "ok",
                        }
                    )
            elif what == "serve":
                if kind == "srv":
                    ops.append({"k": "serve", "i": index})
            elif rng.random() < 0.3:
                ops.append({"k": "drop", "i": index})
        elif roll < 0.82:
            ops.append({"k": "stop"})
        else:
            ops.append(
                {"k": "adv", "d": 4 * rng.choice([1, 2, 5, 9, 10, 11, 40])}
            )
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCArbiter",
        MC.format(ops=check.pick(6, 7), steps="4, 28"),
        need=["init", "made", "drop", "serve", "fin", "fail", "stop", "adv"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for scn in scns[: check.pick(6000, 80000)]:
        jobs.append((CFGS[scn[0]["i"] - 1], scn[1:]))
    for _ in range(check.pick(4000, 40000)):
        jobs.append(random_scenario(check.rng, check.rng.randint(4, 30)))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceArbiter",
            "TraceArbiter.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
