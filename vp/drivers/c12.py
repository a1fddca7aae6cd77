"""C12: periodic and asynchronous tasks."""

import asyncio
import logging
from unittest import mock

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle

UNIT = 0.125


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(cfg, ops))


def units(val):
    """A time in units."""
    val = val / UNIT
    return int(val) if val == int(val) else str(val)


class Script:
    """What a task is told to do."""

    def __init__(self):
        self.count = 0
        self.current = None
        self.waiting = []
        self.extras = 0

    async def dispatch(self, init=False):
        """Wait to be told how to finish."""
        self.count += not init
        fut = asyncio.get_running_loop().create_future()
        self.waiting.append(fut)
        try:
            res = await fut
        finally:
            self.waiting.remove(fut)
        if res == "raise":
            raise RuntimeError("dispatch")
        return res == "ok"


async def _execute(cfg, ops):
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.task import AsyncTask, PeriodicTask, PeriodicTaskManager

    loop = asyncio.get_running_loop()
    stop = asyncio.Event()
    manager = PeriodicTaskManager()

    class Periodic(PeriodicTask):
        """A scripted task."""

        async def dispatch(self):
            return await self.script.dispatch()

        async def stop_extra(self):
            self.script.extras += 1

    class Plain(AsyncTask):
        """A scripted task."""

        gate = False

        async def init(self, *_, **__):
            if self.gate:
                return await self.script.dispatch(init=True)
            return await super().init()

        async def dispatch(self, *_, **__):
            return await self.script.dispatch()

    tasks = []
    handles = []
    last = []
    for index, item in enumerate(cfg["tasks"]):
        name = f"task{index}"
        if item["fl"] == "periodic":
            task = Periodic(
                name, average_depth=4, period_s=item["period"] * UNIT
            )
            assert manager.register(task)
            assert not manager.register(task, period_s=99.0)
            assert manager[name] is task
        else:
            task = Plain(
                name,
                item["period"] * UNIT,
                ChannelEnvironment(),
                average_depth=4,
                max_iterations=item["maxit"],
            )
            task.gate = item["gate"]
        task.script = Script()
        tasks.append(task)
        handles.append(None)
        last.append(False)

    def one(index):
        task = tasks[index]
        item = cfg["tasks"][index]
        handle = handles[index]
        done = "none"
        if handle is not None and handle.done():
            if handle.cancelled():
                done = "cancelled"
            else:
                done = "ok" if handle.exception() is None else "raised"
        if item["fl"] == "periodic":
            met = task.metrics
            over = met.overruns.value
            env = task.env
            vals = [
                met.dispatches.value,
                met.average_s.value,
                met.max_s.value,
                met.min_s.value,
            ]
            # The same, from the outside.
            if [
                env.value("metrics.dispatches"),
                env.value("metrics.average_s"),
                env.value("metrics.max_s"),
                env.value("metrics.min_s"),
                env.value("period_s"),
            ] != vals + [task.period_s.value]:
                over = "channels"
            enabled = bool(task._enabled)
            period = task.period_s.value
        else:
            over = 0
            vals = [
                task.dispatches.raw.value,
                task.average_s.raw.value,
                task.max_s.raw.value,
                task.min_s.raw.value,
            ]
            enabled = bool(task.enabled)
            period = task.period_s.raw.value
        return [
            enabled,
            handle is not None and not handle.done(),
            done,
            task.script.count,
            len(task.script.waiting),
            vals[0],
            over,
            units(vals[1] * 4),
            units(vals[2]),
            units(vals[3]),
            units(period),
            task.script.extras,
            last[index],
        ]

    def finish(index, res):
        script = tasks[index].script
        handle = handles[index]
        running = handle is not None and not handle.done()
        if not script.waiting:
            return
        # What's being waited for is the last one to start.
        orphans = owned[index]
        fut = None
        if running and asleep(index) is False:
            fut = script.waiting[-1]
        elif orphans:
            fut = script.waiting[0]
        if fut is not None and not fut.done():
            fut.set_result(res)
            if fut is script.waiting[0] and orphans and len(
                script.waiting
            ) == orphans:
                owned[index] -= 1

    owned = [0] * len(tasks)

    def asleep(index):
        return len(tasks[index].script.waiting) == owned[index]

    def orphaned():
        for index, handle in enumerate(handles):
            if handle is None or handle.done():
                owned[index] = len(tasks[index].script.waiting)

    async def start(index, kwargs):
        task = tasks[index]
        if cfg["tasks"][index]["fl"] == "periodic":
            handles[index] = await task.task(**kwargs)
            last[index] = True
        elif handles[index] is None or handles[index].done():
            kwargs.pop("period_s", None)
            handles[index] = asyncio.create_task(task.run(**kwargs))
            last[index] = True

    events = []

    for op in ops:
        kind = op["k"]
        idx = op.get("i", 1) - 1
        task = tasks[idx]
        periodic = cfg["tasks"][idx]["fl"] == "periodic"
        if kind == "start":
            kwargs = {}
            if op["sig"]:
                kwargs["stop_sig"] = stop
            if op["p"]:
                kwargs["period_s"] = op["p"] * UNIT
            # Anything left of an earlier run isn't waited for any more.
            before = len(task.script.waiting)
            if not (periodic is False and handles[idx] is not None
                    and not handles[idx].done()):
                owned[idx] = before
            await start(idx, kwargs)
        elif kind == "startall":
            for index, item in enumerate(tasks):
                owned[index] = len(item.script.waiting)
            await manager.start(stop_sig=stop)
            for index, item in enumerate(tasks):
                handles[index] = item._task
                last[index] = True
        elif kind == "stopall":
            had = [x._task is not None for x in tasks]
            await manager.stop()
            last[:] = had
        elif kind == "stop":
            if periodic:
                last[idx] = await task.stop()
        elif kind == "cancel":
            if handles[idx] is not None:
                handles[idx].cancel()
        elif kind == "disable":
            if periodic:
                last[idx] = task.disable()
            else:
                last[idx] = bool(task.enabled)
                task.disable()
        elif kind == "pause":
            task.env.set("paused", op["v"])
        elif kind == "period":
            period = op["p"] * UNIT
            if periodic:
                last[idx] = task.set_period(period)
            else:
                last[idx] = task.period_s.raw.value != period
                task.period_s.raw.value = period
        elif kind == "sig":
            if op["v"]:
                stop.set()
            else:
                stop.clear()
        elif kind == "finish":
            finish(idx, op["r"])
        elif kind == "adv":
            await asyncio.sleep(op["d"] * UNIT)
        await settle()
        orphaned()
        events.append(
            {"op": op, "obs": {"ts": [one(x) for x in range(len(tasks))]}}
        )
    return events


MC = """
CONSTANTS Depth = 4
 Tasks <- {tasks}
 Mode = ""
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Enabled Sleeping Counted Limited
PROPERTY Begins
CHECK_DEADLOCK FALSE
"""
ONE = {"fl": "periodic", "period": 2, "maxit": 0, "gate": False}
TASKS = {
    "ConstOne": [ONE],
    "ConstTwo": [ONE, {**ONE, "period": 5}],
    "ConstAsync": [{"fl": "async", "period": 2, "maxit": 2, "gate": True}],
}


def random_scenario(rng, length):
    """A random history."""

    mode = rng.choice(["periodic", "periodic", "async"])
    tasks = []
    for _ in range(rng.randint(1, 4)):
        tasks.append(
            {
                "fl": mode,
                "period": rng.randint(1, 9),
                "maxit": (
                    rng.choice([0, 0, 1, 3]) if mode == "async" else 0
                ),
                "gate": mode == "async" and rng.random() < 0.3,
            }
        )
    ops = []
    for _ in range(length):
        roll = rng.random()
        index = rng.randint(1, len(tasks))
        if roll < 0.1 or not ops:
            ops.append(
                {
                    "k": "start",
                    "i": index,
                    "sig": rng.random() < 0.4,
                    "p": rng.choice([0, 0, 3]) if mode == "periodic" else 0,
                }
            )
        elif roll < 0.13 and mode == "periodic":
            ops.append({"k": rng.choice(["startall", "stopall"])})
        elif roll < 0.16 and mode == "periodic":
            ops.append({"k": "stop", "i": index})
        elif roll < 0.18:
            ops.append({"k": "cancel", "i": index})
        elif roll < 0.22:
            ops.append({"k": "disable", "i": index})
        elif roll < 0.3 and mode == "periodic":
            ops.append({"k": "pause", "i": index, "v": rng.random() < 0.4})
        elif roll < 0.35:
            ops.append({"k": "period", "i": index, "p": rng.randint(1, 9)})
        elif roll < 0.39:
            ops.append({"k": "sig", "v": rng.random() < 0.4})
        elif roll < 0.75:
            ops.append(
                {
                    "k": "finish",
                    "i": index,
                    "r": rng.choice(["ok"] * 8 + ["no", "raise"]),
                }
            )
        else:
            ops.append({"k": "adv", "d": rng.choice([1, 1, 2, 3, 5, 11])})
    return tasks, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    depth = check.pick(6, 7)
    for tasks, ops in (
        ("ConstOne", depth),
        ("ConstTwo", depth - 2),
        ("ConstAsync", depth),
    ):
        scns = check.explore(
            "MCTask",
            MC.format(tasks=tasks, ops=ops),
            need=["start", "cancel", "disable", "finish", "adv"],
            workers=8,
            timeout=1500,
        )
        check.rng.shuffle(scns)
        for scn in scns[: check.pick(4000, 60000)]:
            jobs.append(({"tasks": TASKS[tasks]}, scn))
    # Long runs of a task that counts its iterations.
    for maxit in (255, 256, 300):
        long = [{"k": "start", "i": 1, "sig": False, "p": 0}]
        for _ in range(maxit + 2):
            long += [
                {"k": "finish", "i": 1, "r": "ok"},
                {"k": "adv", "d": 1},
            ]
        task = {"fl": "async", "period": 1, "maxit": maxit, "gate": False}
        jobs.append(({"tasks": [task]}, long))
        jobs.append(({"tasks": [{**task, "fl": "periodic", "maxit": 0}]}, long))
    for _ in range(check.pick(4000, 40000)):
        tasks, ops = random_scenario(check.rng, check.rng.randint(5, 50))
        jobs.append(({"tasks": tasks}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceTask",
            "TraceTask.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
