"""C10: managing connections."""

import asyncio
import logging

from vp.conns import Recorder, make
from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(cfg, ops))


async def _execute(cfg, ops):
    from runtimepy.net.manager import ConnectionManager

    manager = ConnectionManager()
    stop = asyncio.Event()
    recs = []
    conns = []
    ends = []
    for item in cfg["conns"]:
        rec = Recorder({"flav": "queue", "init": "ok", **item})
        conn, recv, eof, _, _ = make(rec)
        conn.env.set("auto_restart", item["auto"])
        # Every processing of this connection.
        rec.active = 0
        rec.most = 0
        inner = conn.process

        async def process(*args, rec=rec, inner=inner, **kwargs):
            rec.active += 1
            rec.most = max(rec.most, rec.active)
            try:
                await inner(*args, **kwargs)
            finally:
                rec.active -= 1

        conn.process = process
        if not item["en"]:
            conn.disable("test")
            rec.open = False
        recs.append(rec)
        conns.append(conn)
        ends.append((recv, eof))

    main = second = None
    polled = []
    marks = 0
    events = []

    def state(task, waiting):
        if task is None:
            return "none"
        if not task.done():
            return waiting
        if task.cancelled() or task.exception() is not None:
            return "raised"
        return "ok"

    def view():
        running = main is not None and not main.done()
        states = []
        for rec, conn in zip(recs, conns):
            last = rec.tries[-1] * 20 if rec.tries else -1
            if rec.most > 1:
                last = f"processed {rec.most} times at once"
            elif last >= 0:
                last = round(last)
            states.append(
                [
                    not conn.disabled,
                    conn.exited.is_set(),
                    rec.active > 0,
                    rec.closes,
                    conn.env.value("restarts"),
                    conn.env.value("restart_attempts"),
                    len(rec.tries),
                    last,
                    list(rec.got),
                ]
            )
        listed = []
        if running and not stop.is_set():
            listed = [conns.index(x) + 1 for x in manager.by_type(object)]
            if manager.num_connections != len(listed):
                listed = ["count", manager.num_connections]
        return {
            "cs": states,
            "list": listed,
            "queued": manager.queue.qsize(),
            "run": running,
            "done": state(main, "none"),
            "second": state(second, "waiting"),
            "polled": list(polled),
        }

    def put(index):
        conn = conns[index - 1]
        if manager.queue.qsize() and conn in manager.queue._queue:
            return
        if recs[index - 1].active:
            return
        manager.queue.put_nowait(conn)

    for op in ops:
        kind = op["k"]
        running = main is not None and not main.done()
        if kind in ("add", "addstop"):
            if kind == "addstop" and not stop.is_set():
                await asyncio.sleep(0.05)
                await settle()
            put(op["i"])
            if kind == "addstop":
                stop.set()
        elif kind == "auto":
            conns[op["i"] - 1].env.set("auto_restart", op["v"])
        elif kind == "disable":
            conns[op["i"] - 1].disable("test")
        elif kind == "break":
            recs[op["i"] - 1].broken = True
        elif kind == "eof":
            ends[op["i"] - 1][1]()
        elif kind == "recv":
            for num, what in op["ms"]:
                ends[op["i"] - 1][0](num, what)
        elif kind == "stop":
            if not stop.is_set():
                await asyncio.sleep(0.05)
                await settle()
            stop.set()
        elif kind == "manage":
            if not running:
                stop.clear()
                second = None
                main = asyncio.create_task(manager.manage(stop))
        elif kind == "again":
            if running and not stop.is_set() and second is None:
                second = asyncio.create_task(manager.manage(stop))
        elif kind == "poll":
            marks += 1
            if not running or not stop.is_set():
                polled = []
                if running:
                    for conn in conns:
                        conn.metrics.tx.messages.value = 5
                    manager.reset_metrics()
                    order = [x for x in manager.by_type(object)]
                    fresh = [
                        x
                        for x in conns
                        if x.metrics.tx.messages.value == 0
                    ]
                    polled = [conns.index(x) + 1 for x in order if x in fresh]
                    if len(fresh) != len(polled):
                        polled.append("others")
                    manager.poll_metrics(marks)
        elif kind == "adv":
            await asyncio.sleep(op["d"] / 20)
        await settle()
        events.append({"op": op, "obs": view()})
    return events


MC = """
CONSTANTS Interval = 2
 MaxSleep = 200
 MaxTries = 20
 Grace = 20
 Conns <- {conns}
 Steps = {{{steps}}}
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Listed Processed Alive NotBoth AllDown Bounded
CHECK_DEADLOCK FALSE
"""
CONNS = {
    "ConstA": [
        {"en": True, "auto": True, "plan": ["no", "no", "ok", "raise"]},
        {"en": True, "auto": False, "plan": []},
    ],
    "ConstB": [
        {"en": True, "auto": True, "plan": ["ok"] + ["no"] * 8},
        {"en": False, "auto": False, "plan": ["no", "no", "no", "ok"]},
        {"en": True, "auto": True, "plan": ["raise"]},
    ],
}


def random_scenario(rng, length):
    """A random history."""

    count = rng.randint(1, 5)
    conns = [
        {
            "en": rng.random() < 0.8,
            "auto": rng.random() < 0.6,
            "plan": rng.choices(
                ["ok", "no", "raise"],
                [3, 6, 0.3],
                k=rng.randint(0, rng.choice([3, 8, 40])),
            ),
        }
        for _ in range(count)
    ]
    ops = [{"k": "manage"}]
    num = 0
    for _ in range(length):
        roll = rng.random()
        index = rng.randint(1, count)
        if roll < 0.25:
            ops.append({"k": "add", "i": index})
        elif roll < 0.4:
            ops.append({"k": rng.choice(["disable", "eof"]), "i": index})
        elif roll < 0.5:
            ops.append({"k": "auto", "i": index, "v": rng.random() < 0.5})
        elif roll < 0.6:
            # What arrives is handled only while processing.
            num += 1
            ops.append({"k": "recv", "i": index, "ms": [[num, "ok"]]})
        elif roll < 0.63:
            ops.append({"k": "break", "i": index})
        elif roll < 0.68:
            ops.append({"k": rng.choice(["stop", "manage", "manage"])})
        elif roll < 0.7:
            ops.append({"k": "addstop", "i": index})
        elif roll < 0.75:
            ops.append({"k": "again"})
        elif roll < 0.82:
            ops.append({"k": "poll"})
        else:
            ops.append(
                {
                    "k": "adv",
                    "d": 2 * rng.choice([1, 1, 2, 3, 5, 9, 10, 40, 100, 600]),
                }
            )
    return conns, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    depth = check.pick(6, 7)
    for conns, ops, steps in (
        ("ConstA", depth, "2, 6"),
        ("ConstB", depth - 1, "4, 24"),
    ):
        scns = check.explore(
            "MCManager",
            MC.format(conns=conns, ops=ops, steps=steps),
            need=["add", "disable", "stop", "manage", "again", "addstop"],
            workers=8,
            timeout=1500,
        )
        check.rng.shuffle(scns)
        for scn in scns[: check.pick(5000, 80000)]:
            jobs.append(({"conns": CONNS[conns]}, scn))
    for _ in range(check.pick(2500, 40000)):
        conns, ops = random_scenario(check.rng, check.rng.randint(6, 40))
        jobs.append(({"conns": conns}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceManager",
            "TraceManager.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
