"""C09: the life of a connection."""

import asyncio
import logging

from vp.conns import Recorder, make
from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    return loop_run(_execute(cfg, ops))


async def _execute(cfg, ops):
    from runtimepy.net.backoff import ExponentialBackoff

    rec = Recorder(cfg)
    conn, recv, eof, late, patch = make(rec)
    stop = asyncio.Event()
    task = None
    leave = None
    events = []

    async def managed(leaving, **kwargs):
        """Process within the context manager."""
        async with conn.process_then_disable(**kwargs):
            await leaving.wait()

    def queue(num, what, text):
        data = f"{num} {what}"
        if text:
            conn.send_text(data)
        else:
            conn.send_binary(data.encode())

    def view():
        done = "none"
        if task is not None and task.done():
            done = "ok"
            if task.cancelled() or task.exception() is not None:
                done = "raised"
        enabled = not conn.disabled
        env = conn.env
        if (
            conn.disabled_event.is_set() == enabled
            or env.value("enabled") != enabled
        ):
            enabled = "inconsistent"
        return {
            "en": enabled,
            "ini": conn.initialized.is_set(),
            "exi": conn.exited.is_set(),
            "run": bool(task and not task.done()),
            "done": done,
            "got": list(rec.got),
            "fin": rec.fin,
            "sent": list(rec.sent),
            "sentb": list(rec.sentb),
            "closes": rec.closes,
            "rs": env.value("restarts"),
            "ra": env.value("restart_attempts"),
            "tries": list(rec.tries),
            "tasks": len(list(conn.tasks)),
            "busy": rec.busy > 0,
        }

    def disable():
        active = task is not None and not task.done()
        if active and leave is not None and not leave.is_set():
            leave.set()
        else:
            conn.disable("test")

    with patch:
        for index, op in enumerate(ops):
            kind = op["k"]
            if kind == "start" and (task is None or task.done()):
                kwargs = {
                    "backoff": ExponentialBackoff(
                        interval=1, max_sleep=5, max_tries=7
                    )
                }
                if op["stop"]:
                    kwargs["stop_sig"] = stop
                if op["dt"]:
                    kwargs["disable_time"] = op["dt"]
                leave = None
                if (cfg["style"] + index) % 3 == 0:
                    leave = asyncio.Event()
                    task = asyncio.create_task(managed(leave, **kwargs))
                else:
                    task = asyncio.create_task(conn.process(**kwargs))
            elif kind == "recv":
                for num, what in op["ms"]:
                    recv(num, what)
            elif kind in ("text", "bin"):
                for num, what in op["ms"]:
                    queue(num, what, kind == "text")
            elif kind == "drop":
                for num, what in op["ms"]:
                    if op["what"] == "recv":
                        recv(num, what)
                    elif cfg["flav"] == "queue":
                        queue(num, what, True)
                conn.disable("test")
            elif kind == "disable":
                disable()
            elif kind == "eof":
                eof()
            elif kind == "late":
                late()
            elif kind == "break":
                rec.broken = True
            elif kind == "stop":
                stop.set()
            elif kind == "resume":
                stop.clear()
            elif kind == "init":
                if rec.gate:
                    rec.init.put_nowait(op["r"])
            elif kind == "release":
                if rec.busy:
                    rec.release.put_nowait(op["ok"])
            elif kind == "task":
                if not conn.disabled:
                    conn._conn_tasks.append(
                        asyncio.create_task(asyncio.sleep(10**6))
                    )
            elif kind == "adv":
                await asyncio.sleep(op["d"])
            await settle()
            if leave is not None and task.done() is False:
                # Only the context is still entered.
                inner = [
                    x
                    for x in asyncio.all_tasks()
                    if "Connection.process" in repr(x.get_coro())
                ]
                if not inner:
                    leave.set()
                    await settle()
            events.append({"op": op, "obs": view()})
    return events


MC = """
CONSTANTS Interval = 1
 MaxSleep = 5
 MaxTries = 7
 Flav = "{flav}"
 InitMode = "{init}"
 Plan <- {plan}
 MaxOps = {ops}
 Mode = "{mode}"
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Quiet ActiveEnabled Waiting NoTasks Counters IsSorted
PROPERTY ClosedOnce
CHECK_DEADLOCK FALSE
"""
PLANS = {"ConstNone": [], "ConstFails": ["no", "no", "no", "ok", "raise", "no"]}


def random_scenario(rng, length):
    """A random history."""

    flav = rng.choice(["queue", "tcp", "udp"])
    init = rng.choice(["ok", "gate"])
    plan = [rng.choice(["ok", "ok", "no", "no", "no", "no", "raise"]) for _ in range(rng.randint(0, 12))]
    ops = []
    num = [0]

    def some(*whats):
        out = []
        for what in whats:
            num[0] += 1
            out.append([num[0], what])
        return out

    oks = lambda: ["ok"] * rng.randint(1, 4)
    # What is known for certain: nothing is pending when not processing.
    pending = False
    for _ in range(length):
        roll = rng.random()
        if roll < 0.22:
            if pending:
                ops.append({"k": "resume"})
            ops.append(
                {
                    "k": "start",
                    "stop": rng.random() < 0.5,
                    "dt": rng.choice([0, 0, 0, 2, 7]),
                }
            )
            pending = False
        elif roll < 0.45:
            pending = True
            ops.append({"k": "recv", "ms": some(*oks())})
        elif roll < 0.57:
            pending = True
            ops.append(
                {"k": rng.choice(["text", "bin"]), "ms": some(*oks())}
            )
        elif roll < 0.62:
            ops.append(
                {
                    "k": "drop",
                    "what": rng.choice(["recv", "text"]),
                    "ms": some(*oks()),
                }
            )
        elif roll < 0.68:
            ops.append({"k": "task"})
        elif roll < 0.76:
            ops.append({"k": "init", "r": rng.choice(["ok", "ok", "no", "raise"])})
        elif roll < 0.8:
            ops.append({"k": "release", "ok": rng.random() < 0.7})
        elif roll < 0.92:
            ops.append({"k": "adv", "d": rng.choice([1, 1, 2, 3, 6, 20])})
        else:
            ops.append({"k": rng.choice(["late", "disable", "stop", "resume", "eof", "break"])})
    return flav, init, plan, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    depth = check.pick(5, 6)
    for flav, init, plan, mode, ops in (
        ("queue", "ok", "ConstNone", "io", depth),
        ("queue", "gate", "ConstFails", "life", depth + 1),
        ("tcp", "gate", "ConstNone", "life", depth),
        ("tcp", "ok", "ConstFails", "io", depth),
        ("udp", "ok", "ConstFails", "life", depth),
    ):
        scns = check.explore(
            "MCConn",
            MC.format(flav=flav, init=init, plan=plan, mode=mode, ops=ops),
            need=["start", "recv", "disable", "stop", "drop"],
            workers=8,
            timeout=1500,
        )
        check.rng.shuffle(scns)
        cfg = {"flav": flav, "init": init, "plan": PLANS[plan]}
        for index, scn in enumerate(scns[: check.pick(2500, 60000)]):
            jobs.append(({**cfg, "style": index % 3}, scn))
    for index in range(check.pick(2500, 40000)):
        flav, init, plan, ops = random_scenario(
            check.rng, check.rng.randint(4, 30)
        )
        jobs.append(
            (
                {"flav": flav, "init": init, "plan": plan, "style": index % 3},
                ops,
            )
        )
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceConn",
            "TraceConn.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
