"""C02: waiting for and sampling primitives."""

import asyncio

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle


def execute(cfg, ops):
    """Run a scenario on the real code."""
    return loop_run(_execute(cfg, ops))


NAMES = {
    "bool": {"no": False, "yes": True},
    "int": {"nil": 0, "one": 1, "two": 2, "three": 3, "four": 4},
}


def environment(prim, kind, via):
    """Put a primitive in an environment, and what it's found by there."""

    from runtimepy.channel.environment import ChannelEnvironment

    env = ChannelEnvironment()
    env.int_channel("other")
    enum = None
    if via.endswith("enum"):
        what = "bool" if kind == "bool" else "int"
        enum = env.enum("names", what, NAMES[what])
    res = env.channel("it", prim, enum=enum)
    assert res[0].raw is prim
    return env, "it" if via.startswith("name") else res[0].id


async def _execute(cfg, ops):
    from runtimepy.primitives import normalize
    from runtimepy.primitives.evaluation import Operator, sample_for

    loop = asyncio.get_running_loop()
    start = loop.time()
    kind = cfg["kind"]
    stamp = [0]
    kwargs = {"time_source": lambda: stamp[0]}
    if cfg["scaling"]:
        kwargs["scaling"] = list(cfg["scaling"])
    conv = {"bool": bool, "float": float}.get(kind, int)
    prim = normalize(kind)(value=conv(cfg["init"]), **kwargs)
    scaling = cfg["scaling"]
    via = cfg["via"]
    env, key = environment(prim, kind, via) if via != "prim" else (None, None)
    words = {}
    if via.endswith("enum"):
        words = NAMES["bool" if kind == "bool" else "int"]

    def half():
        val = (loop.time() - start) * 2
        return int(val) if val == int(val) else round(val, 6)

    waiters = []
    samplers = []

    async def waiter(rec, cond, timeout):
        try:
            if env is not None:
                res = await through(cond, timeout)
            elif kind == "bool":
                res = await prim.wait_for_state(bool(cond[1]), timeout)
            elif cond[0] == "close":
                res = await prim.wait_for_isclose(
                    cond[1], timeout, rel_tol=0.0, abs_tol=cond[2]
                )
            elif cond[0] == "EQUAL" and cond[1] % 2:
                # The default operation.
                res = await prim.wait_for_value(cond[1], timeout)
            else:
                res = await prim.wait_for_value(
                    cond[1], timeout, operation=Operator[cond[0]]
                )
            rec[0] = res.name
            if bool(res) != (res.name == "SUCCESS"):
                rec[0] += ":wrong-truth"
        except asyncio.CancelledError:
            rec[0] = "cancelled"
        except Exception as exc:  # pylint: disable=broad-except
            rec[0] = f"exc:{type(exc).__name__}"
        rec[1] = half()

    async def through(cond, timeout):
        """Wait by way of the environment."""
        word = {y: x for x, y in words.items()}.get(cond[1])
        if cond[0] == "EQUAL" and word:
            return await env.wait_for_enum(key, word, timeout)
        if kind == "bool":
            return await env.wait_for_bool(key, bool(cond[1]), timeout)
        if cond[0] == "close":
            if cond[2] == 0:
                return await env.wait_for_numeric_isclose(
                    key, cond[1], timeout
                )
            return await env.wait_for_numeric_isclose(
                key, cond[1], timeout, rel_tol=0.0, abs_tol=cond[2]
            )
        if cond[0] == "EQUAL":
            return await env.wait_for_numeric(key, cond[1], timeout)
        return await env.wait_for_numeric(
            key, cond[1], timeout, operation=Operator[cond[0]]
        )

    def plain(val, scaled):
        """The raw value of a sample."""
        if words:
            return int(words.get(val, -99))
        if scaled and scaling:
            val = (val - scaling[0]) / scaling[1]
        return int(val) if val == int(val) else val

    def sampling(op):
        """Start taking samples."""
        args = {}
        if op["cnt"] >= 0:
            args["count"] = op["cnt"]
        if not op["current"]:
            args["current"] = False
        if env is None:
            return sample_for(prim, op["t"] / 2, **args)
        if words:
            return env.sample_enum_for(key, op["t"] / 2, **args)
        if kind == "bool":
            return env.sample_bool_for(key, op["t"] / 2, **args)
        if not op.get("scaled", True):
            args["scale"] = False
        if "int" in kind:
            return env.sample_int_for(key, op["t"] / 2, **args)
        return env.sample_float_for(key, op["t"] / 2, **args)

    async def sampler(rec, op):
        gen = sampling(op)
        scaled = env is not None and op.get("scaled", True)
        rec["gen"] = gen
        try:
            while True:
                if op["slow"]:
                    await rec["permits"].acquire()
                try:
                    val, when = await gen.__anext__()
                except StopAsyncIteration:
                    break
                rec["out"].append([plain(val, scaled), when])
            rec["st"] = "ended"
        except asyncio.CancelledError:
            rec["st"] = "closed" if rec["closing"] else "exc:Cancelled"
        except Exception as exc:  # pylint: disable=broad-except
            rec["st"] = f"exc:{type(exc).__name__}"

    tasks = []
    wtasks = []
    events = []
    for op in ops:
        name = op["k"]
        if name == "wait":
            rec = ["pending", -1]
            waiters.append(rec)
            wtasks.append(
                asyncio.create_task(waiter(rec, op["c"], op["t"] / 2))
            )
        elif name == "sample":
            rec = {
                "st": "active",
                "out": [],
                "permits": asyncio.Semaphore(1),
                "slow": op["slow"],
                "closing": False,
            }
            samplers.append(rec)
            rec["task"] = asyncio.create_task(sampler(rec, op))
            tasks.append(rec["task"])
        elif name == "burst":
            for val in op["vs"]:
                stamp[0] += 1
                prim.value = conv(val)
        elif name == "cancel":
            wtasks[op["n"] - 1].cancel()
        elif name == "close":
            rec = samplers[op["n"] - 1]
            if rec["st"] == "active":
                rec["closing"] = True
                rec["task"].cancel()
                await settle()
                await rec["gen"].aclose()
        elif name == "permit":
            samplers[op["n"] - 1]["permits"].release()
        elif name == "advance":
            target = half() + op["d"]
            await asyncio.sleep(op["d"] / 2)
            assert half() == target
        await settle()
        lazy = any(x["slow"] and x["st"] == "active" for x in samplers)
        events.append(
            {
                "op": op,
                "obs": {
                    "waiters": [list(x) for x in waiters],
                    "samplers": [[x["st"], list(x["out"])] for x in samplers],
                    "callbacks": -1 if lazy else len(prim.callbacks),
                },
            }
        )
    for task in tasks + wtasks:
        task.cancel()
    await asyncio.gather(*tasks, *wtasks, return_exceptions=True)
    return events


MC = """
CONSTANTS Values = {{0, 1, 2}}
 Conds <- ConstConds
 Bursts <- ConstBursts
 MaxW = {maxw}
 MaxS = {maxs}
 MaxNow = {now}
 MaxTs = {ts}
 Mode = "all"
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS NoLateWait NoMissedSuccess CountBound StrictlyNewer
PROPERTY FinalProp
CHECK_DEADLOCK FALSE
"""

OPERATORS = [
    "EQUAL",
    "NOT_EQUAL",
    "LESS_THAN",
    "LESS_THAN_OR_EQUAL",
    "GREATER_THAN",
    "GREATER_THAN_OR_EQUAL",
]


def random_scenario(rng, length):
    """A random schedule."""

    kind = rng.choice(["uint8", "int16", "int32", "bool", "float", "double"])
    scaling = []
    if kind != "bool" and rng.random() < 0.5:
        scaling = rng.choice([[3], [2, 4], [0, 2], [-5, -2], [1, 1]])
    vals = [0, 1] if kind == "bool" else list(range(5))

    def cond():
        raw = rng.choice(vals)
        if kind == "bool":
            return ["EQUAL", raw]
        scaled = raw
        if len(scaling) == 1:
            # A constant polynomial: values are only offset when inverted.
            scaled = raw + scaling[0]
        elif scaling:
            scaled = scaling[0] + scaling[1] * raw
        if rng.random() < 0.3:
            return ["close", scaled, rng.choice([0, 0, 1, 2])]
        return [rng.choice(OPERATORS), scaled]

    ops = []
    waiters = samplers = 0
    slow = []
    for _ in range(length):
        roll = rng.random()
        if roll < 0.2 and waiters < 5:
            waiters += 1
            ops.append(
                {
                    "k": "wait",
                    "c": cond(),
                    "t": rng.choice([0, 1, 3, 5, 9, 21]),
                }
            )
        elif roll < 0.32 and samplers < 3:
            samplers += 1
            lazy = rng.random() < 0.5
            if lazy:
                slow.append(samplers)
            ops.append(
                {
                    "k": "sample",
                    "t": rng.choice([1, 3, 5, 9]),
                    "cnt": rng.choice([-1, 0, 1, 2, 3, 5]),
                    "current": rng.random() < 0.5,
                    "slow": lazy,
                    "scaled": len(scaling) != 1 and rng.random() < 0.7,
                }
            )
        elif roll < 0.37 and waiters:
            ops.append({"k": "cancel", "n": rng.randint(1, waiters)})
        elif roll < 0.5 and slow:
            ops.append({"k": "permit", "n": rng.choice(slow)})
        elif roll < 0.52 and slow:
            ops.append({"k": "close", "n": rng.choice(slow)})
        elif roll < 0.65:
            ops.append({"k": "advance", "d": 2 * rng.choice([1, 1, 2, 4])})
        else:
            ops.append(
                {
                    "k": "burst",
                    "vs": [
                        rng.choice(vals)
                        for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))
                    ],
                }
            )
    via = rng.choice(["prim", "name", "id"])
    if not scaling and kind in ("uint8", "int16", "int32", "bool"):
        via = rng.choice([via, "name enum", "id enum"])
    cfg = {"kind": kind, "scaling": scaling, "init": rng.choice(vals)}
    return {**cfg, "via": via}, ops


def run(check: Check) -> None:
    """Entry."""

    scns = []
    for maxw, maxs, now, ts in check.pick(
        [(2, 0, 4, 3), (0, 1, 4, 4)],
        [(2, 0, 6, 5), (3, 0, 4, 3), (0, 1, 6, 7), (1, 1, 4, 4)],
    ):
        cfg = MC.format(maxw=maxw, maxs=maxs, now=now, ts=ts)
        ops = check.explore(
            "MCWaits",
            cfg,
            need=["wait" if maxw else "sample", "burst", "advance"],
        )
        if len(ops) > check.pick(3000, 40000):
            ops = check.rng.sample(ops, check.pick(3000, 40000))
        vias = ["prim", "name", "id enum"]
        for idx, scn in enumerate(ops):
            cfg = {"kind": "uint8", "scaling": [], "init": 0}
            scns.append(({**cfg, "via": vias[idx % 3]}, scn))
    for _ in range(check.pick(1500, 20000)):
        scns.append(random_scenario(check.rng, check.rng.randint(5, 30)))
    traces = check.execute(execute, scns)
    check.validate("TraceWaits", "TraceWaits.cfg", traces)
    check.assumptions += [
        "updates and time limits never coincide at the same instant",
        "the event loop's clock is virtual",
    ]
