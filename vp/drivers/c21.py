"""C21: applications made of configuration files."""

import asyncio
from contextlib import asynccontextmanager
import json
import os
from pathlib import Path
import shutil
import sys
import tempfile
import types

from vp.core import Check
from vp.loop import run as loop_run

LOG = []
PORTS = {"base": 0}
DATA = {}


def root():
    """This process's directory for files and packages."""

    if DATA.get("pid") != os.getpid():
        base = Path(tempfile.mkdtemp(prefix="vpconf"))
        DATA.update(pid=os.getpid(), base=base)
        for name in ("vppa", "vppb"):
            (base / name / "data").mkdir(parents=True)
            (base / name / "__init__.py").write_text("")
        sys.path.insert(0, str(base))
        modules()
    return DATA["base"]


def modules():
    """Modules that have the classes configurations refer to."""

    from runtimepy.net.arbiter.factory import ConnectionFactory
    from runtimepy.net.arbiter.info import RuntimeStruct
    from runtimepy.net.arbiter.task import ArbiterTask, TaskFactory
    from runtimepy.net.connection import NullConnection
    from runtimepy.subprocess.peer import RuntimepyPeer

    import logging

    def value(item, client):
        """What an argument turned out to be."""
        known = DATA["ports"]

        def port(num):
            for name, val in known.items():
                if type(num) is type(val) and num == val:
                    return name
            return None

        if isinstance(item, (list, tuple)) and len(item) == 2:
            name = port(item[1])
            if name is None:
                return ["addrstr", str(item[1])[1:]]
            good = isinstance(item, tuple)
            return ["addr" if good else "addrlist", name]
        if port(item) is not None:
            return ["port", port(item)]
        if isinstance(item, str) and item.startswith("$"):
            return ["refstr", item[1:]]
        if isinstance(item, str) and item.startswith("localhost:"):
            rest = item[len("localhost:") :]
            for name, val in known.items():
                if rest == str(val):
                    return ["hostport", name]
            return ["hoststr", rest[1:]]
        return ["str", item]

    def call(what, cls, num, name, args, kwargs):
        """Note a factory's call."""
        kwargs = dict(kwargs)
        text = kwargs.pop("markdown", None) or ""
        keys = sorted(kwargs, key=lambda x: "x2" if x == "local_addr" else x)
        LOG.append(
            [
                what,
                cls,
                num,
                name,
                [value(x, what == "client") for x in args],
                [value(kwargs[x], what == "client") for x in keys],
                text,
            ]
        )

    class Conn(NullConnection):
        """A connection that does nothing."""

        async def _await_message(self):
            await asyncio.sleep(10**6)

        async def close(self):
            pass

    def conn(cls, num):
        class Made(ConnectionFactory):
            """Makes connections."""

            async def client(self, name, *args, **kwargs):
                call("client", cls, num, name, args, kwargs)
                return Conn(logging.getLogger(name))

            async def server_task(self, stop_sig, manager, started, *args, **kw):
                call("server", cls, num, "", args, kw)

                async def serve():
                    started.release()
                    await stop_sig.wait()

                return serve()

        Made.__name__ = cls
        return Made

    def task(cls, num):
        class Task(ArbiterTask):
            """A task."""

            tag = [cls, num]

            async def init(self, app):
                await super().init(app)
                LOG.append(["task", self.name])

            async def dispatch(self):
                return True

        class Made(TaskFactory[Task]):
            """Makes tasks."""

            kind = Task

        Made.__name__ = cls
        return Made

    def struct(cls, num):
        class Made(RuntimeStruct):
            """A struct."""

            tag = [cls, num]

            def init_env(self):
                LOG.append(["struct", self.name])

        Made.__name__ = cls
        return Made

    class PeerA(RuntimepyPeer):
        """A process."""

        @classmethod
        @asynccontextmanager
        async def running_program(cls, name, config, import_str, *a, **kw):
            del a
            LOG.append(["peer", name])
            yield [name, config, import_str, kw.get("markdown")]

    def app(name):
        async def inner(info):
            LOG.append(["app", name])
            DATA["info"] = info
            if name == "boom":
                raise ValueError(name)
            return {"one": 1, "two": 2, "neg": -1}.get(name, 0)

        inner.__name__ = name
        return inner

    def builder(pos):
        def inner(data):
            data.setdefault("structs", []).append(
                {
                    "name": DATA["built"][pos]["n"],
                    "factory": "StructA",
                    "config": {"v": DATA["built"][pos]["v"]},
                }
            )

        return inner

    for num in (1, 2):
        mod = types.ModuleType(f"vpmod{num}")
        sys.modules[f"vpmod{num}"] = mod
        for cls in ("ConnA", "ConnB")[: 3 - num]:
            setattr(mod, cls, conn(cls, num))
        for cls in ("TaskA", "TaskB")[: 3 - num]:
            setattr(mod, cls, task(cls, num))
        for cls in ("StructA", "StructB")[: 3 - num]:
            setattr(mod, cls, struct(cls, num))
    mod = sys.modules["vpmod1"]
    mod.PeerA = PeerA
    for name in ("good", "one", "two", "neg", "boom"):
        setattr(mod, name, app(name))
    for pos in range(40):
        setattr(mod, f"builder{pos}", builder(pos))


SNAKE = {
    "ConnA": "conn_a",
    "ConnB": "conn_b",
    "TaskA": "task_a",
    "TaskB": "task_b",
    "StructA": "struct_a",
    "StructB": "struct_b",
    "PeerA": "peer_a",
}


def raw(item):
    """An argument as it's written."""
    kind, text = item
    if kind == "ref":
        return f"${text}"
    if kind == "host":
        return f"localhost:${text}"
    if kind == "addr":
        return ["localhost", f"${text}"]
    return text


def entry(item):
    """An item as it's written."""

    sec = item["s"]
    out = {}
    if "t" in item:
        out["factory"] = [item["t"], SNAKE[item["t"]], item["t"].lower()][
            item["c"]
        ]
    if "n" in item and sec != "over":
        out["name"] = item["n"]
    if item.get("md"):
        out["markdown"] = item["md"]
    if "v" in item and sec in ("task", "struct", "process"):
        if item["v"]:
            out["config"] = {"v": item["v"]}
    if "args" in item:
        if item["args"]:
            out["args"] = [raw(x) for x in item["args"]]
        if item["kw"]:
            out["kwargs"] = {
                "local_addr" if x[0] == "addr" else f"x{i}": raw(x)
                for i, x in enumerate(item["kw"])
            }
    if sec == "factory":
        out["name"] = f"vpmod{item['m']}.{item['n']}"
        if item["ns"]:
            out["namespaces"] = item["ns"]
    if sec == "client" and item["d"]:
        out["defer"] = True
    if sec == "task":
        if item["p"]:
            out["period_s"] = item["p"] / 1000
        if item["dep"]:
            out["average_depth"] = item["dep"]
    if sec == "process":
        out["program"] = "a.B"
    if sec == "port":
        out.update(type="udp", host="localhost")
        if len(item["n"]) > 1:
            out["type"] = "tcp"
        if item["v"]:
            out["port"] = PORTS["base"] + item["v"]
    return out


def contents(items):
    """A file's data."""

    data = {}
    for item in items:
        sec = item["s"]
        if sec in ("init", "app"):
            paths = [f"vpmod1.{x}" for x in item["st"]]
            data.setdefault(sec, []).append(
                paths if len(paths) > 1 else paths[0]
            )
        elif sec == "builder":
            DATA["built"].append(item)
            text = f"vpmod1.builder{len(DATA['built']) - 1}"
            data.setdefault("config_builders", []).append(text)
        elif sec == "over":
            data.setdefault("port_overrides", {}).setdefault(
                item["n"], PORTS["base"] + item["v"]
            )
        elif sec == "config":
            data.setdefault("config", {}).setdefault(item["n"], item["v"])
        elif sec == "junk":
            data["junk"] = True
        else:
            name = {
                "factory": "factories",
                "process": "processes",
            }.get(sec, f"{sec}s")
            data.setdefault(name, []).append(entry(item))
    return data


def execute(cfg, ops):
    """Run a scenario on the real code."""

    from runtimepy.net.arbiter import ConnectionArbiter

    base = root()
    here = os.getcwd()
    where = Path(tempfile.mkdtemp(prefix="vpconf", dir=base))
    before = list(sys.path)
    search = ConnectionArbiter.search_packages
    saved = list(search)
    PORTS["base"] = 20000 + (os.getpid() % 4000) * 10
    os.chdir(where)
    try:
        LOG.clear()
        DATA.update(built=[], ports={}, info=None)
        return loop_run(_execute(cfg, ops, where))
    finally:
        os.chdir(here)
        sys.path[:] = before
        search[:] = saved
        shutil.rmtree(where)


async def _execute(cfg, ops, where):
    from runtimepy.channel.environment.command import clear_env
    from runtimepy.net.arbiter import ConnectionArbiter

    style = cfg["style"]
    items = []
    arb = ConnectionArbiter(
        config={"mine": 1} if style % 2 else None, metrics_poller_task=False
    )
    loop = asyncio.get_running_loop()
    state = {"ok": True, "calls": []}

    def write():
        for num in range(1, 6):
            data = contents([x for x in items if x["f"] == num])
            if num == 1 and cfg["inc"]:
                data["includes"] = ["three.json"]
            path = {1: "one.json", 2: "two.json", 3: "three.json"}.get(num)
            if path is None:
                pkg = where.parent / ("vppa" if num == 4 else "vppb")
                (pkg / "data" / "vpx.yaml").write_text(json.dumps(data))
            elif data and (path, data) and len(data.get("app", [])) == 1:
                # (A single method needs no list.)
                others = [x for x in items if x["s"] == "app"]
                if len(others) == 1 and isinstance(data["app"][0], str):
                    data["app"] = data["app"][0]
                (where / path).write_text(json.dumps(data))
            else:
                (where / path).write_text(json.dumps(data))

    def path(num, pos):
        name = {1: "one.json", 2: "two.json", 3: "three.json", 9: "vpx"}[num]
        how = (style // 2 + pos) % 4
        if num == 9:
            return name
        if how == 0:
            return name
        if how == 1:
            return Path(name)
        if how == 2:
            return f"../{where.name}/{name}"
        return where / name

    def port(num):
        if PORTS["base"] < num < PORTS["base"] + 10:
            return num - PORTS["base"]
        return 0 if isinstance(num, int) and num > 0 else -1

    def split(name):
        return name.split(".")

    def text(thing):
        got = getattr(thing, "markdown", None) or ""
        return got.split("\n")[0] if got.startswith("md") else ""

    def observe(log=(), res=0, info=None):
        tasks = [x for x in arb.task_manager.tasks if hasattr(x, "tag")]
        out = {
            "ok": state["ok"],
            "ports": [[x, port(y)] for x, y in arb._ports.items()],
            "made": state["calls"],
            "conns": [split(x) for x in arb._connections]
            if not info
            else state["conns"],
            "later": [split(x) for x in arb._deferred_connections],
            "tasks": [
                [
                    x.name,
                    *x.tag,
                    round(x.period_s.value * 1000),
                    x.config.get("v", 0),
                    text(x),
                ]
                for x in tasks
            ],
            "structs": [
                [x, *y.tag, y.config.get("v", 0)]
                for x, y in arb._structs.items()
            ],
            "peers": [
                [x, y[2].get("v", 0), y[4] or ""]
                for x, y in arb._peers.items()
            ],
            "inits": [[y.__name__ for y in x] for x in arb._inits],
            "apps": [[y.__name__ for y in x] for x in arb._apps],
            "search": [
                {"vppa": "pa", "vppb": "pb", "runtimepy": "base"}[x]
                for x in arb.search_packages
            ],
            "log": list(log),
            "res": res,
            "info": [],
        }
        if not started:
            out["apps"] = []
        return out

    def seen(info):
        """What an application is told."""
        tasks = [x for x in info.tasks.values() if hasattr(x, "tag")]
        conf = {
            x: y for x, y in info.config.items() if x not in ("root", "mine")
        }
        return [
            [split(x) for x in info.connections],
            [x.name for x in tasks],
            list(info.structs),
            list(info.peers),
            [[x, y] for x, y in conf.items()],
            [[x, port(y)] for x, y in info.ports.items()],
        ]

    started = []
    events = []
    for op in ops:
        obs = None
        kind = op["k"]
        if kind == "add":
            items.append(op["it"])
        elif kind == "search":
            name = {"pa": "vppa", "pb": "vppb"}[op["n"]]
            if op["front"] and style % 2:
                ConnectionArbiter.add_search_package(name)
            else:
                ConnectionArbiter.add_search_package(name, front=op["front"])
        elif kind == "load":
            write()
            # (Where an argument's port number stands for its name.)
            orig = arb.register_module_factory

            def known(*args, **kwargs):
                DATA["ports"] = dict(arb._ports)
                return orig(*args, **kwargs)

            arb.register_module_factory = known
            try:
                await arb.load_configs(
                    [path(x, i) for i, x in enumerate(op["paths"])],
                    wait_for_stop=op["wait"],
                )
            except Exception:  # pylint: disable=broad-except
                state["ok"] = False
            else:
                started.append(True)
            state["calls"] = list(LOG)
            LOG.clear()
        elif kind == "run":
            state["conns"] = [split(x) for x in arb._connections]
            loop.call_later(5.03, arb.stop_sig.set)
            res = await arb.app()
            obs = observe(LOG, res, True)
            if DATA["info"] is not None:
                obs["info"] = seen(DATA["info"])
        events.append({"op": op, "obs": obs or observe()})

    for item in arb._deferred_connections.values():
        if asyncio.iscoroutine(item):
            item.close()
    for task in arb._servers:
        task.cancel()
    await asyncio.gather(*arb._servers, return_exceptions=True)
    clear_env()
    return events


MC = """
CONSTANTS MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Unique Complete
CHECK_DEADLOCK FALSE
"""


def random_scenario(rng, length):
    """Anything that may be written."""

    inc = rng.random() < 0.3
    wild = rng.random() < 0.3
    conns = ["ConnA", "ConnB"]
    kinds = {
        "client": conns,
        "server": conns,
        "task": ["TaskA", "TaskB"],
        "struct": ["StructA", "StructB"],
        "process": ["PeerA"],
    }
    ports = ["p", "q", "pp"]
    files = [1, 1, 2, 2, 3] + ([4, 5] if rng.random() < 0.4 else [])
    have = {}
    used = {}
    ops = []
    pack = 4 in files

    def name(sec):
        if wild and rng.random() < 0.15:
            return rng.choice("ab") + sec[:2]
        used[sec] = used.get(sec, 0) + 1
        return f"{rng.choice('abcd')}{sec[:2]}{used[sec]}"

    def factory(sec):
        """A class, mostly one that's there."""
        pick = rng.choice(kinds[sec])
        if wild and rng.random() < 0.1:
            pick = rng.choice(list(SNAKE))
        return pick, 2 if wild and rng.random() < 0.06 else rng.randrange(2)

    def arg(word):
        kind = rng.choice(["str", "ref", "host"])
        return [kind, word if kind == "str" else rng.choice(ports)]

    def add(item):
        ops.append({"k": "add", "it": item})

    for cls in SNAKE:
        if rng.random() < 0.85:
            mod = 2 if cls in ("ConnA", "TaskA", "StructA") else 1
            mod = mod if rng.random() < 0.3 else 1
            have[cls] = mod
            spaces = []
            if cls in conns:
                spaces = [rng.choice("uv") for _ in range(rng.randrange(3))]
            for _ in range(rng.choice([1, 1, 1, 2])):
                add(
                    {
                        "s": "factory",
                        "f": rng.choice(files[:4] if not wild else files),
                        "m": mod,
                        "n": cls,
                        "ns": spaces,
                    }
                )
    for _ in range(length):
        sec = rng.choice(
            ["client"] * 3
            + ["server", "task", "task", "struct", "process"]
            + ["port", "port", "init", "app", "app", "config", "over"]
            + (["builder"] if "StructA" in have or wild else [])
            + (["factory", "junk"] if wild and rng.random() < 0.1 else [])
        )
        item = {"s": sec, "f": rng.choice(files)}
        if sec in kinds:
            pick, case = factory(sec)
            if pick not in have and not wild:
                continue
            item.update(t=pick, c=case)
        if sec in ("client", "task", "struct", "process"):
            item["n"] = name(sec)
        if sec in ("task", "struct", "process"):
            item["v"] = rng.randrange(4)
        if sec in ("client", "server"):
            item["args"] = [arg(f"w{i}") for i in range(rng.randrange(3))]
            item["kw"] = [
                ["addr", rng.choice(ports)]
                if i == 2
                else arg(f"k{i}")
                for i in range(rng.randrange(4))
            ]
        if sec in ("client", "task", "process"):
            item["md"] = rng.choice(["", "", "md1", "md2"])
        if sec == "client":
            item["d"] = rng.random() < 0.4
        if sec == "task":
            item["p"] = rng.choice([0, 250, 2000])
            item["dep"] = rng.choice([0, 1, 7])
        if sec == "port":
            nums = {"p": [0, 1, 2], "q": [0, 3], "pp": [0, 4]}
            item["n"] = rng.choice(ports)
            item["v"] = rng.choice(nums[item["n"]])
        if sec == "over":
            nums = {"p": [5, 8], "q": [6], "pp": [7], "zz": [9]}
            item["n"] = rng.choice(list(nums))
            item["v"] = rng.choice(nums[item["n"]])
        if sec == "config":
            item.update(n=rng.choice("xyz"), v=rng.randrange(9))
        if sec in ("init", "app"):
            good = ["good", "good", "good", "one", "two", "neg", "boom"]
            if sec == "init":
                good = ["good"] * 8 + good
            pool = good + (["nope"] if wild else [])
            item["st"] = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        if sec == "builder":
            item.update(n=name("struct"), v=rng.randrange(1, 4))
        if sec == "factory":
            cls = rng.choice([*SNAKE, "Nope"])
            item.update(n=cls, m=rng.choice([1, 2]), ns=[])
        add(item)
    # Values that are named, and ports, are unique within a file.
    kept = []
    names = set()
    for op in ops:
        item = op["it"]
        key = (item["s"], item.get("n"), item["f"])
        if item["s"] in ("over", "config", "port"):
            if key in names:
                continue
            names.add(key)
        kept.append(op)
    ops = kept
    if pack:
        for pkg in rng.sample(["pa", "pb", "pa"], rng.randint(1, 3)):
            ops.append(
                {"k": "search", "n": pkg, "front": rng.random() < 0.5}
            )
    pool = [1, 2] + ([] if inc else [3]) + ([9] if pack else [])
    paths = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
    if not wild:
        paths = [1, 2] + paths
    ops.append({"k": "load", "paths": paths, "wait": rng.random() < 0.5})
    return {"inc": inc}, ops + [{"k": "run"}]


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCConf",
        MC.format(ops=check.pick(3, 4)),
        need=["run", "load"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(3000, 40000)]):
        cfg = {"inc": scn[0]["i"] in (2, 4), "style": idx % 8}
        jobs.append((cfg, scn[1:]))
    for idx in range(check.pick(1500, 20000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(3, 30))
        jobs.append(({**cfg, "style": idx % 8}, ops))
    scratch = tempfile.mkdtemp(prefix="vpc21")
    old = os.environ.get("TMPDIR")
    tempfile.tempdir = scratch
    try:
        traces = check.execute(execute, jobs)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceConf",
            "TraceConf.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
