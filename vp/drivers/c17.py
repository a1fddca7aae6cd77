"""C17: the HTTP server."""

import asyncio
import json
import logging
import os
from pathlib import Path
import re
import shutil
import tempfile
from unittest import mock

from vp.core import Check
from vp.nets import tcp

LEAF = "leaf"
NODES = [
    {"test": {"a": 1, "sub": LEAF}, "x": {"json": {}}},
    {"a": 1, "sub": LEAF},
    {"__raw__": 1},
    {"json": {}},
    {"__raw__": LEAF},
    {},
]
DATA = {
    "test": {"a": 1, "sub": lambda: LEAF},
    "x": lambda: {"json": dict},
}
DESTS = ["/404.html", "/new", "https://example.com/x?y"]
TOKENS = {"LONG": "n" * 300, "NUL": "a\x00b", "UNI": "é☃"}
NAMES = {y: x for x, y in TOKENS.items()}


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    base = Path(tempfile.mkdtemp(prefix="vp-c17-")).resolve()
    try:
        return asyncio.run(_execute(cfg, ops, base))
    finally:
        shutil.rmtree(base)


def text(parts):
    """A path."""
    return "/" + "/".join(TOKENS.get(x, x) for x in parts)


async def _execute(cfg, ops, base):
    from svgen.element.html import div

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command import GlobalEnvironment
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
    )
    from runtimepy.net.server import RuntimepyServerConnection
    from runtimepy.net.server.app.create import (
        create_app,
        create_cacheable_app,
    )

    style = cfg["style"]
    apps, names = {}, []

    class Server(RuntimepyServerConnection):
        """A server that's a scenario's own."""

        class_paths = [base / "r1"]
        class_redirect_paths = {}
        json_data = DATA

    Server.apps = apps

    def make_app(num):
        async def app(document, request, response, request_data):
            del request, response, request_data
            document.body.text = f"Zapp{num}Z"
            return document

        return app

    info = mock.Mock(logger=logging.getLogger("test"))
    info.config_param = lambda key, default, strict=False: (
        cfg["style"] % 2 == 0 if key == "caching" else default
    )

    def create(num):
        """Create an application in one of three ways."""

        def compose(app, document, request, response, request_data):
            del app, request, response, request_data
            document.body.text = f"Zapp{num}Z"
            return document

        def tabs(app, content):
            assert app is info
            div(text=f"Zapp{num}Z", parent=content.tabs)

        if style % 3 == 0:
            return make_app(num)
        if style % 3 == 1:
            return create_cacheable_app(info, compose)
        return create_app(info, tabs)

    if cfg["dflt"]:
        Server.default_app = make_app(99)
    else:
        Server.default_app = None

    def place(spot):
        return base.joinpath(*(TOKENS.get(x, x) for x in spot))

    def write(spot, num):
        path = place(spot)
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_bytes(b"" if not num else f"Zcontent{num}Z".encode())

    for name in ("r1", "r2", "r3"):
        (base / name).mkdir()
    for item in cfg["fs"]:
        write(item["at"], item["id"])

    registry = GlobalEnvironment()
    envs = []
    log = logging.getLogger("test")
    for name in ("e1", "e2"):
        env = ChannelEnvironment()
        env.int_channel("v", kind="int8", commandable=True)
        env.finalize()
        envs.append(env)
        registry.register(name, ChannelCommandProcessor(env, log))

    conns, transports, protocols, tasks = {}, {}, {}, {}

    async def connect(num):
        if num in conns:
            conns[num].disable("again")
            await tasks[num]
        conns[num], transports[num], protocols[num] = tcp(Server, num)
        tasks[num] = asyncio.create_task(conns[num].process())
        await asyncio.sleep(0)

    def number(data):
        """Which content something has."""
        found = re.findall(rb"Zcontent(\d+)Z", data)
        return int(found[0]) if len(found) == 1 else -len(found)

    def classify(method, parts, status, heads, body):
        """What a response is."""
        kind = heads.get("content-type", "")
        if status == 307:
            dest = heads.get("location")
            return [
                307,
                "to",
                DESTS.index(dest) if dest in DESTS else -1,
                "" if not body else "body",
            ]
        if method == "POST":
            if not body:
                return [status, "none", 0, ""]
            data = json.loads(body)
            want = [x for x in parts if x not in ("", ".")]
            if data["your_command"] != [TOKENS.get(x, x) for x in want]:
                return [status, "wrong command", 0, ""]
            count = len(want)
            if "usage" in data:
                good = sorted(data["environments"]) == ["e1", "e2"]
                good = good and not data["success"]
                return [status, "usage" if good else "?", count, ""]
            return [status, "cmd" if data["success"] else "badcmd", count, ""]
        if kind == "image/x-icon":
            return [status, "icon", 0 if len(body) > 100 else -1, kind]
        if kind.startswith("application/json; "):
            data = json.loads(body)
            if data in NODES:
                return [status, "json", NODES.index(data) + 1, ""]
            spot = parts.index("json") + 1
            trail = [x for x in parts[spot:] if x]
            for idx in range(1, len(trail) + 1):
                full = ".".join(TOKENS.get(x, x) for x in trail[:idx])
                if full == data["path"]["current"]:
                    part = data["path"]["part"]
                    what = {"Can't index": "noindex", "Key not fou": "nokey"}
                    return [
                        status,
                        what.get(data["error"][:11], "?"),
                        idx,
                        NAMES.get(part, part),
                    ]
            return [status, "?", 0, ""]
        if kind == "text/html; charset=utf-8":
            found = re.findall(rb"Zapp(\d+)Z", body)
            if found:
                return [status, "app", int(found[0]), "text/html"]
            good = b"<html" in body
            return [status, "md" if good else "?", number(body), "text/html"]
        num = number(body)
        want = b"" if not num else f"Zcontent{num}Z".encode()
        return [status, "file" if body == want else "?", num, kind]

    async def ask(num, method, target, parts):
        """Ask for something."""
        transports[num].take()
        protocols[num].data_received(
            f"{method} {target} HTTP/1.1\r\nhost: x\r\n\r\n".encode()
        )
        data = b""
        for count in range(3000):
            await asyncio.sleep(0 if count < 200 else 0.001)
            data += b"".join(transports[num].take())
            end = data.find(b"\r\n\r\n")
            if end >= 0:
                lines = data[:end].decode().split("\r\n")
                heads = {}
                for line in lines[1:]:
                    key, _, val = line.partition(":")
                    heads[key.lower()] = val.strip()
                size = int(heads["content-length"])
                body = data[end + 4 :]
                if len(body) >= size:
                    status = int(lines[0].split(" ")[1])
                    if len(body) > size:
                        return [status, "too much", 0, ""]
                    return classify(method, parts, status, heads, body)
            if conns[num].disabled:
                await tasks[num]
                del conns[num]
                await connect(num)
                return [-1, "ended", 0, ""]
        return [-1, "silent", 0, ""]

    events = []
    with mock.patch("runtimepy.net.server.GLOBAL", registry):
        for num in (1, 2):
            await connect(num)
        for op in ops:
            style += 1
            what = op["k"]
            res = []
            if what == "get":
                target = text(op["p"])
                if style % 4 == 0:
                    target += "?json=/json/test"
                res = await ask(op["c"], "GET", target, op["p"])
            elif what == "post":
                res = await ask(
                    1 + style % 2, "POST", text(op["p"]), op["p"]
                )
            elif what == "other":
                target = ["*", "http://a/b/json"][style % 2]
                res = await ask(1, op["m"], target, [])
            elif what == "write":
                write(op["at"], op["id"])
            elif what == "remove":
                place(op["at"]).unlink(missing_ok=True)
            elif what == "path":
                spot = base.joinpath(*op["at"])
                if style % 3 == 0:
                    spot = spot / ".." / spot.name
                conns[op["c"]].add_path(
                    spot if style % 2 else str(spot), front=op["front"]
                )
            elif what == "red":
                try:
                    src = text(op["p"])
                    Server.add_redirect_path(
                        DESTS[op["to"]], src[1:] if style % 2 else src
                    )
                except AssertionError:
                    res = [0, "taken", 0, ""]
            elif what == "app":
                if op["p"] not in names:
                    names.append(op["p"])
                    apps[text(op["p"])] = create(len(names))
            elif what == "conn":
                await connect(op["c"])
            events.append(
                {
                    "op": op,
                    "obs": {"res": res, "val": [x.value("v") for x in envs]},
                }
            )
    for num in (1, 2):
        conns[num].disable("done")
        await tasks[num]
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Cfgs <- ConstCfgs
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANT Contained
CHECK_DEADLOCK FALSE
"""


def here(spot, num):
    """A file."""
    return {"at": spot, "id": num}


BASE = [
    here(["secret.txt"], 1),
    here(["r1.md"], 2),
    here(["r1", "a.txt"], 3),
    here(["r1", "sub", "b.md"], 4),
    here(["r2", "a.txt"], 5),
    here(["r2", "sub"], 6),
    here(["r2", "secret.txt"], 8),
    here(["r1", "e.txt"], 0),
]
CFGS = [{"fs": BASE, "dflt": x} for x in (False, True)]
FILES = ["a.txt", "b.md", "b.txt", "a.b.txt", "c.json", "d.html", "e.txt"]
FILES += ["json", "UNI"]
PARTS = FILES + ["sub", "sub", "..", "..", "", ".", "secret.txt", "json"]
PARTS += ["test", "a", "x", "b", "r1", "r2", "old", "favicon.ico"]
PARTS += ["LONG", "NUL"]


def random_path(rng):
    """A path to ask for."""
    roll = rng.random()
    if roll < 0.15:
        return ["json"] + [
            rng.choice(["test", "a", "x", "json", "sub", "", "z", "b"])
            for _ in range(rng.randint(0, 4))
        ]
    return [rng.choice(PARTS) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]


def random_scenario(rng, length):
    """A random folder and history."""

    spots = {}
    for _ in range(rng.randint(0, 14)):
        spot = [rng.choice(["r1", "r1", "r2", "r3"])]
        spot += ["sub"] * rng.choice([0, 0, 1, 2])
        spots["/".join(spot + [rng.choice(FILES)])] = rng.choice([0] + [9] * 5)
    files = [here(["secret.txt"], 1)]
    if rng.random() < 0.5:
        files.append(here(["r1.md"], 2))
    for idx, (spot, num) in enumerate(sorted(spots.items())):
        files.append(here(spot.split("/"), num and idx + 10))
    cfg = {"fs": files, "dflt": rng.random() < 0.4}
    ops = []
    for _ in range(length):
        roll = rng.random()
        if roll < 0.6:
            path = random_path(rng)
            if rng.random() < 0.4:
                spot = rng.choice(files)["at"]
                path = spot[1:] or spot
                if rng.random() < 0.5:
                    where = rng.randint(0, len(path))
                    path = path[:where] + [""] * (where > 0) + path[where:]
                elif rng.random() < 0.5:
                    path = ["sub", ".."] + path
            ops.append({"k": "get", "c": rng.randint(1, 2), "p": path})
        elif roll < 0.7:
            path = [rng.choice(["e1", "e2", "e3", ""])]
            path += rng.choice(
                [
                    [],
                    [""],
                    ["set"],
                    ["set", "v"],
                    ["set", "v", "z"],
                    ["get", "w"],
                    ["set", "v", rng.choice("123")],
                    ["set", "v", rng.choice("123"), ""],
                    ["", "set", ".", "v", rng.choice("123")],
                ]
            )
            ops.append({"k": "post", "p": path})
        elif roll < 0.72:
            ops.append({"k": "other", "m": rng.choice(["GET", "POST"])})
        elif roll < 0.78:
            spot = rng.choice(files)["at"]
            if rng.random() < 0.5:
                ops.append({"k": "remove", "at": spot})
            else:
                ops.append(
                    {"k": "write", "at": spot, "id": rng.choice([0, 7, 8])}
                )
        elif roll < 0.86:
            spot = [rng.choice(["r1", "r2", "r3"])]
            if rng.random() < 0.3:
                spot.append("sub")
            ops.append(
                {
                    "k": "path",
                    "c": rng.randint(1, 2),
                    "at": spot,
                    "front": rng.random() < 0.5,
                }
            )
        elif roll < 0.93:
            path = rng.choice(
                [["old"], ["old", ""], ["json"], ["a.txt"], ["old", "x"]]
            )
            ops.append({"k": "red", "p": path, "to": rng.randint(1, 2)})
        elif roll < 0.98:
            path = rng.choice([[""], ["sub"], ["old"], ["x", "y"], ["json"]])
            ops.append({"k": "app", "p": path})
        else:
            ops.append({"k": "conn", "c": rng.randint(1, 2)})
    for op in list(ops):
        # Ask for what was set up.
        if op["k"] in ("red", "app") and rng.random() < 0.7:
            ops.append({"k": "get", "c": rng.randint(1, 2), "p": op["p"]})
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    os.umask(0o077)
    jobs = []
    scns = check.explore(
        "MCServer",
        MC.format(ops=check.pick(3, 4)),
        need=["get", "post", "other"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(7000, 60000)]):
        jobs.append(({**CFGS[scn[0]["i"] - 1], "style": idx % 12}, scn[1:]))
    for idx in range(check.pick(1500, 15000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(5, 60))
        jobs.append(({**cfg, "style": idx % 12}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceServer",
            "TraceServer.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
