"""C20: peers that are programs of their own."""

import asyncio
from contextvars import ContextVar
import logging
import os
import sys
from unittest import mock

from vp.core import Check
from vp.loop import run as loop_run

SIDE = ContextVar("side", default="")
STEP = 1.3
LAST = 6.0
CHANNELS = ["n", "x", "b", "f"]
SIZES = [[65536, 65536], [7, 5], [64, 3], [9, 64], [1024, 13]]


class Link:
    """Bytes on their way through a pipe."""

    def __init__(self, loop, size, sink):
        self.loop = loop
        self.size = size
        self.sink = sink
        self.held = False
        self.closed = False
        self.waiting = bytearray()
        self.ended = None

    def write(self, data):
        """Bytes enter the pipe."""
        if self.closed:
            return len(data)
        self.waiting += data
        self.pump()
        return len(data)

    def flush(self):
        """Nothing is ever buffered before the pipe."""

    def end(self, how):
        """No more bytes are going to enter the pipe."""
        self.ended = how
        self.pump()

    def pump(self):
        """Bytes leave the pipe."""
        if self.held:
            return
        while self.waiting:
            piece = bytes(self.waiting[: self.size])
            del self.waiting[: self.size]
            self.loop.call_soon(self.sink, piece)
        if self.ended is not None:
            how, self.ended = self.ended, None
            self.loop.call_soon(how)


class Stdin:
    """What a program reads from."""

    def __init__(self, null):
        self.data = bytearray()
        self.eof = False
        self.null = null

    def fileno(self):
        """A file which may be set to anything."""
        return self.null

    def put(self, data):
        """Bytes arrived."""
        self.data += data

    def end(self):
        """No more bytes are coming."""
        self.eof = True

    def read(self, size=-1):
        """Read like from a file that doesn't block."""
        if not self.data:
            return b"" if self.eof else None
        size = len(self.data) if size is None or size < 0 else size
        out = bytes(self.data[:size])
        del self.data[:size]
        return out


class Writer:
    """The writing end of a program's standard input."""

    def __init__(self, link, end):
        self.link = link
        self.end = end
        self.closed = False

    def write(self, data):
        """Write."""
        if not self.closed:
            self.link.write(bytes(data))

    def can_write_eof(self):
        """The end can be told."""
        return True

    def write_eof(self):
        """Tell the end."""
        if not self.closed:
            self.closed = True
            self.link.end(self.end)

    def close(self):
        """Close."""
        self.write_eof()


class Transport:
    """A process, as seen by asyncio's protocols."""

    def __init__(self, stdin, killed):
        self.stdin = stdin
        self.killed = killed
        self.code = None

    def get_pid(self):
        """An identifier."""
        return 4242

    def get_returncode(self):
        """An exit status."""
        return self.code

    def get_extra_info(self, name, default=None):
        """More information."""
        del name
        return default

    def get_pipe_transport(self, fd):
        """A pipe."""
        return self.stdin if fd == 0 else None

    def is_closing(self):
        """Determine if it ended."""
        return self.code is not None

    def close(self):
        """End the process."""
        if self.code is None:
            self.killed()

    kill = close
    terminate = close


class Records(logging.Handler):
    """Collects what is logged."""

    def __init__(self):
        super().__init__(1)
        self.got = []

    def emit(self, record):
        text = record.getMessage()
        if text.startswith("remote: "):
            text = text[8:]
        if text.startswith("tok-"):
            tok = int(text[4:])
            good = record.levelno == [10, 20, 30, 40][tok % 4]
            self.got.append(tok if good else f"{tok}@{record.levelno}")

    def take(self):
        """What was logged since."""
        out, self.got = self.got, []
        return out


def say(logger, tok):
    """Log something."""
    level = [10, 20, 30, 40][tok % 4]
    if tok % 3 == 0:
        logger.log(level, "tok-%d", tok)
    elif tok % 3 == 1:
        logger.log(level, "tok-%s", str(tok))
    else:
        logger.log(level, f"tok-{tok}")


def text_of(op, style):
    """A command's text."""
    words = [op["o"], op["c"]]
    if op["o"] == "set":
        words.append(str(op["v"]) if op["v"] < 500 else "abc")
    if op["f"]:
        words.insert(style % 2, ["-f", "--force"][style // 2 % 2])
        if words[0] != op["o"] and style % 3 == 0:
            words = [op["o"], words[0], *words[2:]]
    return " ".join(words)


def execute(cfg, ops):
    """Run a scenario on the real code."""

    from runtimepy.channel.environment.command import clear_env

    null = os.open("/dev/null", os.O_RDONLY)
    root = logging.getLogger()
    handlers = list(root.handlers)
    level = root.level
    try:
        logging.disable(logging.NOTSET)
        root.setLevel(logging.DEBUG)
        for item in handlers:
            root.removeHandler(item)
        root.addHandler(logging.NullHandler())
        clear_env()
        return loop_run(_execute(cfg, ops, null))
    finally:
        clear_env()
        for item in list(root.handlers):
            root.removeHandler(item)
        for item in handlers:
            root.addHandler(item)
        root.setLevel(level)
        os.close(null)


async def _execute(cfg, ops, null):
    """A program and the one that started it."""

    from runtimepy.net.arbiter.info import RuntimeStruct
    from runtimepy.primitives import Bool, Uint8
    from runtimepy.primitives.field import BitFlag
    from runtimepy.subprocess.peer import RuntimepyPeer
    from runtimepy.subprocess.program import PeerProgram

    loop = asyncio.get_running_loop()
    loop.set_exception_handler(lambda _, __: None)
    style = cfg.get("style", 0)
    sizes = SIZES[style % len(SIZES)] if style != 17 else [1, 1]
    polls = {"h": 0, "p": 0}
    results = {"h": [], "p": []}
    state = {
        "up": False,
        "done": False,
        "clean": 0,
        "killed": False,
        "dead": False,
    }
    tasks = []

    class Struct(RuntimeStruct):
        """Channels of either side."""

        def init_env(self):
            env = self.env
            env.int_channel("n", Uint8(), commandable=True)
            env.int_channel("x", Uint8())
            env.bool_channel("b", Bool(), commandable=True)
            env.add_field(BitFlag("f", Uint8(), 0, commandable=True))

        def poll(self):
            polls[self.name[0]] += 1

    class Results:
        """Notes what came of commands."""

        async def channel_command(self, *args, **kwargs):
            """Issue a command to the other side."""
            which = self.basename[0]
            try:
                out = await super().channel_command(*args, **kwargs)
            except AssertionError:
                results[which].append(2)
                raise
            results[which].append(1 if out.success else 0)
            return out

    class Host(Results, RuntimepyPeer):
        """The one that starts the program."""

        struct_type = Struct

    class Prog(Results, PeerProgram):
        """The program."""

        struct_type = Struct

        async def main(self, argv):
            waiting = [
                asyncio.ensure_future(self.got_eof.wait()),
                asyncio.ensure_future(crash.wait()),
            ]
            try:
                await asyncio.wait(waiting, return_when="FIRST_COMPLETED")
            finally:
                for item in waiting:
                    item.cancel()
            if crash.is_set():
                raise ValueError("the program fails")

        def pre_environment_exchange(self):
            logging.getLogger("p.host").setLevel(1)
            self.list_handler.addFilter(lambda x: x.name == "program")
            if cfg["early"]:
                with self.streaming_events():
                    self.struct.env.set("n", 77)
                    self.struct.env.set("b", True)

        async def cleanup(self):
            # (What's gone doesn't do anything anymore.)
            if not state["dead"]:
                state["clean"] += 1

    Prog._singleton = None
    crash = asyncio.Event()
    proto = {}
    stdin = Stdin(null)

    def exited(code):
        """The process is gone."""

        def tell():
            proto["it"].process_exited()

        trans = proto["transport"]
        if trans.code is None:
            trans.code = code
            for fd, link in ((1, out), (2, err)):
                link.end(
                    lambda fd=fd: proto["it"].pipe_connection_lost(fd, None)
                )
            loop.call_soon(tell)

    def end():
        """Nothing of the program remains."""
        state["up"] = False
        state["dead"] = True
        for link in (out, err):
            link.closed = True
        into.sink = lambda data: None
        for task in asyncio.all_tasks():
            if task.get_context().get(SIDE) == "p":
                task.cancel()

    def kill():
        state["killed"] = True
        end()
        exited(-9)

    links = {}
    out = links["out"] = Link(
        loop, sizes[0], lambda x: proto["it"].pipe_data_received(1, x)
    )
    err = links["err"] = Link(
        loop, sizes[1], lambda x: proto["it"].pipe_data_received(2, x)
    )
    into = links["in"] = Link(loop, 65536, stdin.put)
    program = []
    prog = []
    host = []

    async def process():
        """The program's process."""

        SIDE.set("p")
        fake = mock.Mock()
        fake.buffer = stdin
        outs = [mock.Mock(), mock.Mock()]
        outs[0].buffer = out
        outs[1].buffer = err
        with mock.patch.object(sys, "stdin", fake):
            with mock.patch.object(sys, "stdout", outs[0]):
                with mock.patch.object(sys, "stderr", outs[1]):
                    running = asyncio.ensure_future(lifetime())
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                    prog.append(Prog.singleton())
        failed = False
        try:
            await running
        except ValueError:
            failed = True
        state["up"] = False
        state["done"] = True
        exited(1 if failed else 0)

    async def lifetime():
        """The program's life."""
        async with Prog.running("p", {"side": "p"}, ["prog"]) as it:
            io_task, main_task, _ = it
            state["up"] = True
            await main_task
            await io_task

    async def subprocess_exec(factory, *args, **kwargs):
        """Start a process."""

        del args, kwargs
        it = proto["it"] = factory()
        trans = proto["transport"] = Transport(
            Writer(into, lambda: stdin.end()), kill
        )
        it.connection_made(trans)
        program.append(asyncio.ensure_future(process()))
        for _ in range(style % 7):
            await asyncio.sleep(0)
        return trans, it

    loop.subprocess_exec = subprocess_exec
    loop.subprocess_shell = subprocess_exec

    heard = {"h": Records(), "p": Records()}
    seen = {x: [] for x in CHANNELS}
    finish = asyncio.Event()
    hosting = []

    class Watched(Host):
        """A host whose view of the program's channels is watched."""

        def _set_peer_env(self, data):
            res = super()._set_peer_env(data)
            if res:
                for name in CHANNELS:
                    watch(self.peer.env, name)
            return res

    def raw(env, name):
        """What holds a channel's value."""
        chan = env.field_or_channel(name)
        return chan.raw

    def value(env, name):
        """A channel's value, as a number."""
        out = env.value(name)
        return int(out) if not isinstance(out, str) else out

    def watch(env, name):
        """Note a channel's changes."""
        if name == "f":
            field = env.fields["f"]

            def changed(_, __):
                now = int(field())
                if not seen["f"] or seen["f"][-1] != now:
                    seen["f"].append(now)

            field.raw.register_callback(changed)
        else:
            raw(env, name).register_callback(
                lambda _, new: seen[name].append(int(new))
            )

    for which, names in (("h", ["h.host", "h.peer"]), ("p", ["p.host", "p.peer"])):
        for name in names:
            logger = logging.getLogger(name)
            logger.setLevel(1)
            logger.propagate = False
            logger.handlers = [heard[which]]
    logging.getLogger("program").setLevel(1)

    async def hosted():
        """The one that starts the program."""
        async with Watched.exec("h", {"side": "h"}, "prog") as inst:
            host.append(inst)
            state["entered"] = True
            await finish.wait()

    orig = Watched.__init__

    def made(self, *args, **kwargs):
        orig(self, *args, **kwargs)
        # (The host's own log level applies until it knows the program.)
        logging.getLogger("h.host").setLevel(1)
        made.inst = self

    Watched.__init__ = made

    def take(items):
        """What was collected since."""
        out = list(items)
        items.clear()
        return out

    def observe():
        """What can be seen."""
        inst = getattr(made, "inst", None)
        peer = inst.peer if inst is not None else None
        near = prog[0] if prog else None
        far = near.peer if near is not None else None
        trans = proto.get("transport")
        return {
            "up": [
                state.get("entered", False),
                peer is not None,
                far is not None,
                state["up"],
            ],
            "end": [
                state["done"],
                state["clean"],
                state["killed"],
                trans is not None and proto["it"].exited.is_set(),
                remains() if state["done"] else 0,
            ],
            "val": [value(near.struct.env, x) for x in CHANNELS]
            if near is not None
            else [],
            "hval": [value(inst.struct.env, x) for x in CHANNELS]
            if inst is not None
            else [0] * 4,
            "mir": [value(peer.env, x) for x in CHANNELS]
            if peer is not None
            else [],
            "far": [value(far.env, x) for x in CHANNELS]
            if far is not None
            else [],
            "seen": [take(seen[x]) for x in CHANNELS],
            "logs": [heard["h"].take(), heard["p"].take()],
            "res": []
            if finish.is_set()
            else [take(results["h"]), take(results["p"])],
            "polls": [polls["h"], polls["p"]],
            "cfg": [
                conf(inst.peer_config if inst is not None else None),
                [fate(x) for x in tasks]
                if state["up"] and not finish.is_set()
                else [],
            ],
        }

    def remains():
        """What an ended program left behind."""
        return (prog[0].list_handler in logging.getLogger().handlers) + len(
            [x for x in asyncio.all_tasks() if x.get_context().get(SIDE) == "p"]
        )

    def conf(data):
        """A configuration."""
        return 0 if data is None else data.get("v", -1)

    def fate(task):
        """What became of a task."""
        if not task.done():
            return 0
        if task.exception() is None:
            return 1
        return 2 if isinstance(task.exception(), AssertionError) else 3

    events = []
    for op in ops:
        kind = op["k"]
        inst = getattr(made, "inst", None)
        if kind == "start":
            hosting.append(asyncio.ensure_future(hosted()))
        elif kind == "hold":
            links[op["p"]].held = True
        elif kind == "free":
            links[op["p"]].held = False
            links[op["p"]].pump()
        elif kind == "pset":
            prog[0].struct.env.set(op["c"], op["v"])
        elif kind == "hset":
            inst.struct.env.set(op["c"], op["v"])
        elif kind in ("cmd", "pcmd"):
            side = inst if kind == "cmd" else prog[0]
            side.peer.command(text_of(op, style))
        elif kind == "log":
            say(logging.getLogger("program"), op["t"])
        elif kind == "hlog":
            inst.stage_remote_log(
                "tok-%d", op["t"], level=[10, 20, 30, 40][op["t"] % 4]
            )
        elif kind == "share":
            tasks.append(
                asyncio.ensure_future(prog[0].share_config({"config": {"v": op["v"]}}))
            )
        elif kind == "poll":
            (inst if op["s"] == "h" else prog[0]).send_poll(op["v"])
        elif kind == "die":
            end()
            exited(1)
        elif kind == "fail":
            crash.set()
        elif kind == "close":
            finish.set()
        await asyncio.sleep(LAST if kind == "close" else STEP)
        events.append({"op": op, "obs": observe()})

    for task in [*hosting, *program, *tasks]:
        task.cancel()
    await asyncio.gather(
        *hosting, *program, *tasks, return_exceptions=True
    )
    Prog._singleton = None
    return events


class Rest(logging.Handler):
    """Collects what was said about what nobody read."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, record):
        nums = [x for x in record.args if isinstance(x, int)]
        if nums:
            text = record.getMessage()
            which = "stderr" if "stderr" in text else "stdout"
            self.got.append([which, nums[0]])


def spawn(cfg, ops):
    """Run a scenario of one process."""

    return loop_run(_spawn(cfg, ops))


async def _spawn(cfg, ops):
    """Start a process and see what it does."""

    from runtimepy.subprocess import spawn_exec, spawn_shell

    logging.disable(logging.NOTSET)
    loop = asyncio.get_running_loop()
    loop.set_exception_handler(lambda _, exc: raised.append(str(exc)))
    raised = []
    style = cfg.get("style", 0)
    queues = [
        asyncio.Queue() if cfg["out"] else None,
        asyncio.Queue() if cfg["err"] else None,
    ]
    rest = Rest()
    logger = logging.getLogger("spawn")
    logger.setLevel(1)
    logger.propagate = False
    logger.handlers = [rest]
    proto = {}
    react = {"it": "eof"}
    count = {"eof": 0, "killed": 0}
    sent = []
    state = {"left": False, "raised": False, "ready": False}
    leave = asyncio.Event()
    body_raises = []

    def exit_(code):
        """The process exits."""
        if proto["transport"].code is None:
            proto["transport"].code = code
            proto["it"].process_exited()

    def killed():
        """The process is ended."""
        count["killed"] += 1
        proto["transport"].code = -1
        proto["transport"].code = None
        loop.call_later(0.01 * (style % 4), exit_, 99)

    def ended():
        """The process' input ended."""
        count["eof"] += 1
        if react["it"] == "eof":
            loop.call_soon(exit_, 0)
        elif react["it"] == "slow":
            loop.call_later(1.0, exit_, 0)

    class In:
        """Input of the process."""

        def __init__(self):
            self.held = False

        def write(self, data):
            """Write."""
            sent.append(len(data))

        def end(self, how):
            """End."""
            how()

    def happen(what, fd, num):
        """Something about the process happens."""
        if what == "data":
            proto["it"].pipe_data_received(fd, bytes([65 + fd]) * num)
        elif what == "lost":
            proto["it"].pipe_connection_lost(fd, None)
        else:
            exit_(num)

    def starter(early):
        """A stand-in for starting processes."""

        async def start(factory, *args, **kwargs):
            """Start a process."""
            del args, kwargs
            proto["it"] = factory()
            proto["transport"] = Transport(Writer(In(), ended), killed)
            proto["it"].connection_made(proto["transport"])
            for item in early:
                if style % 2:
                    await asyncio.sleep(0)
                happen(*item)
            if style % 3:
                await asyncio.sleep(0)
            return proto["transport"], proto["it"]

        return start

    async def body(how):
        """Start a process and stay until told to leave."""
        func = spawn_exec if how == "exec" else spawn_shell
        async with func(
            "program", stdout=queues[0], stderr=queues[1], logger=logger
        ) as it:
            state["ready"] = it is proto["it"]
            await leave.wait()
            if body_raises:
                raise ValueError("leaving")

    def content(queue):
        """What waits in a queue."""
        # pylint: disable=protected-access
        return [] if queue is None else [len(x) for x in queue._queue]

    task = None
    events = []
    for op in ops:
        kind = op["k"]
        got = []
        if kind == "start":
            loop.subprocess_exec = starter(op["early"])
            loop.subprocess_shell = starter(op["early"])
            task = asyncio.ensure_future(body(op["how"]))
            await asyncio.sleep(0.1)
            if task.done():
                task.result()
        elif kind in ("data", "lost", "exit"):
            happen(kind, op["fd"], op["n"])
        elif kind == "take":
            queue = queues[op["fd"] - 1]
            if not queue.empty():
                got = [len(queue.get_nowait())]
        elif kind == "send":
            proto["it"].stdin.write(b"x" * op["n"])
        elif kind == "leave":
            react["it"] = op["react"]
            if op["how"] == "raise":
                body_raises.append(True)
            if op["how"] == "cancel":
                task.cancel()
            leave.set()
            await asyncio.wait([task], timeout=20)
            state["left"] = task.done()
            state["raised"] = task.done() and (
                task.cancelled()
                if op["how"] == "cancel"
                else isinstance(task.exception(), ValueError)
            )
        it = proto["it"]
        code = proto["transport"].code
        events.append(
            {
                "op": op,
                "obs": {
                    "q": [content(x) for x in queues],
                    "got": got,
                    "ps": [
                        it.exited.is_set() and (it.elapsed_time >= 0),
                        code or 0,
                    ],
                    "sent": list(sent),
                    "stop": [count["eof"], count["killed"]],
                    "left": [state["left"], state["raised"], *raised],
                    "rest": list(rest.got),
                },
            }
        )
    if task is not None and not task.done():
        exit_(0)
        leave.set()
        await asyncio.wait([task], timeout=20)
    return events


MC_SPAWN = """
CONSTANTS MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS NoOrphan Polite
CHECK_DEADLOCK FALSE
"""


MC = """
CONSTANTS MaxOps = {ops}
 Cfgs <- ConstCfgs
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Report2
INVARIANTS Done Faithful Responsive Ordered Ends
CHECK_DEADLOCK FALSE
"""


def random_scenario(rng, length):
    """Anything that may happen."""

    ops = []
    held = set()
    tok = 0

    def calm(both):
        """Things to do at any time."""
        nonlocal tok
        tok += 1
        roll = rng.random()
        if roll < 0.3:
            chan = rng.choice(CHANNELS)
            top = 255 if chan in "nx" else 1
            val = rng.choice([0, 1, top, rng.randint(0, top)])
            return {"k": "pset", "c": chan, "v": val}
        if roll < 0.42:
            return {"k": "log", "t": tok}
        if roll < 0.5:
            return {"k": "hlog", "t": tok}
        if roll < 0.54:
            return {"k": "hset", "c": "n", "v": rng.randint(0, 255)}
        if roll < 0.8 or (roll < 0.86 and both):
            kind = "cmd" if roll < 0.8 else "pcmd"
            return {
                "k": kind,
                "o": rng.choice(["set", "set", "toggle"]),
                "c": rng.choice([*CHANNELS, "n", "zz"]),
                "v": rng.choice([0, 1, 9, 255, 256, 500, rng.randint(0, 300)]),
                "f": rng.random() < 0.4,
            }
        if roll < 0.93:
            return {"k": "share", "v": tok}
        return {"k": "poll", "s": rng.choice("hp"), "v": rng.randint(0, 4)}

    early = rng.random() < 0.4
    if rng.random() < 0.5:
        first = [x for x in ["err"] if rng.random() < 0.5]
        first += [x for x in [rng.choice(["in", "out"])] if rng.random() < 0.7]
        for pipe in first:
            ops.append({"k": "hold", "p": pipe})
        ops.append({"k": "start"})
        if first and first[-1] != "err":
            if rng.random() < 0.5:
                while True:
                    op = calm(False)
                    if op["k"] in ("pset", "log", "hlog", "hset"):
                        ops.append(op)
                        break
            ops.append({"k": "free", "p": first.pop()})
        held = set(first)
    else:
        ops.append({"k": "start"})
    blocked = 0
    for _ in range(length):
        roll = rng.random()
        pipes = held & {"in", "out"}
        last = False
        if blocked >= 4 and len(pipes) == 1:
            op = {"k": "free", "p": list(pipes)[0]}
        elif roll < 0.12 and len(held) < 3:
            free = sorted({"in", "out", "err"} - held)
            if pipes and blocked >= 2:
                free = [x for x in free if x == "err"]
            if not free:
                continue
            op = {"k": "hold", "p": rng.choice(free)}
        elif held and (roll < 0.3 or (len(pipes) == 2 and blocked >= 2)):
            choice = sorted(pipes if len(pipes) == 2 else held)
            op = {"k": "free", "p": rng.choice(choice)}
        elif roll > 0.99:
            op = {"k": rng.choice(["die", "fail", "close"])}
            last = True
        else:
            op = calm(not pipes)
        if op["k"] == "hold":
            held.add(op["p"])
        elif op["k"] == "free":
            held.discard(op["p"])
        ops.append(op)
        blocked = blocked + 1 if held & {"in", "out"} else 0
        if last:
            break
    if ops[-1]["k"] in ("die", "fail") and rng.random() < 0.5:
        if held:
            ops.append({"k": "free", "p": sorted(held)[0]})
        else:
            ops.append({"k": "hlog", "t": 200})
    if ops[-1]["k"] != "close" and rng.random() < 0.7:
        ops.append({"k": "close"})
    return {"early": early}, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCPeer",
        MC.format(ops=check.pick(3, 4)),
        need=["hold", "free", "pset", "cmd", "close"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(1000, 15000)]):
        i = scn[0]["i"]
        start = [{"k": "start"}] if i <= 2 else []
        cfg = {"early": i in (2, 4), "style": idx % 35}
        jobs.append((cfg, start + scn[1:]))
    for idx in range(check.pick(300, 5000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(5, 40))
        jobs.append(({**cfg, "style": idx % 35}, ops))
    traces = check.execute(execute, jobs, chunk=8)
    for start in range(0, len(traces), 10000):
        check.validate(
            "TracePeer",
            "TracePeer.cfg",
            traces[start : start + 10000],
            timeout=1500,
        )

    jobs = []
    scns = check.explore(
        "MCSpawn",
        MC_SPAWN.format(ops=check.pick(4, 6)),
        need=["data", "take", "leave"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(6000, 60000)]):
        i = scn[0]["i"]
        cfg = {"out": i in (1, 2), "err": i in (1, 3), "style": idx % 12}
        if scn[1:]:
            jobs.append((cfg, scn[1:]))
    traces = check.execute(spawn, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceSpawn",
            "TraceSpawn.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
