"""C15: TFTP."""

import asyncio
import logging
from pathlib import Path
import shutil
import struct
import tempfile

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle
from vp.nets import FakeTransport

BLOCK = 512
CLIENT = ("127.0.0.1", 5500)
PORTS = {69: 0, 5001: 1, 5002: 2}
ADDRS = {
    0: ("127.0.0.1", 69),
    1: ("127.0.0.1", 5001),
    2: ("127.0.0.1", 5002),
    3: ("10.9.9.9", 69),
}
GARBAGE = [
    b"",
    b"\x00",
    b"\x00\x01name",
    b"\x00\x02",
    b"\x00\x01\xff\xfe\x00octet\x00",
    b"\x00\x04",
    b"\x00\x03\x01",
    b"\x00\x05\x00\x63what\x00",
    b"\x00\x05\x00",
]


def block(num):
    """The bytes of a block."""
    if num == 0:
        return b""
    fill = struct.pack(">H", num)
    if num % 10 == 2:
        return fill * (BLOCK // 2)
    return fill * (1 + num % 255) + b"\n"


BLOCKS = {
    block(x): x
    for x in [0]
    + [a * 100 + b * 10 + c for a in range(1, 10) for b in range(1, 9) for c in (1, 2)]
}


def content(data):
    """The blocks of some content."""
    out = []
    while data:
        out.append(BLOCKS.get(data[:BLOCK], -9))
        data = data[BLOCK:]
    return out


def execute(cfg, ops):
    """Run a scenario on the real code."""
    logging.disable(logging.CRITICAL)
    base = "/dev/shm" if Path("/dev/shm").is_dir() else None
    root = Path(tempfile.mkdtemp(prefix="vp-tftp-", dir=base))
    try:
        return loop_run(_execute(cfg, ops, root))
    finally:
        shutil.rmtree(str(root))


def parse(data):
    """What a message says."""
    code, rest = struct.unpack(">H", data[:2])[0], data[2:]
    if code in (1, 2):
        name, mode, end = rest.split(b"\x00")
        if mode != b"octet" or end:
            return [code, -9, 0]
        return [code, int(name.decode().rpartition("n")[2]), 0]
    num = struct.unpack(">H", rest[:2])[0]
    if code == 3:
        return [3, num, BLOCKS.get(rest[2:], -9)]
    if code == 4:
        return [4, num, 0 if len(rest) == 2 else -9]
    return [code, num, 0 if rest[-1:] == b"\x00" else -9]


async def _execute(cfg, ops, root):
    from runtimepy.net.udp.protocol import UdpQueueProtocol
    from runtimepy.net.udp.tftp import TftpConnection

    loop = asyncio.get_running_loop()
    style = cfg["style"]
    theirs, ours = root / "server", root / "client"
    theirs.mkdir()
    ours.mkdir()

    def name(num):
        """A name on the server."""
        kind = cfg["fs"][num - 1]
        if kind == [-2] and style % 4:
            return ["", "missing/", "l" * 300, "l" * 30 + "/"][
                style % 4
            ] + f"n{num}"
        return f"n{num}" if style % 3 else f"\u00e9 n{num}"

    for num, what in enumerate(cfg["fs"], 1):
        if what == [-2]:
            if not style % 4:
                (theirs / name(num)).mkdir()
        elif what != [-1]:
            (theirs / name(num)).write_bytes(b"".join(map(block, what)))
    for num, what in enumerate(cfg["src"], 1):
        (ours / f"src{num}").write_bytes(b"".join(map(block, what)))

    nets = {"c2s": [], "s2c": []}
    new = {"c2s": [], "s2c": []}
    outs = {"c2s": [], "s2c": []}
    errs, res = [], []
    quiet = False
    bursts = {}

    def client_sent(data, addr):
        port = 0
        if addr is not None:
            port = PORTS[addr[1]] if addr[0] == "127.0.0.1" else 3
        msg = parse(data)
        outs["c2s"].append(msg + [port])
        if port <= 1:
            new["c2s"].append((msg + [port], data))

    def server_sent(data, addr):
        msg = parse(data)
        if addr is not None and (addr[0], addr[1]) != CLIENT:
            port = PORTS[addr[1]] if addr[0] == "127.0.0.1" else 3
            outs["s2c"].append(msg + [port])
            return
        # Dallying ends a quarter of a second after it began, what's sent
        # just then may be or not.
        now = loop.time()
        if msg[0] == 4:
            if msg[1] == 0:
                bursts.clear()
            if abs(now - bursts.setdefault(msg[1], now) - 0.25) < 1e-6:
                return
        outs["s2c"].append(msg + [cfg["tid"]])
        new["s2c"].append((msg + [cfg["tid"]], data))

    def make(sent, remote, who):
        transport = FakeTransport(
            local=CLIENT if who == 1 else ADDRS[0], remote=remote
        )
        transport.on_write = sent
        conn = TftpConnection(transport, UdpQueueProtocol())
        conn.endpoint_period.value = cfg["p"] / 100
        conn.endpoint_timeout.value = cfg["t"] / 100
        conn.error_handlers.append(
            lambda code, _, __: errs.append([who, code.value])
        )
        return conn

    client = make(client_sent, ADDRS[0], 1)
    server = make(server_sent, None, 2)
    client.set_root(ours)
    server.set_root(theirs)

    def dest(num):
        path = ours / f"dst{num}"
        return content(path.read_bytes()) if path.exists() else [-1]

    tasks = []

    async def ask(op, ident):
        if op["k"] == "read":
            good = await client.request_read(
                ours / f"dst{op['d']}", name(op["n"])
            )
            res.append([ident, 1, int(good)] + dest(op["d"]))
        else:
            good = await client.request_write(
                ours / f"src{op['f']}", name(op["n"]), verify=op["ver"]
            )
            res.append([ident, 0, int(good)])

    async def deliver(way, data, port):
        if way == "c2s":
            src = CLIENT if port < 2 else ADDRS[port]
            await server.process_datagram(data, src)
        else:
            await client.process_datagram(data, ADDRS[port])

    events = []
    for op in ops:
        op = dict(op)
        what = op["k"]
        if what in ("dlv", "drop"):
            net = nets[op["dir"]]
            if "r" in op:
                if not net:
                    continue
                op["i"] = op.pop("r") % len(net) + 1
            if op["i"] > len(net):
                break
            msg, data = net[op["i"] - 1]
            if what == "drop" or not op["dup"]:
                net.pop(op["i"] - 1)
            if what == "dlv":
                await deliver(op["dir"], data, msg[3])
        elif what in ("read", "write"):
            tasks.append(asyncio.create_task(ask(op, len(tasks) + 1)))
        elif what == "wait":
            await asyncio.sleep(op["d"] / 100)
        elif what == "alien":
            body = struct.pack(">HH", op["m"], op["b"])
            if op["m"] == 3:
                body += block(911)
            elif op["m"] == 0:
                body = struct.pack(">H", [0, 6, 99, 65535][style % 4])
            elif op["m"] == 9:
                body = GARBAGE[style % len(GARBAGE)]
            await deliver(op["dir"], body, op["p"])
        elif what == "quiet":
            quiet = True
            await asyncio.sleep(60)
        await settle()
        if quiet:
            for item in (nets, new, outs):
                for value in item.values():
                    value.clear()
            quiet = False
        for way, value in new.items():
            nets[way] += sorted(value)
            value.clear()
        files = []
        if what == "quiet":
            for num, kind in enumerate(cfg["fs"], 1):
                path = theirs / name(num)
                files.append(
                    kind
                    if kind == [-2]
                    else content(path.read_bytes()) if path.exists() else [-1]
                )
        events.append(
            {
                "op": op,
                "obs": {
                    "outc": sorted(outs["c2s"]),
                    "outs": sorted(outs["s2c"]),
                    "errs": list(errs),
                    "res": list(res),
                    "nc": len(nets["c2s"]),
                    "ns": len(nets["s2c"]),
                    "fs": files,
                },
            }
        )
        for item in (outs["c2s"], outs["s2c"], errs, res):
            item.clear()
        for task in tasks:
            if task.done():
                task.result()
    # Nothing is left behind.
    for task in tasks + list(client.tasks) + list(server.tasks):
        task.cancel()
    return events


MC = """
CONSTANTS MaxOps = {ops}
 Net = {net}
 Cfgs <- ConstCfgs
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
PROPERTY Safe
CHECK_DEADLOCK FALSE
"""


def conf(period, timeout, tid, src, files):
    """A configuration."""
    return {"p": period, "t": timeout, "tid": tid, "src": src, "fs": files}


CFGS = [
    conf(20, 50, 0, [], [[112, 121], [211]]),
    conf(20, 30, 1, [[311]], [[], [-2]]),
    conf(20, 30, 0, [[312], []], [[-1]]),
]
QUIET = {"k": "quiet"}


def _read(name, dest):
    return {"k": "read", "n": name, "f": 0, "d": dest, "ver": False}


def _deliver(way):
    return {"k": "dlv", "dir": way, "i": 1, "dup": False}


# The known finding: a block of a file that's sent again is taken for the
# first one of the next file.
STALE = [
    _read(2, 1),
    _deliver("c2s"),
    _deliver("s2c"),
    {"k": "wait", "d": 1},
    {"k": "wait", "d": 19},
    _read(1, 2),
    _deliver("s2c"),
    {"k": "wait", "d": 1},
    QUIET,
]


def random_file(rng, num):
    """Some content."""
    full = rng.choice([0, 0, 1, 1, 2, 5])
    out = [num * 100 + (x + 1) * 10 + 2 for x in range(full)]
    if rng.random() < 0.7:
        out.append(num * 100 + (full + 1) * 10 + 1)
    return out


def random_scenario(rng, length):
    """A random configuration and history."""

    files = []
    for num in range(1, rng.randint(1, 4) + 1):
        roll = rng.random()
        files.append(
            [-1]
            if roll < 0.2
            else [-2] if roll < 0.3 else random_file(rng, num)
        )
    src = [random_file(rng, 5 + x) for x in range(rng.randint(0, 3))]
    period, timeout = rng.choice([(20, 50), (20, 30), (30, 70), (30, 100)])
    cfg = conf(period, timeout, rng.randint(0, 1), src, files)
    # How reliable the network is.
    loss = rng.choice([0, 0, 0.1, 0.3])
    dup = rng.choice([0, 0, 0.1])
    fifo = rng.random() < 0.6
    alien = rng.choice([0, 0, 0.05])
    ask = rng.choice([0.03, 0.1])
    slow = rng.choice([0.1, 0.3, 0.5])
    waits = [1, 3, 5, 7, 11, 20]
    if rng.random() < 0.3:
        # Transfers that time out halfway, and what arrives late.
        cfg["p"], cfg["t"] = 20, 30
        waits, slow, ask, fifo = [1, 11, 20], 0.35, 0.12, False
        cfg["src"], src = [], []
        for num, item in enumerate(files, 1):
            if len(item) < 2:
                item[:] = [num * 100 + 12, num * 100 + 21]
    ops = []
    asked = 0
    for _ in range(length):
        roll = rng.random()
        if (roll < ask or not ops) and asked < 8:
            asked += 1
            if src and rng.random() < 0.5:
                ops.append(
                    {
                        "k": "write",
                        "n": rng.randint(1, len(files)),
                        "f": rng.randint(1, len(src)),
                        "d": 0,
                        "ver": rng.random() < 0.5,
                    }
                )
            else:
                ops.append(
                    {
                        "k": "read",
                        "n": rng.randint(1, len(files)),
                        "f": 0,
                        "d": rng.randint(1, 2),
                        "ver": False,
                    }
                )
        elif roll < ask + alien:
            way = rng.choice(["c2s", "s2c"])
            kinds = [0, 3, 4, 9] if way == "c2s" else [0, 3, 4, 9]
            ops.append(
                {
                    "k": "alien",
                    "dir": way,
                    "m": rng.choice(kinds),
                    "b": rng.randint(0, 3),
                    "p": rng.choice([2, 3, 3]),
                }
            )
        elif rng.random() < slow:
            ops.append({"k": "wait", "d": rng.choice(waits)})
        else:
            spot = 0 if fifo else rng.randint(0, 5)
            way = rng.choice(["c2s", "s2c"])
            if rng.random() < loss:
                ops.append({"k": "drop", "dir": way, "r": spot})
            else:
                ops.append(
                    {
                        "k": "dlv",
                        "dir": way,
                        "r": spot,
                        "dup": rng.random() < dup,
                    }
                )
    ops.append(QUIET)
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCTftp",
        MC.format(ops=check.pick(6, 8), net=check.pick(2, 3)),
        need=["read", "write", "dlv", "drop", "wait", "alien"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(6000, 80000)]):
        jobs.append(
            ({**CFGS[scn[0]["i"] - 1], "style": idx % 36}, scn[1:] + [QUIET])
        )
    jobs.append(({**CFGS[0], "style": 0}, STALE))
    for idx in range(check.pick(4000, 40000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(10, 120))
        jobs.append(({**cfg, "style": idx % 36}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceTftp",
            "TraceTftp.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
