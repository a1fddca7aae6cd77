"""C04: JSON messaging."""

import asyncio
import json
import logging
import re
import struct

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle

UNIT = 0.25
NONE = {
    "id": 0,
    "lb": 0,
    "poll": 0,
    "ch": 0,
    "chr": 0,
    "meta": 0,
    "cc": 0,
    "bad": 0,
    "ign": 0,
    "logs": [],
}
META = {"package": "p", "version": "1", "kind": "k", "handlers": []}
DEFAULT_LB = {"a": 1, "b": 2, "c": 3}
GARBAGE = [b"{bad", b"[1,2]", b"5", b'"x"', b"null", b"{}", b"\xff\xfe", b""]
IGNORED = {
    (): 0,
    ("zz",): 1,
    ("aa", "zz"): 2,
    ("ch_{name}",): 10,
    ("ch_{name}", "zz"): 11,
    ("aa", "ch_{name}", "zz"): 12,
}
BAD = {1: {"zz": 1}, 2: {"zz": 1, "aa": {"b": 2}}}


def log_record(tok):
    """Message dictionary of a log token."""

    out = {"msg": said(tok), "level": [10, 20, 30, 40][tok % 4]}
    if tok % 2:
        out = {
            "msg": "tok-%d",
            "level": [10, 20, 30, 40][tok % 4],
            "args": [tok],
        }
    return out


def body(msg, idents=None):
    """JSON data of a model message."""

    out = {}
    if msg["id"]:
        out["__id__"] = idents.get(msg["id"], msg["id"])
    if msg["bad"]:
        out.update(BAD[msg["bad"]])
    if msg["lb"]:
        out["loopback"] = {1: {}, 2: dict(DEFAULT_LB)}.get(
            msg["lb"], {"v": msg["lb"]}
        )
    if msg["poll"]:
        out["poll"] = {"loopback": msg["poll"] - 1}
        if msg["poll"] == 1 and msg["lb"]:
            out["poll"] = {}
    if msg["ch"]:
        out["ch_x"] = {"v": msg["ch"]}
    if msg["meta"]:
        out["meta"] = META
    if msg["cc"]:
        out["channel_command"] = {
            1: {"environment": "default", "command": "toggle flag"},
            2: {"command": "toggle nosuch", "is_request": True},
            3: {"environment": "nowhere", "command": "toggle flag"},
            11: {"is_request": False, "success": True, "reason": None},
            12: {"is_request": False, "success": False, "reason": "x"},
        }[msg["cc"]]
    if msg["logs"]:
        out["__log_messages__"] = [log_record(x) for x in msg["logs"]]
    return out


def flat(data, codes):
    """Model tuple of JSON data."""

    data = dict(data)
    ident = data.pop("__id__", 0)
    out = [codes.get(ident, ident)]
    item = data.pop("loopback", None)
    if item is None:
        out.append(0)
    elif item == {}:
        out.append(1)
    elif item == DEFAULT_LB:
        out.append(2)
    else:
        out.append(item["v"] if list(item) == ["v"] else str(item))
    item = data.pop("poll", None)
    out.append(
        0
        if item is None
        else (
            1 + item.get("loopback", 0)
            if not item or list(item) == ["loopback"]
            else str(item)
        )
    )
    item = data.pop("ch_x", None)
    out.append(0 if item is None else item["v"])
    item = data.pop("ch_{name}", None)
    out.append(
        0
        if item is None
        else item["v"] if item.get("name") == "x" else str(item)
    )
    item = data.pop("meta", None)
    out.append(
        0
        if item is None
        else (
            1
            if {"package", "version", "kind", "handlers"} <= set(item)
            else str(item)
        )
    )
    item = data.pop("channel_command", None)
    if item is None:
        out.append(0)
    elif item.get("is_request", True):
        out.append(
            3
            if item.get("environment", "default") != "default"
            else 1 if item["command"] == "toggle flag" else 2
        )
    elif item["success"]:
        out.append(11)
    else:
        out.append(13 if str(item["reason"]).startswith("No env") else 12)
    ign = data.pop("keys_ignored", [])
    logs = data.pop("__log_messages__", [])
    out.append(
        0 if not data else 1 if data == BAD[1] else 2 if data == BAD[2] else -1
    )
    out.append(IGNORED.get(tuple(ign), str(ign)))
    toks = []
    for log in logs:
        match = re.match(r"tok-(\d+)", text_of(log))
        tok = int(match[1]) if match else -1
        toks.append(tok if same_log(log, tok) else str(log))
    out.append(toks)
    return out


def text_of(log):
    """What a log record in a message says."""

    out = str(log["msg"])
    return out % tuple(log["args"]) if log.get("args") else out


def same_log(log, tok):
    """Determine if a log record in a message is the one of a token."""

    want = log_record(tok)
    return (
        isinstance(log, dict)
        and not set(log) - {"msg", "level", "args"}
        and log.get("level") == want["level"]
        and text_of(log) == said(tok)
    )


def said(tok):
    """What the log record of a token says."""
    return f"tok-{tok}" + {6: " 100%", 2: " %d"}.get(tok % 8, "")


def captured(tok):
    """A log record as a program's own code makes it."""

    from pathlib import Path

    msg, args = {
        0: ("tok-%s", (str(tok),)),
        1: ("tok-%d", (tok,)),
        2: (f"tok-{tok} %d", ("bad",)),
        3: ("%s-%i", ("tok", tok)),
        4: (ValueError(f"tok-{tok}"), ()),
        5: ("tok-%s", (Path(str(tok)),)),
        6: (f"tok-{tok} 100%", ()),
        7: ("tok-%(n)d", ({"n": tok},)),
    }[tok % 8]
    level = log_record(tok)["level"]
    return logging.LogRecord("x", level, "f", 1, msg, args, None)


class Sink(logging.Handler):
    """Collects what a peer logged on behalf of the other one."""

    def __init__(self):
        super().__init__(1)
        self.got = []

    def emit(self, record):
        text = record.getMessage()
        if text.startswith("remote: tok-"):
            tok = int(text[12:].split()[0])
            good = record.levelno == [10, 20, 30, 40][tok % 4]
            good &= text == "remote: " + said(tok)
            self.got.append(tok if good else f"{tok}@{record.levelno}")


def execute(cfg, ops):
    """Run a scenario on the real code."""

    return loop_run(_execute(cfg, ops))


async def _execute(cfg, ops):
    """Run a scenario with two peers."""

    from runtimepy.net.arbiter.tcp import json as kinds
    from vp import nets

    logging.disable(logging.NOTSET)
    base = (
        kinds.TcpJsonMessageConnection
        if cfg["mode"] == "tcp"
        else kinds.UdpJsonMessageConnection
    )

    class Peer(base):
        """A connection with additional handlers."""

        async def async_init(self):
            return True

        async def poll_handler(self):
            self.calls.append(["poll", 0])

        def _register_handlers(self):
            super()._register_handlers()

            async def handler(outbox, inbox):
                self.calls.append(["ch", inbox["v"]])
                outbox.update(inbox)

            self.basic_handler("ch_{name}", handler)

    conns, transports, protos, sinks = {}, {}, {}, {}
    tasks = []
    make = nets.tcp if cfg["mode"] == "tcp" else nets.udp
    # (A socket that isn't connected is told where to send each message.)
    free = cfg["mode"] == "free"
    make_args = {"remote": False} if free else {}
    for peer in (1, 2):
        Peer.calls = None
        conn, transports[peer], protos[peer] = make(
            Peer, port=peer, **make_args
        )
        conn.calls = []
        conns[peer] = conn
        conn.logger.setLevel(1)
        conn.logger.propagate = False
        sinks[peer] = Sink()
        conn.logger.addHandler(sinks[peer])
        chan = conn.env.bool_channel("flag", commandable=True)
        chan = chan[0] if isinstance(chan, tuple) else chan
        chan.raw.register_callback(
            lambda _, __, calls=conn.calls: calls.append(["cc", 0])
        )
        tasks.append(asyncio.create_task(conn.process()))
    await settle()
    inbox = {1: [], 2: []}
    idents, codes = {}, {}
    used = {1: 0, 2: 0}
    results = []
    pending = []
    constant = {}
    numbers = 0

    def drain(peer, forward):
        """Everything a peer sent."""
        out = []
        sent = transports[peer].take()
        if free and any(x[1] != where[peer] for x in sent):
            out.append(["sent to", [x[1] for x in sent]])
        data = b"".join(x[0] if isinstance(x, tuple) else x for x in sent)
        while data:
            size = struct.unpack(">I", data[:4])[0]
            frame, data = data[: 4 + size], data[4 + size :]
            msg = json.loads(frame[4:])
            ident = msg.get("__id__", 0)
            if ident and ident not in codes and not isinstance(ident, str):
                used[peer] += 1
                codes[ident] = 1000 * peer + used[peer]
                idents[codes[ident]] = ident
            out.append(flat(msg, codes))
            if forward:
                inbox[3 - peer].append(frame)
        return out

    def feed(peer, data, port=2000):
        """Deliver bytes to a peer."""
        where[peer] = ("127.0.0.1", port + peer)
        if cfg["mode"] == "tcp":
            protos[peer].data_received(data)
        else:
            protos[peer].datagram_received(data, where[peer])

    where = {1: ("127.0.0.1", 2001), 2: ("127.0.0.1", 2002)}

    def to(peer):
        """Who a message is for."""
        return {"addr": where[peer]} if free else {}

    async def ask(num, conn, operation):
        """Perform a request."""
        msg = operation["m"]
        limit = operation["until"] * UNIT
        addr = to(operation["p"])
        try:
            if operation["api"] == "json":
                res = flat(
                    await conn.wait_json(body(msg), timeout=limit, **addr),
                    codes,
                )
            elif operation["api"] == "loopback":
                res = [
                    await conn.loopback(
                        body(msg)["loopback"], timeout=limit, **addr
                    )
                ]
            elif operation["api"] == "command":
                data = body(msg)["channel_command"]
                if "environment" in data and data["environment"] != "default":
                    addr["environment"] = data["environment"]
                res = await conn.channel_command(data["command"], **addr)
                res = [
                    res.success
                    if res.success == (res.reason is None)
                    else str(res)
                ]
            else:
                res = [await base.async_init(conn)]
        except AssertionError as exc:
            if "No response" not in str(exc):
                raise
            res = ["timeout"]
        results.append([num, res])

    events = []
    for op in ops:
        kind = op["k"]
        peer = op.get("p", 1)
        conn = conns[peer]
        results.clear()
        where[peer] = ("127.0.0.1", 2000 + peer)
        for item in (1, 2):
            conns[item].calls.clear()
            sinks[item].got.clear()
        per_message = []
        out = []
        if kind == "request":
            numbers += 1
            pending.append(asyncio.create_task(ask(numbers, conn, op)))
            await settle()
        elif kind == "send":
            if op.get("again"):
                key = (peer, json.dumps(op["m"]))
                conn.send_json(
                    constant.setdefault(key, body(op["m"])), **to(peer)
                )
            elif op["m"] == {**NONE, "poll": op["m"]["poll"]} and not free:
                if op["m"]["poll"] == 2:
                    conn.send_poll()
                else:
                    conn.send_poll(loopback=op["m"]["poll"] - 1)
            else:
                conn.send_json(body(op["m"]), **to(peer))
        elif kind == "deliver":
            frames = inbox[peer][: op["n"]]
            inbox[peer] = inbox[peer][op["n"] :]
            if op["n"] > 1 and cfg["mode"] == "tcp":
                # What each message causes is told apart by handling order.
                feed(peer, b"".join(frames))
                await settle()
                per_message = _split(conn.calls, frames)
            else:
                for frame in frames:
                    start = len(conn.calls)
                    feed(peer, frame)
                    await settle()
                    per_message.append(sorted(
                        conn.calls[start:],
                        key=lambda x: ["poll", "ch", "cc"].index(x[0]),
                    ))
        elif kind in ("inject", "garbage"):
            if kind == "inject":
                data = json.dumps(body(op["m"], idents)).encode()
                if op["m"]["id"] not in idents and op["m"]["id"]:
                    codes[op["m"]["id"]] = op["m"]["id"]
            else:
                data = GARBAGE[op["g"]]
            feed(peer, struct.pack(">I", len(data)) + data, 3000)
            await settle()
            if kind == "inject":
                per_message.append(sorted(
                    conn.calls,
                    key=lambda x: ["poll", "ch", "cc"].index(x[0]),
                ))
            else:
                per_message = [list(conn.calls)] if conn.calls else []
        elif kind == "dup":
            inbox[peer].insert(0, inbox[peer][0])
        elif kind == "lose":
            inbox[peer].pop(0)
        elif kind == "log":
            rec = log_record(op["t"])
            if op["how"] == "stage":
                conn.stage_remote_log(
                    rec["msg"], *rec.get("args", []), level=rec["level"]
                )
            else:
                conn.list_handler.handle(captured(op["t"]))
        elif kind == "tick":
            await asyncio.sleep(op["d"] * UNIT)
            await settle()
        out = drain(peer, kind not in ("inject", "garbage"))
        stray = drain(3 - peer, False)
        if stray:
            out = [out, "stray", stray]
        events.append(
            {
                "op": op,
                "obs": {
                    "out": out,
                    "calls": per_message,
                    "logs": list(sinks[peer].got),
                    "res": sorted(results, key=lambda x: x[0]),
                },
            }
        )
    left = [
        [len(conns[x].ids_waiting), len(conns[x].id_responses)]
        for x in (1, 2)
    ]
    del left
    for item in pending:
        item.cancel()
    for peer in (1, 2):
        conns[peer].disable("done")
        conns[peer].logger.removeHandler(sinks[peer])
    await asyncio.gather(*tasks, *pending, return_exceptions=True)
    return events


def _split(calls, frames):
    """Assign the handler calls of several messages to the messages."""

    calls = list(calls)
    out = []
    for frame in frames:
        data = json.loads(frame[4:])
        want = []
        if "poll" in data:
            want.append(["poll", 0])
        if "ch_x" in data:
            want.append(["ch", data["ch_x"]["v"]])
        if data.get("channel_command", {}).get("command") == "toggle flag":
            if data["channel_command"].get("environment") != "nowhere":
                want.append(["cc", 0])
        got = calls[: len(want)]
        calls = calls[len(want) :]
        out.append(
            sorted(got, key=lambda x: ["poll", "ch", "cc"].index(x[0]))
        )
    if calls:
        out.append(calls)
    return out


MC = """
CONSTANTS Bodies <- ConstBodies
 MaxReq = {req}
 MaxFlight = {flight}
 MaxLog = {log}
 MaxTime = {time}
 Apis = {apis}
 Faults = {faults}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS RightReply LoopbackTrue LogsOnce Quiesces
CHECK_DEADLOCK FALSE
"""


def random_message(rng, depth=0):
    """A random message without identifier."""

    msg = dict(NONE)
    msg["logs"] = []
    for key, vals in (
        ("lb", [1, 2, 3, 4]),
        ("poll", [1, 2, 3]),
        ("ch", [1, 2]),
        ("cc", [1, 2, 3]),
        ("meta", [1]),
        ("bad", [1, 2]),
    ):
        if rng.random() < 0.3:
            msg[key] = rng.choice(vals)
    return msg


def random_scenario(rng, length):
    """A random conversation."""

    mode = rng.choice(["tcp", "udp"])
    ops = []
    nreq = {1: 0, 2: 0}
    has_hs = rng.random() < 0.4
    tok = 0
    apis = []
    for _ in range(length):
        peer = rng.choice([1, 2])
        roll = rng.random()
        if roll < 0.25:
            api = rng.choice(
                ["json", "json", "loopback", "command"]
                + (["hs"] if has_hs else [])
            )
            msg = random_message(rng)
            until = rng.choice([4, 12, 20])
            if api == "loopback":
                msg = {**NONE, "lb": rng.choice([1, 2, 3, 7])}
            elif api == "command":
                msg = {**NONE, "cc": rng.choice([1, 2, 3])}
                until = 12
            elif api == "hs":
                msg = dict(NONE)
                until = 12
            ops.append(
                {"k": "request", "p": peer, "api": api, "m": msg,
                 "until": until}
            )
            nreq[peer] += 1
            apis.append(api)
        elif roll < 0.33:
            msg = random_message(rng)
            if all(not msg[x] for x in ("lb", "poll", "ch", "cc", "bad")):
                msg["lb"] = 5
            again = rng.random() < 0.5
            if again:
                msg = {**NONE, "lb": 6}
            ops.append({"k": "send", "p": peer, "m": msg, "again": again})
        elif roll < 0.7:
            many = not has_hs and rng.random() < 0.2
            ops.append({"k": "deliver", "p": peer, "n": 2 if many else 1})
        elif roll < 0.76:
            msg = random_message(rng)
            if rng.random() < 0.5:
                msg["id"] = rng.choice([9001, 9002])
            if rng.random() < 0.3:
                msg["logs"] = [rng.randint(100, 120)]
            if all(not msg[x] for x in NONE):
                msg["lb"] = 5
            ops.append({"k": "inject", "p": peer, "m": msg})
        elif roll < 0.8:
            ops.append(
                {"k": "garbage", "p": peer, "g": rng.randrange(len(GARBAGE))}
            )
        elif roll < 0.84:
            ops.append({"k": rng.choice(["dup", "lose"]), "p": peer})
        elif roll < 0.94:
            tok += 1
            ops.append(
                {
                    "k": "log",
                    "p": peer,
                    "t": tok,
                    "how": rng.choice(["stage", "list"]),
                }
            )
        else:
            ops.append({"k": "tick", "d": rng.choice([8, 8, 16])})
    if mode == "udp" and "hs" not in apis and rng.random() < 0.6:
        mode = "free"
    return {"mode": mode}, ops


def feasible(scn):
    """Drop deliveries of messages which aren't there (by the same rules
    the specification sends messages by)."""

    cfg, ops = scn
    sim = Sim()
    out = []
    for op in ops:
        if op["k"] in ("deliver", "dup", "lose"):
            have = len(sim.inbox[op["p"]])
            if not have:
                continue
            if op["k"] == "deliver":
                op = {**op, "n": min(op["n"], have)}
        sim.step(op)
        out.append(op)
    return cfg, out


class Sim:
    """Counts messages in flight (scheduling only, not an oracle)."""

    def __init__(self):
        self.inbox = {1: [], 2: []}
        self.nreq = {1: 0, 2: 0}
        self.seen = {1: False, 2: False}
        self.hs = {}

    def send(self, peer, msg):
        """Send from a peer."""
        self.inbox[3 - peer].append(msg)

    def handle(self, peer, msg, forward=True):
        """Handle a message."""
        ident = msg["id"]
        own = ident and ident // 1000 == peer
        ans = (
            ident
            or msg["lb"] >= 2
            or msg["poll"] > 1
            or msg["ch"]
            or (msg["meta"] and not self.seen[peer])
            or msg["cc"] in (1, 2, 3)
            or msg["bad"]
            or msg["chr"]
        )
        answer = {
            **NONE,
            "id": ident,
            "lb": msg["lb"] if msg["lb"] >= 2 else 0,
            "poll": msg["poll"] - 1 if msg["poll"] > 1 else 0,
            "meta": int(bool(msg["meta"] and not self.seen[peer])),
            "ign": msg["bad"],
            "chr": msg["ch"],
            "cc": msg["cc"] + 10 if msg["cc"] in (1, 2, 3) else 0,
        }
        if msg["meta"]:
            self.seen[peer] = True
        if own:
            if self.hs.pop(ident, None):
                self.nreq[peer] += 1
                self.send(
                    peer,
                    {
                        **NONE,
                        "id": 1000 * peer + self.nreq[peer],
                        "meta": 1,
                    },
                )
        elif ans and forward:
            self.send(peer, answer)

    def step(self, op):
        """Perform an operation."""
        peer = op.get("p")
        if op["k"] == "request":
            self.nreq[peer] += 1
            ident = 1000 * peer + self.nreq[peer]
            msg = op["m"]
            if op["api"] == "hs":
                self.hs[ident] = True
                msg = {**NONE, "lb": 2}
            self.send(peer, {**msg, "id": ident})
        elif op["k"] == "send":
            self.send(peer, op["m"])
        elif op["k"] == "deliver":
            for _ in range(op["n"]):
                self.handle(peer, self.inbox[peer].pop(0))
        elif op["k"] == "inject":
            self.handle(peer, op["m"], False)
        elif op["k"] == "dup":
            self.inbox[peer].insert(0, self.inbox[peer][0])
        elif op["k"] == "lose":
            self.inbox[peer].pop(0)
        elif op["k"] == "tick":
            self.hs.clear()


def run(check: Check) -> None:
    """Entry."""

    scns = []
    for args in check.pick(
        [
            (2, 3, 1, 0, '{"json"}', "{}"),
            (2, 2, 0, 16, '{"loopback"}', '{"dup", "lose"}'),
        ],
        [
            (2, 3, 2, 8, '{"json"}', "{}"),
            (3, 3, 0, 0, '{"json", "loopback"}', "{}"),
            (2, 3, 0, 16, '{"json", "loopback"}', '{"dup", "lose"}'),
        ],
    ):
        cfg = MC.format(
            req=args[0],
            flight=args[1],
            log=args[2],
            time=args[3],
            apis=args[4],
            faults=args[5],
        )
        got = check.explore(
            "MCMessaging",
            cfg,
            need=["request", "deliver", "send"]
            + (["dup", "lose"] if "dup" in args[5] else []),
        )
        cap = check.pick(900, 12000)
        if len(got) > cap:
            got = check.rng.sample(got, cap)
        for idx, ops in enumerate(got):
            scns.append(({"mode": ["tcp", "udp", "free"][idx % 3]}, ops))
    for _ in range(check.pick(800, 10000)):
        scn = random_scenario(check.rng, check.rng.randint(5, 40))
        if check.rng.random() < 0.8:
            # A pattern-free window at the end: everything is delivered.
            scn[1].extend(
                {"k": "deliver", "p": 1 + (x % 2), "n": 1} for x in range(12)
            )
        scns.append(feasible(scn))
    scns = [x for x in scns if x[1]]
    traces = check.execute(execute, scns)
    check.validate("TraceMessaging", "TraceMessaging.cfg", traces)
    check.assumptions += [
        "handlers do not fail and do not make requests themselves",
        "a reply never arrives at the very instant its time limit passes",
        "identifiers of the two peers do not coincide (they start from "
        "random 31-bit numbers)",
    ]
