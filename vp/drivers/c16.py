"""C16: HTTP."""

import asyncio
import http
import logging
from unittest import mock

from vp.core import Check
from vp.loop import run as loop_run
from vp.loop import settle
from vp.nets import FakeTransport, tcp

METHODS = ["", "GET", "POST", "PUT", "DELETE", "CONNECT"]
# What a target is, and its host and port, path and query, and the rest.
TARGETS = [
    ("/x", None, ("/x", None), None, False),
    ("/x/y?a=b", None, ("/x/y", "a=b"), None, False),
    ("/x?a=b?c", None, ("/x", "a=b?c"), None, False),
    ("/ü/☃?ß=é", None, ("/ü/☃", "ß=é"), None, False),
    ("http://h:80/x?y", None, None, "http://h:80/x?y", False),
    ("*", None, None, None, True),
    ("h:80", ("h", 80), None, None, False),
    ("[::1]:443", ("[::1]", 443), None, None, False),
]
BODIES = [
    b"",
    b"\r\n\r\n",
    b"GET / HTTP/1.1\r\n\r\n",
    bytes(range(256)),
    b"\x00\xff" * 3000,
    b"HTTP/1.1 200\r\ncontent-length: 2\r\n\r\nab",
]
NOTES = [None, "a: b; c=d", "naïve ☃", "x" * 200, "", "a,b ,  c"]
REASONS = [
    "",
    "Not here: é",
    "No handler for DELETE requests.",
    "Two  spaces",
]
BAD = [
    b"GET /\r\n\r\n",
    b"FETCH / HTTP/1.1\r\n\r\n",
    b"GET / HTTX/1.1\r\n\r\n",
    b"HTTP/1.1 two\r\n\r\n",
    b"HTTP/1.1\r\n\r\n",
    b"\x01\x02\x03\r\n\r\n",
]


def find(table, item):
    """A number for something."""
    return table.index(item) if item in table else -1


def execute(cfg, ops):
    """Run a scenario on the real code."""
    return loop_run(_execute(cfg, ops))


def parse(data):
    """Messages in what was written: (bytes, header size, fields)."""

    out = []
    while data:
        end = data.find(b"\r\n\r\n")
        if end < 0:
            return out + [(data, 0, None)]
        lines = data[:end].decode().split("\r\n")
        fields = {}
        for item in lines[1:]:
            key, _, val = item.partition(":")
            fields[key.lower()] = val.strip()
        size = int(fields["content-length"])
        out.append(
            (
                data[: end + 4 + size],
                end + 4,
                (lines[0], fields, data[end + 4 : end + 4 + size]),
            )
        )
        data = data[end + 4 + size :]
    return out


def cut(raw, head, style):
    """Cut a message into units."""

    def half(data, which):
        spot = [1, len(data) - 1, len(data) - 2, len(data) // 2, 7, 33, 50][
            which % 7
        ]
        spot = max(1, min(spot, len(data) - 1))
        return [data[:spot], data[spot:]]

    out = half(raw[:head], style)
    if len(raw) > head:
        out += half(raw[head:], style // 7)
    return out


def handmade(kind, item, style):
    """A message as others may write it."""

    first, fields, body = item
    case = [str.lower, str.upper, str.title][style % 3]
    pad = ["", " ", "\t ", "  "][style % 4]
    lines = [first]
    if kind == "resp" and first.count(" ") == 1 and style % 5 < 3:
        lines[0] += " "
    if style % 2:
        lines.append(case("host") + ": here:80")
    for key, val in fields.items():
        lines.append(case(key) + ":" + pad + val + ("  " if pad else ""))
    if body:
        spot = 1 + style % len(lines)
        lines.insert(spot, case("content-length") + f":{pad}{len(body)}")
    elif style % 3:
        lines.append(case("content-length") + ":0")
    raw = ("\r\n".join(lines) + "\r\n\r\n").encode()
    return raw + body, len(raw)


async def _execute(cfg, ops):
    from runtimepy.net.http.header import RequestHeader
    from runtimepy.net.tcp.http import HttpConnection

    logging.disable(logging.NOTSET)
    real, style = cfg["real"], cfg["style"]
    handled, results, logs, written = [], [], [], []
    frees = {}

    def target_of(target):
        got = (
            target.raw,
            target.authority_form,
            target.origin_form,
            target.absolute_form,
            target.asterisk_form,
        )
        if target.origin_form and target.path != target.origin_form[0]:
            return -2
        return find(TARGETS, got)

    async def handle(side, response, request, data):
        case = [str.lower, str.upper, str.title][style % 3]
        ident = int(request[case("x-id")])
        handled.append(
            [
                side,
                ident,
                find(METHODS, str(request.method)),
                target_of(request.target),
                find(BODIES, bytes(data or b"")),
                find(NOTES, request.get(case("x-note"))),
            ]
        )
        if request.get("x-blk", "") == "1":
            frees[side] = asyncio.get_running_loop().create_future()
            await frees[side]
        status, reason, body, note = (
            int(x) for x in request["x-w"].split(",")
        )
        response.status = http.HTTPStatus(status)
        response.reason = REASONS[reason]
        response[case("x-id")] = str(ident)
        if note:
            response[case("x-note")] = NOTES[note]
        if not body:
            return [None, b""][style % 2]
        return BODIES[body]

    async def shared(response, request, data):
        return await handle(int(request["x-to"]), response, request, data)

    class Conn(HttpConnection):
        """A connection that handles what it's asked to."""

        side = 0
        handlers = {http.HTTPMethod.PUT: shared}

        async def get_handler(self, response, request, request_data):
            return await handle(self.side, response, request, request_data)

        async def post_handler(self, response, request, request_data):
            return await handle(self.side, response, request, request_data)

    class Capture(logging.Handler):
        """Collects what's logged."""

        def __init__(self, side):
            super().__init__()
            self.side = side

        def emit(self, record):
            try:
                text = record.getMessage()
            except TypeError:
                logs.append([self.side, "bad", "", record.levelno])
                return
            for way, name in (("out", "outgoing"), ("in", "incoming")):
                for kind, word in (("req", "request"), ("resp", "response")):
                    if text.startswith(f"({name} {word}) "):
                        logs.append([self.side, way, kind, record.levelno])

    conns = {1: None, 2: None}
    transports = {1: None, 2: None}
    protocols = {1: None, 2: None}
    tasks = {1: None, 2: None}
    wire = {1: [], 2: []}
    asked = {1: [], 2: []}
    waiting = {1: [], 2: []}

    def create(side):
        conn, transport, protocol = tcp(Conn, side)
        conn.side = side
        conn.logger.handlers = [Capture(side)]
        conn.logger.propagate = False
        conn.logger.setLevel(logging.DEBUG)

        async def connect(response, request, data):
            return await handle(side, response, request, data)

        conn.handlers[http.HTTPMethod.CONNECT] = connect
        conns[side], transports[side] = conn, transport
        protocols[side] = protocol
        tasks[side] = asyncio.create_task(conn.process())

    async def reconnect(callback=None, **_):
        from runtimepy.net.tcp.protocol import QueueProtocol

        transport = FakeTransport(("127.0.0.1", 1001), ("127.0.0.1", 2001))
        protocol = QueueProtocol()
        protocol.connection_made(transport)
        transports[1], protocols[1] = transport, protocol
        callback((transport, protocol))
        return True

    def fields(kind, parsed):
        """What a message says."""
        if parsed is None:
            return ["?"]
        line, heads, body = parsed
        ident = int(heads.get("x-id", "0"))
        note = find(NOTES, heads.get("x-note"))
        content = find(BODIES, body)
        parts = line.split(" ")
        if kind == "req":
            if heads.get("user-agent") != HttpConnection.identity:
                return ["agent"]
            if len(parts) != 3 or parts[2] != "HTTP/1.1":
                return [line]
            return [
                "req",
                ident,
                find(METHODS, parts[0]),
                find([x[0] for x in TARGETS], parts[1]),
                0,
                0,
                content,
                note,
            ]
        if heads.get("server") != HttpConnection.identity:
            return ["server"]
        if parts[0] != "HTTP/1.1":
            return [line]
        reason = find(REASONS, " ".join(parts[2:]))
        return ["resp", ident, 0, 0, int(parts[1]), reason, content, note]

    def put(side, raw, head, ident=0):
        nonlocal style
        style += 1
        out = [[x, 0] for x in cut(raw, head, style)]
        out[-1][1] = ident
        wire[side] += out

    def collect():
        """See what was written."""
        for side in (1, 2):
            if transports[side] is None:
                continue
            for raw, head, parsed in parse(b"".join(transports[side].take())):
                kind = "req"
                if parsed is None or parsed[0].startswith("HTTP"):
                    kind = "resp"
                said = fields(kind, parsed)
                written.append([side] + said)
                if parsed is not None:
                    put(side, raw, head, said[1] if kind == "req" else 0)

    def receive(side, units):
        """Give bytes to a side."""
        asked[side] += [x[1] for x in units if x[1]]
        units = [x[0] for x in units]
        data = b"".join(units)
        if real[side - 1]:
            if protocols[side] is None or not data:
                return
            if style % 4 == 1 and len(data) < 800:
                for idx in range(len(data)):
                    protocols[side].data_received(data[idx : idx + 1])
            elif style % 4 == 2:
                for item in units:
                    protocols[side].data_received(item)
            else:
                protocols[side].data_received(data)

    def clear(side):
        """Whether a side may ask now."""
        other = 3 - side
        if turn[0] == side:
            return True
        return not (
            wire[1]
            or wire[2]
            or waiting[other]
            or (asked[side] and not real[side - 1])
            or (frees.get(side) is not None)
        )

    async def request(side, ident, head, body):
        try:
            got, data = await conns[side].request(head, body)
        except ConnectionError:
            results.append([side, ident, 0, 0, 0, 0, 0])
            return
        results.append(
            [
                side,
                ident,
                int(got.get("X-Id", "0")),
                int(got.status),
                find(REASONS, got.reason),
                find(BODIES, bytes(data or b"")),
                find(NOTES, got.get("x-Note")),
            ]
        )

    def alive():
        return [
            conns[y] is not None and not conns[y].disabled for y in (1, 2)
        ]

    async def stop(side):
        if conns[side] is not None:
            conns[side].disable("done")
            await settle()
            tasks[side].cancel()
            await settle()

    turn = [0]
    for side in (1, 2):
        if real[side - 1]:
            create(side)
    await settle()
    handled.clear()
    logs.clear()
    events = []
    ids = 0
    with mock.patch(
        "runtimepy.net.tcp.connection.try_tcp_transport_protocol", reconnect
    ):
        for op in ops:
            op = dict(op)
            style += 1
            what = op["k"]
            side = op.get("s", 0)
            for data in (handled, results, logs, written):
                data.clear()
            if what == "req" and not clear(side):
                op = {"k": "dlv", "s": side, "n": 0}
                what = "dlv"
            if what == "answer" and real[side - 1]:
                op = {"k": "dlv", "s": side, "n": 0}
                what = "dlv"
            if what == "junk" and (
                real[side - 1] or (op["j"] == "bad" and wire[side])
            ):
                op = {"k": "dlv", "s": side, "n": 0}
                what = "dlv"
            if what == "req":
                turn[0] = side
                ids += 1
                head = RequestHeader(
                    METHODS[op["m"]]
                    if style % 2
                    else http.HTTPMethod[METHODS[op["m"]]],
                    TARGETS[op["t"]][0],
                )
                extra = {
                    "x-id": str(ids),
                    "x-w": ",".join(str(x) for x in op["w"]),
                    "x-to": str(3 - side),
                }
                if op["blk"]:
                    extra["x-blk"] = "1"
                if op["n"]:
                    extra["x-note"] = NOTES[op["n"]]
                body = BODIES[op["b"]]
                if real[side - 1]:
                    for key, val in extra.items():
                        head[key] = val
                    waiting[side].append(
                        asyncio.create_task(
                            request(side, ids, head, body or None)
                        )
                    )
                else:
                    first = (
                        f"{METHODS[op['m']]} {TARGETS[op['t']][0]} HTTP/1.1"
                    )
                    put(
                        side,
                        *handmade("req", (first, extra, body), style),
                        ids,
                    )
            elif what == "dlv":
                units = wire[side][: op["n"]]
                del wire[side][: op["n"]]
                receive(3 - side, units)
            elif what == "cancel":
                if op["i"] <= len(waiting[side]):
                    waiting[side][op["i"] - 1].cancel()
            elif what == "free":
                if frees.get(side) is not None:
                    frees.pop(side).set_result(None)
            elif what == "answer":
                if asked[side]:
                    ident = asked[side].pop(0)
                    status, reason, body, note = op["w"]
                    extra = {"x-id": str(ident)}
                    if note:
                        extra["x-note"] = NOTES[note]
                    first = f"HTTP/1.1 {status}"
                    if reason:
                        first += " " + REASONS[reason]
                    put(
                        side,
                        *handmade(
                            "resp", (first, extra, BODIES[body]), style
                        ),
                    )
            elif what == "junk":
                if op["j"] == "blank":
                    wire[side].append([b"\r\n", 0])
                else:
                    bad = BAD[style % len(BAD)]
                    put(side, bad, len(bad))
            elif what == "cut" or (what == "again" and not any(alive())):
                for one in (1, 2):
                    wire[one].clear()
                    asked[one].clear()
                    frees.pop(one, None)
                    if protocols[one] is not None:
                        protocols[one].connection_lost(None)
                await settle()
                if what == "again":
                    if real[0]:
                        await tasks[1]
                        tasks[1] = asyncio.create_task(conns[1].process())
                        await asyncio.sleep(5)
                    if real[1]:
                        await stop(2)
                        create(2)
                        await settle()
                        transports[2].take()
            await settle()
            for one in (1, 2):
                waiting[one] = [x for x in waiting[one] if not x.done()]
            collect()
            events.append(
                {
                    "op": op,
                    "obs": {
                        "h": list(handled),
                        "r": list(results),
                        "w": list(written),
                        "log": list(logs),
                        "alive": alive(),
                        "wait": [len(waiting[1]), len(waiting[2])],
                        "left": [len(wire[1]), len(wire[2])],
                    },
                }
            )
    for side in (1, 2):
        for item in waiting[side]:
            item.cancel()
        await stop(side)
    return events


MC = """
CONSTANTS MaxOps = {ops}
 MaxReq = {reqs}
 Cfgs <- ConstCfgs
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANT Paired
INVARIANT OneAtATime
INVARIANT NoneStuck
CHECK_DEADLOCK FALSE
"""
CFGS = [
    {"real": [True, True]},
    {"real": [False, True]},
    {"real": [True, False]},
]


def random_scenario(rng, length):
    """A random configuration and history."""

    cfg = dict(rng.choice(CFGS))
    ops = []
    roles = rng.choice([[1], [1], [2], [1, 2]])
    ask = rng.choice([0.1, 0.3])
    big = rng.random() < 0.5
    blocks = rng.choice([0, 0.2])
    junk = rng.choice([0, 0.02])

    def answer():
        return [
            rng.choice([200, 200, 204, 404, 307, 418, 503]),
            rng.choice([0, 0, 1, 3]),
            rng.choice([0, 1, 2, 3, 4, 5]) if big else rng.choice([0, 2]),
            rng.choice([0, 0, 1, 2, 3, 5]),
        ]

    for _ in range(length):
        roll = rng.random()
        side = rng.choice(roles)
        if roll < ask or not ops:
            method = rng.choice([1, 1, 2, 3, 4, 5])
            target = rng.choice([6, 7]) if method == 5 else rng.randint(0, 5)
            ops.append(
                {
                    "k": "req",
                    "s": side,
                    "m": method,
                    "t": target,
                    "b": rng.choice([0, 1, 2, 3, 4, 5]) if big else 0,
                    "n": rng.choice([0, 0, 1, 2, 3, 5]),
                    "w": answer(),
                    "blk": rng.random() < blocks,
                }
            )
        elif roll < ask + 0.05:
            ops.append(
                {"k": "cancel", "s": side, "i": rng.choice([1, 1, 2, 3])}
            )
        elif roll < ask + 0.15:
            ops.append({"k": "free", "s": rng.choice([1, 2])})
        elif roll < ask + 0.25:
            ops.append(
                {"k": "answer", "s": rng.choice([1, 2]), "w": answer()}
            )
        elif roll < ask + 0.25 + junk:
            ops.append(
                {
                    "k": "junk",
                    "s": rng.choice([1, 2]),
                    "j": rng.choice(["bad", "blank", "blank"]),
                }
            )
        elif roll < ask + 0.3 + junk and rng.random() < 0.5:
            ops.append({"k": rng.choice(["cut", "again", "again"])})
        else:
            ops.append(
                {
                    "k": "dlv",
                    "s": rng.choice([1, 2]),
                    "n": rng.choice([1, 2, 3, 4, 9, 99]),
                }
            )
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    scns = check.explore(
        "MCHttp",
        MC.format(ops=check.pick(7, 9), reqs=check.pick(2, 3)),
        need=["req", "dlv", "cancel", "free", "answer", "junk", "cut"]
        + ["again"],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    for idx, scn in enumerate(scns[: check.pick(5000, 60000)]):
        jobs.append(({**CFGS[scn[0]["i"] - 1], "style": idx % 420}, scn[1:]))
    for idx in range(check.pick(3000, 30000)):
        cfg, ops = random_scenario(check.rng, check.rng.randint(8, 80))
        jobs.append(({**cfg, "style": idx % 420}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceHttp",
            "TraceHttp.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
