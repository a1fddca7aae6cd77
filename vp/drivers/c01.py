"""C01: change callbacks of primitives."""

import io
import math
import struct

from vp.core import Check

FLOATS = {"half": "f", "float": "f", "double": "d"}


def token(kind, value):
    """Canonical form of a value in traces."""
    if kind == "bool":
        return int(value) if isinstance(value, (bool, int)) else str(value)
    if kind in FLOATS:
        if math.isnan(value):
            return "nan"
        return float(value).hex()
    return value


def parse(kind, tok):
    """Inverse of token."""
    if kind == "bool":
        return bool(tok)
    if kind in FLOATS:
        return float("nan") if tok == "nan" else float.fromhex(tok)
    return tok


def quantize(kind, value):
    """What IEEE storage makes of a value (independent of the code)."""
    if kind in FLOATS:
        fmt = FLOATS[kind]
        return token(kind, struct.unpack(fmt, struct.pack(fmt, value))[0])
    return "-"


def execute(cfg, ops):
    """Run a scenario on the real code."""
    from runtimepy.primitives import normalize
    from runtimepy.primitives.byte_order import ByteOrder

    kind = cfg["kind"]
    clock = [0]
    prim = normalize(kind)(
        value=parse(kind, cfg["init"]),
        time_source=lambda: clock[0],
        scaling=cfg.get("scaling") or None,
    )
    fired = []
    ctxs = {}

    def callback(ident_box, act):
        def inner(old, new):
            fired.append(
                [
                    ident_box[0],
                    token(kind, old),
                    token(kind, new),
                    token(kind, prim.value),
                    prim.last_updated_ns,
                ]
            )
            if act[0] == "rm":
                prim.remove_callback(act[1])
            elif act[0] == "reg":
                box = [None]
                box[0] = prim.register_callback(
                    callback(box, ["none"]), once=act[1]
                )

        return inner

    events = []
    for op in ops:
        fired.clear()
        res = "none"
        now = op.get("now")
        if now is not None:
            clock[0] = now
        try:
            name = op["k"]
            if name == "set_value":
                val = parse(kind, op["v"])
                if now is not None and now % 2:
                    clock[0] = -1
                    prim.set_value(val, timestamp_ns=now)
                else:
                    prim.set_value(val)
            elif name == "value":
                prim.value = parse(kind, op["v"])
            elif name == "call":
                res = token(kind, prim(parse(kind, op["v"])))
            elif name == "update":
                val = parse(kind, op["v"])
                order = [
                    ByteOrder.BIG_ENDIAN,
                    ByteOrder.LITTLE_ENDIAN,
                    ByteOrder.NETWORK,
                ][op.get("order", 0)]
                size = prim.kind.size
                if kind in FLOATS:
                    raw = struct.pack(
                        order.fmt + {2: "e", 4: "f", 8: "d"}[size], val
                    )
                else:
                    raw = (int(val) % (1 << (8 * size))).to_bytes(
                        size,
                        "little" if op.get("order", 0) == 1 else "big",
                    )
                if op.get("stream"):
                    res = prim.from_stream(
                        io.BytesIO(raw + b"x"), byte_order=order
                    )
                else:
                    res = prim.update(raw, byte_order=order)
                res = token(kind, res)
            elif name == "increment":
                res = prim.increment(op["v"])
            elif name == "toggle":
                prim.toggle()
            elif name == "setbool":
                prim.set()
            elif name == "clear":
                prim.clear()
            elif name == "scaled":
                if kind in FLOATS:
                    prim.scaled = float.fromhex(op["m"])
                    assert math.isclose(
                        prim.scaled, prim.scale(prim()), abs_tol=1e-9
                    )
                else:
                    prim.scaled = op["v"]
                    res = prim.scaled
            elif name == "register":
                box = [None]
                if op["once"]:
                    box[0] = prim.register_callback(
                        callback(box, op["act"]), once=True
                    )
                else:
                    box[0] = prim.register_callback(callback(box, op["act"]))
                res = box[0]
            elif name == "enter":
                box = [prim.curr_callback]
                ctxs[box[0]] = prim.callback(callback(box, op["act"]))
                ctxs[box[0]].__enter__()
                res = box[0]
            elif name == "exit":
                res = op["id"] in prim.callbacks
                if op["n"] % 2:
                    ctxs.pop(op["id"]).__exit__(None, None, None)
                else:
                    err = KeyError("the body's own")
                    try:
                        ctxs.pop(op["id"]).__exit__(KeyError, err, None)
                    except KeyError:
                        pass
            elif name == "remove":
                res = prim.remove_callback(op["id"])
            elif name == "copy":
                other = prim.copy()
                res = token(kind, other.value)
                other.value = parse(kind, op["v"])
        except Exception as exc:  # pylint: disable=broad-except
            res = f"exc:{type(exc).__name__}"
        events.append(
            {
                "op": op,
                "obs": {
                    "val": token(kind, prim.value),
                    "ts": prim.last_updated_ns,
                    "fired": [list(x) for x in fired],
                    "res": res,
                },
            }
        )
    del ctxs
    return events


MC = """
CONSTANTS Kind = "{kind}"
 Values = {values}
 MaxReg = {reg}
 MaxNow = 3
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS AtMostOncePerUpdate InOrder Truthful Representable UniqueIds
PROPERTY Step1
CHECK_DEADLOCK FALSE
"""


def random_scenario(rng, length):
    """A random history for a random kind."""

    kinds = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64"]
    kinds += ["uint64", "bool", "half", "float", "double"]
    kind = rng.choice(kinds)
    floats = kind in FLOATS

    wide = {"int32": 2**30, "int64": 2**30}
    pool = []
    for _ in range(rng.randint(2, 4)):
        if floats:
            pool.append(
                rng.choice(
                    [0.1, 0.5, 2.0, -1.25, 1e-3, 3.3333, 1.0, float("nan")]
                    + [rng.uniform(-100, 100)]
                )
            )
        elif kind == "bool":
            pool.append(rng.choice([False, True]))
        elif kind in ("int8", "uint8", "int16", "uint16"):
            base = rng.choice([0, 1, -1, 127, 128, 255, 256, 300, 32768])
            pool.append(base + rng.choice([0, 0, 65536, -65536]))
            if rng.random() < 0.3:
                pool.append(rng.randint(-70000, 70000))
        else:
            top = wide.get(kind, 2**30)
            low = -top if kind in wide else 0
            pool.append(rng.choice([0, 1, 7, rng.randint(low, top)]))
    now = 0
    regs = 0
    ops = []
    entered = []
    scaling = None
    small = kind in ("int8", "uint8", "int16", "uint16")
    if (floats or small) and rng.random() < 0.5:
        scaling = [rng.choice([0, 5, -7]), rng.choice([1, 2, 3, 7, 10])]
    lo, hi = {
        "int8": (-128, 127),
        "uint8": (0, 255),
        "int16": (-32768, 32767),
        "uint16": (0, 65535),
    }.get(kind, (None, None))
    for _ in range(length):
        roll = rng.random()
        now += rng.randint(1, 5)
        if roll < 0.55 or regs > 12:
            names = ["set_value", "value", "call", "update"]
            if kind == "bool":
                names += ["toggle", "setbool", "clear"] * 2
            elif not floats and kind in (
                "int8",
                "uint8",
                "int16",
                "uint16",
            ):
                names.append("increment")
            if small or floats:
                names.append("scaled")
            name = rng.choice(names)
            val = rng.choice(pool)
            if name == "scaled":
                off, fac = scaling or (0, 1)
                item = {"k": name, "now": now, "a": off, "b": fac}
                if floats:
                    mean = rng.choice([1.0, -2.5, 10.0, rng.uniform(-9, 9)])
                    item["m"] = mean.hex()
                    back = mean if scaling is None else (mean - off) / fac
                    item["v"] = token(kind, back)
                    item["q"] = quantize(kind, back)
                else:
                    want = rng.choice([lo, hi, 0, rng.randint(lo, hi)])
                    want = want * fac + off + rng.choice([0, 0, 1, -1])
                    if (2 * (want - off)) % fac == 0 and (
                        want - off
                    ) % fac:
                        want += 1 if fac > 2 else fac // 2
                    item["v"] = want
                    item["q"] = "-"
                ops.append(item)
                continue
            if name == "increment":
                val = rng.choice([1, 2, 255, 256, -1, 0])
            if name == "update" and lo is not None:
                val = max(lo, min(hi, val))
            qval = val
            if name == "update" and kind == "half":
                # Half precision on the wire, single precision stored.
                qval = struct.unpack("e", struct.pack("e", val))[0]
            item = {
                "k": name,
                "v": token(kind, val),
                "q": quantize(kind, qval),
                "now": now,
            }
            if name == "update":
                item["order"] = rng.randrange(3)
                item["stream"] = rng.random() < 0.5
            ops.append(item)
        elif roll < 0.8:
            act = ["none"]
            if rng.random() < 0.3:
                act = rng.choice(
                    [
                        ["rm", rng.randint(0, regs + 1)],
                        ["reg", False],
                        ["reg", True],
                        ["rm", regs],
                    ]
                )
            ops.append(
                {"k": "register", "once": rng.random() < 0.3, "act": act}
            )
            regs += 1
        elif roll < 0.88:
            if entered and rng.random() < 0.5:
                pos = rng.randrange(len(entered))
                item = {"k": "exit", "id": entered.pop(pos)}
                ops.append({**item, "n": rng.randrange(2)})
            elif not any(x["k"] == "register" for x in ops):
                # (Identifiers are known as long as callbacks register none.)
                entered.append(regs)
                act = rng.choice([["none"], ["rm", rng.randint(0, regs + 1)]])
                ops.append({"k": "enter", "act": act})
                regs += 1
        elif roll < 0.95:
            ops.append({"k": "remove", "id": rng.randint(0, regs)})
        else:
            ops.append({"k": "copy", "v": token(kind, rng.choice(pool))})
    init = rng.choice(pool)
    init_tok = quantize(kind, init) if floats else token(kind, init)
    if lo is not None:
        init_tok = max(lo, min(hi, init))
    return {"kind": kind, "init": init_tok, "scaling": scaling or []}, ops


def run(check: Check) -> None:
    """Entry."""

    scns = []
    for kind, values, reg in [
        ("uint8", "{0, 1, 256}", check.pick(2, 3)),
        ("int8", "{0, 127, 128}", check.pick(2, 3)),
        ("bool", "{}", check.pick(2, 3)),
    ]:
        cfg = MC.format(kind=kind, values=values, reg=reg)
        ops = check.explore("MCPrim", cfg, need=["register", "remove"])
        if len(ops) > check.pick(4000, 60000):
            ops = check.rng.sample(ops, check.pick(4000, 60000))
        scns += [({"kind": kind, "init": 0}, x) for x in ops]
    for _ in range(check.pick(1500, 30000)):
        scns.append(random_scenario(check.rng, check.rng.randint(5, 40)))
    traces = check.execute(execute, scns)
    check.validate("TracePrim", "TracePrim.cfg", traces)
    check.assumptions += [
        "callbacks do not raise and do not update the primitive themselves",
        "negative zero is not driven",
    ]
