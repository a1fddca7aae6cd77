"""C06: bit fields."""

import copy
import json
import logging

from vp.core import Check


def bits(value, width):
    """An integer as bits, least significant first."""
    if not isinstance(value, int) or value < 0 or value >> width:
        return ["out of range", str(value)]
    return [(value >> i) & 1 for i in range(width)]


def number(seq, neg=0):
    """The integer some bits stand for."""
    out = sum(b << i for i, b in enumerate(seq))
    if neg:
        out -= 1 << len(seq)
    return out


def view(inst):
    """Everything observable of bit fields."""

    width = inst.raw.kind.bits
    data = inst.asdict()
    ents = []
    for item in data["fields"]:
        if "name" not in item:
            ents.append(
                [
                    "pad",
                    item["index"],
                    item["width"],
                    bits(item["value"], width),
                ]
            )
            continue
        field = inst[item["name"]]
        row = [
            field.name,
            field.index,
            field.width,
            bits(field(), width),
            field.commandable,
            field.enum if field.is_enum else "none",
            "none" if field.description is None else field.description,
            [1 if x == "^" else 0 for x in field.where_str()],
        ]
        same = (
            item["name"] == field.name
            and item["index"] == field.index
            and item["width"] == field.width
            and item["value"] == field()
            and item.get("commandable", False) == field.commandable
            and item.get("enum") == (field.enum if field.is_enum else None)
            and item.get("description") == field.description
            and inst[field.index] is field
            and inst.get_field(field.name) is field
        )
        if not same:
            row = ["inconsistent", json.dumps(item)] + row
        ents.append(row)
    if list(inst.names) != [x[0] for x in ents if len(x) > 4]:
        ents = ["names", list(inst.names)] + ents
    return [bits(inst.raw.value, width), ents, data["finalized"]]


def execute(cfg, ops):
    """Run a scenario on the real code."""

    from runtimepy.primitives.field import BitFlag
    from runtimepy.primitives.field.fields import BitFields

    logging.disable(logging.CRITICAL)
    width = cfg["bits"]
    changes = []

    def watch(inst):
        inst.raw.register_callback(
            lambda old, new: changes.append(
                [bits(old, width), bits(new, width)]
            )
        )
        return inst

    inst = watch(BitFields.new(f"uint{width}"))
    twin = None
    events = []
    for op in ops:
        kind = op["k"]
        changes.clear()
        res = ""
        args = {}
        if op.get("ix", 9999) != 9999:
            args["index"] = op["ix"]
        more = {}
        if kind in ("flag", "field"):
            if op["cmd"]:
                more["commandable"] = True
            if op["enum"] != "none":
                more["enum"] = op["enum"]
            if op["desc"] != "none":
                more["description"] = op["desc"]
        try:
            if kind == "flag":
                res = str(inst.flag(op["n"], **args, **more).index)
            elif kind == "field":
                res = str(inst.field(op["n"], op["w"], **args, **more).index)
            elif kind == "pad":
                res = str(inst.pad(op["w"], val=number(op["v"]), **args))
            elif kind == "finalize":
                inst.finalize()
                res = "ok"
            elif kind == "on":
                key = op["key"]["n"] or op["key"]["i"]
                field = inst[key]
                how = op["how"]
                if how in ("raise", "lower", "flag"):
                    if not isinstance(field, BitFlag):
                        res = "not a flag"
                    elif how == "flag":
                        res = str(field.get())
                    elif how == "raise":
                        res = str(field.set()).lower()
                    else:
                        res = str(
                            field.clear()
                            if len(events) % 2
                            else field.set(False)
                        ).lower()
                else:
                    if how == "get":
                        val = field()
                    elif how == "set":
                        val = field(number(op["v"], op["neg"]))
                    else:
                        val = field.invert()
                    val = bits(val, width)
                    res = "<<" + ", ".join(str(x) for x in val) + ">>"
            elif kind == "raw":
                inst.raw.value = number(op["v"])
                res = "ok"
            elif kind == "reload":
                inst = watch(
                    BitFields.create(json.loads(json.dumps(inst.asdict())))
                )
                res = "ok"
            elif kind == "copy":
                twin = watch(copy.copy(inst))
                res = "ok"
            elif kind == "swap":
                if twin is None:
                    res = "none"
                else:
                    inst, twin = twin, inst
                    res = "ok"
            elif kind == "load":
                items = []
                for item in op["items"]:
                    out = {"width": item["w"]}
                    if item["n"]:
                        out["name"] = item["n"]
                        if item["enum"] != "none":
                            out["enum"] = item["enum"]
                        if item["desc"] != "none":
                            out["description"] = item["desc"]
                        if item["cmd"] or cfg.get("explicit"):
                            out["commandable"] = item["cmd"]
                    if item["ix"] != 9999:
                        out["index"] = item["ix"]
                    val = number(item["v"])
                    if val or cfg.get("explicit"):
                        out["value"] = val
                    items.append(out)
                data = {"type": f"uint{width}", "fields": items}
                if op["fin"] or cfg.get("explicit"):
                    data["finalized"] = op["fin"]
                inst = watch(BitFields.create(data))
                res = "ok"
        except KeyError:
            res = "KeyError"
        except AssertionError:
            res = "error"
        except Exception as exc:  # pylint: disable=broad-except
            res = type(exc).__name__
            if "Schema" in res or res == "ValidationError":
                res = "error"
        events.append(
            {
                "op": op,
                "obs": {
                    "res": res,
                    "all": view(inst),
                    "chg": list(changes),
                    "twin": view(twin) if twin is not None else [],
                },
            }
        )
    return events


MC = """
CONSTANTS Bits = 8
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS Disjoint Inside UniqueNames
CHECK_DEADLOCK FALSE
"""

NAMES = ["a", "B", "c", "d.e", "F-1", "_g", "9"]
BAD = ["a b", "x!", "a/b"]


def random_scenario(rng, length):
    """A random history."""

    width = rng.choice([8, 16, 32, 64])
    cfg = {"bits": width, "explicit": rng.random() < 0.5}
    ops = []

    def value(size):
        return [rng.randint(0, 1) for _ in range(size)]

    def entry(kind):
        wide = rng.choice([1, 2, 3, 4, 7, 8, width // 2, width])
        if kind == "flag":
            wide = 1
        wide = min(wide, width)
        return {
            "k": kind,
            "n": (
                rng.choice(NAMES * 3 + BAD)
                if kind != "pad" and not (kind == "i" and rng.random() < 0.25)
                else ""
            ),
            "ix": rng.choice([9999] * 3 + [rng.randint(-1, width)]),
            "w": wide,
            "v": [],
            "cmd": rng.random() < 0.3,
            "enum": rng.choice(["none", "none", "some.enum", "E1"]),
            "desc": rng.choice(["none", "none", "some text"]),
        }

    for _ in range(length):
        kind = rng.choice(
            ["flag"] * 2
            + ["field"] * 3
            + ["pad"]
            + ["on"] * 12
            + ["raw", "reload", "copy", "swap", "swap", "load"]
            + (["finalize"] if rng.random() < 0.2 else [])
        )
        if kind in ("flag", "field", "pad"):
            item = entry(kind)
            if kind == "pad":
                item["v"] = value(rng.choice([0, item["w"], item["w"] + 1]))
            ops.append(item)
        elif kind == "on":
            how = rng.choice(
                ["get", "set", "set", "set", "invert", "raise", "lower"]
                + ["flag"]
            )
            key = rng.choice(
                [{"n": rng.choice(NAMES), "i": 0}]
                + [{"n": "", "i": rng.randint(0, width - 1)}]
            )
            ops.append(
                {
                    "k": "on",
                    "how": how,
                    "key": key,
                    "v": (
                        value(rng.choice([0, 1, 2, 8, width, width + 3]))
                        if how == "set"
                        else []
                    ),
                    "neg": rng.randint(0, 1) if how == "set" else 0,
                }
            )
        elif kind == "raw":
            ops.append({"k": "raw", "v": value(width)})
        elif kind == "load":
            items = []
            start = 0
            for _ in range(rng.randint(0, 5)):
                item = entry("i")
                if item["n"] in BAD and rng.random() < 0.8:
                    item["n"] = rng.choice(NAMES)
                if item["ix"] < 0:
                    item["ix"] = 0
                # Mostly layouts that fit.
                if rng.random() < 0.8:
                    item["w"] = rng.choice([1, 1, 2, 3])
                    item["ix"] = rng.choice([9999, start])
                start += item["w"]
                item["v"] = value(
                    rng.choice([0, item["w"], item["w"], item["w"]])
                    + (rng.random() < 0.05)
                )
                items.append(item)
            seen = set()
            if rng.random() < 0.8:
                items = [
                    x
                    for x in items
                    if not (x["n"] in seen or (x["n"] and seen.add(x["n"])))
                ]
            ops.append(
                {"k": "load", "items": items, "fin": rng.random() < 0.2}
            )
        else:
            ops.append({"k": kind})
    return cfg, ops


def run(check: Check) -> None:
    """Entry."""

    scns = check.explore(
        "MCBitFields",
        MC.format(ops=check.pick(3, 4)),
        need=[
            "flag",
            "field",
            "pad",
            "on",
            "raw",
            "reload",
            "copy",
            "swap",
            "load",
            "finalize",
        ],
        workers=8,
        timeout=3000,
    )
    check.rng.shuffle(scns)
    jobs = [
        ({"bits": 8, "explicit": bool(i % 2)}, ops)
        for i, ops in enumerate(scns[: check.pick(6000, 60000)])
    ]
    for _ in range(check.pick(1500, 20000)):
        jobs.append(random_scenario(check.rng, check.rng.randint(5, 40)))
    traces = check.execute(execute, jobs)
    size = 20000
    for start in range(0, len(traces), size):
        check.validate(
            "TraceBitFields",
            "TraceBitFields.cfg",
            traces[start : start + size],
            timeout=1500,
        )
    check.assumptions.append(
        "widths of zero and subclasses of BitFields are out of scope"
    )
