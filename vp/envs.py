"""Channel environments (C07, C08): driver for spec/Env.tla."""

import contextlib
import json
import logging
import math
import tempfile

SETTERS = ("set", "item")


def show(value, kind=None):
    """Text of a value, telling types apart."""

    if isinstance(value, bool):
        return str(value)
    if isinstance(value, str):
        return "s" + value
    if isinstance(value, int):
        if kind is not None and kind.is_integer and kind.bits > 16:
            if value == kind.int_bounds.max:
                return "max"
            if value == kind.int_bounds.min and value < 0:
                return "min"
        return f"i{8 * value}"
    if isinstance(value, float):
        if math.isnan(value):
            return "nan"
        if abs(value) > 1e20:
            return "huge" if value > 0 else "-huge"
        scaled = 8 * value
        return (
            f"f{int(scaled)}" if scaled == int(scaled) else f"f?{value!r}"
        )
    return f"{type(value).__name__}:{value}"


def python(value):
    """The value a scenario asks for."""

    kind = value["t"]
    if kind == "i":
        return value["q"] // 8
    if kind == "f":
        return value["q"] / 8
    if kind == "b":
        return value["q"] != 0
    if kind == "x":
        return {"huge": 10**30, "-huge": -(10**30)}[value["s"]]
    if kind == "none":
        return None
    return value["s"]


def key_of(key):
    """Registry key."""
    return key["n"] or key["i"]


def enum_name(env, key):
    """Name of an enumeration by any kind of key."""
    item = env.enums[key]
    (name,) = [n for n, x in env.enums.items.items() if x is item]
    return name


def view(env):
    """Everything observable of an environment."""

    rows = []
    names = list(env.names)
    plain, resolved = env.values(resolve_enum=False), env.values()
    for name in names:
        ident = env.channels.names.identifier(name)
        if not env.exists(name):
            rows.append([name, ident, "?"])
            continue
        value = env.value(name)
        raw = env.value(name, resolve_enum=False, scaled=False)
        if env.fields.has_field(name):
            field = env.fields[name]
            row = [
                name,
                ident,
                "field",
                show(value),
                show(raw),
                field.commandable,
                enum_name(env, field.enum) if field.is_enum else "none",
                "none" if field.description is None else field.description,
                field.index,
                field.width,
            ]
            if name in env.channels.items or field.name != name:
                row.append("also a channel")
        else:
            chan, enum = env[name]
            kind = chan.raw.kind
            ename = "none"
            if chan.is_enum:
                ename = enum_name(env, chan.enum)
                if enum is not env.enums[chan.enum]:
                    ename = "inconsistent"
            elif enum is not None:
                ename = "unexpected"
            row = [
                name,
                ident,
                str(kind),
                show(value, kind),
                show(raw, kind),
                chan.commandable,
                ename,
                "none" if chan.description is None else chan.description,
                "none" if chan.default is None else show(chan.default),
                "slider" if (chan.controls or {}).get("slider") else "none",
            ]
            if chan.id != ident or str(chan.type) != row[2]:
                row.append("inconsistent")
            if env[ident][0] is not chan:
                row.append("other by identifier")
            if chan.event.primitive is not chan.raw:
                row.append("event of another primitive")
        if show(env.value(ident)) != show(value):
            row.append("value by identifier")
        # Values that aren't numbers aren't part of the collection.
        for group, full in ((resolved, True), (plain, False)):
            one = env.value(name, resolve_enum=full)
            gone = isinstance(one, float) and math.isnan(one)
            if (name in group) == gone or (
                not gone and show(group[name]) != show(one)
            ):
                row.append("values()")
        rows.append(row)
    rows.sort(key=lambda x: x[1])
    if list(env.search_names(".*")) != names:
        rows.append(["search_names"])
    if any(
        list(env.search_names(x, exact=True)) != [x] for x in names[:2]
    ):
        rows.append(["search_names exact"])
    enums = [
        [
            name,
            item.id,
            item.type.value if hasattr(item.type, "value") else str(item.type),
            sorted(
                ([k, int(v)] for k, v in item.asdict()["items"].items()),
                key=lambda x: x[1],
            ),
        ]
        for name, item in env.enums.items.items()
    ]
    enums.sort(key=lambda x: x[1])
    return [rows, enums, env.finalized]


def execute(cfg, ops):
    """Run a scenario on the real code."""

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.primitives import normalize
    from runtimepy.primitives.field import BitField, BitFlag

    logging.disable(logging.CRITICAL)
    env = ChannelEnvironment()
    cells = []
    events = []
    style = cfg.get("style", 0)
    cleared = {
        x["n"]
        for x in ops
        if x["k"] == "default" and x["def"]["t"] == "none"
    }

    def enum_key(name):
        """One of the ways to refer to an enumeration."""
        if name == "nope":
            return name
        item = env.enums[name]
        how = (style + len(events)) % 3
        return [name, item.id, item][how]

    for op in ops:
        kind = op["k"]
        res = ""
        turn = style + len(events)
        try:
            if kind == "enum":
                conv = bool if op["kind"] == "bool" else int
                res = str(
                    env.enum(
                        op["n"],
                        op["kind"],
                        {n: conv(v) for n, v in op["ps"]},
                    ).id
                )
            elif kind == "cell":
                val = op["v"] // 8
                cells.append(normalize(op["kind"])(value=val))
                res = "ok"
            elif kind == "chan":
                args = {"commandable": op["cmd"]}
                if op["e"] != "none":
                    args["enum"] = enum_key(op["e"])
                if op["desc"] != "none":
                    args["description"] = op["desc"]
                controls = {}
                if op["ui"] == "slider":
                    controls["slider"] = {"min": 0, "max": 5, "step": 1}
                if op["def"]["t"] != "none":
                    # (A default in the controls can't be cleared later.)
                    if turn % 2 and op["n"] not in cleared:
                        controls["default"] = python(op["def"])
                    else:
                        args["default"] = python(op["def"])
                if controls:
                    args["controls"] = controls
                if op["sc"]:
                    args["scaling"] = list(op["sc"])
                func = {
                    "any": env.channel,
                    "int": env.int_channel,
                    "bool": env.bool_channel,
                    "float": env.float_channel,
                }[op["how"]]
                name = op["n"]
                what = op["kind"]
                if op["prim"]:
                    what = cells[op["prim"] - 1]
                with contextlib.ExitStack() as stack:
                    if name.count(".") == 1 and turn % 3:
                        space, name = name.split(".")
                        env.push_name(space)
                        stack.callback(env.pop_name, space)
                    got = func(name, what, **args)
                chan = got if op["how"] == "float" else got[0]
                if not op["prim"]:
                    cells.append(chan.raw)
                elif chan.raw is not cells[op["prim"] - 1]:
                    res = "another primitive "
                res += str(chan.id)
            elif kind == "field":
                args = {"commandable": op["cmd"]}
                if op["e"] != "none":
                    key = enum_key(op["e"])
                    args["enum"] = getattr(key, "id", key)
                if op["desc"] != "none":
                    args["description"] = op["desc"]
                raw = cells[op["prim"] - 1]
                if op["w"] == 1:
                    item = BitFlag(op["n"], raw, op["ix"], **args)
                else:
                    item = BitField(op["n"], raw, op["ix"], op["w"], **args)
                env.add_field(item)
                res = "ok"
            elif kind == "finalize":
                env.finalize(strict=op["strict"])
                res = "ok"
            elif kind == "set":
                key, val = key_of(op["key"]), python(op["v"])
                chan = env.get(key)
                if (
                    op["v"]["t"] == "x"
                    and turn % 3
                    and chan is not None
                    and chan[0].raw.kind.is_float
                ):
                    val *= float("inf")
                if not op["scaled"]:
                    env.set(key, val, scaled=False)
                elif turn % 2:
                    env[key] = val
                else:
                    env.set(key, val)
                res = "ok"
            elif kind == "apply":
                env.apply({key_of(x["key"]): python(x["v"]) for x in op["vs"]})
                res = "ok"
            elif kind == "add":
                key = key_of(op["key"])
                val = env.add_int(key, op["v"])
                res = show(val, env[key][0].raw.kind)
            elif kind == "ask":
                key, how = key_of(op["key"]), op["how"]
                if how == "exists":
                    res = str(env.exists(key))
                elif how == "what":
                    item = env.field_or_channel(key)
                    res = (
                        "none"
                        if item is None
                        else "field" if isinstance(item, BitField) else "channel"
                    )
                elif how == "get_float":
                    res = str(env.get_float(key).id)
                elif how.startswith("get_"):
                    res = str(getattr(env, how)(key)[0].id)
                else:
                    value = env.value(
                        key,
                        resolve_enum=how == "unscaled",
                        scaled=how == "scaled",
                    )
                    chan = env.get(key)
                    res = show(value, chan[0].raw.kind if chan else None)
            elif kind == "default":
                env.set_default(op["n"], python(op["def"]))
                res = str(env.num_defaults)
            elif kind == "reload":
                resolve = turn % 4 < 2
                if turn % 2:
                    with tempfile.TemporaryDirectory() as tmp:
                        env.export_directory(tmp, resolve_enum=resolve)
                        new = ChannelEnvironment.load_directory(
                            tmp, finalize=op["fin"]
                        )
                else:
                    text = json.dumps(env.export_json(resolve_enum=resolve))
                    new = ChannelEnvironment.load_json(
                        json.loads(text), finalize=op["fin"]
                    )
                res = "equal" if new == env else "different"
                before = env.export_json()
                # Exporting finalizes: look at an identical one instead.
                after = ChannelEnvironment.load_json(
                    json.loads(json.dumps(before))
                ).export_json()
                for part in ("channels", "enums", "names", "fields"):
                    if before[part] != after[part]:
                        res = f"different {part}"
                chans = [
                    x.raw
                    for x in sorted(
                        new.channels.items.values(), key=lambda x: x.id
                    )
                ]
                env = new
                cells = chans + [x.raw for x in new.fields.fields]
        except Exception as exc:  # pylint: disable=broad-except
            res = type(exc).__name__
            if "Schema" in res or res == "ValidationError":
                res = "AssertionError"
        events.append({"op": op, "obs": {"res": res, "all": view(env)}})
    return events


MC = """
CONSTANTS Mode = "{mode}"
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS OneName Ordered Known InRange
CHECK_DEADLOCK FALSE
"""

NONE = {"t": "none", "q": 0}
INTS = [
    "int8",
    "uint8",
    "int16",
    "uint16",
    "int32",
    "uint32",
    "int64",
    "uint64",
]
INT_TEXT = ["5", "-1", " 2 ", "300", "0", "1"]
FLOAT_TEXT = ["2.5", "-0.5", "1e2"]
BOOL_TEXT = ["true", "True", "false", "FALSE"]
NAMES = ["a", "b.c", "D", "e-1", "_f", "g", "H.i", "jj", "k0", "Long_name"]
FIELD_NAMES = ["f1", "F2", "f.3", "f-4", "f5", "f6"]


class Builder:
    """Builds random histories, knowing what exists."""

    def __init__(self, rng, save):
        self.rng = rng
        self.save = save
        self.chans = {}
        self.fields = {}
        self.cells = []
        self.used = {}
        self.enums = {}
        self.fin = False
        self.ops = []
        self.shared = set()

    def small(self):
        """A number, in eighths."""
        return self.rng.choice(
            [0, 8, 16, 40, -8, -24, 1600, 2400, 8 * self.rng.randint(-9, 9)]
        )

    def key(self, want=None):
        """Some key."""
        rng = self.rng
        if want:
            return {"n": want, "i": 0}
        if rng.random() < 0.3:
            return {"n": "", "i": rng.randint(1, 12)}
        pool = list(self.chans) + list(self.fields) + ["zz"]
        return {"n": rng.choice(pool), "i": 0}

    def make(self):
        """Something new."""
        rng = self.rng
        what = rng.choice(["enum", "chan", "chan", "chan", "cell", "field"])
        if what == "enum":
            name = rng.choice(["E", "B", "S.x", "T/u", "a b"])
            kind = rng.choice(["int", "bool"])
            items = (
                rng.choice(
                    [
                        [["zero", 0], ["one", 1], ["five", 5]],
                        [["lo", 7], ["hi", 200]],
                    ]
                )
                if kind == "int"
                else rng.choice([[["off", 0], ["on", 1]], [["yes", 1]]])
            )
            self.ops.append({"k": what, "n": name, "kind": kind, "ps": items})
            if name != "a b" and name not in self.enums:
                self.enums[name] = kind
        elif what == "cell":
            kind = rng.choice(["uint8", "uint16", "int8", "bool"])
            val = rng.choice([0, 8, 40]) if kind != "bool" else 8
            self.ops.append({"k": what, "kind": kind, "v": val})
            self.cells.append(kind)
        elif what == "chan":
            kind = rng.choice(INTS + ["bool", "float", "double"])
            prim = 0
            if self.cells and rng.random() < 0.2:
                prim = rng.randint(1, len(self.cells))
                kind = self.cells[prim - 1]
                if prim in self.shared:
                    return
            typ = (
                "bool"
                if kind == "bool"
                else "int" if "int" in kind else "float"
            )
            how = rng.choice(["any", typ, typ, rng.choice(["int", "float"])])
            enum = "none"
            if "float" not in (typ, how) and rng.random() < 0.4:
                pool = [n for n, k in self.enums.items() if k == typ]
                enum = rng.choice(pool + ["nope"])
            scaling = []
            if (
                not self.save
                and not prim
                and typ != "bool"
                and kind not in INTS[4:]
                and rng.random() < 0.4
            ):
                scaling = [rng.choice([0, 1, -3]), rng.choice([1, 2, -1, -2])]
            default = NONE
            if rng.random() < 0.3:
                default = {
                    "t": {"bool": "b", "int": "i", "float": "f"}[typ],
                    "q": rng.choice([0, 8, 40, 16]),
                }
                if typ == "bool":
                    default["q"] = rng.choice([0, 8])
                if rng.random() < 0.1:
                    default["t"] = rng.choice(["i", "f"])
            name = rng.choice(NAMES * 3 + ["a b", "", "x!"])
            # Text fits everything that isn't asked for.
            op = {
                "k": what,
                "n": name,
                "how": how,
                "kind": kind,
                "prim": prim,
                "e": enum,
                "cmd": rng.random() < 0.5,
                "desc": rng.choice(["none", "some text"]),
                "def": default,
                "sc": scaling,
                "ui": rng.choice(["none", "slider"]),
            }
            self.ops.append(op)
            fits = (
                default["t"] == "none"
                or (typ == "bool" and default["t"] == "b")
                or (typ == "int" and default["t"] in ("i", "b"))
                or (typ == "float" and default["t"] == "f")
            )
            if (
                name in NAMES
                and name not in self.chans
                and not self.fin
                and enum != "nope"
                and fits
                and how in ("any", typ)
            ):
                self.chans[name] = (kind, scaling, enum)
                if not prim:
                    self.cells.append(kind)
                else:
                    self.shared.add(prim)
        elif what == "field" and not self.fin:
            pool = [
                i
                for i, k in enumerate(self.cells, 1)
                if k in ("uint8", "uint16")
                and self.used.get(i, 0) < 8
                and (i not in self.shared or not self.save)
            ]
            free = [x for x in FIELD_NAMES if x not in self.fields]
            if not pool or not free:
                return
            prim = rng.choice(pool)
            start = self.used.get(prim, 0)
            width = min(rng.choice([1, 1, 2, 3, 5]), 8 - start)
            enum = "none"
            if rng.random() < 0.4:
                enums = [
                    n
                    for n, k in self.enums.items()
                    if (width == 1) == (k == "bool")
                ]
                enum = rng.choice(enums + ["none"])
            name = rng.choice(free)
            self.used[prim] = start + width
            self.fields[name] = (width, enum)
            self.shared.add(prim)
            self.ops.append(
                {
                    "k": what,
                    "n": name,
                    "prim": prim,
                    "ix": start,
                    "w": width,
                    "e": enum,
                    "cmd": rng.random() < 0.5,
                    "desc": rng.choice(["none", "a field"]),
                }
            )

    def value(self, kind, scaling, enum, scaled):
        """A value to set."""
        rng = self.rng
        what = rng.choice(["i", "i", "b", "s", "s", "f", "x"])
        wide = kind in INTS[4:]
        if not scaled and what in ("f", "x"):
            what = "i"
        if what == "i":
            val = self.small()
            if wide and not scaled:
                val = abs(val)
            if scaling and kind in ("float", "double"):
                val = rng.choice([0, 8, 16, -8, 40])
            return {"t": "i", "q": val, "s": ""}
        if what == "b":
            return {"t": "b", "q": rng.choice([0, 8]), "s": ""}
        if what == "f":
            val = rng.choice([4, 20, -4, 12, 28, 8, 2, 6])
            if scaling and kind in ("float", "double"):
                val = rng.choice([4, 20, 8])
            return {"t": "f", "q": val, "s": ""}
        if what == "x":
            return {"t": "x", "q": 0, "s": rng.choice(["huge", "-huge"])}
        pool = INT_TEXT + BOOL_TEXT + ["zero", "one", "hi", "on", "off", "q"]
        if scaled:
            pool = pool + FLOAT_TEXT
            if kind in ("float", "double"):
                pool = pool + ["nan"]
        elif wide:
            pool = [x for x in pool if x != "-1"]
        return {"t": "s", "q": 0, "s": rng.choice(pool)}

    def set(self):
        """Set some value."""
        rng = self.rng
        key = self.key()
        name = key["n"]
        scaled = rng.random() < 0.75
        if name in self.chans:
            val = self.value(*self.chans[name], scaled)
        else:
            # By identifier: something every kind can take.
            scaled = True
            val = rng.choice(
                [
                    {"t": "i", "q": rng.choice([0, 8, 16]), "s": ""},
                    {"t": "b", "q": 8, "s": ""},
                    {"t": "s", "q": 0, "s": rng.choice(INT_TEXT + BOOL_TEXT)},
                ]
            )
            if name in self.fields and rng.random() < 0.5:
                val = self.value("uint8", [], self.fields[name][1], True)
        self.ops.append({"k": "set", "key": key, "v": val, "scaled": scaled})

    def build(self, length):
        """A history."""
        rng = self.rng
        for _ in range(rng.randint(3, 9)):
            self.make()
        for _ in range(length):
            kind = rng.choice(
                ["make", "make"]
                + ["set"] * 8
                + ["apply", "add", "ask", "ask", "default"]
                + (["reload", "reload"] if self.save else [])
                + (["finalize"] if rng.random() < 0.3 else [])
            )
            if kind == "make":
                self.make()
            elif kind == "set":
                self.set()
            elif kind == "finalize":
                strict = rng.random() < 0.5
                self.ops.append({"k": kind, "strict": strict})
                self.fin = True
            elif kind == "apply":
                saved = self.ops
                self.ops = []
                for _ in range(rng.randint(1, 3)):
                    self.set()
                sets, self.ops = self.ops, saved
                sets = [x for x in sets if x["scaled"]]
                seen = set()
                vals = []
                for item in sets:
                    mark = str(item["key"])
                    if mark not in seen:
                        seen.add(mark)
                        vals.append({"key": item["key"], "v": item["v"]})
                if vals:
                    self.ops.append({"k": kind, "vs": vals})
            elif kind == "add":
                key = self.key()
                name = key["n"]
                small = name in self.chans and self.chans[name][0] in INTS[:4]
                if name in self.chans and not small:
                    # Only small additions to wide integers.
                    val = rng.choice([0, 0, 1]) if False else 0
                else:
                    val = rng.choice([1, -3, 250, 70000]) if name else 0
                self.ops.append({"k": kind, "key": key, "v": val})
            elif kind == "ask":
                self.ops.append(
                    {
                        "k": kind,
                        "how": rng.choice(
                            [
                                "exists",
                                "what",
                                "get_int",
                                "get_bool",
                                "get_float",
                                "unscaled",
                                "scaled",
                            ]
                        ),
                        "key": self.key(),
                    }
                )
            elif kind == "default":
                names = [n for n in self.chans] + ["zz"]
                name = rng.choice(names)
                default = NONE
                if name in self.chans and rng.random() < 0.7:
                    what = self.chans[name][0]
                    default = {
                        "t": (
                            "b"
                            if what == "bool"
                            else "i" if "int" in what else "f"
                        ),
                        "q": rng.choice([0, 8]),
                    }
                self.ops.append({"k": kind, "n": name, "def": default})
            elif kind == "reload":
                final = rng.random() < 0.5
                self.ops.append({"k": kind, "fin": final})
                self.fin = final
                # New storage: fields take no more bits.
                count = len(self.chans)
                self.cells = [x[0] for x in self.chans.values()]
                self.shared = set(range(1, count + 1))
                self.used = {}
        return self.ops


def random_scenario(rng, save, length):
    """A random history."""
    ops = Builder(rng, save).build(length)
    return {"style": rng.randrange(12)}, ops
