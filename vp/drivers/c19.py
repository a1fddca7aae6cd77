"""C19: the layout of composed messages."""

from io import BytesIO
import json
import logging

from vp.core import Check

KINDS = [
    "uint8",
    "uint16",
    "uint32",
    "uint64",
    "int8",
    "int16",
    "int32",
    "int64",
    "half",
    "float",
    "double",
    "bool",
]
SIZES = [1, 2, 4, 8, 1, 2, 4, 8, 2, 4, 8, 1]
FORMATS = "BHIQbhiqefd?"
ITEMS = {
    1: {"i1": 1, "i2": 2, "i3": 200},
    2: {"i1": 1, "i2": 300},
    3: {"i1": False, "i2": True},
    4: {"native": 1, "little_endian": 2, "big_endian": 3, "network": 4},
}
WIDTH = {1: 1, 2: 2, 3: 1, 4: 1}
VALUES = {1: [1, 2, 200], 2: [1, 300], 3: [0, 1], 4: [1, 2, 3, 4]}


def python(kind, data):
    """A value, from its bytes (most significant first)."""
    import struct

    return struct.unpack(">" + FORMATS[kind - 1], bytes(data))[0]


def number(value, size):
    """A number as bytes."""
    return list(int(value).to_bytes(size, "big"))


def execute(cfg, ops):
    """Run a scenario on the real code."""

    import copy
    import struct

    from runtimepy.codec.protocol import Protocol
    from runtimepy.codec.system import TypeSystem
    from runtimepy.enum.registry import EnumRegistry
    from runtimepy.primitives import create
    from runtimepy.primitives.array import PrimitiveArray
    from runtimepy.primitives.byte_order import ByteOrder
    from runtimepy.primitives.serializable import FixedChunk, PrefixedChunk
    from runtimepy.primitives.string import StringPrimitive

    logging.disable(logging.CRITICAL)
    style = cfg.get("style", 0)
    types = TypeSystem(*["".join(x) for x in cfg["root"]])
    msgs = []

    def order(which, registry=False):
        """A byte order."""
        names = (
            ["BIG_ENDIAN", "NETWORK"]
            if which == "b"
            else ["LITTLE_ENDIAN", "NATIVE"]
        )
        name = names[(style + len(msgs)) % 2]
        if registry and style % 3 == 0:
            return name.lower()
        return ByteOrder[name]

    def enums():
        result = EnumRegistry()
        for num in (1, 2, 3):
            result.enum(
                f"e{num}",
                "bool" if num == 3 else "int",
                items=dict(ITEMS[num]),
                primitive=f"uint{8 * WIDTH[num]}",
            )
        return result

    class Msg:
        """A message: what it is, its names in order."""

        def __init__(self, real, names=(), bare=False):
            self.real = real
            self.names = list(names)
            self.bare = bare

        @property
        def array(self):
            return self.real if self.bare else self.real.array

        def read(self, name, kind, prim, enum):
            """The value a name has."""
            if kind == "part":
                return [3]
            try:
                val = self.real[name]
            except Exception as exc:  # pylint: disable=broad-except
                return [type(exc).__name__]
            return self.form(val, name, kind, prim, enum)

        def form(self, val, _, kind, prim, enum):
            """A value as it's specified."""
            if val is None:
                return ["none"]
            if kind == "text":
                return [2] + list(val.encode())
            if isinstance(val, str):
                return [1, list(ITEMS[enum]).index(val) + 1]
            if kind == "bits":
                return [0, int(val)]
            return [0] + list(struct.pack(">" + FORMATS[prim - 1], val))

        def view(self):
            """Everything observable."""
            array = self.array
            with BytesIO() as stream:
                count = array.to_stream(stream)
                data = list(stream.getvalue())
            size = array.length() if self.bare else self.real.size
            where = []
            while True:
                try:
                    at = array.byte_at_index(len(where))
                    if array.index_at_byte(at) != len(where):
                        at = ["index", array.index_at_byte(at)]
                    where.append(at)
                except KeyError:
                    break
            return [
                size if size == count == len(data) else [size, count],
                data,
                0 if self.bare else self.real.id,
                [
                    [self.real.names.identifier(x[0]) or 0, self.read(*x)]
                    for x in self.names
                ],
                [
                    list(array.fragment_bytes(i))
                    for i in range(array.num_fragments)
                ],
                where,
            ]

    def text(chars):
        return "".join(chars)

    def find(name, space, exact):
        """Find out what a name stands for."""
        try:
            size = types.size(text(name), *space, exact=exact)
        except AssertionError:
            return ["unknown", []]
        try:
            got = types.get_protocol(text(name), *space, exact=exact)
            index = [i for i, x in enumerate(msgs) if x.real is got]
            return ["type", [index[0] + 1 if index else 0, size]]
        except KeyError:
            pass
        try:
            got = types.get_enum(text(name), *space, exact=exact)
            index = [
                i for i, x in ITEMS.items() if got.ints.asdict() == x
            ]
            return ["enum", [index[0] if index else 0, size]]
        except KeyError:
            return ["kind", [0, size]]

    def do(op):
        """Perform an operation."""
        kind = op["k"]
        msg = msgs[op["m"] - 1] if "m" in op else None
        if kind == "new":
            if op["bare"]:
                msgs.append(
                    Msg(PrimitiveArray(byte_order=order(op["o"])), bare=True)
                )
            else:
                msgs.append(
                    Msg(
                        Protocol(
                            enums(),
                            identifier=op["id"],
                            byte_order=order(op["o"], registry=True),
                        )
                    )
                )
        elif kind == "field":
            length = (
                op["len"] if op["len"] > 1 or style % 2 else None
            )
            if msg.bare:
                if style % 2:
                    msg.real.add_primitive(
                        KINDS[op["i"] - 1], array_length=length
                    )
                else:
                    msg.real.add(
                        create(KINDS[op["i"] - 1]), array_length=length
                    )
            elif op["e"]:
                msg.real.add_field(
                    op["n"], enum=f"e{op['e']}", array_length=length
                )
                msg.names.append(
                    (op["n"], "enum", 1 if WIDTH[op["e"]] == 1 else 2, op["e"])
                )
            else:
                msg.real.add_field(
                    op["n"], KINDS[op["i"] - 1], array_length=length
                )
                msg.names.append((op["n"], "field", op["i"], 0))
        elif kind == "bits":
            with msg.real.add_bit_fields(KINDS[op["i"] - 1]) as fields:
                for name, width, enum in op["fs"]:
                    more = {"enum": f"e{enum}"} if enum else {}
                    if width == 1:
                        fields.flag(name, **more)
                    else:
                        fields.field(name, width, **more)
                    msg.names.append((name, "bits", 0, enum))
        elif kind in ("chunk", "nest"):
            if kind == "nest":
                item = msgs[op["s"] - 1].array.copy()
            elif op["t"] == "fix":
                item = FixedChunk(bytes(op["v"]))
            else:
                prefix = create(f"uint{8 * op['z']}")
                item = PrefixedChunk(prefix, byte_order=order(op["o"]))
                if style % 2:
                    item.update(bytes(op["v"]))
                else:
                    item.update_str(bytes(op["v"]).decode())
            length = op["len"] if op["len"] > 1 or style % 2 else None
            if msg.bare:
                msg.real.add_to_end(item, array_length=length)
            else:
                if style % 3:
                    msg.real.add_serializable(
                        op["n"], item, array_length=length
                    )
                else:
                    msg.real.add_field(
                        op["n"], serializable=item, array_length=length
                    )
                msg.names.append(
                    (op["n"], "part" if kind == "nest" else "text", 0, 0)
                )
        elif kind == "set":
            name, what, prim, enum = msg.names[op["p"] - 1]
            if what == "text":
                val = bytes(op["v"]).decode()
            elif op["it"]:
                val = list(ITEMS[enum])[op["it"] - 1]
            elif what == "bits":
                val = op["v"][0]
            else:
                val = python(prim, op["v"])
            msg.real[name] = val
        elif kind in ("read", "from"):
            data = bytes(op.get("d", []))
            if kind == "from":
                with BytesIO() as stream:
                    msgs[op["s"] - 1].array.to_stream(stream)
                    data = stream.getvalue() + bytes([7, 7])
            with BytesIO(data) as stream:
                count = msg.array.from_stream(stream)
                if stream.tell() != count:
                    count = [count, stream.tell()]
            return ["", [count]]
        elif kind == "frag":
            array = msg.array
            if op["by"]:
                start = array.byte_at_index(op["a"])
                end = array.byte_at_index(op["b"]) if op["b"] >= 0 else -1
                return ["", [array.fragment_from_byte_indices(start, end)]]
            return ["", [array.fragment_from_indices(op["a"], op["b"])]]
        elif kind == "fset":
            msg.array.update_fragment(op["f"] - 1, bytes(op["d"]))
        elif kind == "reset":
            msg.array.reset()
        elif kind == "copy":
            if msg.bare and style % 2:
                msgs.append(Msg(msg.real.copy(), bare=True))
            else:
                msgs.append(Msg(copy.copy(msg.real), msg.names, msg.bare))
        elif kind == "array":
            msgs.append(Msg(msg.array.copy(), bare=True))
        elif kind == "json":
            data = msg.real.export_json(resolve_enum=op["x"])
            if style % 2:
                data = json.loads(json.dumps(data))
                Protocol.import_json(data)
            elif op["x"]:
                data = json.loads(msg.real.meta_str())
            vals = dict(data["values"]) if "values" in data else {}
            msgs.append(Msg(Protocol.import_json(data), msg.names))
            return ["", [msg.form(vals.get(x[0]), *x) for x in msg.names]]
        elif kind == "str":
            prefix = type(create(f"uint{8 * op['z']}"))
            string = StringPrimitive(kind=prefix, byte_order=order(op["o"]))
            value = bytes(op["v"]).decode()
            if style % 2:
                string = StringPrimitive(
                    value, kind=prefix, byte_order=order(op["o"])
                )
            else:
                string.set(value)
            with BytesIO() as stream:
                size = string.write(stream)
                data = list(stream.getvalue())
                stream.seek(0)
                if string.size != size:
                    size = [size, string.size]
                stream.write(bytes(data) + b"more")
                stream.seek(0)
                got = StringPrimitive.from_stream(
                    stream, kind=prefix, byte_order=order(op["o"])
                )
                if stream.tell() != len(data) or got.size != len(data):
                    size = [size, stream.tell(), got.size]
            return ["", [size, data, list(got.value.encode())]]
        elif kind == "treg":
            try:
                msgs.append(Msg(types.register(text(op["n"]), *map(text, op["ns"]))))
            except AssertionError:
                return ["taken", []]
        elif kind == "tenum":
            try:
                types.enum(
                    text(op["n"]),
                    dict(ITEMS[op["e"]]),
                    *map(text, op["ns"]),
                    primitive=f"uint{8 * WIDTH[op['e']]}",
                )
            except AssertionError:
                return ["taken", []]
        elif kind == "tadd":
            length = op["len"] if op["len"] > 1 or style % 2 else None
            before = [x.real.array.length() for x in msgs if not x.bare]
            try:
                types.add(
                    text(op["n"]),
                    op["name"],
                    text(op["f"]),
                    array_length=length,
                    exact=op["x"],
                )
            except AssertionError:
                return ["unknown", []]
            del before
            # Find out which of them it's part of.
            what = find(op["f"], [], op["x"])
            for msg in msgs:
                if (
                    not msg.bare
                    and msg.real.names.identifier(op["name"]) is not None
                    and op["name"] not in [x[0] for x in msg.names]
                ):
                    if what[0] == "type":
                        entry = ("part", 0, 0)
                    elif what[0] == "enum":
                        entry = ("enum", what[1][1], what[1][0])
                    else:
                        field = types.primitives[
                            types._find_name(  # pylint: disable=protected-access
                                text(op["f"]), exact=op["x"]
                            )
                        ]
                        entry = ("field", KINDS.index(field.name) + 1, 0)
                    msg.names.append((op["name"],) + entry)
        elif kind == "tfind":
            return find(op["n"], [text(x) for x in op["ns"]], op["x"])
        else:
            raise ValueError(kind)
        return ["", []]

    events = []
    for op in ops:
        try:
            result = do(op)
        except Exception as exc:  # pylint: disable=broad-except
            result = [type(exc).__name__, str(exc)[:100]]
        events.append(
            {
                "op": op,
                "obs": {"r": result, "ms": [x.view() for x in msgs]},
            }
        )
    return events


MC = """
CONSTANTS Cfgs <- ConstCfgs
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip NamesApart TypesApart
CHECK_DEADLOCK FALSE
"""


def new(bare, which, ident=5):
    """An operation that creates a message."""
    return {"k": "new", "bare": bare, "o": which, "id": ident}


STARTS = [[new(False, "b")], [new(False, "l")], [new(True, "l")], []]
ROOTS = [[], [], [], [["n"]]]


class Shape:
    """What a scenario knows of a message."""

    def __init__(self, bare, which):
        self.bare = bare
        self.order = which
        self.slots = []
        self.names = []
        self.head = 0
        self.whole = True
        self.frags = []
        self.last = which

    def clone(self, bare=None):
        """Copy this shape."""
        out = Shape(self.bare if bare is None else bare, self.order)
        out.slots = [dict(x) for x in self.slots]
        out.names = [] if out.bare else list(self.names)
        out.head = self.head
        out.whole = self.whole
        out.frags = list(self.frags) if out.bare else []
        out.last = self.last
        return out

    @property
    def size(self):
        """The number of bytes."""
        return sum(x["z"] + x["n"] for x in self.slots)

    def alike(self, other):
        """Can one read what the other wrote?"""
        return [
            (x["t"], x["z"], x["o"], x["i"], x["n"] if x["t"] == "fix" else 0)
            for x in self.slots
        ] == [
            (x["t"], x["z"], x["o"], x["i"], x["n"] if x["t"] == "fix" else 0)
            for x in other.slots
        ]


def noise(rng, count, low=False):
    """Random bytes that aren't part of a NaN."""
    return [
        rng.choice([0, 1, 2, 60, 63] if low else [0, 1, 2, 60, 128, 191, 177])
        for _ in range(count)
    ]


def random_scenario(rng, length):
    """A random history."""

    shapes = []
    ops = []

    def slot(kind, shape, bare=True):
        return {
            "t": "prim",
            "z": SIZES[kind - 1],
            "n": 0,
            "o": shape.order,
            "i": kind == 12,
        }

    def create(bare, which):
        shapes.append(Shape(bare, which))
        ops.append(new(bare, which, 0 if bare else rng.randint(1, 9)))

    create(rng.random() < 0.3, rng.choice("bl"))
    fresh = 0
    for _ in range(length * 20):
        if len(ops) >= length:
            break
        num = rng.randrange(len(shapes))
        shape = shapes[num]
        base = {"m": num + 1}
        fresh += 1
        name = rng.choice(["f", "x.y", "F-"]) + str(fresh)
        roll = rng.random()
        full = len(shape.slots) > 14
        count = rng.choice([1, 1, 1, 2, 3])
        if roll > 0.985:
            data = "".join(
                rng.choice("aZ \u00e9\u20ac\U0001f600")
                for _ in range(rng.choice([0, 1, 3, 60]))
            )
            ops.append(
                {
                    "k": "str",
                    "o": rng.choice("bl"),
                    "z": rng.choice([1, 2, 4]),
                    "v": list(data.encode()),
                }
            )
        elif roll < 0.05 and len(shapes) < 5:
            create(rng.random() < 0.3, rng.choice("bl"))
        elif roll < 0.25 and not full:
            if shape.bare and shape.last != shape.order:
                continue
            kind = rng.randint(1, 12)
            enum = 0 if shape.bare else rng.choice([0, 0, 1, 2, 3])
            if enum:
                kind = 1 if WIDTH[enum] == 1 else 2
            ops.append(
                {
                    "k": "field",
                    **base,
                    "n": name,
                    "i": 0 if enum else kind,
                    "e": enum,
                    "len": count,
                }
            )
            if not shape.bare:
                shape.names.append(
                    ("enum" if enum else "field", len(shape.slots), enum, kind)
                )
            for _ in range(count):
                shape.slots.append(slot(kind, shape))
            if shape.whole:
                shape.head += count
        elif roll < 0.31 and not full and not shape.bare:
            kind = rng.choice([1, 2, 3])
            left = 8 * SIZES[kind - 1]
            fields = []
            for sub in range(rng.randint(1, 4)):
                width = rng.choice([1, 1, 2, 3, 7])
                if width > left:
                    break
                left -= width
                enum = rng.choice([0, 0, 3 if width == 1 else 1])
                fields.append([f"{name}.{sub}", width, enum])
                shape.names.append(("bits", len(shape.slots), enum, width))
            ops.append({"k": "bits", **base, "i": kind, "fs": fields})
            shape.slots.append(slot(kind, shape))
            if shape.whole:
                shape.head += 1
        elif roll < 0.37 and not full:
            what = rng.choice(["fix", "pre"])
            data = [rng.randint(48, 90) for _ in range(rng.randint(0, 4))]
            size = rng.choice([1, 2, 4]) if what == "pre" else 0
            which = rng.choice("bl") if what == "pre" else "b"
            ops.append(
                {
                    "k": "chunk",
                    **base,
                    "n": name,
                    "t": what,
                    "o": which,
                    "z": size,
                    "v": data,
                    "len": count,
                }
            )
            if not shape.bare:
                shape.names.append(("text", len(shape.slots), 0, size))
            for _ in range(count):
                shape.slots.append(
                    {"t": what, "z": size, "n": len(data), "o": which, "i": 0}
                )
            shape.whole = False
            shape.last = shape.order
        elif roll < 0.45 and not full:
            src = rng.randrange(len(shapes))
            other = shapes[src]
            if (
                src == num
                or not 0 < len(other.slots) < 8
                or (other.bare and other.last != other.order)
                or other.last != other.order
            ):
                continue
            ops.append(
                {"k": "nest", **base, "n": name, "s": src + 1, "len": count}
            )
            if not shape.bare:
                shape.names.append(("part", len(shape.slots), 0, 0))
            for _ in range(count):
                shape.slots.extend(dict(x) for x in other.slots)
            shape.whole = False
            if shape.bare:
                shape.last = other.order
        elif roll < 0.52 and len(shapes) < 5:
            shapes.append(shape.clone())
            ops.append({"k": "copy", **base})
        elif roll < 0.55 and len(shapes) < 5:
            other = shape.clone(bare=True)
            other.frags = list(shape.frags)
            shapes.append(other)
            ops.append({"k": "array", **base})
        elif roll < 0.6 and len(shapes) < 5 and not shape.bare:
            if all(x[0] in ("field", "enum", "bits") for x in shape.names):
                other = shape.clone()
                other.frags = []
                shapes.append(other)
                ops.append({"k": "json", **base, "x": rng.random() < 0.5})
        elif roll < 0.66 and shape.head:
            start = rng.randrange(shape.head)
            end = rng.randint(start + 1, shape.head)
            shape.frags.append((start, end))
            ops.append(
                {
                    "k": "frag",
                    **base,
                    "a": start,
                    "b": end if end < shape.head or rng.random() < 0.5 else -1,
                    "by": rng.random() < 0.5,
                }
            )
        elif roll < 0.7 and shape.frags:
            pick = rng.randrange(len(shape.frags))
            start, end = shape.frags[pick]
            size = sum(x["z"] for x in shape.slots[start:end])
            ops.append(
                {"k": "fset", **base, "f": pick + 1, "d": noise(rng, size)}
            )
        elif roll < 0.71 and shape.bare and shape.whole:
            ops.append({"k": "reset", **base})
            shapes[num] = Shape(True, shape.order)
        elif roll < 0.78:
            if any(x["t"] == "pre" for x in shape.slots):
                continue
            low = any(x["t"] == "fix" for x in shape.slots)
            ops.append(
                {
                    "k": "read",
                    **base,
                    "d": noise(rng, shape.size + rng.choice([0, 0, 3]), low),
                }
            )
        elif roll < 0.85:
            others = [
                i
                for i, x in enumerate(shapes)
                if i != num and shape.alike(x)
            ]
            if others:
                src = rng.choice(others)
                ops.append({"k": "from", **base, "s": src + 1})
                for mine, theirs in zip(shape.slots, shapes[src].slots):
                    mine["n"] = theirs["n"]
        elif shape.names:
            pick = rng.randrange(len(shape.names))
            what, index, enum, width = shape.names[pick]
            if what == "part":
                continue
            item = 0
            if enum and rng.random() < 0.5:
                item = rng.randint(1, len(VALUES[enum]))
                if (
                    what == "bits"
                    and VALUES[enum][item - 1] >> width
                ):
                    continue
            if item:
                data = []
            elif what == "bits":
                data = [rng.randrange(1 << width)]
            elif what == "text":
                data = [
                    rng.randint(48, 90)
                    for _ in range(rng.choice([0, 1, 3, 200]))
                ]
                shape.slots[index]["n"] = len(data)
            elif shape.slots[index]["i"]:
                data = [rng.randint(0, 1)]
            elif what == "enum" and rng.random() < 0.5:
                data = number(
                    rng.choice(VALUES[enum]), shape.slots[index]["z"]
                )
            else:
                data = noise(rng, shape.slots[index]["z"])
            ops.append(
                {"k": "set", **base, "p": pick + 1, "it": item, "v": data}
            )
    return ops


def random_types(rng, length):
    """A random history of a type system."""

    root = rng.choice([[], [["n"]], [["n"], ["T"]]])
    spaces = [[], [["a"]], [["b"]], [["a"], ["T"]]]
    names = ["T", "TU", "U", "UT", "int", "uint8"]
    ops = []
    for idx in range(length):
        name = list(rng.choice(names))
        space = rng.choice(spaces)
        roll = rng.random()
        path = [
            *(("".join(x) for x in space)),
            "".join(name),
        ]
        path = list("::".join(path))
        if roll < 0.25:
            if sum(x["k"] == "treg" for x in ops) < 6:
                ops.append({"k": "treg", "n": name, "ns": space})
        elif roll < 0.4:
            ops.append(
                {"k": "tenum", "n": name, "ns": space, "e": rng.randint(1, 2)}
            )
        elif roll < 0.75:
            ops.append(
                {
                    "k": "tadd",
                    "n": path,
                    "name": f"f{idx}",
                    "f": rng.choice(
                        [
                            path,
                            list(rng.choice(names)),
                            list(rng.choice(KINDS)),
                            list("runtimepy::ByteOrder"),
                            list("ByteOrder"),
                        ]
                    ),
                    "len": rng.choice([1, 1, 2]),
                    "x": rng.random() < 0.6,
                }
            )
            if rng.random() < 0.5:
                ops[-1]["n"] = list(rng.choice(["T", "TU", "a::T", "n::T"]))
        else:
            ops.append(
                {
                    "k": "tfind",
                    "n": rng.choice([name, path, list("ByteOrder")]),
                    "ns": space if rng.random() < 0.7 else [],
                    "x": rng.random() < 0.6,
                }
            )
    return root, ops


def run(check: Check) -> None:
    """Entry."""

    scns = check.explore(
        "MCLayout",
        MC.format(ops=check.pick(4, 5)),
        need=[
            "field",
            "bits",
            "chunk",
            "nest",
            "set",
            "read",
            "from",
            "copy",
            "array",
            "json",
            "frag",
            "treg",
            "tenum",
            "tadd",
            "tfind",
        ],
        workers=8,
        timeout=1500,
    )
    check.rng.shuffle(scns)
    jobs = []
    for idx, scn in enumerate(scns[: check.pick(6000, 80000)]):
        which = scn[0]["i"] - 1
        jobs.append(
            (
                {"root": ROOTS[which], "style": idx % 12},
                STARTS[which] + scn[1:],
            )
        )
    for idx in range(check.pick(2000, 25000)):
        if idx % 4:
            cfg = []
            ops = random_scenario(check.rng, check.rng.randint(6, 40))
        else:
            cfg, ops = random_types(check.rng, check.rng.randint(5, 30))
        jobs.append(({"root": cfg, "style": idx % 12}, ops))
    traces = check.execute(execute, jobs)
    for start in range(0, len(traces), 15000):
        check.validate(
            "TraceLayout",
            "TraceLayout.cfg",
            traces[start : start + 15000],
            timeout=1500,
        )
