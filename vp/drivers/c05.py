"""C05: name and identifier registries, enumerations."""

import logging

from vp.core import Check

ASK_IDS = [-1, 0, 1, 2, 3, 5, 9]
ASK_NAMES = ["a", "b", "C", "x.y", "on", "5", "zz"]


def text(value):
    """Canonical text of a result."""
    if value is None:
        return "none"
    if isinstance(value, bool):
        return str(int(value))
    return str(value)


def view(names, flag):
    """Everything observable of a mapping."""

    conv = (lambda x: bool(x)) if flag else (lambda x: x)
    data = names.asdict()
    order = list(names.registered_order)
    pairs = [[n, int(data[n])] for n in order if n in data]
    if sorted(order) != sorted(data) or list(names.names) != list(data):
        pairs = ["inconsistent", order, sorted(data)]
    found = set(names.search(".*"))
    if found != set(data):
        pairs = ["search", sorted(found)]
    ids = []
    for ident in ASK_IDS:
        if flag and ident not in (0, 1):
            ids.append("none")
        else:
            res = names.name(conv(ident))
            ids.append(text(res))
            # Asking for a known identifier gives it back.
            back = names.identifier(conv(ident))
            if (back is None) != (res is None) or (
                back is not None and int(back) != ident
            ):
                ids[-1] = f"identifier({ident}) = {back}"
    by_name = []
    for name in ASK_NAMES:
        res = names.identifier(name)
        by_name.append(text(res))
        if (names.name(name) == name) != (res is not None):
            by_name[-1] = f"name({name}) = {names.name(name)}"
    return [pairs, ids, by_name]


def execute(cfg, ops):
    """Run a scenario on the real code."""

    from runtimepy.enum import RuntimeEnum
    from runtimepy.enum.registry import EnumRegistry
    from runtimepy.registry.bool import BooleanRegistry
    from runtimepy.registry.name import NameRegistry

    logging.disable(logging.CRITICAL)
    mode = cfg["mode"]
    flag = mode in ("bools", "flags")
    conv = (lambda x: bool(x)) if flag else (lambda x: x)

    def make(pairs, style):
        """A fresh instance from data."""
        data = {n: conv(i) for n, i in pairs}
        unique = len(data) == len(pairs)
        rev = {conv(i): n for n, i in pairs}
        if mode in ("ints", "flags"):
            items = data if unique else rev
            if style == "keys" and len(rev) == len(pairs):
                items = rev
            if items is data and len(pairs) % 2 == 0:
                # Booleans can be given as numbers.
                items = {n: int(i) for n, i in pairs}
            if style == "keys":
                kind = (
                    BooleanRegistry.bool_from_dict
                    if flag
                    else NameRegistry.int_from_dict
                )
                inst = RuntimeEnum.create(
                    {"id": 1, "type": "bool" if flag else "int"}
                )
                if flag:
                    inst._bools = kind(items)
                else:
                    inst._ints = kind(items)
                return inst
            return RuntimeEnum.create(
                {
                    "id": 1,
                    "type": "bool" if flag else "int",
                    "items": items,
                }
            )
        cls = BooleanRegistry if flag else NameRegistry
        if style == "keys" and len(rev) == len(pairs):
            return cls(mapping=rev)
        return cls(reverse=data) if unique else cls(mapping=rev)

    if mode == "items":
        inst = EnumRegistry.create({})
    else:
        inst = make([], "names")

    def names():
        if mode == "items":
            return inst.names
        if mode in ("ints", "flags"):
            return inst.bools if flag else inst.ints
        return inst

    events = []
    for op in ops:
        kind = op["k"]
        res = ""
        try:
            if kind == "register":
                if mode == "ints":
                    res = text(inst.register_int(op["n"]))
                elif op["id"] == 9999:
                    res = text(inst.register_name(op["n"]))
                else:
                    res = text(
                        inst.register_name(op["n"], identifier=op["id"])
                    )
            elif kind == "register_bool":
                func = (
                    inst.register_bool if mode == "flags" else inst.register
                )
                res = "yes" if func(op["n"], bool(op["v"])) else "no"
            elif kind == "load":
                # Pair by pair keeps duplicates a dictionary would merge.
                for name, ident in op["pairs"]:
                    if cfg.get("style") == "keys":
                        names().load_key_to_name({conv(ident): name})
                    else:
                        names().load_name_to_key({name: conv(ident)})
                res = "ok"
            elif kind == "fresh":
                inst = make(op["pairs"], cfg.get("style"))
                res = "ok"
            elif kind == "reload":
                if mode in ("ints", "flags"):
                    inst = RuntimeEnum.create(inst.asdict())
                else:
                    inst = make(list(inst.asdict().items()), "names")
                res = "ok"
            elif kind == "ask":
                val = op["v"]["v"]
                if op["v"]["t"] == "b":
                    val = bool(val)
                res = text(getattr(inst, op["how"])(val))
            elif kind == "enum":
                if cfg.get("style") == "data" or op["bad"] or op["id"] != 9999:
                    data = {
                        "type": "int" if not op["bad"] else "nope",
                        "items": {"x": 4},
                    }
                    if op["id"] != 9999:
                        data["id"] = op["id"]
                    item = inst.register_dict(op["n"], data)
                else:
                    item = inst.enum(op["n"], "int", {"x": 4})
                res = text(None if item is None else item.id)
            elif kind == "get":
                item = inst.get(op["v"]["v"])
                try:
                    other = inst[op["v"]["v"]]
                except KeyError:
                    other = None
                assert other is item
                if item is not None:
                    # Items compare by identifier.
                    assert item == item and item == {"id": item.id}
                    assert all(
                        (x == item) == (x.id == item.id)
                        for x in inst.items.values()
                    )
                if item is None:
                    res = "none"
                else:
                    (name,) = [n for n, x in inst.search(".*") if x is item]
                    res = f"{name}/{item.id}"
            elif kind == "reload_items":
                inst = EnumRegistry.create(inst.asdict())
                res = "ok"
        except KeyError:
            res = "KeyError"
        except AssertionError:
            res = "error"
        except Exception as exc:  # pylint: disable=broad-except
            res = type(exc).__name__
            if "Schema" in res or res == "ValidationError":
                res = "error"
        obs = {"res": res, "all": view(names(), flag)}
        if mode == "items":
            obs["all"] = [
                obs["all"],
                [[n, text(x.id)] for n, x in inst.items.items()],
            ]
        events.append({"op": op, "obs": obs})
    return events


MC = """
CONSTANTS Mode = "{mode}"
 MaxOps = {ops}
INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
INVARIANTS OneToOne ValidNames ItemsNamed
CHECK_DEADLOCK FALSE
"""

NAMES = ["a", "b", "C", "x.y", "on", "5", "zz", "a b", "", "x!", "a,b"]
GOOD = NAMES[:7]


def random_scenario(rng, length):
    """A random history."""

    mode = rng.choice(["names", "bools", "ints", "flags", "items"])
    style = rng.choice(["names", "keys", "data"])
    ops = []

    def pairs(schema):
        ids = [0, 1] if mode in ("bools", "flags") else [-1, 0, 1, 2, 3, 5, 9]
        out = []
        for _ in range(rng.randint(1, 4)):
            name = rng.choice(GOOD if schema else NAMES)
            out.append([name, rng.choice(ids)])
        return out

    for _ in range(length):
        if mode in ("names", "ints"):
            kind = rng.choice(
                ["register"] * 4
                + ["load", "fresh", "reload"]
                + (["ask"] * 4 if mode == "ints" else [])
            )
        elif mode in ("bools", "flags"):
            kind = rng.choice(
                ["register_bool"] * 3
                + ["load", "fresh", "reload"]
                + (["ask"] * 4 if mode == "flags" else [])
            )
        else:
            kind = rng.choice(["enum"] * 4 + ["get"] * 3 + ["reload_items"])
        if kind == "register":
            ops.append(
                {
                    "k": kind,
                    "n": rng.choice(NAMES),
                    "id": rng.choice([9999, 9999, 0, 1, 2, 3, 5, 9])
                    if mode == "names"
                    else 9999,
                }
            )
        elif kind == "register_bool":
            ops.append(
                {"k": kind, "n": rng.choice(NAMES), "v": rng.choice([0, 1])}
            )
        elif kind == "load":
            ops.append({"k": kind, "pairs": pairs(False)})
        elif kind == "fresh":
            got = pairs(mode in ("ints", "flags"))
            # Dictionaries have no duplicate keys.
            if len({x[0] for x in got}) != len(got) and len(
                {x[1] for x in got}
            ) != len(got):
                got = got[:1]
            if mode in ("ints", "flags") or style != "keys":
                seen = {}
                for name, ident in got:
                    seen.setdefault(name, ident)
                got = [[n, i] for n, i in seen.items()]
            ops.append({"k": kind, "pairs": got})
        elif kind == "ask":
            how = (
                ["as_str", "get_str", "as_int", "get_int"]
                if mode == "ints"
                else ["as_str", "get_str", "as_bool", "get_bool", "get_int"]
            )
            val = rng.choice(
                [{"t": "s", "v": x} for x in GOOD]
                + [
                    {"t": "s", "v": x}
                    for x in (
                        ["-1", "0", "1", " 2 "]
                        if mode == "ints"
                        else ["true", "TRUE", "false", "False"]
                    )
                ]
                + [
                    {"t": "i", "v": x}
                    if mode == "ints"
                    else {"t": "b", "v": x}
                    for x in ([-1, 0, 1, 2, 3, 5] if mode == "ints" else [0, 1])
                ] * 2
            )
            ops.append({"k": kind, "how": rng.choice(how), "v": val})
        elif kind == "enum":
            ops.append(
                {
                    "k": kind,
                    "n": rng.choice(NAMES),
                    "id": rng.choice([9999, 9999, 1, 2, 3, 5, 9]),
                    "bad": rng.random() < 0.15,
                }
            )
        elif kind == "get":
            ops.append(
                {
                    "k": kind,
                    "v": rng.choice(
                        [{"t": "s", "v": x} for x in GOOD]
                        + [{"t": "i", "v": x} for x in (1, 2, 3, 5, 9)]
                    ),
                }
            )
        else:
            ops.append({"k": kind})
    return {"mode": mode, "style": style}, ops


def run(check: Check) -> None:
    """Entry."""

    scns = []
    need = {
        "names": ["register", "load", "fresh", "reload"],
        "ints": ["register", "load", "fresh", "reload", "ask"],
        "bools": ["register_bool", "load", "fresh", "reload"],
        "flags": ["register_bool", "load", "fresh", "reload", "ask"],
        "items": ["enum", "get", "reload_items"],
    }
    for mode, acts in need.items():
        got = check.explore(
            "MCNames",
            MC.format(mode=mode, ops=check.pick(3, 4)),
            need=acts,
        )
        cap = check.pick(1500, 15000)
        if len(got) > cap:
            got = check.rng.sample(got, cap)
        for idx, ops in enumerate(got):
            style = ["names", "keys", "data"][idx % 3]
            scns.append(({"mode": mode, "style": style}, ops))
    for _ in range(check.pick(2500, 30000)):
        scns.append(random_scenario(check.rng, check.rng.randint(3, 25)))
    scns = [x for x in scns if expressible(x)]
    traces = check.execute(execute, scns)
    check.validate("TraceNames", "TraceNames.cfg", traces)


def expressible(scn):
    """Whether dictionaries can express the data of a scenario."""

    cfg, ops = scn
    for op in ops:
        if op["k"] != "fresh":
            continue
        names = [x[0] for x in op["pairs"]]
        ids = [x[1] for x in op["pairs"]]
        enum = cfg["mode"] in ("ints", "flags")
        if enum and any(x not in GOOD for x in names):
            return False
        if len(set(names)) == len(names):
            if cfg["style"] == "keys" and len(set(ids)) != len(ids):
                cfg["style"] = "names"
            continue
        return False
    return True
